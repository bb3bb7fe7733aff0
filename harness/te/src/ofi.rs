//! Simple quotes and order-flow imbalance: replay of generated histories, recorded random feeds.
use crate::util::*;
use serde_json::{json, Value};
use trading_engine::data::{quote::QuoteSnapshot, trade_quote::TradeQuoteSnapshot};
use trading_engine::feature::tick::SimpleQuotes;
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::timestamp::TimeStamp;
use trading_engine::utils::numeric_converter::OrderConverter;

/// converters and the power of ten their normalised price is divided by
fn convs() -> &'static Vec<(OrderConverter, i32)> {
    static C: std::sync::OnceLock<Vec<(OrderConverter, i32)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        vec![
            (OrderConverter::krx_base_derivative_converter(), 2),
            (OrderConverter::krx_risk_free_derivative_converter(), 3),
            (OrderConverter::krx_stock_converter(), 0),
            (OrderConverter::krx_stock_derivative_converter(), 1),
            (OrderConverter::krx_general_commodity_derivative_converter(), 1),
            (OrderConverter::krx_repo_converter(), 3),
            (OrderConverter::krx_base_bond_converter(), 2),
        ]
    })
}

fn lv(v: &Value) -> Vec<LevelSnapshot> {
    v.as_array().unwrap().iter().map(|x| LevelSnapshot { order_count: None, book_price: i(x, "p"), book_quantity: i(x, "q") as u64, lp_quantity: None }).collect()
}
enum Data {
    Q(QuoteSnapshot),
    T(TradeQuoteSnapshot),
}
fn data(k: &str, d: &Value, conv: usize) -> Data {
    let oc: &'static OrderConverter = &convs()[conv].0;
    let cut = i(d, "cut") as usize;
    let (ts, sys) = (TimeStamp { stamp: i(d, "ts") as u64 }, TimeStamp { stamp: i(d, "sys") as u64 });
    if k == "q" {
        Data::Q(QuoteSnapshot { ask_quote_data: lv(&d["asks"]), bid_quote_data: lv(&d["bids"]), quote_level_cut: cut, timestamp: ts,
            system_timestamp: sys, order_converter: oc, ..QuoteSnapshot::with_quote_level(0) })
    } else {
        Data::T(TradeQuoteSnapshot { ask_quote_data: lv(&d["asks"]), bid_quote_data: lv(&d["bids"]), quote_level_cut: cut, timestamp: ts,
            system_timestamp: sys, order_converter: oc, ..TradeQuoteSnapshot::with_quote_level(0) })
    }
}
fn make(d: &Data) -> SimpleQuotes {
    match d {
        Data::Q(q) => SimpleQuotes::new_from_quote_sanpshot(q),
        Data::T(t) => SimpleQuotes::new_from_trade_quote_snapshot(t),
    }
}
fn update(f: &mut SimpleQuotes, d: &Data) -> bool {
    match d {
        Data::Q(q) => f.update_quote_snapshot(q).is_ok(),
        Data::T(t) => f.update_trade_quote_snapshot(t).is_ok(),
    }
}
fn int(v: f64, scale: f64) -> Value {
    let x = v * scale;
    if (x - x.round()).abs() < 1e-6 && x.abs() < 1e15 { json!(x.round() as i64) } else { json!(format!("{v}")) }
}
fn view(f: &SimpleQuotes, pd: i32) -> Value {
    let j = serde_json::to_value(f).expect("serialise");
    let sc = 10f64.powi(pd);
    let side = |k: &str| -> Value {
        j[k].as_array().unwrap().iter()
            .map(|x| json!({"p": int(x["price"].as_f64().unwrap_or(f64::NAN), sc), "q": int(x["quantity"].as_f64().unwrap_or(f64::NAN), 1.0)}))
            .collect()
    };
    let stamp = |k: &str| j[k]["stamp"].clone();
    json!({"cut": j["level_cut"], "bids": side("bids"), "asks": side("asks"), "ts": stamp("timestamp"), "sys": stamp("system_time")})
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}
fn price_ok(got: Option<f64>, want: &Value, pd: i32) -> bool {
    match (got, want["have"].as_bool().unwrap()) {
        (None, false) => true,
        (Some(g), true) => near(g * 10f64.powi(pd), i(want, "num") as f64 / i(want, "den") as f64),
        _ => false,
    }
}

fn check(t: &Value, conv: usize) -> Result<(), Value> {
    let pd = convs()[conv].1;
    let h = t["h"].as_array().unwrap();
    let mut f = SimpleQuotes::default();
    let mut arriving = None;
    let mut ok = true;
    for e in h {
        match s(e, "op") {
            "cap" => f = SimpleQuotes::with_capacity(i(e, "n") as usize),
            "new" => f = make(&data(s(e, "k"), &e["d"], conv)),
            "upd" => ok = { arriving = None; update(&mut f, &data(s(e, "k"), &e["d"], conv)) },
            _ => arriving = Some(make(&data(s(e, "k"), &e["d"], conv))),
        }
    }
    let got = view(&f, pd);
    if got != t["feat"] {
        return Err(json!({"conv": conv, "observed": got, "expected": t["feat"]}));
    }
    if s(&h[h.len() - 1], "op") == "upd" && json!(ok) != t["last"]["ok"] {
        return Err(json!({"conv": conv, "update accepted": ok}));
    }
    let p = &t["prices"];
    let bad = |w: &str, v: Option<f64>| json!({"conv": conv, w: format!("{v:?}"), "expected": p[w]});
    if !price_ok(f.best_bid_price(), &p["bid"], pd) { return Err(bad("bid", f.best_bid_price())); }
    if !price_ok(f.best_ask_price(), &p["ask"], pd) { return Err(bad("ask", f.best_ask_price())); }
    if !price_ok(f.mid_price(), &p["mid"], pd) { return Err(bad("mid", f.mid_price())); }
    if p["vwapopen"] == json!(false) && !price_ok(f.vwap(), &p["vwap"], pd) { return Err(bad("vwap", f.vwap())); }
    if let Some(g) = arriving {
        for k in 0..5usize {
            let w = &t["last"]["flow"][k.to_string()];
            let w = if w.is_null() { &t["last"]["flow"][k] } else { w };
            let rs = [f.get_bid_orderflow_imbalance(k, &g), f.get_ask_orderflow_imbalance(k, &g), f.get_orederflow_imbalance(k, &g),
                f.get_bid_ln_orderflow_imbalance(k, &g), f.get_ask_ln_orderflow_imbalance(k, &g), f.get_ln_orderflow_imbalance(k, &g)];
            let good = if w["ok"] == json!(true) {
                let ln = |x: &Value| (x[0].as_f64().unwrap() / x[1].as_f64().unwrap()).ln();
                let (lb, la) = (ln(&w["ln"]["bid"]), ln(&w["ln"]["ask"]));
                let want = [i(&w["f"], "bid") as f64, i(&w["f"], "ask") as f64, i(&w["f"], "tot") as f64, lb, la, lb - la];
                rs.iter().zip(want).all(|(r, x)| matches!(r, Ok(v) if near(*v, x)))
            } else {
                rs.iter().all(|r| r.is_err())
            };
            if !good {
                let rs: Vec<String> = rs.iter().map(|r| match r { Ok(v) => v.to_string(), Err(_) => "refused".into() }).collect();
                return Err(json!({"conv": conv, "level": k, "observed bid,ask,total,ln bid,ln ask,ln total": rs, "expected": w}));
            }
        }
    }
    Ok(())
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    let n = t["h"].as_array().unwrap().len();
    let capped = t["h"][0]["op"] == json!("cap");
    for conv in 0..convs().len() {
        // a feature without data uses the default (bond) converter; its content is zero anyway
        let _ = (n, capped);
        match guard(|| check(t, conv)) {
            Ok(r) => r?,
            Err(p) => return Err(json!({"conv": conv, "panic": p})),
        }
    }
    Ok(())
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        let conv = g.below(convs().len() as u64) as usize;
        let pd = convs()[conv].1;
        out.line(&json!({"op": "reset"}));
        let cut0 = g.range(1, 10);
        let mut base = g.range(50, 400);
        let mut f = SimpleQuotes::default();
        let mut clock = 100;
        let mut prev: Option<Value> = None;
        let snap = |g: &mut Rng, base: &mut i64, clock: &mut i64, prev: &mut Option<Value>| -> Value {
            *clock += g.range(1, 9);
            let cut = if g.chance(1, 6) { g.range(1, 10) } else { cut0 };
            let n = cut + if g.chance(1, 3) { g.range(1, 3) } else { 0 };
            let mut d = match prev {
                // small change of the last snapshot: a few quantities
                Some(p) if g.chance(1, 2) => p.clone(),
                _ => {
                    if g.chance(1, 3) { *base = (*base + g.range(-3, 3)).max(30); }
                    let gap = g.range(1, 3);
                    let side = |g: &mut Rng, dir: i64| -> Value {
                        let mut p = *base + dir * gap;
                        (0..n).map(|_| {
                            let x = json!({"p": p, "q": if g.chance(1, 8) { 0 } else { g.range(1, 500) }});
                            p += dir * g.range(1, 2);
                            x
                        }).collect()
                    };
                    let (a, b) = (side(g, 1), side(g, -1));
                    json!({"cut": cut, "asks": a, "bids": b, "ts": 0, "sys": 0})
                }
            };
            d["ts"] = json!(*clock);
            d["sys"] = json!(*clock + g.range(0, 5));
            for sd in ["asks", "bids"] {
                for x in d[sd].as_array_mut().unwrap() {
                    if g.chance(1, 4) { x["q"] = json!(g.range(0, 500)); }
                }
            }
            *prev = Some(d.clone());
            d
        };
        let state = |f: &SimpleQuotes| -> Value {
            let pr = |x: Option<f64>| match x {
                None => json!({"have": false}),
                Some(v) => json!({"have": true, "v": (v * 10f64.powi(pd) * 100.0).round().clamp(-1e8, 1e8) as i64}),
            };
            json!({"bid": pr(f.best_bid_price()), "ask": pr(f.best_ask_price()), "mid": pr(f.mid_price()), "vwap": pr(f.vwap())})
        };
        for k in 0..len {
            let kind = if g.chance(1, 2) { "q" } else { "tq" };
            if k == 0 && g.chance(1, 4) {
                f = SimpleQuotes::with_capacity(cut0 as usize);
                out.line(&json!({"op": "cap", "n": cut0, "feat": view(&f, pd), "prices": state(&f)}));
                continue;
            }
            let d = snap(&mut g, &mut base, &mut clock, &mut prev);
            let dd = data(kind, &d, conv);
            if k == 0 || g.chance(1, 30) {
                f = make(&dd);
                out.line(&json!({"op": "new", "k": kind, "d": d, "feat": view(&f, pd), "prices": state(&f)}));
            } else if g.chance(1, 2) {
                let n = make(&dd);
                let fl: Vec<Value> = (0..13usize).map(|l| {
                    let r = (f.get_bid_orderflow_imbalance(l, &n), f.get_ask_orderflow_imbalance(l, &n), f.get_orederflow_imbalance(l, &n));
                    match r {
                        (Ok(b), Ok(a), Ok(t)) => json!({"ok": true, "f": {"bid": int(b, 1.0), "ask": int(a, 1.0), "tot": int(t, 1.0)}}),
                        (Err(_), Err(_), Err(_)) => json!({"ok": false}),
                        _ => json!({"ok": true, "f": {"bid": 0, "ask": 0, "tot": 999_999_999}}),
                    }
                }).collect();
                out.line(&json!({"op": "arr", "k": kind, "d": d, "flow": fl}));
            } else {
                let ok = update(&mut f, &dd);
                out.line(&json!({"op": "upd", "k": kind, "d": d, "ok": ok, "feat": view(&f, pd), "prices": state(&f)}));
            }
        }
    }
}
