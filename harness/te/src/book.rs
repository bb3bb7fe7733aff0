//! Order book adapter: runs the specification's operations on the real book and projects its state.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use trading_engine::data::order::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::orderbook::half_book::HalfBook;
use trading_engine::orderbook::OrderBook;
use trading_engine::types::base::{LevelSnapshot, TradeHistory};
use trading_engine::types::enums::OrderSide;
use trading_engine::types::id::{InstId, Symbol};
use trading_engine::{IsinCode, Venue};

/// How model integers become real prices, quantities and ids.
#[derive(Clone, Copy, Debug)]
pub struct Scale {
    pub base: i64,
    pub tick: i64,
    pub lot: u64,
    pub id0: u64,
    pub idk: u64,
}
pub const SCALES: [Scale; 3] = [
    Scale { base: 0, tick: 1, lot: 1, id0: 600_000, idk: 1 },
    Scale { base: -47, tick: 7, lot: (1 << 33) + 9, id0: 1 << 40, idk: 1 << 32 },
    Scale { base: 9_000_000_000, tick: 2500, lot: 3, id0: u64::MAX - 200_000_000, idk: 1000 },
];
const BAD: i64 = -999_999;

impl Scale {
    fn px(&self, p: i64) -> i64 {
        self.base + p * self.tick
    }
    fn unpx(&self, p: i64) -> i64 {
        let d = p.wrapping_sub(self.base);
        if d % self.tick == 0 && (d / self.tick).abs() < 1_000_000 { d / self.tick } else { BAD }
    }
    fn qt(&self, q: i64) -> u64 {
        q as u64 * self.lot
    }
    fn unqt(&self, q: u64) -> i64 {
        if q % self.lot == 0 && q / self.lot < 1_000_000_000 { (q / self.lot) as i64 } else { BAD }
    }
    fn id(&self, i: i64) -> u64 {
        self.id0 + i as u64 * self.idk
    }
    /// ids the book invents itself (virtual ids 0,1,2,..) show up as 500000 + n
    fn unid(&self, i: u64) -> i64 {
        if i >= self.id0 && (i - self.id0) % self.idk == 0 && (i - self.id0) / self.idk < 100_000 {
            ((i - self.id0) / self.idk) as i64
        } else if i < 400_000 {
            500_000 + i as i64
        } else {
            BAD
        }
    }
}

pub struct Real {
    pub b: OrderBook,
    pub sc: Scale,
    ids: Vec<i64>,
    pub flags: Vec<String>,
}

fn side(s: &str) -> OrderSide {
    match s {
        "ask" => OrderSide::Ask,
        "bid" => OrderSide::Bid,
        _ => panic!("harness: side {s}"),
    }
}

pub fn inst() -> InstId {
    InstId::new(Symbol::Isin(IsinCode::new(b"KR4106V30004").unwrap()), Venue::KRX)
}

impl Real {
    pub fn new(sc: Scale) -> Self {
        Real { b: OrderBook::initialize_with_id(inst()), sc, ids: vec![], flags: vec![] }
    }
    fn note(&mut self, id: i64) {
        if !self.ids.contains(&id) {
            self.ids.push(id);
        }
    }
    fn hist(&mut self, h: &TradeHistory, rem: u64) -> Value {
        let h = &stored(h.clone());
        let v: Vec<Value> = (0..h.len()).map(|k| json!([self.sc.unpx(h[k].0), self.sc.unqt(h[k].1)])).collect();
        if h.len() > 0 {
            let (mut a, mut q) = (0i128, 0i128);
            for k in 0..h.len() {
                a += h[k].0 as i128 * h[k].1 as i128;
                q += h[k].1 as i128;
            }
            let want = a as f64 / q as f64;
            if (h.average_trade_price() - want).abs() > 1e-9 * want.abs().max(1.0) {
                self.flags.push(format!("average trade price {} but {want}", h.average_trade_price()));
            }
            if h.get_last_trade() != Some(h[h.len() - 1]) {
                self.flags.push("last trade".into());
            }
        }
        json!({"k": "trade", "hist": v, "rem": self.sc.unqt(rem)})
    }
    fn depth(&self, v: &Value) -> Vec<LevelSnapshot> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|x| stored(LevelSnapshot {
                order_count: x.get(2).and_then(|c| c.as_i64()).map(|c| c as u32),
                book_price: self.sc.px(x[0].as_i64().unwrap()),
                book_quantity: self.sc.qt(x[1].as_i64().unwrap()),
                lp_quantity: None,
            }))
            .collect()
    }
    fn limit_of(&self, o: &Value) -> LimitOrder {
        stored(LimitOrder::new(self.sc.px(i(o, "p")), self.sc.qt(i(o, "q")), side(s(o, "s")), self.sc.id(i(o, "id"))))
    }
    fn half(&mut self, sd: &str) -> &mut HalfBook {
        if sd == "ask" { &mut self.b.asks } else { &mut self.b.bids }
    }

    /// perform one operation; the result is in the specification's vocabulary
    pub fn apply(&mut self, o: &Value) -> Value {
        let none = json!({"k": "none"});
        let ok = json!({"k": "ok"});
        match s(o, "op") {
            "add" => {
                self.note(i(o, "id"));
                let lo = self.limit_of(o);
                match self.b.add_limit_order(lo) {
                    Ok(()) => ok,
                    Err(e) => json!({"k": "err", "e": e.to_string()}),
                }
            }
            "limit" => {
                self.note(i(o, "id"));
                let lo = self.limit_of(o);
                match self.b.process_limit_order(lo) {
                    None => none,
                    Some((h, rem)) => self.hist(&h, rem),
                }
            }
            "market" => {
                let m = stored(MarketOrder::new(self.sc.qt(i(o, "q")), side(s(o, "s")), self.sc.id(99_999)));
                match self.b.process_market_order(&m) {
                    None => none,
                    Some((h, rem)) => self.hist(&h, rem),
                }
            }
            "cancel" => match self.b.cancel_order(stored(CancelOrder::new(self.sc.id(i(o, "id"))))) {
                Some(()) => ok,
                None => none,
            },
            "modify" => {
                let m = stored(ModifyOrder::new(self.sc.id(i(o, "id")), self.sc.px(i(o, "p")), self.sc.qt(i(o, "q"))));
                match self.b.modify_order(m) {
                    None => none,
                    Some((h, rem)) => self.hist(&h, rem),
                }
            }
            "chgqty" => {
                let (id, q) = (self.sc.id(i(o, "id")), self.sc.qt(i(o, "q")));
                match self.b.change_quantity(id, q) {
                    Some(()) => ok,
                    None => none,
                }
            }
            "chgpx" => {
                let (id, p) = (self.sc.id(i(o, "id")), self.sc.px(i(o, "p")));
                let sd = s(o, "s").to_string();
                match self.half(&sd).change_price(id, p) {
                    Some(()) => ok,
                    None => none,
                }
            }
            "remove" => {
                let r = stored(RemoveAnyOrder::new(self.sc.px(i(o, "p")), self.sc.qt(i(o, "q")), side(s(o, "s"))));
                match self.b.remove_order(r) {
                    Some(rem) => json!({"k": "rem", "rem": self.sc.unqt(rem)}),
                    None => none,
                }
            }
            "snap" | "snapt" => {
                let (a, b) = (self.depth(&o["a"]), self.depth(&o["b"]));
                let n = a.len().max(b.len());
                let id = if o.get("foreign").is_some() {
                    InstId::new(Symbol::Isin(IsinCode::new(b"KR4101V30005").unwrap()), Venue::KRX)
                } else {
                    inst()
                };
                let r = if s(o, "op") == "snap" {
                    let mut q = QuoteSnapshot::with_quote_level(n);
                    q.id = id;
                    q.ask_quote_data = a;
                    q.bid_quote_data = b;
                    self.b.update_from_quote_snapshot(&q)
                } else {
                    let mut q = TradeQuoteSnapshot::with_quote_level(n);
                    q.id = id;
                    q.ask_quote_data = a;
                    q.bid_quote_data = b;
                    self.b.update_from_trade_quote_snapshot(&q)
                };
                match r {
                    Ok(()) => ok,
                    Err(e) => json!({"k": "err", "e": e.to_string()}),
                }
            }
            "decomp" => self.decompose(o),
            x => panic!("harness: op {x}"),
        }
    }

    fn decompose(&mut self, o: &Value) -> Value {
        let (a, b) = (self.depth(&o["a"]), self.depth(&o["b"]));
        let mut before = self.b.clone();
        let orders = match self.b.decomposed_orders_with_update(&a, &b) {
            Ok(v) => v,
            Err(e) => return json!({"k": "err", "e": e.to_string()}),
        };
        let (mut da, mut db) = (vec![], vec![]);
        for d in orders.into_iter().map(stored) {
            if d.id != inst() {
                self.flags.push("derived order carries another instrument".into());
            }
            let (sd, t) = match &d.order {
                OrderEnum::LimitOrder(l) => {
                    let _ = before.add_limit_order(l.clone());
                    (l.order_side, json!(["add", self.sc.unpx(l.price), self.sc.unqt(l.quantity)]))
                }
                OrderEnum::RemoveAnyOrder(r) => {
                    let rem = before.remove_order(r.clone());
                    if rem != Some(0) {
                        self.flags.push(format!("derived removal not fully applicable: {rem:?}"));
                    }
                    (r.order_side, json!(["rem", self.sc.unpx(r.price), self.sc.unqt(r.quantity)]))
                }
                x => {
                    self.flags.push(format!("unexpected derived order {x:?}"));
                    continue;
                }
            };
            if sd == OrderSide::Ask { da.push(t) } else { db.push(t) }
        }
        if !before.eq_level(&self.b) || !self.b.eq_level(&before) {
            self.flags.push("replaying the derived orders does not give the same levels".into());
        }
        json!({"k": "diff", "ask": da, "bid": db})
    }

    fn half_proj(&mut self, sd: &str) -> (Value, Value, Value, Value) {
        let sc = self.sc;
        let (hb, snap) = if sd == "ask" {
            (&self.b.asks, self.b.ask_level_snapshot())
        } else {
            (&self.b.bids, self.b.bid_level_snapshot())
        };
        let mut flags: Vec<String> = vec![];
        let mut lv = vec![];
        for (p, l) in hb.levels.iter() {
            let q: Vec<Value> = l.orders.iter().map(|(id, q)| json!([sc.unid(*id), sc.unqt(*q)])).collect();
            lv.push(json!([sc.unpx(*p), q]));
            if l.book_price != *p {
                flags.push(format!("{sd}: level filed under {p} says {}", l.book_price));
            }
        }
        let mut dp: Vec<(i64, i64, i64)> = snap
            .iter()
            .map(|l| (sc.unpx(l.book_price), sc.unqt(l.book_quantity), l.order_count.map_or(-1, |c| c as i64)))
            .collect();
        dp.sort();
        for l in &snap {
            if hb.aggregate_quantity_at_price(l.book_price) != l.book_quantity {
                flags.push(format!("{sd}: aggregate at {} disagrees with depth", l.book_price));
            }
        }
        if hb.aggregate_quantity_at_price(sc.px(-3)) != 0 {
            flags.push(format!("{sd}: quantity at an empty price"));
        }
        if hb.len() != snap.len() || hb.is_empty() != snap.is_empty() {
            flags.push(format!("{sd}: len/is_empty"));
        }
        if hb.aggregate_quantity() != hb.get_total_quantity() {
            flags.push(format!("{sd}: totals disagree"));
        }
        if !hb.check_validity_quantity() {
            flags.push(format!("{sd}: validity check fails"));
        }
        let sentinel = if sd == "ask" { i64::MAX } else { i64::MIN };
        let best = if hb.best_price == sentinel { -1 } else { sc.unpx(hb.best_price) };
        let tot = sc.unqt(hb.get_total_quantity());
        let out = (json!(lv), json!(dp), json!(best), json!(tot));
        self.flags.extend(flags);
        out
    }

    pub fn obs(&mut self) -> Value {
        let (a, da, ba, ta) = self.half_proj("ask");
        let (b, db, bb, tb) = self.half_proj("bid");
        let mut ords: BTreeMap<i64, Value> = BTreeMap::new();
        let mut look: Vec<(i64, u64)> = self.ids.iter().map(|x| (*x, self.sc.id(*x))).collect();
        for h in [&a, &b] {
            for l in h.as_array().unwrap() {
                for o in l[1].as_array().unwrap() {
                    let m = o[0].as_i64().unwrap();
                    if m >= 500_000 {
                        look.push((m, (m - 500_000) as u64));
                    }
                }
            }
        }
        for (m, rid) in look {
            for (k, hb) in [(1, &self.b.asks), (2, &self.b.bids)] {
                let gp = hb.get_price(rid);
                let go = hb.get_order(rid);
                match (&gp, &go) {
                    (None, None) => {}
                    (Some(p), Some(o)) if *p == o.price && o.order_id == rid => {
                        let sd = if o.order_side == OrderSide::Ask { 1 } else { 2 };
                        if sd != k || ords.contains_key(&m) {
                            self.flags.push(format!("order {m} looked up on both sides"));
                        }
                        ords.insert(m, json!([m, sd, self.sc.unpx(o.price), self.sc.unqt(o.quantity)]));
                    }
                    _ => self.flags.push(format!("lookup of order {m}: price {gp:?} order {go:?}")),
                }
            }
        }
        let ords: Vec<Value> = ords.into_values().collect();
        json!({"ask": a, "bid": b, "da": da, "db": db, "best": [ba, bb], "tot": [ta, tb], "ords": ords})
    }
}

fn step(r: &mut Real, o: &Value) -> Value {
    match guard(|| r.apply(o)) {
        Ok(v) => v,
        Err(p) => json!({"k": "panic", "e": p}),
    }
}
fn look(r: &mut Real) -> Value {
    match guard(|| r.obs()) {
        Ok(v) => v,
        Err(p) => json!({"panic": p}),
    }
}
fn take_flags(r: &mut Real) -> Vec<String> {
    std::mem::take(&mut r.flags)
}

fn norm_diff(mut v: Value) -> Value {
    for k in ["ask", "bid"] {
        if v["k"] == "diff" {
            if let Some(a) = v[k].as_array_mut() {
                a.sort_by_key(|x| x.to_string());
            }
        }
    }
    v
}

/// {"h":[ops],"o":expected projection,"r":expected result of the last op}; "lv":true compares depth only
pub fn replay_one(t: &Value) -> Result<(), Value> {
    let ops = t["h"].as_array().unwrap();
    let level_only = t["o"].get("ords").is_none();
    for sc in SCALES {
        let mut r = Real::new(sc);
        let mut last = Value::Null;
        for o in ops {
            last = step(&mut r, o);
            if last["k"] == "panic" {
                return Err(json!({"panic": last, "op": o, "scale": format!("{sc:?}")}));
            }
        }
        let ob = look(&mut r);
        let fl = take_flags(&mut r);
        if !fl.is_empty() {
            return Err(json!({"inconsistent": fl, "got": ob, "scale": format!("{sc:?}")}));
        }
        if norm_diff(last.clone()) != norm_diff(t["r"].clone()) {
            return Err(json!({"result": last, "want": t["r"], "scale": format!("{sc:?}")}));
        }
        let keys: &[&str] = if level_only {
            &["da", "db", "best", "tot"]
        } else {
            &["ask", "bid", "da", "db", "best", "tot", "ords"]
        };
        for k in keys {
            if ob[*k] != t["o"][*k] {
                return Err(json!({"field": k, "got": ob, "want": t["o"], "scale": format!("{sc:?}")}));
            }
        }
    }
    Ok(())
}

/// a feed knows one quantity per level: levels of several orders may leave the book, not stay in it
fn survivable(now: &Value, d: Value) -> Value {
    let many: Vec<&Value> = now.as_array().map_or(vec![], |v| v.iter().filter(|l| l[2].as_i64().unwrap_or(0) > 1).map(|l| &l[0]).collect());
    Value::Array(d.as_array().unwrap().iter().filter(|l| !many.contains(&&l[0])).cloned().collect())
}

/// Random histories on the real book, recorded for validation against the specification.
/// mode: "l3" order-by-order with matching, "raw" also unmatched adds and price moves, "snap" full-depth feed,
/// "diff" depth feed turned into derived orders, mixed with order-by-order operations.
pub fn record(seed: u64, runs: u64, len: u64, mode: &str, out: &str) {
    let mut f = Out::new(out);
    let mut rng = Rng::new(seed ^ (mode.bytes().map(|b| b as u64).sum::<u64>()) << 32);
    for run in 0..runs {
        let sc = SCALES[(run % 3) as usize];
        let mut r = Real::new(sc);
        f.line(&json!({"op": "reset"}));
        let wide = (mode == "snap" || mode == "diff") && run % 2 == 1;
        let crowd = (mode == "l3" || mode == "raw") && run % 4 == 3;
        // one very long queue at a price, or many prices
        let queue = crowd && run % 64 == 35;
        let spread = if queue { 0 } else { *rng.pick(&[2i64, 2, 15]) };
        let len = if queue { 420 } else { len };
        let npx = if wide || spread > 2 { 40 } else if crowd { 12 } else { *rng.pick(&[3i64, 6, 12]) };
        let full = *rng.pick(&[5i64, 10, 10, 12]);
        let mut at = npx / 2;
        let maxq = *rng.pick(&[2i64, 5, 40]);
        let mut next_id = 1i64;
        let mut live: Vec<(i64, i64, i64, i64)> = vec![]; // id, side, price, qty (from the projection)
        let mut ob = look(&mut r);
        for k in 0..len {
            let sd = if queue && rng.chance(19, 20) { "bid" } else { *rng.pick(&["ask", "bid"]) };
            // mostly asks above bids, with an overlap in the middle
            let mid = npx / 2 + 1;
            let p = match rng.below(4) {
                0 => rng.range(1, npx),
                _ if sd == "ask" => rng.range((mid - 1).max(1), npx),
                _ => rng.range(1, (mid + 1).min(npx)),
            };
            let q = rng.range(1, maxq);
            if wide && rng.chance(1, 3) {
                at = (at + rng.range(-4, 4)).clamp(full + 1, npx - full);
            }
            let anyid = |rng: &mut Rng, next: i64| {
                if live.is_empty() || rng.chance(1, 12) {
                    rng.range(1, next.max(2))
                } else {
                    rng.pick(&live).0
                }
            };
            let depth = |rng: &mut Rng, ob: &Value, k: &str, ask: bool| -> Value {
                if wide && rng.chance(5, 6) {
                    // a fixed-size feed: the best prices from a point that moves, padded with empty slots
                    let n = if rng.chance(2, 3) { full } else { rng.range(0, full) };
                    let mut v: Vec<(i64, i64)> = vec![];
                    let mut p = if ask { at + 1 } else { at };
                    while (v.len() as i64) < n && p > 0 && p <= npx {
                        let old = ob[k].as_array().and_then(|a| a.iter().find(|l| l[0] == p)).map(|l| l[1].as_i64().unwrap());
                        v.push((p, match old { Some(q) if rng.chance(2, 3) => q, _ => rng.range(1, maxq) }));
                        p += (if ask { 1 } else { -1 }) * if rng.chance(1, 10) { 2 } else { 1 };
                    }
                    if rng.chance(1, 3) {
                        while (v.len() as i64) < full {
                            v.push((npx + 2, 0));
                        }
                    }
                    return json!(v);
                }
                // perturb the current depth of the real book
                let mut m: BTreeMap<i64, i64> = BTreeMap::new();
                if let Some(a) = ob[k].as_array() {
                    for l in a {
                        m.insert(l[0].as_i64().unwrap(), l[1].as_i64().unwrap());
                    }
                }
                if rng.chance(1, 10) {
                    m.clear();
                }
                for _ in 0..rng.below(4) {
                    let mid = npx / 2 + 1;
                    let p = if ask { rng.range(mid, npx) } else { rng.range(1, (mid - 1).max(1)) };
                    match rng.below(3) {
                        0 => {
                            m.remove(&p);
                        }
                        _ => {
                            m.insert(p, rng.range(1, maxq));
                        }
                    }
                }
                if rng.chance(1, 6) {
                    let ks: Vec<i64> = m.keys().cloned().collect();
                    if !ks.is_empty() {
                        let d = *rng.pick(&ks);
                        m.remove(&d);
                    }
                }
                let mut v: Vec<(i64, i64)> = m.into_iter().collect();
                if ask == rng.chance(1, 8) {
                    v.reverse();
                }
                if rng.chance(1, 6) {
                    let zp = npx + 2; // an empty slot of a fixed-size feed: quantity 0
                    v.push((zp, 0));
                }
                json!(v)
            };
            let o = if mode == "snap" || (mode == "diff" && rng.chance(1, 2)) {
                match rng.below(10) {
                    0 => json!({"op": "market", "s": sd, "q": q}),
                    1 | 2 => {
                        let (p, q) = match ob[if sd == "ask" { "da" } else { "db" }].as_array() {
                            Some(a) if !a.is_empty() => {
                                let l = rng.pick(a).clone();
                                (l[0].as_i64().unwrap(), rng.range(1, l[1].as_i64().unwrap().max(1) + 1))
                            }
                            _ => (p, q),
                        };
                        json!({"op": "remove", "s": sd, "p": p, "q": q})
                    }
                    4 if mode == "snap" && run % 5 < 2 => {
                        next_id += 1;
                        json!({"op": "limit", "s": sd, "p": p, "q": q, "id": next_id - 1})
                    }
                    5 if mode == "snap" && run % 5 < 2 => json!({"op": "cancel", "id": anyid(&mut rng, next_id)}),
                    3 if mode == "snap" => {
                        json!({"op": "snap", "foreign": 1, "a": depth(&mut rng, &ob, "da", true), "b": json!([])})
                    }
                    _ => {
                        let (a, b) = (depth(&mut rng, &ob, "da", true), depth(&mut rng, &ob, "db", false));
                        let (a, b) = if mode == "diff" { (a, b) } else { (survivable(&ob["da"], a), survivable(&ob["db"], b)) };
                        let op = if mode == "diff" { "decomp" } else { *rng.pick(&["snap", "snapt"]) };
                        json!({"op": op, "a": a, "b": b})
                    }
                }
            } else if crowd && rng.chance(9, 10) {
                // long queues at few prices: mostly orders that rest, seldom one that takes a large part of a side
                let own: i64 = live.iter().filter(|x| (x.1 == 1) != (sd == "ask")).map(|x| x.3).sum();
                let rest = if sd == "ask" { npx / 2 + 1 + rng.range(0, spread) } else { npx / 2 - rng.range(0, spread) };
                let id = next_id;
                match rng.below(if queue { if k < 330 { 900 } else { 40 } } else if live.len() > 40 { 25 } else { 60 }) {
                    0 => json!({"op": "market", "s": sd, "q": rng.range(1, own.max(2) + 1)}),
                    1 => {
                        next_id += 1;
                        let p = if sd == "ask" { npx / 2 - rng.range(0, spread + 1) } else { npx / 2 + 1 + rng.range(0, spread + 1) };
                        json!({"op": "limit", "s": sd, "p": p, "q": rng.range(1, own.max(2) + 1), "id": id})
                    }
                    2 => {
                        let c = if live.is_empty() { (0, 1, rest, q) } else { *rng.pick(&live) };
                        json!({"op": "remove", "s": if c.1 == 1 { "ask" } else { "bid" }, "p": c.2, "q": rng.range(1, (4 * c.3).max(2))})
                    }
                    3..=6 => json!({"op": "cancel", "id": anyid(&mut rng, next_id)}),
                    7 | 8 => json!({"op": "chgqty", "id": anyid(&mut rng, next_id), "q": q}),
                    _ => {
                        next_id += 1;
                        json!({"op": "limit", "s": sd, "p": rest, "q": q, "id": id})
                    }
                }
            } else {
                match rng.below(if mode == "raw" { 20 } else { 17 }) {
                    0..=5 => {
                        let id = if rng.chance(1, 8) && next_id > 1 {
                            let c = rng.range(1, next_id - 1); // a dead id may be used again
                            if live.iter().any(|x| x.0 == c) { next_id } else { c }
                        } else {
                            next_id
                        };
                        next_id = next_id.max(id + 1);
                        json!({"op": "limit", "s": sd, "p": p, "q": q, "id": id})
                    }
                    6 | 7 => {
                        let q = if rng.chance(1, 5) { q * 4 } else { q };
                        json!({"op": "market", "s": sd, "q": q})
                    }
                    8 | 9 => json!({"op": "cancel", "id": anyid(&mut rng, next_id)}),
                    10 | 11 => {
                        let id = anyid(&mut rng, next_id);
                        let cur = live.iter().find(|x| x.0 == id);
                        match cur {
                            Some(c) if rng.chance(1, 2) => {
                                json!({"op": "modify", "id": id, "p": c.2, "q": if rng.chance(1, 8) {0} else {rng.range(1, maxq)}})
                            }
                            _ => json!({"op": "modify", "id": id, "p": p, "q": q}),
                        }
                    }
                    12 | 13 => {
                        json!({"op": "chgqty", "id": anyid(&mut rng, next_id), "q": if rng.chance(1, 6) {0} else {q}})
                    }
                    14 | 15 => {
                        let (p, s2) = if live.is_empty() { (p, sd) } else {
                            let c = rng.pick(&live);
                            (c.2, if c.1 == 1 { "ask" } else { "bid" })
                        };
                        json!({"op": "remove", "s": s2, "p": p, "q": q})
                    }
                    16 => {
                        // clear one price completely
                        match ob[if sd == "ask" { "da" } else { "db" }].as_array() {
                            Some(a) if !a.is_empty() => {
                                let l = rng.pick(a).clone();
                                json!({"op": "remove", "s": sd, "p": l[0], "q": l[1]})
                            }
                            _ => json!({"op": "market", "s": sd, "q": q}),
                        }
                    }
                    17 => {
                        let id = anyid(&mut rng, next_id);
                        json!({"op": "chgpx", "s": *rng.pick(&["ask","bid"]), "id": id, "p": p})
                    }
                    _ => {
                        let id = next_id;
                        next_id += 1;
                        json!({"op": "add", "s": sd, "p": p, "q": q, "id": id})
                    }
                }
            };
            watch(format!("run {run} op {o} on {ob}"));
            let res = norm_diff(step(&mut r, &o));
            ob = if res["k"] == "panic" { json!({"panic": res["e"]}) } else { look(&mut r) };
            unwatch();
            let mut line = o.clone();
            line["res"] = res.clone();
            let flags = take_flags(&mut r);
            if !queue || k % 24 == 0 || !flags.is_empty() || ob.get("panic").is_some() || s(&o, "op") != "limit" {
                line["obs"] = ob.clone();
                line["flags"] = json!(flags);
            }
            f.line(&line);
            if ob.get("panic").is_some() {
                break;
            }
            live = ob["ords"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| (x[0].as_i64().unwrap(), x[1].as_i64().unwrap(), x[2].as_i64().unwrap(), x[3].as_i64().unwrap()))
                .collect();
            live.retain(|x| x.0 < 500_000);
        }
    }
}
