//! Evaluation date, prices and dividends: histories of moves, bumps and quotes.
use crate::cal::*;
use crate::util::*;
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use time::OffsetDateTime;

type Shared<T> = Rc<RefCell<T>>;
pub struct World {
    pub e: Shared<EvaluationDate>,
    pub ps: Vec<Shared<MarketPrice>>,
    pub ds: Vec<Shared<DiscreteRatioDividend>>,
    off: i64,
    unit: f32,
}
fn at(v: &Value, off: i64) -> OffsetDateTime {
    dt(i(v, "n"), i(v, "s"), off)
}
fn flag(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("harness: missing flag {k}"))
}
pub fn tenor(ps: &Value) -> String {
    ps.as_array().unwrap().iter().map(|p| format!("{}{}", p["k"], s(p, "u"))).collect()
}
fn list(v: &Value, k: &str) -> Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("harness: missing list {k}")).clone()
}
impl World {
    /// `turn` varies what the history leaves open: the offset, and the size of a sixteenth
    pub fn new(v: &Value, turn: u64) -> Result<World, String> {
        let (off, unit) = ([540, 0, -300][turn as usize % 3], [1.0, 0.125, 2000.0][turn as usize / 3 % 3]);
        let e = Rc::new(RefCell::new(stored(EvaluationDate::new(at(&v["e"], off)))));
        let mut ds = Vec::new();
        for (k, d) in list(v, "ds").iter().enumerate() {
            let dates: Vec<_> = list(d, "ex").iter().map(|x| at(x, off)).collect();
            let a: Array1<f32> = list(d, "a").iter().map(|x| x.as_i64().unwrap() as f32 * unit).collect();
            let data = VectorData::new(a, Some(dates.clone()), None, Some(dates[0]), Currency::KRW, "d".into(), "d".into()).map(stored).map_err(|e| e.to_string())?;
            let d = DiscreteRatioDividend::new(e.clone(), &data, 16.0 * unit, format!("d{k}"), format!("d{k}")).map_err(|e| e.to_string())?;
            ds.push(Rc::new(RefCell::new(d)));
        }
        let mut ps = Vec::new();
        for (k, p) in list(v, "ps").iter().enumerate() {
            let div = match i(p, "div") { 0 => None, j => Some(ds[j as usize - 1].clone()) };
            let p = MarketPrice::new(i(p, "q") as f32, at(&p["at"], off), div, Currency::KRW, format!("p{k}"), format!("p{k}"));
            ps.push(Rc::new(RefCell::new(p)));
        }
        let w = World { e, ps, ds, off, unit };
        let n = w.ps.len().max(w.ds.len());
        for k in 0..n {
            // the order of attachment does not matter
            let k = if turn % 2 == 0 { k } else { n - 1 - k };
            if k < w.ds.len() && flag(&v["ds"][k], "att") {
                w.join("dividend", k);
            }
            if k < w.ps.len() && flag(&v["ps"][k], "att") {
                w.join("price", k);
            }
        }
        Ok(w)
    }
    fn join(&self, what: &str, k: usize) {
        match what {
            "price" => self.e.borrow_mut().add_marketprice_observer(self.ps[k].clone()),
            _ => self.e.borrow_mut().add_dividend_observer(self.ds[k].clone()),
        }
    }
    pub fn apply(&self, o: &Value) -> bool {
        match s(o, "op") {
            "set" => self.e.borrow_mut().set_date(at(&o["t"], self.off)),
            "add" => *self.e.borrow_mut() += tenor(&o["ps"]).as_str(),
            "sub" => *self.e.borrow_mut() -= tenor(&o["ps"]).as_str(),
            "bump" => {
                let end = |k: &str, t: i64| match i(o, k) { 99999999 => None, n => Some(dt(n, t, self.off)) };
                // the time of day of a window's ends does not matter
                let (lo, hi) = (end("lo", 86399), end("hi", 0));
                return self.ds[i(o, "i") as usize - 1].borrow_mut().bump_date_interval(lo.as_ref(), hi.as_ref(), i(o, "a") as f32 * self.unit).is_ok();
            }
            "quote" => self.ps[i(o, "i") as usize - 1].borrow_mut().set_price(i(o, "q") as f32),
            "join" => self.join(s(o, "what"), i(o, "i") as usize - 1),
            x => panic!("harness: op {x}"),
        }
        true
    }
}
fn bag(f: &Value) -> f64 {
    f.as_array().unwrap().iter().map(|x| (i(x, "k") as f64 / 16.0).powi(i(x, "x") as i32)).product()
}
fn near(g: f32, w: f64) -> bool {
    (g as f64 - w).abs() <= 3e-6 * w.abs().max(1e-3)
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got}));
    let w = match guard(|| World::new(&v["m0"], test_no())) {
        Ok(Ok(w)) => w,
        x => return bad("setting up", format!("{:?}", x.map(|r| r.map(|_| ())))),
    };
    for (k, o) in list(v, "h").iter().enumerate() {
        let r = guard(|| w.apply(o));
        if r != Ok(v["ok"][k] == true) {
            return bad("step", format!("{k}: {r:?}"));
        }
    }
    let want = &v["want"];
    let e = *w.e.borrow().get_date();
    if e != at(&want["e"], w.off) {
        return bad("evaluation date", e.to_string());
    }
    for (k, p) in list(want, "ps").iter().enumerate() {
        let g = w.ps[k].borrow();
        if *g.get_market_datetime() != at(&p["at"], w.off) || !near(g.get_value(), i(p, "q") as f64 * bag(&p["f"])) {
            return bad("price", format!("{k}: {} as of {}", g.get_value(), g.get_market_datetime()));
        }
    }
    for (k, d) in list(want, "ds").iter().enumerate() {
        let g = w.ds[k].borrow();
        let a: Vec<f64> = list(d, "a").iter().map(|x| x.as_i64().unwrap() as f64).collect();
        let (amounts, yields) = (g.get_dividend(), g.get_dividend_ratio());
        let ex: Vec<_> = list(&v["m0"]["ds"][k], "ex").iter().map(|x| at(x, w.off)).collect();
        let ok = amounts.len() == a.len() && yields.len() == a.len()
            && (0..a.len()).all(|j| amounts[j].0 == ex[j] && yields[j].0 == ex[j]
                && (amounts[j].1 as f64 - a[j] * w.unit as f64).abs() <= 2e-6 * 16.0 * w.unit as f64 && (yields[j].1 as f64 - a[j] / 16.0).abs() <= 1e-6);
        if !ok {
            return bad("dividend amounts", format!("{k}: {amounts:?} {yields:?}"));
        }
        let rs = list(d, "r");
        let times = [0, 57600, 86399];
        let qs: Vec<_> = rs.iter().enumerate().map(|(j, r)| dt(i(r, "n"), times[(j + test_no() as usize) % 3], w.off)).collect();
        let all = guard(|| g.get_vectorized_deduction_ratio_for_sorted_datetime(&qs).map_err(|e| e.to_string()));
        let one = guard(|| qs.iter().map(|q| g.get_deduction_ratio(q).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>());
        let fits = |x: &[f32]| x.len() == rs.len() && x.iter().zip(&rs).all(|(g, r)| near(*g, bag(&r["f"])));
        if !matches!(&all, Ok(Ok(x)) if fits(x.as_slice().unwrap())) || !matches!(&one, Ok(Ok(x)) if fits(x)) {
            return bad("deduction ratio", format!("{k}: {one:?} / {all:?}"));
        }
    }
    // a price's deduction ratio is its dividend's, and none without dividend
    for (k, p) in list(&v["m0"], "ps").iter().enumerate() {
        let q = dt(i(&want["e"], "n") + 20, 0, w.off);
        let r = w.ps[k].borrow().get_dividend_deduction_ratio(&q).ok();
        let x = match i(p, "div") { 0 => Some(1.0), j => w.ds[j as usize - 1].borrow().get_deduction_ratio(&q).ok() };
        if r != x {
            return bad("deduction ratio of a price", format!("{k}: {r:?}, its dividend {x:?}"));
        }
    }
    Ok(())
}

const UNITS: [&str; 7] = ["Y", "M", "W", "D", "h", "min", "sec"];
pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut out = Out::new(path);
    let mut r = Rng::new(seed);
    let d0 = 19773;
    for _ in 0..runs {
        let span = *r.pick(&[20i64, 100, 1500]);
        let t = |r: &mut Rng| json!({"n": d0 + r.range(-2, span), "s": *r.pick(&[0i64, 0, 57600, 86399, 1])});
        let e = t(&mut r);
        let nd = r.range(1, 3);
        let mut ds = Vec::new();
        for _ in 0..nd {
            let n = r.range(1, 6);
            let mut days: Vec<i64> = (0..n).map(|_| d0 + r.range(0, span)).collect();
            days.sort();
            days.dedup();
            let ex: Vec<_> = days.iter().map(|n| json!({"n": n, "s": *r.pick(&[0i64, 0, 0, 57600])})).collect();
            let a: Vec<_> = days.iter().map(|_| r.range(1, 8)).collect();
            ds.push(json!({"ex": ex, "a": a, "att": r.chance(5, 6)}));
        }
        let mut ps = Vec::new();
        for _ in 0..r.range(1, 4) {
            let p = if r.chance(2, 3) { e.clone() } else { t(&mut r) };
            ps.push(json!({"div": r.range(0, nd), "q": r.range(1, 500), "at": p, "att": r.chance(5, 6)}));
        }
        let m0 = json!({"e": e, "ps": ps, "ds": ds});
        let turn = r.next();
        let w = match guard(|| World::new(&m0, turn)) {
            Ok(Ok(w)) => w,
            x => {
                out.line(&json!({"op": "failed", "m": m0, "why": format!("{:?}", x.map(|r| r.map(|_| ())))}));
                continue;
            }
        };
        out.line(&json!({"op": "new", "m": m0}));
        let mut base: Vec<f64> = ps.iter().map(|p| i(p, "q") as f64).collect();
        let mut unjoined: Vec<(&str, i64)> = vec![];
        for (k, p) in ps.iter().enumerate() { if !flag(p, "att") { unjoined.push(("price", k as i64 + 1)); } }
        for (k, d) in ds.iter().enumerate() { if !flag(d, "att") { unjoined.push(("dividend", k as i64 + 1)); } }
        for _ in 0..len {
            let now = parts(w.e.borrow().get_date());
            let far = now.0 > d0 + 2 * span + 400 || now.0 < d0 - 800;
            let o = match r.below(10) {
                _ if far => json!({"op": "set", "t": t(&mut r)}),
                0..=3 => json!({"op": "set", "t": t(&mut r)}),
                x @ 4..=6 => {
                    let ps: Vec<_> = (0..r.range(1, 2)).map(|_| { let u = *r.pick(&UNITS); json!({"u": u, "k": r.range(0, if u == "Y" { 1 } else { 13 })}) }).collect();
                    json!({"op": if x % 2 == 0 { "add" } else { "sub" }, "ps": ps})
                }
                7 | 8 => {
                    let k = r.below(nd as u64) as usize;
                    let end = |r: &mut Rng| if r.chance(1, 4) { 99999999 } else { d0 + r.range(-1, span + 1) };
                    let (lo, hi) = (end(&mut r), end(&mut r));
                    let now: Vec<f32> = w.ds[k].borrow().get_dividend().iter().map(|x| x.1 / w.unit).collect();
                    let a = if now.iter().any(|x| *x > 11.0) { -1 } else if now.iter().any(|x| *x < -20.0) { 1 } else { *r.pick(&[1, -1, 2, -2]) };
                    json!({"op": "bump", "i": k + 1, "lo": lo, "hi": hi, "a": a})
                }
                _ => if !unjoined.is_empty() && r.chance(1, 2) {
                    let (what, k) = unjoined.pop().unwrap();
                    json!({"op": "join", "what": what, "i": k})
                } else {
                    let k = r.below(ps.len() as u64) as usize;
                    let q = r.range(1, 500);
                    base[k] = q as f64;
                    json!({"op": "quote", "i": k + 1, "q": q})
                },
            };
            let ok = guard(|| w.apply(&o));
            let e = parts(w.e.borrow().get_date());
            let ln = |x: f64| if x > 0.0 && x.is_finite() { (x.ln() * 1e6).round() as i64 } else { -1_000_000_000 };
            let ps: Vec<_> = w.ps.iter().enumerate().map(|(k, p)| {
                let (p, at) = (p.borrow(), parts(p.borrow().get_market_datetime()));
                json!({"at": {"n": at.0, "s": at.1}, "v": ln(p.get_value() as f64 / base[k])})
            }).collect();
            let ds: Vec<_> = w.ds.iter().map(|d| {
                let d = d.borrow();
                let a: Vec<i64> = d.get_dividend().iter().map(|x| (x.1 as f64 / w.unit as f64 * 1e4).round() as i64).collect();
                let rs: Vec<_> = (0..3).map(|_| {
                    let n = d0 + r.range(-5, span + 5);
                    let x = guard(|| d.get_deduction_ratio(&dt(n, r.range(0, 86399), w.off)).ok());
                    json!({"n": n, "v": x.ok().flatten().map_or(-1_000_000_000, |x| ln(x as f64))})
                }).collect();
                json!({"a": a, "r": rs})
            }).collect();
            let ok = match ok { Ok(true) => "yes", Ok(false) => "no", Err(_) => "panic" };
            out.line(&json!({"op": "step", "o": o, "ok": ok, "e": {"n": e.0, "s": e.1}, "ps": ps, "ds": ds}));
            if ok == "panic" { break; }
        }
    }
}
