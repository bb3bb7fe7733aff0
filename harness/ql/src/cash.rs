//! Cash flows of bonds and swaps, and what their pricers make of them.
use crate::cal::*;
use crate::util::*;
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{Compounding, CreditRating, IssuerType, RankType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::pricing_engines::plain_swap_pricer::PlainSwapPricer;
use quantlib::pricing_engines::pricer::PricerTrait;
use quantlib::time::conventions::{BusinessDayConvention, PaymentFrequency};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{OffsetDateTime, Time, UtcOffset};

type Shared<T> = Rc<RefCell<T>>;
type Flows = HashMap<OffsetDateTime, f32>;

pub fn market(e: OffsetDateTime) -> Shared<EvaluationDate> {
    Rc::new(RefCell::new(EvaluationDate::new(e)))
}
pub fn zero_curve(e: &Shared<EvaluationDate>, rates: &[f32], times: &[f32], name: &str) -> Shared<ZeroCurve> {
    let d = VectorData::new(Array1::from(rates.to_vec()), None, Some(Array1::from(times.to_vec())), None, Currency::KRW, name.into(), name.into()).map(stored).expect("harness: curve data");
    Rc::new(RefCell::new(ZeroCurve::new(e.clone(), &d, name.into(), name.into()).expect("curve")))
}
/// the market of one evaluation date (pricing does not change it, so it is set up once per date and thread)
#[derive(Clone)]
struct Set { ed: Shared<EvaluationDate>, fwd: Shared<ZeroCurve>, disc: Shared<ZeroCurve>, disc2: Shared<ZeroCurve> }
fn curves(e: OffsetDateTime) -> Set {
    thread_local! { static SETS: RefCell<HashMap<OffsetDateTime, Set>> = RefCell::new(HashMap::new()); }
    SETS.with(|m| m.borrow_mut().entry(e).or_insert_with(|| {
        let ed = market(e);
        let fwd = zero_curve(&ed, &[0.02, 0.05, 0.03], &[0.1, 0.9, 2.0], "forward");
        let disc = zero_curve(&ed, &[0.03, 0.01], &[0.3, 2.5], "discount");
        let disc2 = zero_curve(&ed, &[0.06, 0.04], &[0.3, 2.5], "discount2");
        Set { ed, fwd, disc, disc2 }
    }).clone())
}
pub fn published(n: i64) -> f32 {
    0.01 + (n % 97) as f32 * 0.001
}
fn tenor(v: &Value) -> String {
    format!("{}{}", v["k"], s(v, "u"))
}
fn index(ix: &Value) -> RateIndex {
    RateIndex::new(tenor(&ix["tenor"]), Currency::KRW, "INDEX".into(), "INDEX".into()).expect("index")
}
fn history(ix: &Value, eff: i64) -> Option<Rc<DailyClosePrice>> {
    let mut m = HashMap::new();
    for n in eff - 60..=eff + 1200 {
        if match s(ix, "pub") { "all" => true, "none" => false, _ => n % 3 != 0 } {
            m.insert(date(n), published(n));
        }
    }
    if m.is_empty() {
        return None;
    }
    let (close, offset) = (Time::from_hms(15, 40, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap());
    Some(Rc::new(DailyClosePrice::new(m, close, offset, calendar("kr_krx"), "h".into(), "h".into())))
}
struct Expect<'a> { o: i64, curve: &'a Shared<ZeroCurve> }
impl Expect<'_> {
    fn at(&self, v: &Value) -> OffsetDateTime { dt(i(v, "n"), i(v, "s"), self.o) }
    fn rate(&self, src: &Value) -> f64 {
        if s(src, "k") == "pub" {
            published(i(&src["a"], "n")) as f64
        } else {
            self.curve.borrow().get_forward_rate_between_dates(&self.at(&src["a"]), &self.at(&src["b"]), Compounding::Simple).expect("forward rate") as f64
        }
    }
    fn coupon(&self, cp: &Value) -> f64 {
        let sp = i(cp, "spread") as f64 / 1e6;
        let steps = cp["steps"].as_array().unwrap();
        let f = |x: &Value| i(x, "f") as f64 / 1e6;
        if cp["flat"] == true {
            let avg = steps.iter().map(|x| self.rate(&x["src"])).sum::<f64>() / steps.len() as f64;
            (avg + sp) * f(&steps[0])
        } else {
            steps.iter().map(|x| 1.0 + (self.rate(&x["src"]) + sp) * f(x)).product::<f64>() - 1.0
        }
    }
    fn flows(&self, groups: &Value) -> Vec<(OffsetDateTime, f64, f64)> {
        groups.as_array().unwrap().iter().map(|g| {
            let (mut sum, mut size) = (0.0, 0.0);
            for x in g["items"].as_array().unwrap() {
                let m = i(x, "m") as f64;
                let k = i(x, "q") as f64 * i(x, "c") as f64 / 1e8;
                let c = if m != 0.0 { m * self.coupon(&x["cp"]) } else { 0.0 };
                sum += k + c;
                // each compounding step adds its own rounding (floats, and the accruals in parts per million)
                let steps = x["cp"]["steps"].as_array().map_or(0, |v| v.len()) as f64;
                size += k.abs() + m.abs() * (0.3 + c.abs() + 0.04 * steps) + i(x, "q").abs() as f64 * 0.05;
            }
            (self.at(g), sum, size)
        }).collect()
    }
}
/// same instants; amounts equal up to float precision (and the specification's parts per million)
fn same(got: &Flows, want: &[(OffsetDateTime, f64, f64)]) -> bool {
    got.len() == want.len() && want.iter().all(|(t, v, size)| got.get(t).is_some_and(|g| near(*g as f64, *v, *size)))
}
fn near(got: f64, want: f64, size: f64) -> bool {
    (got - want).abs() <= 4e-6 * size + 1e-7
}
fn show(f: &Flows) -> Value {
    let mut v: Vec<_> = f.iter().map(|(t, a)| (nso(t), *a)).collect();
    v.sort_by_key(|x| x.0.to_string());
    json!(v)
}
fn show_want(f: &[(OffsetDateTime, f64, f64)]) -> Value {
    json!(f.iter().map(|(t, a, _)| (nso(t), *a)).collect::<Vec<_>>())
}
fn rows(t: &Value, sec: i64, o: i64) -> Schedule {
    let given = t["given"].as_array().unwrap();
    Schedule::new(t["rows"].as_array().unwrap().iter().enumerate().map(|(k, r)| {
        let d = |j: usize| dt(r[j].as_i64().unwrap(), sec, o);
        let a = given.get(k).and_then(|x| x.as_i64()).filter(|x| *x != 0).map(|x| (x as f64 / 1e8) as f32);
        BaseSchedule::new(d(0), d(1), d(2), d(3), a)
    }).collect())
}
pub fn bond(t: &Value, turn: u64, pd: Option<OffsetDateTime>) -> Bond {
    let kind = s(t, "kind");
    let (eff, mat) = (from_nso(&t["eff"]), from_nso(&t["mat"]));
    let float = kind.starts_with("frn");
    let fixed = if float { None } else { Some(0.045) };
    let spread = if float { match i(&t["ix"], "spread") { 0 if turn % 4 < 2 => None, x => Some(x as f32 / 1e6) } } else { None };
    let ix = float.then(|| index(&t["ix"]));
    let comp = (float && i(&t["ix"]["comp"], "k") > 0).then(|| tenor(&t["ix"]["comp"]));
    let (fg, pg) = (i(t, "fg"), i(t, "pg"));
    let (mf, dc, fr, cal) = (BusinessDayConvention::ModifiedFollowing, count(s(t, "dc")), freq(s(t, "f")), joint(&kinds_of(t)));
    let (it, cr, rk, ccy) = (IssuerType::Government, CreditRating::None, RankType::Senior, Currency::KRW);
    if turn % 2 == 0 || kind.ends_with("given") || kind == "twice" {
        Bond::new(it, cr, "ISSUER".into(), rk, ccy, 100.0, kind == "strip", rows(t, i(&t["eff"], "s"), i(&t["eff"], "o")), fixed, spread, ix, comp, eff, eff, pd, mat, cal, dc, mf, fr, pg, fg, "b".into(), "b".into())
    } else {
        Bond::new_from_conventions(it, cr, "ISSUER".into(), rk, ccy, 100.0, kind == "strip", eff, eff, pd, mat, fixed, spread, ix, comp, cal, t["fwd"] == true, dc, mf, fr, fg, pg, "b".into(), "b".into())
    }.map(stored).expect("bond")
}
const UNIT: f32 = 10.0;
fn swap(t: &Value, turn: u64) -> PlainSwap {
    let kind = s(t, "kind");
    let (eff, mat) = (from_nso(&t["eff"]), from_nso(&t["mat"]));
    let legs = kind == "irs" || kind == "crs";
    let init = kind == "crs" || kind == "fxswap";
    let last = init || kind == "fxfwd";
    let am = |on: bool, x: f32| on.then_some(x);
    let ex: Vec<f32> = t["ex"].as_array().map_or(vec![1300.0, 2.0, 1280.0, 3.0], |v| v.iter().map(|x| x.as_f64().unwrap() as f32).collect());
    let (i1, i2, l1, l2) = (am(init, ex[0]), am(init, ex[1]), am(last, ex[2]), am(last, ex[3]));
    let (c1, c2) = if kind == "irs" { (Currency::KRW, Currency::KRW) } else { (Currency::KRW, Currency::USD) };
    let (rate, ix) = (am(legs, 0.031), legs.then(|| index(&t["ix"])));
    let comp = (legs && i(&t["ix"]["comp"], "k") > 0).then(|| tenor(&t["ix"]["comp"]));
    let (fg, pg) = (i(t, "fg"), i(t, "pg"));
    let (d1, d2) = (count(s(t, "dc")), count(if s(t, "dc") == "act365" { "act360" } else { "act365" }));
    let (mf, fr, cal) = (BusinessDayConvention::ModifiedFollowing, freq(s(t, "f")), joint(&kinds_of(t)));
    if !legs || turn % 2 == 0 {
        let sch = rows(t, i(&t["eff"], "s"), i(&t["eff"], "o"));
        PlainSwap::new(sch.clone(), sch, rate, ix, comp, cal, UNIT, eff, eff, mat, c1, c2, i1, i2, l1, l2, d1, d2, mf, mf, fr, fr, fg, pg, "s".into(), "s".into())
    } else {
        PlainSwap::new_from_conventions(c1, c2, i1, i2, l1, l2, UNIT, eff, eff, mat, rate, ix, comp, t["fwd"] == true, d1, d2, mf, mf, fr, fr, fg, pg, cal, "s".into(), "s".into())
    }.map(stored).expect("swap")
}
fn expected_coupons(r: &NpvResult) -> Result<Flows, String> {
    r.get_expected_coupon_amount().map_err(|e| e.to_string())
}
/// value of the flows after the pricing day
fn value(want: &[(OffsetDateTime, f64, f64)], p: &OffsetDateTime, c: &Shared<ZeroCurve>) -> (f64, f64) {
    let c = c.borrow();
    want.iter().filter(|(t, _, _)| t.date() > p.date()).fold((0.0, 0.0), |(a, b), (t, v, size)| {
        let df = c.get_discount_factor_at_date(t).expect("discount factor") as f64;
        (a + v * df, b + size)
    })
}

/// what floating coupons of a bond are made of, seen at p
pub fn world(p: OffsetDateTime, t: &Value) -> (Shared<EvaluationDate>, Shared<ZeroCurve>, Option<Rc<DailyClosePrice>>) {
    let Set { ed, fwd, .. } = curves(p);
    (ed, fwd, history(&t["ix"], i(&t["eff"], "n")))
}
/// instants, amounts and how large the parts of them are
pub fn flows(groups: &Value, o: i64, curve: &Shared<ZeroCurve>) -> Vec<(OffsetDateTime, f64, f64)> {
    Expect { o, curve }.flows(groups)
}

pub fn replay_one(v: &Value) -> Result<(), Value> {
    if v.get("swapkind").is_some() {
        return kind_one(v);
    }
    let turn = test_no();
    // values and exposures reprice everything: not on every turn
    let extra = turn % 3 == 0;
    let t = &v["t"];
    let (p, e) = (from_nso(&v["p"]), from_nso(&v["e"]));
    let o = i(&v["p"], "o");
    let Set { ed, fwd, disc, disc2 } = curves(e);
    let past = history(&t["ix"], i(&t["eff"], "n"));
    let x = Expect { o, curve: &fwd };
    let bad = |what: &str, got: Value, want: Value| Err(json!({"what": what, "expected": want, "observed": got}));
    let kind = s(t, "kind");
    if !v["a"]["bond"].as_array().unwrap().is_empty() || !matches!(kind, "irs" | "crs" | "fxswap" | "fxfwd") {
        let want = x.flows(&v["a"]["bond"]);
        let float = kind.starts_with("frn");
        let curve = float.then(|| fwd.clone());
        let b = Instrument::Bond(bond(t, turn, if p == e && turn % 3 == 0 { None } else { Some(p) }));
        let r = guard(|| b.get_cashflows(&p, curve.clone(), past.clone()).map_err(|e| e.to_string()));
        match &r {
            Ok(Ok(f)) if same(f, &want) => {}
            Ok(Ok(f)) => return bad("bond cash flows", show(f), show_want(&want)),
            q => return bad("bond cash flows", json!(format!("{q:?}")), show_want(&want)),
        }
        let pr = BondPricer::new(ed.clone(), disc.clone(), curve, past);
        let r = guard(|| pr.npv_result(&b).map_err(|e| e.to_string()).and_then(|r| Ok((r.get_npv(), expected_coupons(&r)?, if extra { pr.npv(&b).map_err(|e| e.to_string())? } else { r.get_npv() }))));
        let df0 = disc.borrow().get_discount_factor_at_date(&p).expect("discount factor") as f64;
        let (val, size) = value(&want, &p, &disc);
        match &r {
            Ok(Ok((npv, f, npv2))) => {
                if !same(f, &want) {
                    return bad("expected coupons of a bond", show(f), show_want(&want));
                }
                if !near(*npv as f64, val / df0, size) || !near(*npv2 as f64, val / df0, size) {
                    return bad("value of a bond", json!([npv, npv2]), json!(val / df0));
                }
            }
            q => return bad("value of a bond", json!(format!("{q:?}")), json!(val / df0)),
        }
    } else {
        let (w1, w2) = (x.flows(&v["a"]["fix"]), x.flows(&v["a"]["flo"]));
        let w = Instrument::PlainSwap(swap(t, turn));
        let legs = kind == "irs" || kind == "crs";
        let curve = legs.then(|| fwd.clone());
        let r = guard(|| w.get_fixed_cashflows(&p).map_err(|e| e.to_string()));
        match &r {
            Ok(Ok(f)) if same(f, &w1) => {}
            Ok(Ok(f)) => return bad("fixed cash flows", show(f), show_want(&w1)),
            q => return bad("fixed cash flows", json!(format!("{q:?}")), show_want(&w1)),
        }
        let r = guard(|| w.get_floating_cashflows(&p, curve.clone(), past.clone()).map_err(|e| e.to_string()));
        match &r {
            Ok(Ok(f)) if same(f, &w2) => {}
            Ok(Ok(f)) => return bad("floating cash flows", show(f), show_want(&w2)),
            q => return bad("floating cash flows", json!(format!("{q:?}")), show_want(&w2)),
        }
        let rate = 1250.0f64;
        let fx = (kind != "irs").then(|| Rc::new(RefCell::new(MarketPrice::new(rate as f32, e, None, Currency::KRW, "USDKRW".into(), "USDKRW".into()))));
        let k = if fx.is_some() { rate } else { 1.0 };
        let pr = PlainSwapPricer::new(ed.clone(), disc.clone(), disc2.clone(), curve, past, fx).expect("pricer");
        let mut all: Vec<(OffsetDateTime, f64, f64)> = w1.clone();
        for (t, a, z) in &w2 {
            match all.iter_mut().find(|x| x.0 == *t) {
                Some(x) => { x.1 += k * a; x.2 += k * z; }
                None => all.push((*t, k * a, k * z)),
            }
        }
        let ((v1, z1), (v2, z2)) = (value(&w1, &p, &disc), value(&w2, &p, &disc2));
        let r = guard(|| pr.npv_result(&w).map_err(|e| e.to_string()).and_then(|r| Ok((r.get_npv(), expected_coupons(&r)?,
            if extra { Some((pr.npv(&w).map_err(|e| e.to_string())?, pr.fx_exposure(&w, 0.0).map_err(|e| e.to_string())?)) } else { None }))));
        match &r {
            Ok(Ok((npv, f, more))) => {
                if !same(f, &all) {
                    return bad("expected coupons of a swap", show(f), show_want(&all));
                }
                let val = (v1 + k * v2, z1 + k * z2);
                if !near(*npv as f64, val.0, val.1) {
                    return bad("value of a swap", json!(npv), json!(val.0));
                }
                if let Some((npv2, ex)) = more {
                    if !near(*npv2 as f64, val.0, val.1) {
                        return bad("value of a swap", json!(npv2), json!(val.0));
                    }
                    let u = UNIT as f64;
                    let want: Vec<(Currency, f64, f64)> = if kind == "irs" { vec![(Currency::KRW, u * (v1 + v2), u * (z1 + z2))] }
                        else { vec![(Currency::KRW, u * v1, u * z1), (Currency::USD, u * v2, u * z2)] };
                    if ex.len() != want.len() || want.iter().any(|(c, a, z)| ex.get(c).is_none_or(|g| !near(*g as f64, *a, *z))) {
                        return bad("currency exposure of a swap", json!(format!("{ex:?}")), json!(format!("{want:?}")));
                    }
                }
            }
            q => return bad("value of a swap", json!(format!("{q:?}")), json!(v1 + k * v2)),
        }
    }
    Ok(())
}

/// which exchanges and legs make which swap
fn kind_one(v: &Value) -> Result<(), Value> {
    let b = |k: &str| v[k] == true;
    let am = |on: bool| on.then_some(1.5f32);
    let eff = dt(19691, 0, 540);
    let mat = dt(if b("soon") { 19693 } else { 19694 }, 0, 540);
    let sch = if b("empty") { Schedule::default() } else { Schedule::new(vec![BaseSchedule::new(eff, eff, mat, mat, None)]) };
    let ix = b("index").then(|| RateIndex::new("3M".into(), Currency::USD, "x".into(), "x".into()).expect("index"));
    let c2 = if b("same") { Currency::KRW } else { Currency::USD };
    let (mf, d, f) = (BusinessDayConvention::Following, count("act365"), PaymentFrequency::Quarterly);
    let tell = |w: PlainSwap| format!("{} {:?} {}", w.get_type_name(), w.get_specific_plain_swap_type().unwrap(), w.get_all_fxcodes_for_pricing().len());
    let (cal, cc) = (joint(&["null".into()]), Currency::KRW);
    let given = guard(|| PlainSwap::new(sch.clone(), sch, am(b("rate")), ix.clone(), None, cal.clone(), 1.0, eff, eff, mat, cc, c2,
        am(b("i1")), am(b("i2")), am(b("l1")), am(b("l2")), d, d, mf, mf, f, f, 0, 0, "s".into(), "s".into()).map(tell));
    // legs generated: none when there is no time between the days
    let start = if b("empty") { mat } else { eff };
    let made = guard(|| PlainSwap::new_from_conventions(cc, c2, am(b("i1")), am(b("i2")), am(b("l1")), am(b("l2")), 1.0, eff, start, mat,
        am(b("rate")), ix, None, true, d, d, mf, mf, f, f, 0, 0, cal, "s".into(), "s".into()).map(tell));
    let k = s(v, "swapkind");
    let want = format!("{k} {k} {}", if b("same") { 0 } else { 1 });
    for (r, how) in [(given, "legs given"), (made, "legs from conventions")] {
        match r {
            Ok(Ok(x)) if x == want => {}
            Ok(Err(_)) if k == "error" => {}
            x => return Err(json!({"what": format!("kind of swap, {how}"), "expected": want, "observed": format!("{x:?}")})),
        }
    }
    Ok(())
}

/// Random bonds and swaps asked on random days.  All fixings are zero but one, and the curve is flat at zero:
/// a floating coupon then shows the weight of that one fixing.
pub fn record(what: &str, seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    let ks: &[&str] = match what {
        "bonds" => &["fixed", "strip", "frn", "frn"],
        "swaps" => &["irs", "crs"],
        _ => &["frn", "irs"],
    };
    for _ in 0..runs {
        out.line(&json!({"op": "reset"}));
        let kind = *g.pick(ks);
        let kinds: Vec<String> = (0..g.range(1, 2)).map(|_| g.pick(&KINDS).to_string()).collect();
        let (f, life) = *g.pick(&[("monthly", 200), ("quarterly", 800), ("quarterly", 500), ("semiannually", 1500), ("annually", 2500)]);
        let eff = g.range(11000, 23000);
        let life = (g.range(1, life) * if g.chance(1, 8) { 6 } else { 1 }).min(28800 - eff);
        let part = |k: i64, u: &str| json!({"k": k, "u": u});
        let (tenor, comp) = match g.below(6) {
            0 => (part(3, "M"), part(0, "D")),
            1 => (part(91, "D"), part(0, "D")),
            2 => (part(1, "D"), part(1, "D")),
            3 => (part(1, "D"), part(1, "W")),
            4 => (part(1, "D"), part(3, "D")),
            _ => (part(1, "M"), part(1, "M")),
        };
        let sec = *g.pick(&[34200i64, 59400]);
        let (fg, pg) = (g.range(0, 3), g.range(0, 3));
        let (dc, fwd) = (*g.pick(&["act365", "act360", "act364", "30360", "street", "actact"]), g.chance(1, 2));
        let t = json!({"kind": kind, "kinds": kinds, "f": f, "dc": dc, "fg": fg, "pg": pg,
            "fwd": fwd, "eff": {"n": eff, "s": sec, "o": 540}, "mat": {"n": eff + life, "s": sec, "o": 540},
            "ix": {"tenor": tenor, "comp": comp, "spread": if g.chance(1, 2) { 0 } else { g.range(-9000, 15000) }},
            "ex": if kind == "irs" { json!([0, 0, 0, 0]) } else { json!([g.range(1, 3), g.range(1, 3), g.range(1, 15), g.range(1, 15)]) }});
        let sched = quantlib::instruments::schedule::build_schedule(fwd, &from_nso(&t["eff"]), &from_nso(&t["mat"]), &joint(&kinds),
            &BusinessDayConvention::ModifiedFollowing, &freq(f), fg, pg);
        let fixings: Vec<i64> = sched.iter().flat_map(|s| s.iter().map(|r| day_no(r.get_fixing_date().date()))).collect();
        for _ in 0..len {
            let p = g.range(eff - 20, eff + life + 10);
            let p = json!({"n": p, "s": *g.pick(&[sec, 0, 86399]), "o": 540});
            let e = if matches!(kind, "irs" | "crs") || g.chance(1, 2) { p.clone() } else { json!({"n": i(&p, "n") - 3, "s": sec, "o": 540}) };
            let past: Vec<i64> = fixings.iter().copied().filter(|n| *n <= i(&p, "n")).rev().take(2).collect();
            let x = if past.is_empty() { eff } else if g.chance(1, 2) { *g.pick(&past) } else { past[past.len() - 1] + g.range(0, 40) };
            let hist: HashMap<_, _> = (eff - 20..=eff + life + 20).map(|n| (date(n), if n == x { 1.0f32 } else { 0.0 })).collect();
            let hist = Some(Rc::new(DailyClosePrice::new(hist, Time::MIDNIGHT, UtcOffset::UTC, calendar("null"), "h".into(), "h".into())));
            let ed = market(from_nso(&e));
            let curve = zero_curve(&ed, &[0.0, 0.0], &[0.5, 2.0], "zero");
            let p2 = from_nso(&p);
            let list = |f: &Flows| json!(f.iter().map(|(t, a)| { let (n, s, _) = parts(t); json!({"n": n, "s": s, "a": (*a as f64 * 1e8).round() as i64}) }).collect::<Vec<_>>());
            let mut ev = json!({"op": "ask", "t": t, "p": p, "e": e, "x": x, "ok": true});
            let turn = 1;
            if sched.is_err() {
                ev["ok"] = json!(false);
            } else if matches!(kind, "irs" | "crs") {
                let w = swap(&t, turn);
                ev["fix"] = list(&w.get_fixed_cashflows(&p2).expect("fixed flows"));
                ev["flo"] = list(&w.get_floating_cashflows(&p2, Some(curve), hist).expect("floating flows"));
            } else {
                let b = bond(&t, turn, Some(p2));
                ev["bond"] = list(&b.get_cashflows(&p2, (kind == "frn").then_some(curve), hist).expect("bond flows"));
            }
            out.line(&ev);
        }
    }
}
