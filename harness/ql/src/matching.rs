//! Which curves an instrument is valued on, and the selections of a portfolio.
use crate::cal::*;
use crate::util::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::*;
use quantlib::instrument::InstrumentTrait;
use quantlib::instrument::{Instrument, Instruments};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::Schedule;
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;
use time::OffsetDateTime;

const DAY0: i64 = 19800;
fn day(k: i64) -> OffsetDateTime { dt(DAY0 + k, 57600, 540) }
pub fn list(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
pub fn issuer(k: &str) -> (String, IssuerType, CreditRating, Currency) {
    let p: Vec<&str> = k.split('/').collect();
    let t = match p[1] { "Government" => IssuerType::Government, "Financial" => IssuerType::Financial, x => panic!("harness: {x}") };
    let r = match p[2] { "None" => CreditRating::None, "AA" => CreditRating::AA, "BBB" => CreditRating::BBB, x => panic!("harness: {x}") };
    (p[0].into(), t, r, Currency::from(p[3]))
}
/// what an instrument says of itself
fn says(x: &Instrument) -> Vec<String> {
    macro_rules! all { ($($f:ident)*) => { vec![$(format!("{}: {:?}", stringify!($f), x.$f())),*] } }
    macro_rules! tried { ($($f:ident)*) => { vec![$(format!("{}: {:?}", stringify!($f), x.$f().ok())),*] } }
    let mut a = all!(get_name get_code get_currency get_unit_notional get_type_name get_average_trade_price get_maturity get_underlying_codes
        get_quanto_fxcode_und_pair get_all_fxcodes_for_pricing get_underlying_codes_requiring_volatility get_bond_futures_borrowing_curve_tags);
    a.extend(tried!(get_credit_rating get_issuer_type get_rank_type get_issuer_name get_rate_index get_pricing_date is_coupon_strip get_coupon_frequency
        get_issue_date get_schedule get_fixed_leg_currency get_floating_leg_currency get_underlying_currency get_strike get_option_type
        get_option_daily_settlement_type get_fxfutres_und_fxcode get_floating_to_fixed_fxcode get_specific_plain_swap_type));
    a
}
pub fn stored_instrument(x: Instrument) -> Instrument {
    if !in_store() {
        return x;
    }
    let before = says(&x);
    let y = text_and_back(x);
    let after = says(&y);
    for (a, b) in before.iter().zip(&after) {
        assert!(a == b, "an instrument that says {a} reads back as {b}");
    }
    y
}
fn text_and_back(x: Instrument) -> Instrument {
    match x {
        Instrument::Futures(x) => Instrument::Futures(stored(x)),
        Instrument::FxFutures(x) => Instrument::FxFutures(stored(x)),
        Instrument::Bond(x) => Instrument::Bond(stored(x)),
        Instrument::BondFutures(x) => Instrument::BondFutures(stored(x)),
        Instrument::KTBF(x) => Instrument::KTBF(stored(x)),
        Instrument::PlainSwap(x) => Instrument::PlainSwap(stored(x)),
        Instrument::Stock(x) => Instrument::Stock(stored(x)),
        Instrument::Cash(x) => Instrument::Cash(stored(x)),
        Instrument::VanillaOption(x) => Instrument::VanillaOption(stored(x)),
    }
}
fn instrument(x: &Value) -> Instrument { stored_instrument(new_instrument(x)) }
fn new_instrument(x: &Value) -> Instrument {
    let (t, code, ccy, m, unit) = (s(x, "type"), s(x, "code").to_string(), Currency::from(s(x, "ccy")), day(i(x, "mat")), 10.0);
    let index = |k: &str| RateIndex::new("3M".into(), ccy, format!("name of {k}"), k.into()).expect("index");
    let name = format!("name of {code}");
    let und = list(&x["und"]);
    let (mf, dc, fr, cal) = (BusinessDayConvention::ModifiedFollowing, DayCountConvention::Actual365Fixed, PaymentFrequency::Quarterly, joint(&["null".to_string()]));
    match t {
        "Futures" => Instrument::Futures(Futures::new(100.0, day(-10), m, m, m, unit, ccy, Currency::from(s(x, "undccy")), und[0].clone(), name, code)),
        "FxFutures" => Instrument::FxFutures(FxFutures::new(1300.0, day(-10), m, m, m, unit, ccy, Currency::from(s(x, "undccy")), name, code)),
        "Stock" => Instrument::Stock(Stock::new(name, code, und, ccy, None)),
        "Cash" => Instrument::Cash(Cash::new(ccy, name, code)),
        "VanillaCall" | "VanillaPut" => Instrument::VanillaOption(VanillaOption::new(100.0, unit, day(-10), m, m, m, und, Currency::from(s(x, "undccy")), ccy,
            if t == "VanillaCall" { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European,
            if x["settled"] == true { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled }, name, code)),
        "KTBF" => {
            let v = KtbfVirtualBond::new(3, 0.05, PaymentFrequency::SemiAnnually, 100.0);
            Instrument::KTBF(KTBF::new(ccy, unit, day(-10), m, m, v, vec![], list(&x["tags"])[0].clone(), name, code).expect("ktbf"))
        }
        "Bond" => {
            let (n, it, cr, _) = issuer(s(x, "iss"));
            let k = s(x, "idx");
            let float = !k.is_empty();
            let none = Schedule::new(vec![]);
            Instrument::Bond(Bond::new(it, cr, n, RankType::Senior, ccy, unit, false, none, (!float).then_some(0.03), None, float.then(|| index(k)), None, day(-10), day(-10),
                None, m, cal, dc, mf, fr, 0, 0, name, code).expect("bond"))
        }
        _ => {
            let (init, last, legs) = (matches!(t, "CRS" | "FxSwap"), t != "IRS", matches!(t, "IRS" | "CRS"));
            let am = |on: bool, x: f32| on.then_some(x);
            let k = s(x, "idx");
            // a spot deal is done at most two days before it matures
            let (iss, eff) = if t == "FxSpot" { (day(i(x, "mat") - 2), day(i(x, "mat"))) } else { (day(-10), day(-6)) };
            let none = Schedule::new(vec![]);
            Instrument::PlainSwap(PlainSwap::new(none.clone(), none, am(legs, 0.03), legs.then(|| index(k)), None, cal, unit, iss, eff, m,
                Currency::from(s(x, "fix")), Currency::from(s(x, "flo")), am(init, 1300.0), am(init, 1.0), am(last, 1300.0), am(last, 1.0), dc, dc, mf, mf, fr, fr, 0, 0, name, code).expect("swap"))
        }
    }
}
pub fn tables(v: &Value) -> MatchParameter {
    let rows: Vec<(String, String, String)> = v.as_array().unwrap().iter().map(|r| (s(r, "t").into(), s(r, "k").into(), s(r, "v").into())).collect();
    let of = |t: &str| -> HashMap<String, String> { rows.iter().filter(|r| r.0 == t).map(|r| (r.1.clone(), r.2.clone())).collect() };
    let by_ccy = |t: &str| -> HashMap<Currency, String> { of(t).into_iter().map(|(k, v)| (Currency::from(k.as_str()), v)).collect() };
    MatchParameter::new(of("coll"), of("borrow"), of("bond").into_iter().map(|(k, v)| (issuer(&k), v)).collect(), by_ccy("crs"), of("idx"), by_ccy("fund"))
}
fn name(r: anyhow::Result<&String>) -> Value { json!(r.map_or("?".to_string(), |x| x.clone())) }
fn sorted<T: ToString>(v: impl IntoIterator<Item = T>) -> Value {
    let mut v: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    v.sort();
    json!(v)
}
/// the codes of a selection, each once, in any order
fn codes(v: &[Rc<Instrument>]) -> Value {
    use quantlib::instrument::InstrumentTrait;
    let mut v: Vec<String> = v.iter().map(|x| x.get_code().clone()).collect();
    v.sort();
    v.dedup();
    json!(v)
}
/// the questions asked of a portfolio; where lists come back their order does not matter
fn answers(p: &Value, tab: &Value, q: &Value) -> Value {
    let m = tables(tab);
    let list_of: Vec<Rc<Instrument>> = p.as_array().unwrap().iter().map(|x| Rc::new(instrument(x))).collect();
    let last = list_of.last().unwrap().clone();
    let n = list_of.len();
    let all = Instruments::new(list_of.clone());
    // the selections take the portfolio itself or a list handed over
    let own = test_no() % 2 == 0;
    let (other, arg) = if own { (all.clone(), None) } else { (Instruments::default(), Some(&list_of)) };
    let ex = |v: &Value| -> Option<Vec<String>> { let l = list(v); if l.is_empty() && own { None } else { Some(l) } };
    fn strs(v: &Option<Vec<String>>) -> Option<Vec<&str>> { v.as_ref().map(|l| l.iter().map(|x| x.as_str()).collect()) }
    // one unknown name makes a list of names unknown
    let names = |r: anyhow::Result<Vec<&String>>| match r { Ok(l) => json!(l), Err(_) => json!("?") };
    let curves = all.get_all_curve_names(&m);
    let mut a = json!({
        "discount": name(m.get_discount_curve_name(&last)), "index": name(m.get_rate_index_curve_name(&last)),
        "crs": name(m.get_crs_curve_name(&last)), "flocrs": name(m.get_floating_crs_curve_name(&last)),
        "coll": names(m.get_collateral_curve_names(&last)), "borrow": names(m.get_borrowing_curve_names(&last)),
        "known": curves.is_ok(), "all": curves.map_or(json!([]), sorted),
        "short": other.get_shortest_maturity(arg).map_or(0, |t| parts(&t).0 - DAY0), "long": other.get_longest_maturity(arg).map_or(0, |t| parts(&t).0 - DAY0),
        "allund": sorted(all.get_all_underlying_codes()), "allvol": sorted(other.get_all_unerlying_codes_requiring_volatility(arg)), "alltypes": sorted(all.get_all_type_names()),
        "allfx": sorted(all.get_all_fxcodes_for_pricing().iter().map(fx)),
        "allquanto": sorted(all.get_all_quanto_fxcode_und_pairs().iter().map(|(u, f)| format!("{u}/{}", fx(f)))),
        "allccy": all.get_all_currencies().map_or(json!("?"), |l| sorted(l.iter().map(|c| c.as_str()))),
        "codes": other.get_all_inst_code_clone(arg), "len": n == all.len() && all.is_empty() == (n == 0) && all.iter().count() == n,
    });
    let each = |k: &str, f: &dyn Fn(&Value) -> Value| -> Value { q[k].as_array().unwrap().iter().map(f).collect() };
    a["using"] = each("using", &|x| {
        let e = ex(&x["ex"]);
        match all.instruments_using_curve(&s(x, "c").to_string(), &m, strs(&e)) {
            Ok(l) => json!({"c": x["c"], "ex": x["ex"], "ok": true, "r": codes(&l)}),
            Err(_) => json!({"c": x["c"], "ex": x["ex"], "ok": false, "r": []}),
        }
    });
    a["und"] = each("und", &|x| json!({"u": x["u"], "ex": x["ex"], "r": codes(&all.instruments_with_underlying(&s(x, "u").to_string(), strs(&ex(&x["ex"]))))}));
    a["ccy"] = each("ccy", &|x| json!({"c": x["c"], "r": codes(&all.instruments_with_currency(&Currency::from(s(x, "c"))))}));
    a["types"] = each("types", &|x| json!({"t": x["t"], "r": codes(&all.instruments_with_types(list(&x["t"]).iter().map(|t| t.as_str()).collect()))}));
    a["mat"] = each("mat", &|x| {
        let (e, t) = (ex(&x["ex"]), day(i(x, "m")));
        json!({"m": x["m"], "ex": x["ex"], "upto": codes(&other.instruments_with_maturity_upto(arg, &t, strs(&e))), "over": codes(&other.instruments_with_maturity_over(arg, &t, strs(&e)))})
    });
    a
}
fn fx(f: &FxCode) -> String { format!("{}{}", f.get_currency1().as_str(), f.get_currency2().as_str()) }
/// the specification's answers in the same shape
fn shape(a: &Value, p: &Value) -> Value {
    let mut w = a.clone();
    let sort = |v: &Value| sorted(list(v));
    for k in ["all", "allund", "allvol", "alltypes", "allfx", "allccy"] {
        w[k] = sort(&a[k]);
    }
    w["allquanto"] = sorted(a["allquanto"].as_array().unwrap().iter().map(|x| list(x).join("/")));
    for k in ["coll", "borrow"] {
        if list(&a[k]).contains(&"?".to_string()) {
            w[k] = json!("?");
        }
    }
    for k in ["using", "und", "ccy", "types"] {
        for x in w[k].as_array_mut().unwrap() {
            x["r"] = sort(&x["r"]);
        }
    }
    for x in w["mat"].as_array_mut().unwrap() {
        x["upto"] = sort(&x["upto"]);
        x["over"] = sort(&x["over"]);
    }
    w["codes"] = p.as_array().unwrap().iter().map(|x| x["code"].clone()).collect();
    w["len"] = json!(true);
    w
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let want = shape(&v["a"], &v["p"]);
    match guard(|| answers(&v["p"], &v["tab"], &v["a"])) {
        Ok(got) if got == want => Ok(()),
        Ok(got) => {
            let diff: Vec<_> = want.as_object().unwrap().iter().filter(|(k, w)| &got[k.as_str()] != *w)
                .map(|(k, w)| {
                    // of a list of questions only the one answered differently
                    match (w.as_array(), got[k.as_str()].as_array()) {
                        (Some(a), Some(b)) if a.len() == b.len() && a.iter().any(|x| x.is_object()) =>
                            json!({"what": k, "pairs": a.iter().zip(b).filter(|(x, y)| x != y).take(2).map(|(x, y)| json!({"expected": x, "observed": y})).collect::<Vec<_>>()}),
                        _ => json!({"what": k, "expected": w, "observed": got[k.as_str()]}),
                    }
                }).collect();
            Err(json!({"what": "answers", "differing": diff}))
        }
        Err(p) => Err(json!({"what": "panic", "observed": p})),
    }
}
pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    const CCY: [&str; 3] = ["KRW", "USD", "EUR"];
    const UND: [&str; 3] = ["S1", "S2", "S3"];
    const IDX: [&str; 3] = ["CD", "SOFR", "ESTR"];
    const ISS: [&str; 3] = ["GOV/Government/None", "BNK/Financial/AA", "BNK/Financial/BBB"];
    const TYPES: [&str; 14] = ["Futures", "FxFutures", "Stock", "Cash", "VanillaCall", "VanillaPut", "KTBF", "Bond", "Bond", "IRS", "CRS", "FxSwap", "FxForward", "FxSpot"];
    for _ in 0..runs {
        let mut tab = vec![];
        let density = *g.pick(&[10, 10, 9, 6]);
        let width = *g.pick(&[2, 6, 20]);
        let mut keys: Vec<(&str, String)> = vec![];
        for u in UND { keys.push(("coll", u.into())); keys.push(("borrow", u.into())); }
        for c in CCY { keys.push(("crs", c.into())); keys.push(("fund", c.into())); for x in ISS { keys.push(("bond", format!("{x}/{c}"))); } }
        for x in IDX { keys.push(("idx", x.into())); }
        keys.push(("borrow", "KTB10".into()));
        for (t, k) in keys {
            if g.chance(density, 10) {
                tab.push(json!({"t": t, "k": k, "v": format!("C{}", g.range(1, width))}));
            }
        }
        let tab = json!(tab);
        let mut p = vec![];
        for k in 0..len {
            let t = *g.pick(&TYPES);
            let (c1, c2) = (*g.pick(&CCY), *g.pick(&CCY));
            let c2 = match t { "IRS" => c1, _ if c1 != c2 || matches!(t, "Futures" | "VanillaCall" | "VanillaPut") => c2, _ => if c1 == "KRW" { "USD" } else { "KRW" } };
            let swap = matches!(t, "IRS" | "CRS" | "FxSwap" | "FxForward" | "FxSpot");
            let on = |b: bool, x: &str| if b { x.to_string() } else { String::new() };
            let u = *g.pick(&UND);
            let opt = t.starts_with("Vanilla");
            let has_und = opt || matches!(t, "Futures" | "Stock");
            let und: Vec<&str> = if has_und { vec![u] } else { vec![] };
            let fx: Vec<String> = if swap && c1 != c2 { vec![format!("{c2}{c1}")] } else if t == "FxFutures" { vec![format!("{c2}{c1}")] } else { vec![] };
            let float = matches!(t, "IRS" | "CRS") || t == "Bond" && g.chance(1, 2);
            let iss = format!("{}/{c1}", g.pick(&ISS));
            p.push(json!({"code": format!("I{k}"), "type": t, "ccy": c1, "und": und, "vol": if opt { und.clone() } else { vec![] },
                "quanto": if opt && c1 != c2 { json!([[u, format!("{c2}{c1}")]]) } else { json!([]) }, "fx": fx, "tags": if t == "KTBF" { vec!["KTB10"] } else { vec![] },
                "mat": if matches!(t, "Stock" | "Cash") { 0 } else { g.range(1, 12) }, "iss": on(t == "Bond", &iss), "idx": if float { g.pick(&IDX).to_string() } else { String::new() },
                "fix": on(swap, c1), "flo": on(swap, c2), "undccy": on(has_und && t != "Stock" || t == "FxFutures", c2), "settled": opt && g.chance(1, 3)}));
            let exs = [json!([]), json!([*g.pick(&TYPES)]), json!([*g.pick(&TYPES), *g.pick(&TYPES)])];
            let q = json!({
                "using": (0..4).map(|_| json!({"c": format!("C{}", g.range(1, width)), "ex": exs[g.below(3) as usize]})).collect::<Vec<_>>(),
                "und": [{"u": *g.pick(&UND), "ex": exs[1]}], "ccy": [{"c": *g.pick(&CCY)}], "types": [{"t": exs[2]}],
                "mat": [{"m": g.range(1, 12), "ex": exs[g.below(3) as usize]}]});
            let pv = json!(p);
            let a = answers(&pv, &tab, &q);
            out.line(&json!({"op": "ask", "tab": tab, "p": pv, "a": a}));
        }
    }
}
