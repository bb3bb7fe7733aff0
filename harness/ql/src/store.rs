//! Result sheets, series of daily values, and objects that are written as text and read back.
use crate::cal::*;
use crate::util::*;
use ndarray::Array2;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::pricing_engines::{calculation_result::CalculationResult, npv_result::NpvResult};
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::jointcalendar::JointCalendar;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use time::{OffsetDateTime, Time, UtcOffset};

const DAY: i64 = 19760;
fn day(d: i64) -> OffsetDateTime {
    dt(DAY + d, 55800, 540)
}
fn ccy(c: &str) -> Currency {
    Currency::from(c)
}
fn nums(v: &Value) -> Vec<f32> {
    v.as_array().expect("numbers").iter().map(|x| x.as_i64().expect("number") as f32).collect()
}
fn shape(n: &str, v: i64) -> Vec<f32> {
    match n {
        "delta" | "gamma" | "vega" | "rho" | "div" => vec![v as f32],
        "vegas" | "rhos" | "divs" => vec![v as f32, (v + 1) as f32, -v as f32],
        _ => vec![v as f32, 0.0, (v + 2) as f32, (1 - v) as f32],
    }
}
fn put(r: &mut CalculationResult, n: &str, c: &str, x: Vec<f32>) {
    match n {
        "delta" => r.set_single_delta(c, x[0]),
        "gamma" => r.set_single_gamma(c, x[0]),
        "vega" => r.set_single_vega(c, x[0]),
        "rho" => r.set_single_rho(c, x[0]),
        "div" => r.set_single_div_delta(c, x[0]),
        "vegas" => r.set_single_vega_structure(c, x),
        "rhos" => r.set_single_rho_structure(c, x),
        "divs" => r.set_single_div_structure(c, x),
        "vegam" => r.set_single_vega_matrix(c, Array2::from_shape_vec((2, 2), x).expect("matrix")),
        x => panic!("harness: figure {x}"),
    }
}
fn npv(v: i64) -> NpvResult {
    let a = HashMap::from([(1usize, (day(1), (2 * v) as f32)), (2, (day(3), (4 * v) as f32)), (3, (day(1), (1 - v) as f32))]);
    let p = HashMap::from([(1usize, (day(1), 1.0)), (2, (day(3), 0.5)), (3, (day(1), 1.0))]);
    NpvResult::new(v as f32, a, p)
}
fn fx(m: &Value) -> HashMap<Currency, f32> {
    m.as_object().expect("exposures").iter().map(|(c, v)| (ccy(c), v.as_i64().unwrap() as f32)).collect()
}
fn sheet(t: &Value) -> CalculationResult {
    let home = ccy(s(t, "ccy"));
    let m = day(90);
    let mut r = CalculationResult::new(InstrumentInfo::new("name".into(), "code".into(), "StockFutures", home, i(t, "unit") as f32, Some(&m)), day(0));
    if let Some(v) = t["npv"][0].as_i64() { r.set_npv(npv(v)) }
    if t["value"][0].as_i64().is_some() { r.set_value().expect("set_value") }
    if !t["fx"][0].is_null() { r.set_fx_exposure(fx(&t["fx"][0])) }
    if let Some(v) = t["theta"][0].as_i64() { r.set_theta(v as f32) }
    if let Some(v) = t["day"][0].as_i64() { r.set_theta_day(v as i32) }
    if let Some(v) = t["cash"][0].as_i64() { r.set_cashflows(HashMap::from([(day(1), v as f32)])) }
    for (n, cs) in t["fig"].as_object().unwrap() {
        for (c, v) in cs.as_object().unwrap() {
            if !v.as_array().unwrap().is_empty() { put(&mut r, n, c, nums(v)) }
        }
    }
    r
}
fn edit_sheet(r: &mut CalculationResult, op: &str, n: &str, c: &str, v: i64) -> Result<(), Value> {
    match op {
        "put" => put(r, n, c, shape(n, v)),
        "npv" => r.set_npv(npv(v)),
        "theta" => r.set_theta(v as f32),
        "day" => r.set_theta_day(v as i32),
        "cash" => r.set_cashflows(HashMap::from([(day(1), v as f32)])),
        "fx" => r.set_fx_exposure(HashMap::from([(ccy(c), v as f32), (Currency::KRW, (v + 1) as f32)])),
        "declare" => r.set_representation_currency(ccy(c)),
        "value" => {
            let ok = guard(|| r.set_value().is_ok());
            if ok != Ok(v == 1) { return Err(json!({"what": "set_value", "expected": v == 1, "observed": format!("{ok:?}")})) }
        }
        "convert" => *r = r.representation_currency_conversion(ccy(c), v as f32).expect("representation_currency_conversion"),
        x => panic!("harness: edit {x}"),
    }
    Ok(())
}
type Table = BTreeMap<String, Vec<f32>>;
fn scalars(m: Option<&HashMap<String, f32>>) -> Option<Table> {
    m.map(|m| m.iter().map(|(k, v)| (k.clone(), vec![*v])).collect())
}
fn vectors(m: Option<&HashMap<String, Vec<f32>>>) -> Option<Table> {
    m.map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
}
fn matrices(m: Option<&HashMap<String, Array2<f32>>>) -> Option<Table> {
    m.map(|m| m.iter().map(|(k, v)| (k.clone(), if v.dim() == (2, 2) { v.iter().cloned().collect() } else { vec![] })).collect())
}
/// everything that can be read off a sheet, against what the specification has on it
fn compare_sheet(r: &CalculationResult, t: &Value, home: &str) -> Result<(), Value> {
    let bad = |what: &str, want: String, got: String| if want == got { Ok(()) } else { Err(json!({"what": what, "expected": want, "observed": got})) };
    let one = |k: &str| t[k][0].as_i64().map(|v| v as f32);
    bad("get_value", format!("{:?}", one("value").map(|x| x + 0.0)), format!("{:?}", r.get_value().map(|x| x + 0.0)))?;
    bad("get_theta", format!("{:?}", one("theta").map(|x| x + 0.0)), format!("{:?}", r.get_theta().map(|x| x + 0.0)))?;
    bad("npv", format!("{:?}", one("npv").map(|x| x + 0.0)), format!("{:?}", r.get_npv_result().map(|x| x.get_npv() + 0.0)))?;
    let flows: Option<BTreeMap<_, _>> = r.get_cashflows().map(|m| m.iter().map(|(k, v)| (*k, v + 0.0)).collect());
    bad("get_cashflows", format!("{:?}", one("cash").map(|v| BTreeMap::from([(day(1), v + 0.0)]))), format!("{flows:?}"))?;
    let want: Option<BTreeMap<String, f32>> = t["fx"][0].as_object().map(|m| m.iter().map(|(c, v)| (c.clone(), v.as_i64().unwrap() as f32)).collect());
    let seen: Option<BTreeMap<String, f32>> = r.get_fx_exposure().map(|m| m.iter().map(|(c, v)| (c.as_str().to_string(), v + 0.0)).collect());
    bad("get_fx_exposure", format!("{want:?}"), format!("{seen:?}"))?;
    for (n, cs) in t["fig"].as_object().unwrap() {
        let want: Table = cs.as_object().unwrap().iter().filter(|(_, v)| !v.as_array().unwrap().is_empty()).map(|(c, v)| (c.clone(), nums(v))).collect();
        let seen = match n.as_str() {
            "delta" => scalars(r.get_delta()),
            "gamma" => scalars(r.get_gamma()),
            "vega" => scalars(r.get_vega()),
            "rho" => scalars(r.get_rho()),
            "div" => scalars(r.get_div_delta()),
            "vegas" => vectors(r.get_vega_structure()),
            "rhos" => vectors(r.get_rho_structure()),
            "divs" => vectors(r.get_div_structure()),
            _ => matrices(r.get_vega_matrix()),
        };
        if seen.clone().unwrap_or_default() != want {
            return Err(json!({"what": n, "expected": format!("{want:?}"), "observed": format!("{seen:?}")}));
        }
    }
    let inf = r.get_instrument_info().ok_or_else(|| json!({"what": "no instrument information"}))?;
    bad("instrument", format!("{:?}", ("name", "code", "StockFutures", home, i(t, "unit") as f32, Some(day(90)))),
        format!("{:?}", (inf.get_name(), inf.get_code(), inf.type_name(), inf.get_currency().as_str(), inf.get_unit_notional(), inf.get_maturity())))?;
    bad("get_evaluation_date", format!("{:?}", Some(day(0))), format!("{:?}", r.get_evaluation_date().cloned()))
}
pub fn sheet_one(v: &Value) -> Result<(), Value> {
    let mut r = sheet(&v["sheet"]);
    let home = s(&v["sheet"], "ccy");
    compare_sheet(&r, &v["sheet"], home)?;
    for h in v["h"].as_array().unwrap() {
        edit_sheet(&mut r, s(h, "op"), s(h, "n"), s(h, "c"), i(h, "v"))?;
    }
    compare_sheet(&r, &v["a"], home)?;
    // the currency it is shown in: asking for that one changes nothing
    let same = r.representation_currency_conversion(ccy(s(&v["a"], "ccy")), 3.0).expect("conversion");
    if same != r {
        return Err(json!({"what": "conversion into its own currency", "expected": format!("{r:?}"), "observed": format!("{same:?}")}));
    }
    let seen: Option<BTreeMap<_, _>> = r.get_npv_result().map(|x| x.get_expected_coupon_amount().expect("coupons").into_iter().map(|(k, x)| (k, x + 0.0)).collect());
    let want = v["exp"].as_array().filter(|e| !e.is_empty()).map(|e| BTreeMap::from([(day(1), e[0].as_i64().unwrap() as f32), (day(3), e[1].as_i64().unwrap() as f32)]));
    if seen != want {
        return Err(json!({"what": "get_expected_coupon_amount", "expected": format!("{want:?}"), "observed": format!("{seen:?}")}));
    }
    Ok(())
}

enum Thing {
    Cals(JointCalendar, Vec<quantlib::time::calendar::Calendar>),
    Date(EvaluationDate),
    Sheet(Box<CalculationResult>, String),
    Pair(FxCode),
}
/// what an object is on paper; a joint calendar is written as such and, when it holds one calendar, that one too
struct Paper { kind: String, text: String, parts: Vec<String>, home: String }
fn thing(t: &Value) -> Thing {
    match s(t, "t") {
        "cal" => {
            let c: Vec<_> = t["v"].as_array().unwrap().iter().map(|k| calendar(k.as_str().unwrap())).collect();
            Thing::Cals(JointCalendar::new(c.clone()).expect("joint"), c)
        }
        "date" => Thing::Date(EvaluationDate::new(dt(t["v"].as_i64().unwrap(), 59415, 540))),
        "sheet" => Thing::Sheet(Box::new(sheet(&t["v"])), s(&t["v"], "ccy").to_string()),
        "pair" => Thing::Pair(FxCode::new(ccy(t["v"][0].as_str().unwrap()), ccy(t["v"][1].as_str().unwrap()))),
        x => panic!("harness: object {x}"),
    }
}
fn text_of<T: serde::Serialize>(x: &T) -> String {
    let a = serde_json::to_string(x).expect("written");
    assert!(serde_json::to_string_pretty(x).is_ok(), "written in lines");
    a
}
fn read_back<T: serde::de::DeserializeOwned>(t: &str) -> T {
    serde_json::from_str(t).unwrap_or_else(|e| panic!("{} is not read back: {e}: {}", std::any::type_name::<T>(), &t[..t.len().min(200)]))
}
impl Thing {
    fn write(&self) -> Paper {
        let p = |kind: &str, text: String| Paper { kind: kind.into(), text, parts: vec![], home: String::new() };
        match self {
            Thing::Cals(j, c) => Paper { parts: c.iter().map(text_of).collect(), ..p("cal", text_of(j)) },
            Thing::Date(d) => p("date", text_of(d)),
            Thing::Sheet(r, home) => Paper { home: home.clone(), ..p("sheet", text_of(&**r)) },
            Thing::Pair(f) => p("pair", text_of(f)),
        }
    }
    fn read(p: &Paper) -> Thing {
        match p.kind.as_str() {
            "cal" => Thing::Cals(read_back(&p.text), p.parts.iter().map(|t| read_back(t)).collect()),
            "date" => Thing::Date(read_back(&p.text)),
            "sheet" => Thing::Sheet(read_back(&p.text), p.home.clone()),
            _ => Thing::Pair(read_back(&p.text)),
        }
    }
    fn edit(&mut self, e: &Value) -> Result<(), Value> {
        let (op, n, c) = (s(e, "op"), i(e, "n"), s(e, "c"));
        match self {
            Thing::Cals(j, k) => {
                edit(&mut k[0], op, n);
                *j = JointCalendar::new(k.clone()).expect("joint");
            }
            Thing::Date(d) => if n >= 0 { *d += &format!("{n}D") } else { *d -= &format!("{}D", -n) },
            Thing::Sheet(r, _) => match op {
                "put" => edit_sheet(r, op, c, "A", n)?,
                "value" => edit_sheet(r, op, "", "", 1)?,
                _ => edit_sheet(r, op, "", c, n)?,
            },
            Thing::Pair(f) => *f = f.reciprocal(),
        }
        Ok(())
    }
    fn compare(&self, want: &Value) -> Result<(), Value> {
        let v = &want["v"];
        match self {
            Thing::Cals(j, c) => for q in v.as_array().unwrap() {
                let (t, closed, next) = (from_nso(&q["at"]), q["closed"].as_bool().unwrap(), i(q, "next"));
                let following = conv("following");
                let mut seen = vec![("joint", j.is_holiday(&t), parts(&j.adjust(&t, &following).expect("adjust")))];
                if c.len() == 1 { seen.push(("single", c[0].is_holiday(&t), parts(&c[0].adjust(&t, &following).expect("adjust")))) }
                for (who, h, a) in seen {
                    let (_, s0, o0) = parts(&t);
                    if h != closed || a != (next, s0, o0) {
                        return Err(json!({"what": "calendar", "of": who, "at": q, "observed": format!("{h} {a:?}")}));
                    }
                }
            },
            Thing::Date(d) => {
                let want = dt(v.as_i64().unwrap(), 59415, 540);
                if (d.get_date_clone(), parts(d.get_date())) != (want, parts(&want)) {
                    return Err(json!({"what": "evaluation date", "expected": format!("{want:?}"), "observed": format!("{d:?}")}));
                }
            }
            Thing::Sheet(r, home) => {
                compare_sheet(r, v, home)?;
                let same = r.representation_currency_conversion(ccy(s(v, "ccy")), 3.0).expect("conversion");
                if same != **r { return Err(json!({"what": "currency it is shown in", "expected": s(v, "ccy"), "observed": format!("{r:?}")})) }
            }
            Thing::Pair(f) => {
                let (a, b) = (s(v, "a"), s(v, "b"));
                let seen = (f.get_currency1().as_str(), f.get_currency2().as_str(), text_of(f), f.to_string(), FxCode::from(f.to_string().as_str()) == *f);
                let want = (a, b, format!("\"{}\"", s(v, "text")), format!("{a}{b}"), true);
                if seen != want { return Err(json!({"what": "pair", "expected": format!("{want:?}"), "observed": format!("{seen:?}")})) }
            }
        }
        Ok(())
    }
}
pub fn store_one(v: &Value) -> Result<(), Value> {
    let mut shelf = vec![thing(&v["store"])];
    let mut drawer = vec![];
    for h in v["h"].as_array().unwrap() {
        let k = i(h, "i") as usize - 1;
        match s(h, "k") {
            "edit" => shelf[k].edit(&h["e"])?,
            "write" => drawer.push(shelf[k].write()),
            _ => shelf.push(Thing::read(&drawer[k])),
        }
    }
    let want = v["a"].as_array().unwrap();
    if want.len() != shelf.len() { panic!("harness: shelf") }
    for (x, w) in shelf.iter().zip(want) { x.compare(w)? }
    Ok(())
}

fn pairs(v: &Value) -> Vec<(i64, f32)> {
    v.as_array().unwrap().iter().map(|x| (i(x, "n"), i(x, "v") as f32)).collect()
}
fn listed((d, x): (Vec<time::Date>, Vec<f32>)) -> Vec<(i64, f32)> {
    assert!(d.len() == x.len(), "days {} values {}", d.len(), x.len());
    d.into_iter().map(day_no).zip(x).collect()
}
pub fn series_one(v: &Value) -> Result<(), Value> {
    let m = &v["market"];
    let (close, off) = (Time::MIDNIGHT + time::Duration::seconds(i(m, "close")), UtcOffset::from_whole_seconds(60 * i(m, "off") as i32).unwrap());
    let start: HashMap<_, _> = pairs(&v["start"]).into_iter().map(|(n, x)| (date(n), x)).collect();
    let mut data = DailyValueData::new(start, close, off, calendar(s(m, "kind")), "name".into(), "code".into());
    let mut price: Option<DailyClosePrice> = None;
    for h in v["h"].as_array().unwrap() {
        let (d, x) = (date(i(h, "n")), i(h, "v") as f32);
        match s(h, "op") {
            "put" => data.insert(d, x),
            "change" => if let Some(y) = data.get_mut(&d) { *y = x },
            "make" => price = Some(DailyClosePrice::new_from_data(&data).expect("new_from_data")),
            "move" => if let Some(y) = price.as_mut().expect("harness: price").get_mut(&d) { *y = x },
            "replace" => price.as_mut().expect("harness: price").set_value([1, 3, 5].into_iter().map(|k| (date(i(h, "n") + k), k as f32)).collect()),
            x => panic!("harness: series {x}"),
        }
    }
    let w = i(v, "w");
    let seen = listed(data.get_ordered_data_by_date());
    let by_day: Vec<_> = (w - 2..w + 12).filter_map(|n| data.get(&date(n)).map(|x| (n, *x))).collect();
    let want = pairs(&v["data"]);
    if seen != want || by_day != want || data.get_value().len() != want.len() {
        return Err(json!({"what": "daily values", "expected": format!("{want:?}"), "observed": format!("{seen:?} {by_day:?}")}));
    }
    if (data.get_name().as_str(), data.get_code().as_str(), data.get_close_time(), data.get_utc_offset()) != ("name", "code", &close, &off) {
        return Err(json!({"what": "series information", "observed": format!("{data:?}")}));
    }
    let Some(p) = price else { return Ok(()) };
    let seen = listed(p.get_ordered_data_by_datetime());
    let by_day: Vec<_> = (w - 2..w + 12).filter_map(|n| p.get(&date(n)).map(|x| (n, *x))).collect();
    let want = pairs(&v["price"]);
    if seen != want || by_day != want || p.get_value().len() != want.len() {
        return Err(json!({"what": "prices", "expected": format!("{want:?}"), "observed": format!("{seen:?} {by_day:?}")}));
    }
    if (p.get_name().as_str(), p.get_code().as_str(), p.get_close_time(), p.get_utc_offset()) != ("name", "code", &close, &off) {
        return Err(json!({"what": "series information", "observed": format!("{p:?}")}));
    }
    for q in v["looks"].as_array().unwrap() {
        let t = from_nso(&q["t"]) + time::Duration::nanoseconds(i(&q["t"], "f"));
        let seen = guard(|| p.get_at_datetime(&t).cloned());
        let want = q["v"][0].as_i64().map(|x| x as f32);
        if seen != Ok(want) {
            return Err(json!({"what": "get_at_datetime", "at": q["t"], "expected": want, "observed": format!("{seen:?}")}));
        }
    }
    Ok(())
}
