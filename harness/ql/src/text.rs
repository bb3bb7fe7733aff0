//! What figures, spans of time, days and results look like when they are shown.
use crate::util::*;
use ndarray::Array1;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::util::{format_duration, is_ndarray_sorted, min_offsetdatetime, to_yyyymmdd_int};
use quantlib::utils::string_arithmetic::{from_i32_to_month, from_month_to_i32, from_period_string_to_float};
use quantlib::utils::number_format::{formatted_number, write_number_with_commas};
use serde_json::{json, Value};
use std::collections::HashMap;
use time::{Date, Duration, Month, OffsetDateTime, UtcOffset};

struct Shown(f32);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write_number_with_commas(f, self.0)
    }
}
fn figure(neg: bool, m: i64, e: i64) -> f32 {
    let x = (m as f64 * 2f64.powi(e as i32)) as f32;
    assert!(x as f64 == m as f64 * 2f64.powi(e as i32), "harness: figure");
    if neg { -x } else { x }
}
fn fig(v: &Value) -> f32 {
    figure(v["neg"] == true, i(v, "m"), i(v, "e"))
}
fn one_of(texts: &Value, got: &str) -> bool {
    texts.as_array().unwrap().iter().any(|t| t == got)
}
fn day(v: &Value) -> Date {
    let k = |n: usize| v[n].as_i64().unwrap();
    Date::from_calendar_date(k(0) as i32, Month::try_from(k(1) as u8).unwrap(), k(2) as u8).unwrap()
}
fn moment(a: &[i64]) -> OffsetDateTime {
    day(&json!([a[0], a[1], a[2]])).with_hms(a[3] as u8, 30, 0).unwrap().assume_offset(UtcOffset::from_hms(a[4] as i8, 0, 0).unwrap())
}
/// id, day and figure of the lines "id: (day, figure)"
fn lines(text: &str) -> Vec<(String, String, String)> {
    text.lines().filter_map(|l| {
        let (id, rest) = l.split_once(": (")?;
        let (day, x) = rest.split_once(", ")?;
        Some((id.trim().into(), day.into(), x.trim().strip_suffix(')')?.into()))
    }).collect()
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got}));
    match v["k"].as_str().unwrap() {
        "figure" => {
            let x = fig(&v["x"]);
            let r = guard(|| (formatted_number(x), Shown(x).to_string()));
            match &r {
                Ok((a, b)) if one_of(&v["x"]["whole"], a) && one_of(&v["x"]["tenth"], b) => {}
                _ => return bad("figure", format!("{r:?} for {x:e}")),
            }
        }
        "span" => {
            let r = guard(|| format_duration(i(v, "c") as f64 / 100.0));
            if r.as_deref() != Ok(v["text"].as_str().unwrap()) {
                return bad("span of time", format!("{r:?}"));
            }
        }
        "day" => {
            let a: Vec<i64> = serde_json::from_value(v["at"].clone()).unwrap();
            let d = moment(&a);
            let r = guard(|| to_yyyymmdd_int(&d) as i64);
            if r != Ok(i(v, "int")) {
                return bad("day as a number", format!("{r:?}"));
            }
            // the earlier of two moments, whatever offsets they are told in
            for (h, o) in [(-1i64, 9), (0, -9), (1, 9), (-1, -9), (0, 0), (1, -9)] {
                let e = (d + Duration::hours(h)).to_offset(UtcOffset::from_hms(o, 0, 0).unwrap());
                let r = guard(|| (min_offsetdatetime(&d, &e), min_offsetdatetime(&e, &d)));
                let want = if h < 0 { e } else { d };
                if r != Ok((want, want)) {
                    return bad("the earlier of two moments", format!("{r:?}"));
                }
            }
        }
        "order" => {
            let x: Vec<i64> = serde_json::from_value(v["x"].clone()).unwrap();
            let r = guard(|| (is_ndarray_sorted(&Array1::from(x.clone())), is_ndarray_sorted(&x.iter().map(|k| *k as f32 * 0.5 - 1.0).collect::<Array1<f32>>())));
            let ok = v["ok"] == true;
            if r != Ok((ok, ok)) {
                return bad("in order or not", format!("{r:?}"));
            }
        }
        "result" => {
            let flows = v["flows"].as_array().unwrap();
            let map = |key: &str| -> HashMap<usize, (OffsetDateTime, f32)> {
                flows.iter().map(|f| (i(f, "id") as usize, (day(&f["date"]).with_hms(16, 0, 0).unwrap().assume_offset(UtcOffset::from_hms(9, 0, 0).unwrap()), fig(&f[key])))).collect()
            };
            let r = NpvResult::new(fig(&v["npv"]), map("amount"), map("prob"));
            let text = match guard(|| format!("{r:?}")) {
                Ok(t) => t,
                Err(e) => return bad("result shown", e),
            };
            let npv = text.lines().find_map(|l| l.trim().strip_prefix("npv:")).map(|x| x.trim().to_string());
            if !npv.is_some_and(|n| one_of(&v["npv"]["tenth"], &n)) {
                return bad("value of a result", text);
            }
            let got = lines(&text);
            if got.len() != 2 * flows.len() {
                return bad("flows of a result", text);
            }
            for (k, f) in flows.iter().enumerate() {
                for (row, key) in [(&got[k], "amount"), (&got[flows.len() + k], "prob")] {
                    if row.0 != i(f, "id").to_string() || row.1 != day(&f["date"]).to_string() || !one_of(&f[key]["tenth"], &row.2) {
                        return bad(&format!("{key} of flow {k}"), text);
                    }
                }
            }
        }
        "period" => {
            let want = i(v, "years") as f64 + i(v, "rest") as f64 / i(v, "of") as f64;
            match guard(|| from_period_string_to_float(s(v, "text")).map_err(|e| e.to_string())) {
                Ok(Ok(x)) if (x as f64 - want).abs() <= want * 4e-7 => {}
                r => return bad("years of a period", format!("{r:?} for {want}")),
            }
        }
        "noperiod" => {
            let r = guard(|| from_period_string_to_float(s(v, "text")).map_err(|e| e.to_string()));
            if !matches!(r, Ok(Err(_))) {
                return bad("no period", format!("{r:?}"));
            }
        }
        "often" => {
            let f = crate::cal::freq(s(v, "f"));
            let r = guard(|| (f.as_real(), f.as_str().to_string(), f.to_string(), (1..=13).map(|k| f.to_string_with_multiple(k)).collect::<Vec<_>>()));
            match &r {
                Ok((n, a, b, c)) if *n == i(v, "n") as f32 && a == b && *a == c[0] && json!(c) == v["steps"] => {}
                _ => return bad("frequency", format!("{r:?}")),
            }
        }
        "months" => {
            for (k, name) in v["names"].as_array().unwrap().iter().enumerate() {
                let r = guard(|| (from_i32_to_month(k as i32).to_string(), from_month_to_i32(Month::try_from(k as u8 + 1).unwrap())));
                if r != Ok((name.as_str().unwrap().to_string(), k as i32)) {
                    return bad("month", format!("{r:?}"));
                }
            }
            if guard(|| from_i32_to_month(12)).is_ok() || guard(|| from_i32_to_month(-1)).is_ok() {
                return bad("month", "a month that does not exist".into());
            }
        }
        k => panic!("harness: {k}"),
    }
    Ok(())
}
pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        out.line(&json!({"op": "reset"}));
        for _ in 0..len {
            match g.below(6) {
                0 | 1 | 2 => {
                    let e = if g.chance(2, 3) { g.range(-24, 12) } else { g.range(-40, 100) };
                    let m = if e < 0 { g.range(0, 10_000_000) >> g.below(20) } else { g.range(0, (1 << 24) - 1) >> g.below(20) };
                    let neg = g.chance(1, 2);
                    let x = figure(neg, m, e);
                    out.line(&json!({"op": "figure", "neg": neg, "m": m, "e": e, "whole": formatted_number(x), "tenth": Shown(x).to_string()}));
                }
                3 => {
                    let c = g.range(0, 2_000_000) >> g.below(16);
                    out.line(&json!({"op": "span", "c": c, "text": format_duration(c as f64 / 100.0)}));
                }
                4 => {
                    let (y, m, d) = (g.range(1900, 2200), g.range(1, 12), g.range(1, 28));
                    let t = moment(&[y, m, d, g.range(0, 23), g.range(-11, 12)]);
                    out.line(&json!({"op": "day", "y": y, "m": m, "d": d, "int": to_yyyymmdd_int(&t)}));
                }
                _ => {
                    let n = g.range(1, 12);
                    let mut x: Vec<i64> = (0..n).map(|_| g.range(-50, 50)).collect();
                    if g.chance(2, 3) {
                        x.sort();
                        if g.chance(1, 2) {
                            let k = g.below(n as u64) as usize;
                            x[k] += g.range(-3, 3);
                        }
                    }
                    out.line(&json!({"op": "order", "x": x, "ok": is_ndarray_sorted(&Array1::from(x.clone()))}));
                }
            }
        }
    }
}
