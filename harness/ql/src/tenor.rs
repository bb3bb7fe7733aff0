//! Tenor arithmetic on times, dates and the evaluation date.
use crate::cal::*;
use crate::util::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::utils::string_arithmetic::{add_period, add_period_date, sub_period, sub_period_date};
use serde_json::{json, Value};
use std::cell::Cell;

fn text(t: &Value) -> (String, bool) {
    let mut s = String::new();
    let mut dates = true;
    for p in t.as_array().unwrap() {
        let u = p["u"].as_str().unwrap();
        dates &= matches!(u, "Y" | "M" | "W" | "D");
        s += &format!("{}{}", p["k"], u);
    }
    (s, dates)
}
thread_local! { static TURN: Cell<u64> = const { Cell::new(0) }; }

pub fn replay_one(v: &Value) -> Result<(), Value> {
    let (n, s, sg) = (i(v, "n"), i(v, "s"), i(v, "sg"));
    let (en, es, late) = (i(v, "en"), i(v, "es"), i(v, "late"));
    let (t, dates) = text(&v["t"]);
    let turn = TURN.with(|x| { x.set(x.get() + 1); x.get() });
    let o = [0i64, 540, -300, 330, -720][(turn % 5) as usize];
    let x = dt(n, s, o);
    let bad = |what: &str, got: String| Err(json!({"what": what, "tenor": t, "offset": o, "observed": got}));
    let want = (en, es, o);
    let r = guard(|| parts(&if sg > 0 { add_period(&x, &t) } else { sub_period(&x, &t) }));
    if r != Ok(want) {
        return bad("add_period/sub_period", format!("{r:?}"));
    }
    if turn % 2 == 0 {
        let r = guard(|| {
            let mut e = stored(EvaluationDate::new(x));
            if sg > 0 { e += &t } else { e -= &t }
            parts(e.get_date())
        });
        if r != Ok(want) {
            return bad("EvaluationDate assignment", format!("{r:?}"));
        }
    } else {
        let r = guard(|| {
            let e = stored(EvaluationDate::new(x));
            parts(&if sg > 0 { e + t.as_str() } else { e - t.as_str() })
        });
        if r != Ok(want) {
            return bad("EvaluationDate operator", format!("{r:?}"));
        }
    }
    if dates {
        let r = guard(|| day_no(if sg > 0 { add_period_date(&date(n), &t) } else { sub_period_date(&date(n), &t) }));
        match r {
            Ok(d) if d == en => {}
            Ok(d) if d == late => known("C24-sub_period_date-late-year"),
            _ => return bad("add_period_date/sub_period_date", format!("{r:?}")),
        }
    }
    Ok(())
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        let o = *g.pick(&[0i64, 540, -300, 345]);
        let n = if g.chance(1, 2) { g.range(7305, 29220) } else { day_no(quantlib_month_end(&mut g)) };
        let s = *g.pick(&[0i64, 1, 43200, 61200, 86399, 86399]);
        let mut e = EvaluationDate::new(dt(n, s, o));
        out.line(&json!({"op": "reset", "n": n, "s": s}));
        for _ in 0..len {
            let day = day_no(e.date());
            let sg = if day < 3650 { 1 } else if day > 36525 { -1 } else if g.chance(1, 2) { 1 } else { -1 };
            let mut t = vec![];
            let all = g.chance(1, 2);
            for _ in 0..g.range(1, 3) {
                let u = *g.pick(if all { &["Y", "M", "W", "D", "h", "min", "sec"][..] } else { &["Y", "M", "W", "D"][..] });
                let k = match u {
                    "Y" => g.range(0, 6),
                    "M" => g.range(0, 40),
                    "W" => g.range(0, 60),
                    "D" => g.range(0, 400),
                    "h" => g.range(0, 60),
                    "min" => g.range(0, 3000),
                    _ => g.range(0, 100000),
                };
                t.push(json!({"u": u, "k": k}));
            }
            let tv = Value::Array(t);
            let (text, dates) = text(&tv);
            let d0 = e.date();
            if sg > 0 { e += &text } else { e -= &text }
            let (n, s, _) = parts(e.get_date());
            let dn = if dates { day_no(if sg > 0 { add_period_date(&d0, &text) } else { sub_period_date(&d0, &text) }) } else { 0 };
            out.line(&json!({"op": "move", "t": tv, "sg": sg, "n": n, "s": s, "dn": dn}));
        }
    }
}
fn quantlib_month_end(g: &mut Rng) -> time::Date {
    let (y, m) = (g.range(1995, 2045) as i32, g.range(1, 12) as u8);
    let first = time::Date::from_calendar_date(y, time::Month::try_from(m).unwrap(), 1).unwrap();
    first.previous_day().unwrap()
}
