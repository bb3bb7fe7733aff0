//! Closed days of every market, edits by hand, joint calendars and business-day adjustment.
use crate::cal::*;
use crate::util::*;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::jointcalendar::JointCalendar;
use serde_json::{json, Value};

pub fn replay_one(v: &Value) -> Result<(), Value> {
    let kinds = kinds_of(v);
    let mut cals: Vec<_> = kinds.iter().map(|k| calendar(k)).collect();
    for h in v["h"].as_array().unwrap() {
        let c = &mut cals[i(h, "i") as usize - 1];
        edit(c, s(h, "op"), i(h, "n"));
        *c = stored(c.clone());
    }
    let single = if cals.len() == 1 { Some(cals[0].clone()) } else { None };
    let j = JointCalendar::new(cals).map(stored).expect("joint");
    for q in v["t"].as_array().unwrap() {
        let t = from_nso(q);
        let closed = q["closed"].as_bool().unwrap();
        let mut seen = vec![("joint", guard(|| (j.is_holiday(&t), j.is_business_day(&t), CalendarTrait::is_business_day(&j, &t))))];
        if let Some(c) = &single {
            seen.push(("single", guard(|| (c.is_holiday(&t), c.is_business_day(&t), c.is_business_day(&t)))));
        }
        for (who, r) in seen {
            if r != Ok((closed, !closed, !closed)) {
                return Err(json!({"what": "is_holiday/is_business_day", "of": who, "at": q, "observed": format!("{r:?}")}));
            }
        }
        for (k, c) in CONVS.iter().enumerate() {
            let want = q["adj"][k].as_i64().unwrap();
            let mut seen = vec![("joint", guard(|| j.adjust(&t, &conv(c)).map(|x| parts(&x)).map_err(|e| e.to_string())))];
            if let Some(x) = &single {
                seen.push(("single", guard(|| x.adjust(&t, &conv(c)).map(|x| parts(&x)).map_err(|e| e.to_string()))));
            }
            for (who, r) in seen {
                if r != Ok(Ok((want, i(q, "s"), i(q, "o")))) {
                    return Err(json!({"what": "adjust", "convention": c, "of": who, "at": q, "expected": want, "observed": format!("{r:?}")}));
                }
            }
        }
    }
    Ok(())
}

/// every day of every month from y0 to y1 (one run per calendar)
pub fn record_months(y0: u64, y1: u64, path: &str) {
    let mut out = Out::new(path);
    for k in KINDS {
        let (cal, zone) = (calendar(k), if k.starts_with("kr") { 540 } else if k == "null" { 0 } else { -300 });
        let (a, b) = if k.starts_with("kr") { (y0.max(1951), y1.min(2050)) } else { (y0.max(1951), y1.min(2199)) };
        out.line(&json!({"op": "reset", "kinds": [k]}));
        for y in a..=b {
            for m in 1..=12u8 {
                let f = time::Date::from_calendar_date(y as i32, time::Month::try_from(m).unwrap(), 1).unwrap();
                let n = day_no(f);
                let mut closed = vec![];
                for d in 0..time::util::days_in_year_month(y as i32, time::Month::try_from(m).unwrap()) as i64 {
                    if cal.is_holiday(&dt(n + d, [0, 86399][(d % 2) as usize], zone)) {
                        closed.push(d + 1);
                    }
                }
                out.line(&json!({"op": "month", "y": y, "m": m, "closed": closed}));
            }
        }
    }
}

/// random calendars, edits, looks and adjustments
pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        let kinds: Vec<String> = (0..g.range(1, 3)).map(|_| g.pick(&KINDS).to_string()).collect();
        let mut cals: Vec<_> = kinds.iter().map(|k| calendar(k)).collect();
        out.line(&json!({"op": "reset", "kinds": kinds}));
        let n0 = g.range(7305, 29000); // 1990 .. 2049
        let mut j = JointCalendar::new(cals.clone()).expect("joint");
        for _ in 0..len {
            let n = n0 + g.range(0, 40);
            let t = dt(n, *g.pick(&[0i64, 18000, 35999, 36000, 61200, 86399]), *g.pick(&[0i64, 540, -300, 720]));
            match g.below(8) {
                0 => {
                    let (k, op) = (g.below(cals.len() as u64) as usize, *g.pick(&["add", "remove"]));
                    edit(&mut cals[k], op, n);
                    j = JointCalendar::new(cals.clone()).expect("joint");
                    out.line(&json!({"op": op, "i": k + 1, "n": n}));
                }
                1..=3 => {
                    let (n, s, o) = parts(&t);
                    let single = cals.len() == 1 && g.chance(1, 2);
                    let (c, b, w) = if single { (cals[0].is_holiday(&t), cals[0].is_business_day(&t), cals[0].is_weekend(&t)) } else { (j.is_holiday(&t), j.is_business_day(&t), j.is_weekend(&t)) };
                    out.line(&json!({"op": "look", "n": n, "s": s, "o": o, "closed": c, "open": b, "weekend": w}));
                }
                4 => {
                    let ((n, s, o), days, all) = (parts(&t), g.range(0, 40), g.chance(1, 2));
                    let (end, single) = (t + time::Duration::days(days) + time::Duration::seconds(*g.pick(&[0i64, 1, 86399])), cals.len() == 1);
                    let text = printed(&format!("{path}.list"), || if single { cals[0].display_holidays(&t, &end, all) } else { j.display_holidays(&t, &end, all) });
                    let at: Vec<_> = text.lines().map(|l| (printed_time(l) - t).whole_seconds()).collect();
                    assert!(at.iter().all(|x| x % 86400 == 0), "listed {text:?} from {t}");
                    out.line(&json!({"op": "list", "n": n, "s": s, "o": o, "days": days, "all": all, "at": at.iter().map(|x| x / 86400).collect::<Vec<_>>()}));
                }
                _ => {
                    let c = *g.pick(&CONVS);
                    let r = j.adjust(&t, &conv(c)).expect("adjust");
                    let ((n, s, o), (rn, rs, ro)) = (parts(&t), parts(&r));
                    out.line(&json!({"op": "adjust", "n": n, "s": s, "o": o, "c": c, "rn": rn, "rs": rs, "ro": ro}));
                }
            }
        }
    }
}

/// a time as it is displayed
fn printed_time(l: &str) -> time::OffsetDateTime {
    use time::macros::format_description;
    let f = format_description!("[year]-[month]-[day] [hour padding:none]:[minute]:[second].[subsecond] [offset_hour sign:mandatory]:[offset_minute]:[offset_second]");
    time::OffsetDateTime::parse(l.trim(), &f).unwrap_or_else(|e| panic!("listed {l:?}: {e}"))
}
