//! Year fractions and exact time differences.
use crate::cal::*;
use crate::util::*;
use quantlib::time::calendar_trait::CalendarTrait;
use serde_json::{json, Value};
use std::cell::Cell;

thread_local! { static TURN: Cell<usize> = const { Cell::new(0) }; }

pub fn replay_one(v: &Value) -> Result<(), Value> {
    let turn = TURN.with(|x| { x.set(x.get() + 1); x.get() });
    let o = [0i64, 540, -300, 330][turn % 4];
    let at = |k: &str| dt(i(&v[k], "n"), i(&v[k], "s"), o);
    let (a, b, tol) = (at("a"), at("b"), i(v, "tol"));
    let kinds: Vec<String> = vec![KINDS[turn % 8].to_string(), KINDS[turn / 8 % 8].to_string()];
    let cal = calendar(&kinds[0]);
    let j = joint(&kinds);
    for c in COUNTS {
        let want = i(&v["f"], c);
        for (who, r) in [("calendar", guard(|| cal.year_fraction(&a, &b, &count(c)))), ("joint", guard(|| j.year_fraction(&a, &b, &count(c))))] {
            let ok = matches!(&r, Ok(Ok(x)) if (ppm(*x) - want).abs() <= tol);
            if !ok {
                return Err(json!({"what": "year_fraction", "convention": c, "of": who, "kinds": kinds, "expected": want, "observed": format!("{r:?}")}));
            }
        }
        if a != b {
            let r = guard(|| cal.year_fraction(&b, &a, &count(c)).is_err());
            if r != Ok(true) {
                return Err(json!({"what": "year_fraction of a reversed interval", "convention": c, "observed": format!("{r:?}")}));
            }
        }
    }
    let (want, tol) = (i(v, "t"), i(v, "tt"));
    for (x, y, w) in [(a, b, want), (b, a, -want)] {
        // the end of the interval may be given in another offset
        let y2 = y.to_offset(time::UtcOffset::from_whole_seconds([0, 32400, -18000][turn % 3]).unwrap());
        // (the year then ends at the other end's midnight: a few hours counted with the other year's length)
        for (yy, tol) in [(y, tol), (y2, tol + 12)] {
            let r = guard(|| (ppm(cal.get_time_difference(&x, &yy)), ppm(j.get_time_difference(&x, &yy))));
            let ok = matches!(r, Ok((p, q)) if (p - w).abs() <= tol && (q - w).abs() <= tol);
            if !ok {
                return Err(json!({"what": "get_time_difference", "from": nso(&x), "to": nso(&yy), "expected": w, "observed": format!("{r:?}")}));
            }
        }
    }
    Ok(())
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        out.line(&json!({"op": "reset"}));
        let cal = calendar(KINDS[g.below(8) as usize]);
        let o = *g.pick(&[0i64, 540, -300]);
        for _ in 0..len {
            let mut t = || {
                let n = if g.chance(1, 3) { g.range(7305, 29220) } else {
                    let f = time::Date::from_calendar_date(g.range(1990, 2049) as i32, time::Month::try_from(g.range(1, 12) as u8).unwrap(), 1).unwrap();
                    day_no(f) + g.range(-3, 2)
                };
                (n, *g.pick(&[0i64, 0, 1, 32400, 61200, 86399]))
            };
            let (a, mut b) = (t(), t());
            if g.chance(1, 3) {
                b = (a.0 + g.range(-3, 70), b.1);
            }
            let (x, y) = (dt(a.0, a.1, o), dt(b.0, b.1, o));
            let mut f = serde_json::Map::new();
            for c in COUNTS {
                let r = cal.year_fraction(&x, &y, &count(c));
                f.insert(c.to_string(), json!({"ok": r.is_ok(), "v": r.map(ppm).unwrap_or(0)}));
            }
            out.line(&json!({"op": "frac", "a": {"n": a.0, "s": a.1}, "b": {"n": b.0, "s": b.1}, "f": f, "t": ppm(cal.get_time_difference(&x, &y))}));
        }
    }
}
