//! Coupon schedules.
use crate::cal::*;
use crate::util::*;
use quantlib::instruments::schedule::{build_schedule, Schedule};
use serde_json::{json, Value};
use time::OffsetDateTime;

fn rows(s: &Schedule) -> Vec<[OffsetDateTime; 4]> {
    s.iter().map(|r| [*r.get_fixing_date(), *r.get_calc_start_date(), *r.get_calc_end_date(), *r.get_payment_date()]).collect()
}

pub fn replay_one(v: &Value) -> Result<(), Value> {
    let (eff, mat) = (from_nso(&v["eff"]), from_nso(&v["mat"]));
    let j = joint(&kinds_of(v));
    let r = guard(|| {
        build_schedule(v["fwd"].as_bool().unwrap(), &eff, &mat, &j, &conv(s(v, "c")), &freq(s(v, "f")), i(v, "fg"), i(v, "pg"))
            .map(stored).map(|x| (rows(&x), x.len(), x.is_empty())).map_err(|e| e.to_string())
    });
    let ok = v["ok"].as_bool().unwrap();
    let want: Vec<Vec<i64>> = v["rows"].as_array().unwrap().iter()
        .map(|r| r.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()).collect();
    let (sec, o) = (i(&v["eff"], "s"), i(&v["eff"], "o"));
    let good = match &r {
        Ok(Ok((got, n, e))) => ok && *n == want.len() && *e == want.is_empty() && got.len() == want.len()
            && got.iter().zip(&want).all(|(g, w)| (0..4).all(|k| parts(&g[k]) == (w[k], sec, o))),
        Ok(Err(_)) => !ok,
        Err(_) => false,
    };
    if good {
        Ok(())
    } else {
        let show = match r {
            Ok(Ok((g, _, _))) => json!(g.iter().map(|x| x.iter().map(|t| parts(t).0).collect::<Vec<_>>()).collect::<Vec<_>>()),
            Ok(Err(e)) => json!(e.chars().take(200).collect::<String>()),
            Err(p) => json!(p),
        };
        Err(json!({"what": "build_schedule", "expected_ok": ok, "expected": want, "observed": show}))
    }
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        out.line(&json!({"op": "reset"}));
        for _ in 0..len {
            let kinds: Vec<String> = (0..g.range(1, 2)).map(|_| g.pick(&KINDS).to_string()).collect();
            let j = joint(&kinds);
            let f = *g.pick(&FREQS);
            let life = match f {
                "daily" => g.range(-2, 25),
                "weekly" => g.range(-2, 120),
                "biweekly" | "semimonthly" => g.range(-2, 250),
                "monthly" => g.range(-2, 600),
                _ => g.range(-2, 1500),
            } * if g.chance(1, 8) { 8 } else { 1 };
            let n = if g.chance(1, 2) { g.range(14610, 24000) } else {
                let f = time::Date::from_calendar_date(g.range(2010, 2035) as i32, time::Month::try_from(g.range(1, 12) as u8).unwrap(), 1).unwrap();
                day_no(f) - g.range(1, 3)
            };
            let (s, o) = (*g.pick(&[0i64, 34200, 59400, 86399]), *g.pick(&[540i64, 540, 0, -300]));
            let life = life.min(29000 - n);
            let (eff, mat) = (dt(n, s, o), dt(n + life, s, o));
            let (fwd, c) = (g.chance(1, 2), *g.pick(&CONVS));
            let (fg, pg) = (if g.chance(1, 20) { -1 } else { g.range(0, 3) }, if g.chance(1, 20) { -1 } else { g.range(0, 3) });
            let r = build_schedule(fwd, &eff, &mat, &j, &conv(c), &freq(f), fg, pg);
            let rs: Vec<Value> = r.as_ref().map(|x| rows(x).iter()
                .map(|r| json!({"fix": nso(&r[0]), "start": nso(&r[1]), "end": nso(&r[2]), "pay": nso(&r[3])})).collect()).unwrap_or_default();
            out.line(&json!({"op": "build", "fwd": fwd, "eff": nso(&eff), "mat": nso(&mat), "kinds": kinds, "c": c, "f": f, "fg": fg, "pg": pg,
                             "ok": r.is_ok(), "rows": rs}));
        }
    }
}
