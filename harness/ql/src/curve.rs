//! Zero curves: pillars, bumps over windows, and everything read from them.
use crate::cal::*;
use crate::util::*;
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::Compounding;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::zero_curve::ZeroCurve;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::OffsetDateTime;

type Shared<T> = Rc<RefCell<T>>;
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap_or_else(|| panic!("harness: list")).iter().map(|x| x.as_i64().unwrap()).collect()
}
fn reals(v: &Value) -> Vec<f32> {
    ints(v).iter().map(|x| (*x as f64 / 1e6) as f32).collect()
}
fn fresh(e: OffsetDateTime, t: &[f32], r: &[f32]) -> Result<(Shared<EvaluationDate>, ZeroCurve), String> {
    let ed = Rc::new(RefCell::new(EvaluationDate::new(e)));
    let d = VectorData::new(Array1::from(r.to_vec()), None, Some(Array1::from(t.to_vec())), None, Currency::KRW, "c".into(), "c".into()).map(stored).map_err(|e| e.to_string())?;
    let c = ZeroCurve::new(ed.clone(), &d, "c".into(), "c".into()).map_err(|e| e.to_string())?;
    Ok((ed, c))
}
thread_local! { static CACHE: RefCell<HashMap<String, (Shared<EvaluationDate>, ZeroCurve)>> = RefCell::new(HashMap::new()); }
/// setting up a curve is slow: the fresh one is kept and copied
fn cached(e: OffsetDateTime, input: &Value) -> Result<(Shared<EvaluationDate>, ZeroCurve), String> {
    let key = format!("{e} {input}");
    let hit = CACHE.with(|c| c.borrow().get(&key).cloned());
    let (ed, c) = match hit {
        Some(x) => x,
        None => {
            let x = fresh(e, &reals(&input["t"]), &reals(&input["r"]))?;
            CACHE.with(|c| c.borrow_mut().insert(key, x.clone()));
            x
        }
    };
    ed.borrow_mut().set_date(e);
    Ok((ed, c))
}
fn off() -> i64 {
    [540, 0, -300][test_no() as usize % 3]
}
fn at(v: &Value) -> OffsetDateTime {
    dt(i(v, "n"), i(v, "s"), off())
}
/// the time of a place among the curve's pillars
fn time_of(ts: &Array1<f32>, q: i64) -> Option<f32> {
    let (n, k) = (ts.len(), (q / 2) as usize);
    match q {
        -1 => None,
        q if q % 2 == 0 => Some(ts[k - 1]),
        q if k == 0 => Some(ts[0] - 0.5 - q as f32 * 0.0),
        _ if k == n => Some(ts[n - 1] + 1.0),
        _ => Some((ts[k - 1] + ts[k]) / 2.0),
    }
}
fn apply(ed: &Shared<EvaluationDate>, c: &mut ZeroCurve, o: &Value, sec: i64) -> bool {
    match s(o, "op") {
        "move" => {
            ed.borrow_mut().set_date(at(&o["to"]));
            true
        }
        "time" => {
            let ts = c.get_cached_discount_times_clone();
            c.bump_time_interval(time_of(&ts, i(o, "lo")), time_of(&ts, i(o, "hi")), (i(o, "a") as f64 / 1e6) as f32).is_ok()
        }
        "date" => {
            let d = |k: &str| ints(&o[k]).first().map(|n| dt(*n, sec, off()));
            c.bump_date_interval(d("dlo").as_ref(), d("dhi").as_ref(), (i(o, "a") as f64 / 1e6) as f32).is_ok()
        }
        x => panic!("harness: op {x}"),
    }
}
fn near(g: f32, w: f64, tol: f64) -> bool {
    (g as f64 - w).abs() <= tol
}
/// everything read from the curve against rates `v` (parts per million) on pillars at `ts` (same)
fn reads(c: &ZeroCurve, v: &[i64], ts: &[i64], turn: u64) -> Result<(), Value> {
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got}));
    let (got, times, dfs) = (c.get_interpolated_rates(), c.get_cached_discount_times_clone(), c.get_cached_discount_factors_clone());
    if got.len() != v.len() || times.len() != v.len() || dfs.len() != v.len() {
        return bad("number of pillars", format!("{} {} {}", got.len(), times.len(), dfs.len()));
    }
    let r: Vec<f64> = v.iter().map(|x| *x as f64 / 1e6).collect();
    for k in 0..v.len() {
        let t = times[k] as f64;
        if !near(times[k], ts[k] as f64 / 1e6, 1.4e-5 + 4e-7 * t) {
            return bad("pillar time", format!("{k}: {t}"));
        }
        if !near(got[k], r[k], 7e-6) {
            return bad("rate on a pillar", format!("{k}: {}", got[k]));
        }
        if !near(dfs[k], (-r[k] * t).exp(), 8e-6 * t * (-r[k] * t).exp() + 3e-7) {
            return bad("discount factor on a pillar", format!("{k}: {}", dfs[k]));
        }
    }
    let df = |q: i64| -> f64 {
        let k = (q / 2) as usize;
        if q % 2 == 0 { dfs[k - 1] as f64 } else { (dfs[k - 1] as f64 + dfs[k] as f64) / 2.0 }
    };
    let n = v.len() as i64;
    let qs: Vec<i64> = (2..=2 * n).collect();
    let qt: Array1<f32> = qs.iter().map(|q| time_of(&times, *q).unwrap()).collect();
    let all = guard(|| c.get_vectorized_discount_factor_for_sorted_time(&qt).map_err(|e| e.to_string()));
    let one = guard(|| qt.iter().map(|t| c.get_discount_factor(*t).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>());
    let fits = |x: &[f32]| x.len() == qs.len() && x.iter().zip(&qs).all(|(g, q)| near(*g, df(*q), 4e-7 * (1.0 + df(*q))));
    if !matches!(&all, Ok(Ok(x)) if fits(x.as_slice().unwrap())) || !matches!(&one, Ok(Ok(x)) if fits(x)) {
        return bad("discount factor", format!("{one:?} / {all:?}"));
    }
    // what lies outside the curve has no answer
    let late = times[times.len() - 1] + 1.0;
    if !matches!(guard(|| (c.get_discount_factor(-0.01).is_err(), c.get_discount_factor(late).is_err(), c.get_discount_factor_between_times(1.0, 0.5).is_err())), Ok((true, true, true))) {
        return bad("discount factor outside the curve", String::new());
    }
    let mut g = Rng::new(turn);
    for _ in 0..4 {
        let (a, b) = (g.range(2, 2 * n - 1), g.range(2, 2 * n - 1));
        let (a, b) = (a.min(b), a.max(b) + 1);
        let (ta, tb) = (time_of(&times, a).unwrap(), time_of(&times, b).unwrap());
        let (d, tau) = (df(b) / df(a), (tb - ta) as f64);
        let noise = 1e-6 * d * (1.0 + 1.0 / df(a).max(1e-9) * 0.1);
        let f = |k| c.get_forward_rate_between_times(ta, tb, k).map_err(|e| e.to_string());
        let x = guard(|| (c.get_discount_factor_between_times(ta, tb).map_err(|e| e.to_string()), f(Compounding::Simple), f(Compounding::Continuous)));
        let ok = matches!(&x, Ok((Ok(x), Ok(y), Ok(z))) if near(*x, d, noise) && near(*y, (1.0 - d) / tau, noise / tau + 1e-6)
                                && near(*z, -d.ln() / tau, 2.0 * noise / d / tau + 1e-6));
        if !ok {
            return bad("between two times", format!("places {a} {b}: {x:?}"));
        }
        // over a day or so
        let t = ta;
        let x = guard(|| (c.get_short_rate_at_time(t).map_err(|e| e.to_string()), c.get_vectorized_short_rate_for_sorted_times(&[t, t]).map_err(|e| e.to_string()),
                          c.get_forward_rate_between_times(t, t + 0.002737, Compounding::Simple).map_err(|e| e.to_string())));
        if !matches!(&x, Ok((Ok(x), Ok(y), Ok(z))) if x == z && y[..] == [*x, *x]) {
            return bad("short rate", format!("{x:?}"));
        }
    }
    Ok(())
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got}));
    let e = at(&v["e"]);
    let sec = i(&v["e"], "s");
    let (ed, mut c) = match guard(|| cached(e, &v["in"])) {
        Ok(Ok(x)) => x,
        x => return bad("setting up", format!("{:?}", x.map(|r| r.map(|_| ())))),
    };
    let (want, ts) = (ints(&v["v"]), ints(&v["ts"]));
    for (k, o) in v["h"].as_array().unwrap().iter().enumerate() {
        let r = guard(|| apply(&ed, &mut c, o, sec));
        if r != Ok(v["ok"][k] == true) {
            return bad("step", format!("{k}: {r:?}"));
        }
    }
    reads(&c, &want, &ts, test_no())?;
    // and by date
    let dfs = c.get_cached_discount_factors_clone();
    let now = at(&v["now"]);
    let mut qs: Vec<&Value> = v["q"].as_array().unwrap().iter().collect();
    qs.sort_by_key(|q| i(q, "n"));
    let day = |q: &Value| dt(i(q, "n"), sec, off());
    let df = |q: &Value| {
        let (k, w) = (i(&q["p"], "i") as usize, i(&q["p"], "w") as f64 / 1e6);
        if w == 0.0 { dfs[k - 1] as f64 } else { dfs[k - 1] as f64 * (1.0 - w) + dfs[k] as f64 * w }
    };
    for q in &qs {
        let x = guard(|| (c.get_discount_factor_at_date(&day(q)).ok(), c.get_forward_rate_from_evaluation_date(&day(q), Compounding::Continuous).ok()));
        let t = i(q, "t") as f64 / 1e6;
        let ok = match &x {
            Ok((None, None)) => t < 0.0,
            Ok((Some(d), Some(f))) => t >= 0.0 && near(*d, df(q), 3e-6 + 1e-6 * df(q)) && (t < 0.05 || near(*f, -df(q).ln() / t, 6e-6 / t / df(q) + 4e-6)),
            Ok((Some(d), None)) => t == 0.0 && near(*d, 1.0, 1e-7),
            _ => false,
        };
        if !ok {
            return bad("discount factor at a date", format!("{}: {x:?}", day(q)));
        }
        let w = i(&q["p"], "w");
        if t > 0.0 && (100_000..900_000).contains(&w) {
            let x = guard(|| (c.get_instantaneous_forward_rate_from_date(&day(q)).ok(), c.get_short_rate_at_time(t as f32).ok()));
            if !matches!(x, Ok((Some(a), Some(b))) if near(a, b as f64, 4e-3 / df(q).min(1.0))) && !matches!(x, Ok((None, None))) {
                return bad("short rate at a date", format!("{}: {x:?}", day(q)));
            }
        }
    }
    let fut: Vec<OffsetDateTime> = qs.iter().filter(|q| i(q, "t") >= 0).map(|q| day(q)).collect();
    let x = guard(|| (c.get_vectorized_discount_factor_for_sorted_dates(&fut).ok(), fut.iter().map(|d| c.get_discount_factor_at_date(d).ok()).collect::<Option<Vec<_>>>()));
    if !matches!(&x, Ok((Some(a), Some(b))) if a == b) {
        return bad("discount factors at dates", format!("{x:?}"));
    }
    for w in fut.windows(2).skip(1) {
        let x = guard(|| (c.get_forward_rate_between_dates(&w[0], &w[1], Compounding::Simple).ok(), c.get_forward_rate_between_dates(&w[1], &w[0], Compounding::Simple).is_err()));
        let k = qs.iter().position(|q| day(q) == w[0]).unwrap();
        let (a, b) = (df(qs[k]), df(qs[k + 1]));
        let tau = (i(qs[k + 1], "t") - i(qs[k], "t")) as f64 / 1e6;
        if !matches!(x, Ok((Some(f), true)) if near(f, (1.0 - b / a) / tau, 8e-6 / tau / a.min(1.0) + 1e-5)) {
            return bad("forward rate between dates", format!("{} {}: {x:?}, {}", w[0], w[1], (1.0 - b / a) / tau));
        }
    }
    let _ = now;
    Ok(())
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut out = Out::new(path);
    let mut r = Rng::new(seed);
    let p = |x: f32| ppm(x);
    for _ in 0..runs {
        let (n0, sec) = (18000 + r.range(0, 4000), *r.pick(&[0i64, 57600, 43200]));
        let e = dt(n0, sec, 540);
        let n = r.range(1, 6);
        let mut t = r.range(0, 200_000);
        let mut input = Vec::new();
        let steep = r.chance(1, 2);
        for _ in 0..n {
            input.push((t, r.range(-5000, 70000)));
            t += r.range(20_000, if steep { 400_000 } else { 9_000_000 });
        }
        let ts: Vec<f32> = input.iter().map(|x| (x.0 as f64 / 1e6) as f32).collect();
        let rs: Vec<f32> = input.iter().map(|x| (x.1 as f64 / 1e6) as f32).collect();
        let (ed, mut c) = match guard(|| fresh(e, &ts, &rs)) {
            Ok(Ok(x)) => x,
            x => {
                out.line(&json!({"op": "failed", "why": format!("{:?}", x.map(|r| r.map(|_| ())))}));
                continue;
            }
        };
        let look = |c: &ZeroCurve| -> (Vec<i64>, Vec<i64>, Vec<i64>, Vec<i64>) {
            let d = c.get_cached_discount_factors_clone();
            (c.get_interpolated_rates().iter().map(|x| p(*x)).collect(), c.get_cached_discount_times_clone().iter().map(|x| p(*x)).collect(),
             d.iter().map(|x| p(*x)).collect(), d.iter().map(|x| (-(*x as f64).ln() * 1e6).round() as i64).collect())
        };
        let (v, t, d, y) = look(&c);
        out.line(&json!({"op": "new", "e": {"n": n0, "s": sec}, "in": {"t": input.iter().map(|x| x.0).collect::<Vec<_>>(), "r": input.iter().map(|x| x.1).collect::<Vec<_>>()},
                         "v": v, "ts": t, "df": d, "y": y}));
        let mut moved = 0i64;
        for _ in 0..len {
            let cached = c.get_cached_discount_times_clone();
            match r.below(8) {
                0 => {
                    moved = r.range(-30, 900);
                    ed.borrow_mut().set_date(dt(n0 + moved, sec, 540));
                    out.line(&json!({"op": "move", "e": {"n": n0 + moved, "s": sec}}));
                }
                k @ 1..=5 => {
                    let a = r.range(-3000, 3000);
                    let af = (a as f64 / 1e6) as f32;
                    if k <= 3 {
                        let end = |r: &mut Rng| if r.chance(1, 4) { -1 } else { r.range(1, 59) };
                        let (lo, hi) = (end(&mut r), end(&mut r));
                        let ok = guard(|| c.bump_time_interval(time_of(&cached, lo), time_of(&cached, hi), af).is_ok());
                        let (v, _, d, y) = look(&c);
                        out.line(&json!({"op": "time", "lo": lo, "hi": hi, "a": a, "ok": ok.map_or("panic", |o| if o { "yes" } else { "no" }), "v": v, "df": d, "y": y}));
                    } else {
                        // days that stand clear of every pillar
                        let end = |r: &mut Rng| -> Vec<i64> {
                            if r.chance(1, 4) { return vec![]; }
                            loop {
                                let k = *r.pick(&[60i64, 400, 4000, 20000]);
                                let d = r.range(-50, k);
                                let x = d as f32 / 365.25;
                                if cached.iter().all(|t| (t - x).abs() > 0.006 + 0.0002 * x.abs()) { return vec![n0 + moved + d]; }
                            }
                        };
                        let (lo, hi) = (end(&mut r), end(&mut r));
                        let day = |x: &Vec<i64>| x.first().map(|n| dt(*n, sec, 540));
                        let ok = guard(|| c.bump_date_interval(day(&lo).as_ref(), day(&hi).as_ref(), af).is_ok());
                        let (v, _, d, y) = look(&c);
                        out.line(&json!({"op": "date", "lo": lo, "hi": hi, "a": a, "ok": ok.map_or("panic", |o| if o { "yes" } else { "no" }), "v": v, "df": d, "y": y}));
                    }
                }
                _ => {
                    let k = *r.pick(&[30i64, 400, 4000, 30000]);
                    let n = n0 + moved + r.range(-10, k);
                    let x = guard(|| c.get_discount_factor_at_date(&dt(n, sec, 540)).ok());
                    out.line(&json!({"op": "ask", "n": n, "ok": x.as_ref().is_ok_and(|x| x.is_some()), "df": x.ok().flatten().map_or(0, p)}));
                }
            }
        }
    }
}
