//! Exponentially weighted mean and sum: replay and recording under several time scales and decay weights.
use crate::util::*;
use serde_json::{json, Value};
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::feature::weighted_valuation::{EWMA, EWMS};
use trading_engine::types::timestamp::{TimeScale, TimeStamp};

const SCALES: [(TimeScale, u64); 6] = [
    (TimeScale::Micro, 1_000),
    (TimeScale::Milli, 1_000_000),
    (TimeScale::Second, 1_000_000_000),
    (TimeScale::Minute, 60_000_000_000),
    (TimeScale::Hour, 3_600_000_000_000),
    (TimeScale::Day, 86_400_000_000_000),
];
/// one tick is num/den of the scale's unit
const TICKS: [(u64, u64); 6] = [(1, 1), (1, 2), (1, 8), (3, 1), (7, 2), (250, 1)];
const BASES: [u64; 4] = [0, 1, 1_700_000_000_123_456_789, 86_400_000_000_000 * 20_000 - 1];

struct Sut {
    a: EWMA,
    s: EWMS,
    now: u64,
    tick: u64,
}
impl Sut {
    fn new(r: i64, a0: i64, sc: usize, tk: usize, base: u64) -> Sut {
        let (scale, unit) = SCALES[sc];
        let (num, den) = TICKS[tk];
        let weight = if r == 99 { 0.0 } else { (0.5f64).powf(r as f64 * den as f64 / num as f64) };
        let w = reread(TimeSeriesWeight { weight, scale });
        Sut {
            a: EWMA::new(w, a0 as f64, TimeStamp { stamp: base }),
            s: EWMS::new(w, TimeStamp { stamp: base }),
            now: base,
            tick: unit * num / den,
        }
    }
    fn observe(&mut self, x: i64, d: i64) -> (f64, f64) {
        self.now += self.tick * d as u64;
        self.a.update(x as f64, TimeStamp { stamp: self.now });
        self.s.update(x as f64, TimeStamp { stamp: self.now });
        (self.a.get_value(), self.s.get_value())
    }
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    let (r, a0, one) = (i(t, "r"), i(t, "a0"), i(t, "one") as f64);
    for sc in 0..6 {
        for tk in 0..6 {
            let base = BASES[(sc + tk) % 4];
            let mut u = Sut::new(r, a0, sc, tk, base);
            for (k, h) in t["h"].as_array().unwrap().iter().enumerate() {
                let (ea, es) = (i(h, "avg") as f64 / one, i(h, "sum") as f64 / one);
                let got = guard(|| u.observe(i(h, "x"), i(h, "d")));
                let ok = matches!(got, Ok((a, s)) if (a - ea).abs() < 1e-9 && (s - es).abs() < 1e-9);
                if !ok {
                    return Err(json!({"step": k, "scale": sc, "tick": tk, "base": base.to_string(),
                        "expected": [ea, es], "observed": format!("{got:?}")}));
                }
            }
        }
    }
    Ok(())
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    let fix = |v: f64| -> i64 {
        let v = (v * 1024.0).round();
        if v.is_finite() && v.abs() < 2e9 { v as i64 } else { 2_000_000_000 }
    };
    for _ in 0..runs {
        let r = *g.pick(&[0, 1, 1, 1, 2, 3, 99]);
        let a0 = g.range(-500, 500);
        let sc = g.below(6) as usize;
        let tk = g.below(if sc >= 4 { 3 } else { 6 }) as usize; // keep the end of the run below the clock's range
        let mut u = Sut::new(r, a0, sc, tk, *g.pick(&BASES));
        out.line(&json!({"op": "reset", "r": r, "a0": a0}));
        for _ in 0..len {
            let d = *g.pick(&[0, 0, 1, 1, 2, 3, 5, 9, 40, 1000]);
            let x = g.range(-1000, 1000);
            let (a, s) = u.observe(x, d);
            out.line(&json!({"op": "obs", "x": x, "d": d, "avg": fix(a), "sum": fix(s)}));
        }
    }
}
