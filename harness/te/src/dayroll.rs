//! Times of day -> timestamps, and rendering of timestamps.
use crate::util::*;
use serde_json::{json, Value};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp, DAY_NANOSCALE};
use trading_engine::utils::numeric_converter::{IntegerConverter, TimeStampConverter};
use trading_engine::utils::timer::{convert_unix_nano_to_date_and_time, time_components_from_unix_nano};

const S: u64 = 1_000_000_000;

fn nano(i: &Value) -> u64 {
    i[0].as_u64().unwrap() * DAY_NANOSCALE + i[1].as_u64().unwrap() * S + i[2].as_u64().unwrap() * 1000
}
fn inst(n: u64) -> Value {
    if n % 1000 != 0 {
        return json!([n / DAY_NANOSCALE, (n % DAY_NANOSCALE) / S, -1, n % 1000]);
    }
    json!([n / DAY_NANOSCALE, (n % DAY_NANOSCALE) / S, (n % S) / 1000])
}
fn prev(g: &DateUnixNanoGenerator) -> Value {
    assert_eq!(g.prev_timestamp, g.get_prev_timestamp());
    if g.prev_timestamp == 0 { json!([]) } else { inst(g.prev_timestamp) }
}
fn base(g: &DateUnixNanoGenerator) -> Value {
    let b = g.get_utcdate_unix_nano();
    if b % DAY_NANOSCALE == 0 && b == g.utcdate_unix_nano { json!(b / DAY_NANOSCALE) } else { json!(format!("{b}")) }
}
fn conv(off: u64) -> TimeStampConverter {
    TimeStampConverter::new(IntegerConverter::default(), off * S)
}
/// digits with room behind them (the parsers read whole machine words)
fn digits(s: u64, u: u64) -> Vec<u8> {
    let mut b = format!("{:02}{:02}{:02}{:06}", s / 3600, (s / 60) % 60, s % 60, u).into_bytes();
    b.extend_from_slice(&[0u8; 32]);
    b
}
fn start(i: &Value, how: u64) -> DateUnixNanoGenerator {
    if how % 2 == 0 {
        return DateUnixNanoGenerator::from_unixnano(nano(i));
    }
    let d = time::Date::from_julian_day(2_440_588 + i[0].as_i64().unwrap() as i32).unwrap();
    DateUnixNanoGenerator::from(d)
}
fn apply(g: &mut DateUnixNanoGenerator, e: &Value, how: u64) -> Result<Option<Value>, String> {
    match s(e, "op") {
        "feed" => {
            let b = digits(i(e, "s") as u64, i(e, "u") as u64);
            let sys = if how % 3 == 0 { None } else { Some(TimeStamp::new(how * 1_000)) };
            let r = guard(|| conv(i(e, "off") as u64).parse_hhmmssuuuuuu(&b[..12], sys, g))?;
            *g = stored(*g);
            return r.map(stored).map(|t| Some(inst(t.stamp))).map_err(|e| e.to_string());
        }
        "set" => g.set_timestamp(TimeStamp::new(nano(&e["i"]))),
        "cache" => g.cache_timestamp(nano(&e["i"])),
        "incr" => g.increment(5),
        "restart" | "reset" => {
            *g = start(&e["i"], how);
            return Ok(Some(json!([base(g), 0, 0])));
        }
        x => panic!("harness: op {x}"),
    }
    *g = stored(*g);
    Ok(None)
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    let d0 = i(t, "d0");
    let mut ts = json!([d0, 0, 0]);
    for how in 0..2u64 {
        let mut g = start(&json!([d0, 0, 0]), how);
        for e in t["h"].as_array().unwrap() {
            match apply(&mut g, e, how) {
                Err(p) => return Err(json!({"failed": p})),
                Ok(Some(x)) => ts = x,
                Ok(None) => {}
            }
        }
        let o = json!({"base": base(&g), "prev": prev(&g), "ts": ts});
        if o["base"] != t["base"] || o["prev"] != t["prev"] || o["ts"] != t["ts"] {
            return Err(json!({"observed": o}));
        }
    }
    Ok(())
}

fn render_event(day: u64, sec: u64, frac: u64, off: i32) -> Value {
    let n = day * DAY_NANOSCALE + sec * S + frac;
    let e = json!({"op": "render", "i": [day, sec], "frac": [frac / 1_000_000, (frac / 1000) % 1000, frac % 1000], "off": off});
    let r = guard(|| {
        let (d, t) = convert_unix_nano_to_date_and_time(n, off);
        let c = time_components_from_unix_nano(n);
        let u = stored(TimeStamp::new(n)).to_date_utc().unwrap();
        (d, t, c, u)
    });
    let mut e = e;
    match r {
        Err(p) => e["op"] = json!(format!("panic {p}")),
        Ok((d, t, c, u)) => {
            let num = |x: &str, a: usize, b: usize| x.get(a..b).and_then(|y| y.parse::<i64>().ok()).unwrap_or(-1);
            // the date is YYYYMMDD, the time HH:MM:SS.mmm:uuu:nnn
            let tb = t.as_bytes();
            e["fmt"] = json!(d.len() == 8 && t.len() == 20 && tb[2] == b':' && tb[5] == b':' && tb[8] == b'.' && tb[12] == b':' && tb[16] == b':');
            e["y"] = json!(num(&d, 0, 4));
            e["mo"] = json!(num(&d, 4, 6));
            e["dd"] = json!(num(&d, 6, 8));
            for (k, a, b) in [("hh", 0, 2), ("mi", 3, 5), ("ss", 6, 8), ("ms", 9, 12), ("us", 13, 16), ("ns", 17, 20)] {
                e[k] = json!(num(&t, a, b));
            }
            e["comp"] = json!([c.0, c.1, c.2, c.3]);
            e["utc"] = json!([u.year(), u.month() as u8, u.day()]);
        }
    }
    e
}

pub fn record_render(seed: u64, step: u64, path: &str) {
    let mut rng = Rng::new(seed);
    let mut out = Out::new(path);
    let mut day = 1;
    while day < 84_005 {
        let sec = *rng.pick(&[0, 3599, 3600, 43_200, 82_799, 82_800, 86_399, rng_pre(seed, day) % 86_400]);
        let frac = *rng.pick(&[0, 1, 999_999_999, 1_000, 999_000_000, rng_pre(seed, day * 3) % 1_000_000_000]);
        let off = if rng.chance(1, 2) { *rng.pick(&[0, 9, -12, 14, -4]) } else { rng.range(-12, 14) as i32 };
        out.line(&render_event(day, sec, frac, off));
        day += if step > 1 { rng.range(1, 2 * step as i64 - 1) as u64 } else { 1 };
    }
    // every hour around a few year ends and leap days, with every offset
    for d in [364u64, 365, 788, 789, 790, 11_015, 11_016, 11_017, 19_722, 19_723, 47_540, 47_541, 10_956, 10_957] {
        for off in -12..=14 {
            for h in 0..24 {
                out.line(&render_event(d, h * 3600 + rng.below(3600), rng.below(S), off));
            }
        }
    }
}
fn rng_pre(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(1_000_003) + b).next()
}

pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut rng = Rng::new(seed);
    let mut out = Out::new(path);
    for r in 0..runs {
        let d0 = rng.range(2, 84_000) as u64;
        let off = *rng.pick(&[0u64, 32_400, 32_400, 3_600, 50_400]);
        let mut g = start(&json!([d0, 0, 0]), r);
        let emit = |g: &DateUnixNanoGenerator, mut e: Value, ts: &Value, out: &mut Out| {
            e["base"] = base(g);
            e["prev"] = prev(g);
            e["ts"] = ts.clone();
            out.line(&e);
        };
        let mut ts = json!([base(&g), 0, 0]);
        emit(&g, json!({"op": "reset", "i": [d0, 0, 0]}), &ts, &mut out);
        let mut tod = rng.below(86_400) as i64;
        for _ in 0..len {
            let e = match rng.below(40) {
                0 => {
                    let b = g.utcdate_unix_nano / DAY_NANOSCALE;
                    json!({"op": "set", "i": [b + rng.below(3), rng.below(86_400), rng.below(1_000_000)]})
                }
                1 => {
                    let b = g.utcdate_unix_nano / DAY_NANOSCALE;
                    json!({"op": "cache", "i": [b + rng.below(3), rng.below(86_400), rng.below(1_000_000)]})
                }
                2 => json!({"op": "incr"}),
                _ => {
                    tod = match rng.below(10) {
                        0 => (tod + 86_400 - rng.range(53_990, 54_010)) % 86_400, // about fifteen hours back
                        1 => rng.below(86_400) as i64,
                        2 => 86_399 - rng.below(3) as i64,
                        3 => rng.below(3) as i64,
                        4 => (tod + 86_400 - rng.range(0, 600)) % 86_400,
                        _ => (tod + rng.range(0, 20_000)) % 86_400,
                    };
                    let u = *rng.pick(&[0, 999_999, 1, 100_000]);
                    let u = if rng.chance(1, 2) { rng.below(1_000_000) as i64 } else { u };
                    json!({"op": "feed", "s": tod, "u": u, "off": off})
                }
            };
            match apply(&mut g, &e, rng.below(3)) {
                Err(p) => {
                    out.line(&json!({"op": "failed", "why": p, "event": e}));
                    break;
                }
                Ok(Some(x)) => ts = x,
                Ok(None) => {}
            }
            emit(&g, e, &ts, &mut out);
        }
    }
}
