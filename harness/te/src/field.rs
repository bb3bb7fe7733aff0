//! Numbers in fields of exchange messages, and distances of stamps.
use crate::util::*;
use serde_json::{json, Value};
use trading_engine::data::get_default_order_converter;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::types::base::Real;
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::utils::checkers::{all_white_space, contains_white_space, is_ascii};
use trading_engine::utils::numeric_converter::*;
use trading_engine::IsinCode;

fn layout(l: &Value) -> NumReprCfg {
    NumReprCfg {
        digit_length: i(l, "int") as usize,
        decimal_point_length: i(l, "dec") as usize,
        is_signed: l["signed"].as_bool().unwrap(),
        unused_length: i(l, "unused") as usize,
        total_length: i(l, "total") as usize,
        float_normalizer: l["norm"].get(0).map(|n| n.as_i64().unwrap() as i32),
        drop_decimal_point: l["drop"].as_bool().unwrap(),
    }
}
fn near(a: f64, text: &str) -> bool {
    let b: f64 = text.parse().expect("harness: decimal");
    (a - b).abs() <= b.abs() * 1e-15
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    match guard(|| run(t)) {
        Ok(r) => r,
        Err(p) => Err(json!({"panic": p})),
    }
}

struct Buf(Vec<u8>, usize);
impl Buf {
    /// the field inside a larger buffer whose other bytes are not zero
    fn new(f: &str) -> Buf {
        let mut v = b"98765432109876543210".to_vec();
        let at = v.len();
        v.extend(f.bytes());
        v.extend(b"1357924680135792468013579246801357924680");
        Buf(v, at)
    }
    fn get(&self, n: usize) -> &[u8] {
        &self.0[self.1..self.1 + n]
    }
    fn open(&self) -> &[u8] {
        &self.0[self.1..]
    }
}

fn run(t: &Value) -> Result<(), Value> {
    let bad = |why: &str, got: String| Err(json!({"why": why, "observed": got}));
    match s(t, "k") {
        "bad" => {
            let c = layout(&t["l"]);
            return if IntegerConverter::new(c).is_ok() { bad("a layout that does not add up or is too long is taken", format!("{c:?}")) } else { Ok(()) };
        }
        "short" => {
            let (f, n) = (s(t, "f"), s(t, "n").parse::<u64>().unwrap());
            let b = Buf::new(f);
            let got = if f.len() == 2 { parse_2digits(b.get(2)) as u64 } else { parse_3digits(b.get(3)) as u64 };
            return if got != n { bad("digits", got.to_string()) } else { Ok(()) };
        }
        "clock" => {
            let b = Buf::new(s(t, "f"));
            let got = parse_hhmmss_to_nanos(b.get(6));
            return if got != i(t, "n") as u64 * 1_000_000_000 { bad("time of day", got.to_string()) } else { Ok(()) };
        }
        "span" => {
            let base: u64 = s(t, "base").parse().unwrap();
            let d: u64 = s(t, "f").parse().unwrap();
            let (a, z) = (TimeStamp::new(base), TimeStamp::new(base + d));
            let got = match s(t, "u") {
                "nanos" => z.diff_in_nanos(a),
                "micros" => z.diff_in_micros(a),
                "millis" => z.diff_in_millis(a),
                "secs" => z.diff_in_secs(a),
                "mins" => z.diff_in_mins(a),
                "hours" => z.diff_in_hours(a),
                _ => z.diff_in_days(a),
            };
            let want = s(t, "r").parse::<f64>().unwrap() / i(t, "by") as f64;
            return if (got - want).abs() > want * 1e-15 { bad("distance of stamps", format!("{got:e} for {want:e}")) } else { Ok(()) };
        }
        "bytes" => {
            let bs: Vec<u8> = t["bs"].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_i64().unwrap() as u8).collect());
            let got = (contains_white_space(&bs), all_white_space(&bs), is_ascii(&bs));
            let want = |k: &str| t[k].as_bool().unwrap();
            return if got != (want("has"), want("all"), want("ascii")) { bad("bytes of a code", format!("{got:?}")) } else { Ok(()) };
        }
        "day" => {
            const DAY: u64 = 86_400_000_000_000;
            let midnight = i(t, "d") as u64 * DAY;
            let stamp = TimeStamp::new(midnight + i(t, "s") as u64 * 1_000_000_000 + i(t, "ns") as u64);
            let told = stamp.to_datetime().unwrap();
            if told.unix_timestamp_nanos() != stamp.stamp as i128 || told.date() != stamp.to_date_utc().unwrap() || !told.offset().is_utc() {
                return bad("day and time of a stamp", told.to_string());
            }
            let mut g = DateUnixNanoGenerator::from_unixnano(stamp.stamp);
            if g.get_utcdate_unix_nano() != midnight || DateUnixNanoGenerator::from(told.date()).get_utcdate_unix_nano() != midnight {
                return bad("midnight before a stamp", g.get_utcdate_unix_nano().to_string());
            }
            g.set_timestamp(TimeStamp::new(stamp.stamp + 3 * DAY));
            if g.get_utcdate_unix_nano() != midnight + 3 * DAY || g.get_update_stamp() != stamp.stamp + 3 * DAY {
                return bad("midnight before a later stamp", g.get_utcdate_unix_nano().to_string());
            }
            g.increment(stamp.stamp + 4 * DAY);
            if g.get_utcdate_unix_nano() != midnight + 4 * DAY || g.get_update_stamp() != stamp.stamp + 4 * DAY {
                return bad("the next midnight", g.get_utcdate_unix_nano().to_string());
            }
            // today is the day of the clock, between two looks at it
            let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64;
            let before = clock();
            let now = TimeStamp::utc_now().stamp;
            let fresh = DateUnixNanoGenerator::from_today().unwrap();
            g.set_today();
            let after = clock();
            let slack = 1_000_000_000;
            let day = |x: u64| x / DAY * DAY;
            for (what, d, u) in [("now", day(now), now), ("today", fresh.get_utcdate_unix_nano(), fresh.get_update_stamp()), ("set to today", g.get_utcdate_unix_nano(), g.get_update_stamp())] {
                if d != day(u) || u + slack < before || u > after + slack {
                    return bad(what, format!("{d} {u} between {before} and {after}"));
                }
            }
            return Ok(());
        }
        "weight" => {
            let w = i(t, "w") as f64 / 16.0;
            let got = (TimeSeriesWeight::previous_weight(w as Real), TimeSeriesWeight::current_weight(w as Real));
            return if got != (w as Real, (i(t, "n") as f64 / 16.0) as Real) { bad("weights", format!("{got:?}")) } else { Ok(()) };
        }
        "kind" => {
            let msg = format!("B6{}G140{}", s(t, "tr"), s(t, "isin"));
            let isin = IsinCode::new(s(t, "isin").as_bytes()).unwrap();
            let c = get_krx_derivative_converter(msg.as_bytes(), &isin);
            let want = match s(t, "n") {
                "stockfut" => OrderConverter::krx_stock_derivative_converter(),
                "commodity" => OrderConverter::krx_general_commodity_derivative_converter(),
                "riskfree" => OrderConverter::krx_risk_free_derivative_converter(),
                _ => OrderConverter::krx_base_derivative_converter(),
            };
            let same = c.price.get_config() == want.price.get_config() && c.quantity.get_config() == want.quantity.get_config();
            return if same { Ok(()) } else { bad("layout of a derivative", format!("{:?}", c.price.get_config())) };
        }
        _ => {}
    }
    // a number in a field
    let l = &t["l"];
    let cfg = layout(l);
    let (f, want) = (s(t, "f"), s(t, "n"));
    let b = Buf::new(f);
    let v = b.get(f.len());
    let (name, part) = s(t, "k").split_once('_').unwrap_or((s(t, "k"), ""));
    let orders = |name: &str| match name {
        "derivative" => OrderConverter::krx_base_derivative_converter(),
        "riskfree" => OrderConverter::krx_risk_free_derivative_converter(),
        "stockfut" => OrderConverter::krx_stock_derivative_converter(),
        "commodity" => OrderConverter::krx_general_commodity_derivative_converter(),
        "stock" => [OrderConverter::krx_stock_converter(), get_krx_stock_order_converter().clone()][(test_no() % 2) as usize].clone(),
        "bond" => [OrderConverter::krx_base_bond_converter(), get_krx_base_bond_order_converter().clone(), get_default_order_converter().clone()][(test_no() % 3) as usize].clone(),
        "repo" => [OrderConverter::krx_repo_converter(), get_krx_repo_order_converter().clone()][(test_no() % 2) as usize].clone(),
        x => panic!("harness: converter {x}"),
    };
    let (mut told, mut raw): (Option<String>, Option<u64>) = (None, None);
    let plain = i(l, "dec") == 0 || cfg.drop_decimal_point;
    let read = cfg.digit_length + if cfg.drop_decimal_point { 0 } else { cfg.decimal_point_length };
    let c = match (name, part) {
        ("layout", _) => IntegerConverter::new(cfg).expect("a good layout is refused"),
        ("order", _) => {
            let c = stored(if test_no() % 2 == 0 { OrderCounter::krx_base_order_counter() } else { get_krx_base_order_counter().clone() });
            told = Some(c.to_order_count(v).to_string());
            raw = Some(unsafe { c.to_order_count_unchecked(b.open()) } as u64);
            c.order_count
        }
        ("yield", _) => {
            let c = stored(get_krx_yield_converter().clone());
            told = Some(c.to_yield(v).to_string());
            c.converter
        }
        ("cum", p) => {
            let c = stored(match p {
                "quantity" => get_krx_base_cum_qnt_converter().clone(),
                "bond" => get_krx_bond_cum_qnt_converter().clone(),
                _ => CumQntConverter::krx_cum_trd_value_converter(),
            });
            told = Some(c.to_cum_qnt(v).to_string());
            raw = Some(unsafe { if p == "value" { c.to_long_cum_qnt_unchecked(b.open()) } else { c.to_cum_qnt_unchecked(b.open()) } });
            c.converter
        }
        (n, "price") => {
            let c = stored(orders(n));
            told = Some(c.to_book_price(v).to_string());
            if plain && !f.starts_with('-') {
                raw = Some(unsafe { c.to_book_price_unchecked(b.open()) } as u64);
            }
            c.price
        }
        (n, _) => {
            let c = stored(orders(n));
            told = Some(c.to_book_quantity(v).to_string());
            raw = Some(unsafe { c.to_book_quantity_unchecked(b.open()) });
            c.quantity
        }
    };
    if *c.get_config() != cfg {
        return bad("layout", format!("{:?}", c.get_config()));
    }
    if told.as_deref().is_some_and(|x| x != want) {
        return bad("number of a field", told.unwrap());
    }
    let c = if test_no() % 3 == 0 { c.clone() } else { stored(c) };
    let n = c.to_i64(v);
    if n.to_string() != want || c.to_u64(v).to_string() != want.trim_start_matches('-') {
        return bad("number", format!("{n}, {}", c.to_u64(v)));
    }
    if plain && read <= 16 && !f.starts_with('-') {
        let (a, z) = unsafe { (c.to_u64_unchecked(b.open()), c.to_nonnegative_i64_unchecked(b.open())) };
        if a as i64 != n || z != n || raw.is_some_and(|r| r as i64 != n) {
            return bad("number read unchecked", format!("{a}, {z}, {raw:?}"));
        }
        if read <= 8 && !cfg.is_signed && cfg.unused_length == 0 && unsafe { c.to_u32_unchecked(b.open()) } as i64 != n {
            return bad("number read unchecked", "short".into());
        }
    }
    if plain && read >= 17 && !cfg.is_signed && cfg.unused_length == 0 {
        let a = unsafe { c.to_long_u64_unchecked(b.open()) };
        if a as i64 != n || raw.is_some_and(|r| r as i64 != n) {
            return bad("long number read unchecked", a.to_string());
        }
    }
    let (r, x) = (s(t, "r"), s(t, "x"));
    let mut reals = vec![(c.to_f64_from_i64(n), r), (c.normalized_real_from_i64(n), x)];
    if n >= 0 {
        reals.push((c.to_f64_from_u64(n as u64), r));
        reals.push((c.normalized_real_from_u64(n as u64), x));
    }
    if let Ok(m) = i32::try_from(n) {
        reals.push((c.to_f64_from_i32(m), r));
    }
    if let Ok(m) = u32::try_from(n) {
        reals.push((c.to_f64_from_u32(m), r));
    }
    for (k, (got, text)) in reals.iter().enumerate() {
        if !near(*got, text) {
            return Err(json!({"why": "real number", "which": k, "observed": got, "expected": text}));
        }
    }
    Ok(())
}
