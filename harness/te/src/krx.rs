//! Exchange messages: replay of generated messages and buffer histories, recorded random feeds.
use crate::util::*;
use serde_json::{json, Value};
use trading_engine::data::krx::derivative_quote::{IFMSRPD0034, IFMSRPD0035};
use trading_engine::data::krx::derivative_trade::{IFMSRPD0036, IFMSRPD0037, IFMSRPD0038};
use trading_engine::data::krx::interface_map::KRX_TR_CODE_MAP;
use trading_engine::data::krx::stock_quote::{IFMSRPD0002, IFMSRPD0003};
use trading_engine::data::{quote::QuoteSnapshot, trade::TradeData, trade_quote::TradeQuoteSnapshot};
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::utils::numeric_converter::OrderConverter;
use trading_engine::{InstId, Venue};

pub struct Bufs {
    q: QuoteSnapshot,
    tq: TradeQuoteSnapshot,
    t: TradeData,
    full: [bool; 3],
}
impl Bufs {
    fn new(cap: usize) -> Self {
        Bufs { q: QuoteSnapshot::with_quote_level(cap), tq: TradeQuoteSnapshot::with_quote_level(cap), t: TradeData::with_capacity(cap), full: [false; 3] }
    }
}

/// The bytes of a message: '~' is the end keyword, '^' a byte that is not ASCII. Room after the end: the
/// parsers read whole machine words.
fn bytes(msg: &str) -> (Vec<u8>, usize) {
    let mut v: Vec<u8> = msg.bytes().map(|b| match b { b'~' => 255, b'^' => 0xC3, b => b }).collect();
    let n = v.len();
    v.extend_from_slice(&[b'7'; 40]);
    (v, n)
}

fn dategen() -> DateUnixNanoGenerator {
    DateUnixNanoGenerator::from(time_date())
}
fn time_date() -> time::Date {
    time::Date::from_calendar_date(2024, time::Month::March, 4).unwrap()
}

const DAY: u64 = 86_400_000_000_000;
fn tod(t: TimeStamp) -> String {
    let n = (t.stamp + DAY - 9 * 3_600_000_000_000) % DAY;
    let (s, us, rest) = (n / 1_000_000_000, n / 1000 % 1_000_000, n % 1000);
    let r = format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, us);
    if rest == 0 { r } else { format!("{r}.{rest}") }
}
fn isin(id: &InstId) -> String {
    if id.venue() != Venue::KRX {
        return format!("venue {:?}", id.venue());
    }
    id.symbol_str().to_string()
}
fn opt<T: ToString>(x: Option<T>) -> String {
    x.map_or("none".into(), |v| v.to_string())
}
fn levels(v: &[LevelSnapshot]) -> Value {
    v.iter().map(|l| json!([l.book_price.to_string(), l.book_quantity.to_string(), opt(l.order_count), opt(l.lp_quantity)])).collect()
}
fn form(c: &OrderConverter) -> (i64, i64) {
    let g = c.price.get_config();
    let one = c.price.to_f64_from_i64(1_000_000);
    let d = (6.0 - one.log10()).round() as i64;
    (d, g.float_normalizer.unwrap_or(0) as i64)
}
fn side(t: Option<TradeType>) -> &'static str {
    match t {
        None => "none",
        Some(TradeType::Undefined) => "Undefined",
        Some(TradeType::Sell) => "Sell",
        Some(TradeType::Buy) => "Buy",
    }
}
fn see_q(q: &QuoteSnapshot) -> Value {
    let (d, n) = form(q.order_converter);
    json!({"isin": isin(&q.id), "time": tod(q.timestamp), "decimals": d, "norm": n, "tprice": "none", "treal": "none", "tqty": "none",
        "side": "none", "cum": "none", "cut": q.quote_level_cut, "ask": levels(q.effective_ask_data()), "bid": levels(q.effective_bid_data())})
}
fn see_tq(q: &TradeQuoteSnapshot) -> Value {
    let (d, n) = form(q.order_converter);
    json!({"isin": isin(&q.id), "time": tod(q.timestamp), "decimals": d, "norm": n, "tprice": q.trade_price.to_string(), "treal": "none",
        "tqty": q.trade_quantity.to_string(), "side": side(q.trade_type), "cum": opt(q.cumulative_trade_quantity),
        "cut": q.quote_level_cut, "ask": levels(q.effective_ask_data()), "bid": levels(q.effective_bid_data())})
}
fn see_t(q: &TradeData) -> Value {
    let (d, n) = form(q.order_converter);
    let real = format!("{:.4}", q.to_normalized_real() + 0.0);
    let real = if real == "-0.0000" { "0.0000".to_string() } else { real };
    json!({"isin": isin(&q.id), "time": tod(q.timestamp), "decimals": d, "norm": n, "tprice": q.trade_price.to_string(), "treal": real,
        "tqty": q.trade_quantity.to_string(), "side": side(q.trade_type), "cum": opt(q.cumulative_trade_quantity),
        "cut": 0, "ask": [], "bid": []})
}

/// One call; what it reports, and what is then seen (in the buffer, or in the fresh result).
fn call(b: &mut Bufs, g: &mut DateUnixNanoGenerator, iface: &str, cut: usize, cum: bool, msg: &str, into: bool) -> (bool, Value) {
    let (v, n) = bytes(msg);
    let p = &v[..n];
    macro_rules! quote {
        ($t:ty, $keep:expr) => {{
            let x = $keep(<$t>::default().with_quote_level_cut(cut).expect("depth within the interface's"));
            if into {
                let ok = x.to_quote_snapshot_buffer(p, &mut b.q, g).is_ok();
                b.full[0] |= ok;
                (ok, if b.full[0] { see_q(&b.q) } else { json!({"isin": ""}) })
            } else {
                match x.to_quote_snapshot(p, g) {
                    Ok(q) => (true, see_q(&q)),
                    Err(_) => (false, json!({"isin": ""})),
                }
            }
        }};
    }
    macro_rules! tradequote {
        ($t:ty) => {{
            let x = <$t>::default().with_quote_level_cut(cut).expect("depth within the interface's").with_cum_trd_qnt(cum);
            if into {
                let ok = x.to_trade_quote_snapshot_buffer(p, &mut b.tq, g).is_ok();
                b.full[1] |= ok;
                (ok, if b.full[1] { see_tq(&b.tq) } else { json!({"isin": ""}) })
            } else {
                match x.to_trade_quote_snapshot(p, g) {
                    Ok(q) => (true, see_tq(&q)),
                    Err(_) => (false, json!({"isin": ""})),
                }
            }
        }};
    }
    match iface {
        "IFMSRPD0002" => quote!(IFMSRPD0002, stored),
        "IFMSRPD0003" => quote!(IFMSRPD0003, stored),
        "IFMSRPD0034" => quote!(IFMSRPD0034, std::convert::identity),
        "IFMSRPD0035" => quote!(IFMSRPD0035, std::convert::identity),
        "IFMSRPD0037" => tradequote!(IFMSRPD0037),
        "IFMSRPD0038" => tradequote!(IFMSRPD0038),
        "IFMSRPD0036" => {
            let x = IFMSRPD0036::default().with_cum_trd_qnt(cum);
            if into {
                let ok = x.to_trade_data_buffer(p, &mut b.t, g).is_ok();
                b.full[2] |= ok;
                (ok, if b.full[2] { see_t(&b.t) } else { json!({"isin": ""}) })
            } else {
                match x.to_trade_data(p, g) {
                    Ok(q) => (true, see_t(&q)),
                    Err(_) => (false, json!({"isin": ""})),
                }
            }
        }
        x => panic!("harness: interface {x}"),
    }
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    match guard(|| {
        let mut b = Bufs::new(i(t, "cap") as usize);
        let mut g = stored(dategen());
        let h = t["h"].as_array().unwrap();
        for (k, e) in h.iter().enumerate() {
            let (ok, seen) = call(&mut b, &mut g, s(e, "iface"), i(e, "cut") as usize, e["cum"].as_bool().unwrap(), s(e, "msg"), e["buf"].as_bool().unwrap());
            if json!(ok) != e["ok"] {
                return Err(json!({"step": k, "accepted": ok}));
            }
            if k + 1 == h.len() && seen != t["exp"] {
                return Err(json!({"step": k, "seen": seen}));
            }
        }
        Ok(())
    }) {
        Ok(x) => x,
        Err(p) => Err(json!({"panic": p})),
    }
}

// ------------------------------------------------------------------ recorded feeds
const IFACES: [(&str, usize, &[&str]); 7] = [
    ("IFMSRPD0002", 10, &["B601S", "B601Q", "B601X"]),
    ("IFMSRPD0003", 10, &["B702S", "B703S", "B704S"]),
    ("IFMSRPD0034", 5, &["B601F", "B606F", "B610F", "B616F"]),
    ("IFMSRPD0035", 10, &["B604F", "B605F"]),
    ("IFMSRPD0036", 0, &["A301F", "A304F", "A305F", "A310F", "A314F"]),
    ("IFMSRPD0037", 5, &["G701F", "G703F", "G710F", "G716F"]),
    ("IFMSRPD0038", 10, &["G704F", "G705F"]),
];

fn digits(r: &mut Rng, w: usize) -> String {
    if w == 0 {
        return String::new();
    }
    let lead = match r.below(5) { 0 => 0, 1 => w - 1, 2 => w, _ => r.below(w as u64 + 1) as usize };
    (0..w).map(|k| if k < lead { '0' } else { (b'0' + r.below(10) as u8) as char }).collect()
}
fn price(r: &mut Rng, stock: bool, dec: usize) -> String {
    if stock {
        return format!("00{}", digits(r, 9));
    }
    let sg = if r.chance(1, 4) { "-" } else { "0" };
    if dec == 0 {
        return format!("{sg}{}", digits(r, 8));
    }
    let d = digits(r, 7);
    format!("{sg}{}.{}", &d[..7 - dec], &d[7 - dec..])
}
fn message(r: &mut Rng, iface: &str, levels: usize, tr: &str) -> String {
    let id = if r.chance(1, 4) { format!("KR4169{}", digits(r, 6)) } else { format!("KR4{:03}{}", r.below(1000), digits(r, 6)) };
    let stock = iface.starts_with("IFMSRPD000");
    let und = &tr[2..5];
    let dec = if ["04F", "05F", "10F"].contains(&und) { 0 } else if id.starts_with("KR4169") { 3 } else { 2 };
    let mut m = format!("{tr}{}G{}40{id}{}", "        ", r.below(5), digits(r, 6));
    m += &format!("{:02}{:02}{:02}{:06}", 8 + r.below(8), r.below(60), r.below(60), r.below(1_000_000));
    if iface >= "IFMSRPD0036" {
        m += &price(r, false, dec);
        m += &digits(r, 9);
        for _ in 0..6 {
            m += &price(r, false, dec);
        }
        m += &digits(r, 12);
        m += &digits(r, 22);
        m += ["0", "1", "2"][r.below(3) as usize];
        m += &price(r, false, dec);
        m += &price(r, false, dec);
    }
    let max = levels;
    for _ in 0..max {
        m += &price(r, stock, dec);
        m += &price(r, stock, dec);
        let w = if stock { 12 } else { 9 };
        m += &digits(r, w);
        m += &digits(r, w);
        if iface == "IFMSRPD0003" {
            m += &digits(r, 12);
            m += &digits(r, 12);
        } else if !stock {
            m += &digits(r, 5);
            m += &digits(r, 5);
        }
    }
    m += &digits(r, match iface { "IFMSRPD0036" => 0, "IFMSRPD0037" | "IFMSRPD0038" => 28, "IFMSRPD0034" | "IFMSRPD0035" => 46, _ => 47 });
    m.push('~');
    m
}
fn corrupt(r: &mut Rng, m: &str) -> String {
    let n = m.len();
    let k = r.below(n as u64) as usize;
    match r.below(7) {
        0 => m[..k].to_string(),
        1 => format!("{}{}", &m[..k], &m[k + 1..]),
        2 => format!("{}0{}", &m[..k], &m[k..]),
        3 => format!("{}{}", &m[..n - 1], r.below(10)),
        4 => { let j = 17 + r.below(12) as usize; format!("{} {}", &m[..j], &m[j + 1..]) }
        5 => { let j = 17 + r.below(12) as usize; format!("{}^{}", &m[..j], &m[j + 1..]) }
        _ => format!("{m}{}", ["~", "0", "^~"][r.below(3) as usize]),
    }
}

pub fn record(seed: u64, runs: u64, len: u64, out: &str) {
    let mut o = Out::new(out);
    let mut r = Rng::new(seed);
    let mut table: Vec<(String, String)> = KRX_TR_CODE_MAP.iter().map(|(k, v)| (String::from_utf8(k.to_vec()).unwrap(), v.to_string())).collect();
    table.sort();
    for (k, v) in &table {
        o.line(&json!({"op": "code", "tr": k, "iface": v}));
    }
    o.line(&json!({"op": "codes", "n": table.len()}));
    for _ in 0..runs {
        let cap = *r.pick(&[1usize, 3, 5, 10, 12]);
        let mut b = Bufs::new(cap);
        let mut g = stored(dategen());
        o.line(&json!({"op": "reset", "cap": cap}));
        for _ in 0..len {
            let (f, max, trs) = *r.pick(&IFACES);
            let tr = *r.pick(trs);
            let mut m = message(&mut r, f, max, tr);
            if r.chance(1, 5) {
                m = corrupt(&mut r, &m);
            }
            let cut = r.below(max as u64 + 1) as usize;
            let (cum, into) = (r.chance(1, 2), r.chance(3, 4));
            let what = json!({"iface": f, "cut": cut, "cum": cum, "buf": into, "msg": m});
            watch(what.to_string());
            match guard(|| call(&mut b, &mut g, f, cut, cum, &m, into)) {
                Ok((ok, seen)) => {
                    let mut e = what;
                    e["op"] = json!("decode");
                    e["ok"] = json!(ok);
                    e["seen"] = seen;
                    o.line(&e);
                }
                Err(p) => {
                    println!("{}", json!({"bad": {"panic": p, "call": what}}));
                    return;
                }
            }
            unwatch();
        }
    }
}
