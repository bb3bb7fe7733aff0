//! The desk around a book: instrument table, balance, trades, texts written when read, mailboxes.
use crate::util::*;
use serde_json::{json, Value};
use std::net::{SocketAddr, UdpSocket};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::Arc;
use std::time::{Duration, Instant};
use trading_engine::communication::udp_client::UdpClient;
use trading_engine::conductor::oms::account::Balance;
use trading_engine::instruments::instrument::{Instrument, InstrumentTrait};
use trading_engine::instruments::mock_instrument::MockInstrument;
use trading_engine::types::base::{InstrumentIdentifier, TradeHistory, VirtualOrderId};
use trading_engine::types::enums::{DataType, FromU8, OrderSide, TradeType};
use trading_engine::types::inst_info::{BaseInstInfo, BaseInstMap, InstType};
use trading_engine::types::id::Symbol;
use trading_engine::{Currency, InstId, IsinCode, LazyString, Ticker, Venue};

const CUR: [Currency; 7] = [Currency::KRW, Currency::USD, Currency::EUR, Currency::GBP, Currency::JPY, Currency::CNY, Currency::HKD];
const VENUES: [Venue; 5] = [Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI];
const TYPES: [InstType; 9] = [InstType::Cash, InstType::Stock, InstType::Bond, InstType::EquityFutures, InstType::FxFutures,
    InstType::CommodityFutures, InstType::EquityOption, InstType::Swap, InstType::Crypto];

fn inst(k: usize) -> InstId {
    match k {
        0 => InstId::new(Symbol::Isin(IsinCode::new(b"KR7005930003").unwrap()), Venue::KRX),
        1 => InstId::new(Symbol::Isin(IsinCode::new(b"KR7005930003").unwrap()), Venue::SI),
        _ => InstId::new(Symbol::Ticker(Ticker::new(b"BTCUSD").unwrap()), Venue::SI),
    }
}
fn cur(name: &str) -> Currency {
    *CUR.iter().find(|c| format!("{c:?}") == name).expect("harness: currency")
}
fn kind(name: &str) -> InstType {
    *TYPES.iter().find(|c| format!("{c:?}") == name).expect("harness: type")
}
fn side(s: &OrderSide) -> &'static str {
    if *s == OrderSide::Ask { "ask" } else { "bid" }
}

// ------------------------------------------------------------------ mailboxes
struct Net {
    hub: UdpSocket,
    boxes: Vec<(Arc<UdpClient>, SocketAddr, Receiver<Result<String, String>>)>,
}
thread_local! { static NET: std::cell::RefCell<Option<Net>> = const { std::cell::RefCell::new(None) }; }
impl Net {
    fn new(n: usize) -> Net {
        let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
        let hub = UdpSocket::bind(any).expect("harness: loopback");
        hub.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        let to = hub.local_addr().unwrap();
        let boxes = (0..n)
            .map(|k| {
                let c = Arc::new(UdpClient::new(any).expect("a mailbox is not opened"));
                let hello = format!("box {k}");
                c.send_message(to, &hello).expect("a message is not sent");
                let mut buf = [0u8; 2048];
                let (len, from) = hub.recv_from(&mut buf).expect("a message sent to a socket does not arrive");
                assert!(&buf[..len] == hello.as_bytes(), "a message sent to a socket arrives different");
                let (tx, rx) = channel();
                let pump = c.clone();
                std::thread::spawn(move || loop {
                    let r = guard(|| pump.receive_response().map_err(|e| e.to_string())).unwrap_or_else(Err);
                    let stop = r.is_err();
                    if tx.send(r).is_err() || stop {
                        return;
                    }
                });
                (c, from, rx)
            })
            .collect();
        Net { hub, boxes }
    }
    fn drain(&self, b: usize, want: usize, mark: &str) -> Result<Vec<String>, Value> {
        self.hub.send_to(mark.as_bytes(), self.boxes[b].1).expect("harness: send");
        let (mut got, mut end, t) = (Vec::new(), false, Instant::now());
        while !(end && got.len() >= want) {
            let left = Duration::from_secs(4).saturating_sub(t.elapsed());
            match self.boxes[b].2.recv_timeout(left) {
                Ok(Ok(m)) if m == mark => end = true,
                Ok(Ok(m)) => got.push(m),
                Ok(Err(e)) => return Err(json!({"why": "receiving fails", "error": e})),
                Err(_) => break,
            }
        }
        got.sort();
        Ok(got)
    }
}
fn letter(m: &str) -> String {
    match m {
        "empty" => String::new(),
        "short" => "Hello".into(),
        "full" => (0..1024u32).map(|k| char::from(b' ' + (k % 90) as u8)).collect(),
        "wide" => "가".repeat(341) + "x",
        "lines" => "one\ntwo\r\n\0 three ".into(),
        _ => "f\u{fffd}o".into(),
    }
}

// ------------------------------------------------------------------ replay
pub fn replay_one(t: &Value) -> Result<(), Value> {
    match guard(|| run(t)) {
        Ok(r) => r,
        Err(p) => Err(json!({"panic": p})),
    }
}

fn run(t: &Value) -> Result<(), Value> {
    let part = s(t, "part");
    if part == "codes" {
        return codes(t);
    }
    if part == "mail" {
        return NET.with(|n| {
            let mut n = n.borrow_mut();
            let net = n.get_or_insert_with(|| Net::new(3));
            let r = mail(net, t);
            if r.is_err() {
                *n = None;
            }
            r
        });
    }
    let no = test_no();
    let (ps, qs) = ([1i64, 25, -50, 10_000_000][(no % 4) as usize], [1u64, 3, 1_000_000][(no % 3) as usize]);
    let mut tbl = BaseInstMap::new();
    let mut bal = Balance::default();
    let mut hist = if no % 2 == 0 { TradeHistory::new() } else { TradeHistory::with_capacity(2) };
    let count: Vec<Arc<AtomicU64>> = (0..2).map(|_| Default::default()).collect();
    let text = |k: usize| format!("text {k} of {no}");
    let lazy: Vec<Arc<LazyString>> = (0..2usize)
        .map(|k| {
            let c = count[k].clone();
            Arc::new(LazyString::new(move || {
                c.fetch_add(1, Ordering::SeqCst);
                format!("text {k} of {no}")
            }))
        })
        .collect();
    let first = [1u64, 977, 1 << 40][(no % 3) as usize];
    let mut number = VirtualOrderId::new(first);
    for e in t["h"].as_array().unwrap() {
        let (op, d) = (&e["op"], &e["d"]);
        match s(op, "k") {
            "insert" => tbl.insert(inst(i(op, "i") as usize - 1), BaseInstInfo::new(kind(s(op, "t")), cur(s(op, "c")))),
            "open" => bal = Balance::initialize(if s(op, "s") == "ask" { OrderSide::Ask } else { OrderSide::Bid }, i(op, "n") as u64 * qs),
            "noshort" => {
                bal.without_short_sell();
            }
            "turn" => bal.side = bal.side.opposite(),
            "upper" => {
                bal.with_upper_bound(i(op, "n") as u64 * qs);
            }
            "lower" => {
                bal.with_lower_bound(i(op, "n") as u64 * qs);
            }
            "trade" => hist.push(i(op, "p") * ps, i(op, "q") as u64 * qs),
            "amend" => hist[i(op, "i") as usize - 1] = (i(op, "p") * ps, i(op, "q") as u64 * qs),
            "forget" => hist = TradeHistory::default(),
            "read" => {
                let k = i(op, "t") as usize - 1;
                if no % 16 == 0 {
                    let hs: Vec<_> = (0..3).map(|_| { let l = lazy[k].clone(); std::thread::spawn(move || l.to_string()) }).collect();
                    for h in hs {
                        if h.join().expect("reader") != text(k) {
                            return Err(json!({"why": "text read wrong by one of several readers"}));
                        }
                    }
                }
                let copy: LazyString = serde_json::from_str(&serde_json::to_string(&*lazy[k]).unwrap()).unwrap();
                if **lazy[k] != text(k) || *copy != text(k) || *copy != text(k) {
                    return Err(json!({"why": "text", "observed": [**lazy[k], *copy]}));
                }
            }
            "number" => {
                let n = number.next_id();
                if n + 1 != first + i(d, "next") as u64 - 1 {
                    return Err(json!({"why": "number", "first": first, "observed": n}));
                }
            }
            x => panic!("harness: op {x}"),
        }
        // everything the desk says now
        bal = through_text(&bal);
        hist = through_text(&hist);
        number = through_text(&number);
        let bound = |v: &Value| v.get(0).map(|n| n.as_u64().unwrap() * qs);
        let seen = json!({
            "tbl": (0..3).map(|k| match tbl.get(inst(k)) {
                None => json!([]),
                Some(x) => json!([format!("{:?}", x.inst_type), x.currency.as_str()]),
            }).collect::<Vec<_>>(),
            "lazy": count.iter().map(|c| c.load(Ordering::SeqCst)).collect::<Vec<_>>(),
        });
        let want = json!({"tbl": d["tbl"], "lazy": d["lazy"]});
        if seen != want {
            return Err(json!({"observed": seen, "expected": want}));
        }
        let b = &d["bal"];
        let ok = side(&bal.side) == s(b, "side") && bal.outstanding == i(b, "out") as u64 * qs && bal.pending_order == i(b, "pend") as u64 * qs
            && bal.liquidatable == i(b, "liq") as u64 * qs && bal.outstanding_upper_bound == bound(&b["up"]) && bal.outstanding_lower_bound == bound(&b["low"])
            && bal.is_empty() == (i(b, "out") == 0);
        if !ok {
            return Err(json!({"why": "balance", "expected": b, "observed": format!("{bal:?}"), "scale": qs}));
        }
        let w: Vec<(i64, u64)> = d["hist"].as_array().unwrap().iter().map(|x| (x[0].as_i64().unwrap() * ps, x[1].as_u64().unwrap() * qs)).collect();
        let copy = hist.clone();
        if hist.len() != w.len() || hist.is_empty() != w.is_empty() || hist.get_last_trade() != w.last().cloned() || (0..w.len()).any(|k| hist[k] != w[k]) || copy != hist {
            return Err(json!({"why": "trades", "expected": w, "observed": format!("{hist:?}")}));
        }
    }
    let q = &t["q"];
    if side(&bal.side.opposite()) != s(q, "opp") || bal.is_empty() != q["flat"].as_bool().unwrap() {
        return Err(json!({"why": "balance at the end", "expected": q, "observed": format!("{bal:?}")}));
    }
    if i(q, "traded") > 0 {
        let (got, want) = (hist.average_trade_price(), i(q, "turnover") as f64 * ps as f64 / i(q, "traded") as f64);
        if (got - want).abs() > want.abs() * 1e-12 {
            return Err(json!({"why": "average price", "expected": want, "observed": got}));
        }
    }
    Ok(())
}

fn mail(net: &Net, t: &Value) -> Result<(), Value> {
    let no = test_no();
    let mut held: Vec<Vec<String>> = vec![vec![]; 3];
    let mut marks = 0;
    let mut drain = |b: usize, held: &mut Vec<Vec<String>>| -> Result<(), Value> {
        marks += 1;
        let mut want = std::mem::take(&mut held[b]);
        want.sort();
        let got = net.drain(b, want.len(), &format!("mark {marks} of {no}"))?;
        if got != want {
            let short = |v: &[String]| v.iter().map(|m| (m.len(), m.chars().take(12).collect::<String>())).collect::<Vec<_>>();
            return Err(json!({"why": "letters", "box": b, "expected": short(&want), "observed": short(&got)}));
        }
        Ok(())
    };
    for e in t["h"].as_array().unwrap() {
        let op = &e["op"];
        let b = i(op, "b") as usize - 1;
        if s(op, "k") == "send" {
            let m = s(op, "m");
            if m == "raw" {
                net.hub.send_to(b"f\xffo", net.boxes[b].1).expect("harness: send");
            } else if let Err(e) = net.boxes[i(op, "a") as usize - 1].0.send_message(net.boxes[b].1, &letter(m)) {
                return Err(json!({"why": "not sent", "error": e.to_string()}));
            }
            held[b].push(letter(m));
        } else {
            drain(b, &mut held)?;
        }
    }
    for b in 0..3 {
        drain(b, &mut held)?;
    }
    Ok(())
}

fn codes(t: &Value) -> Result<(), Value> {
    for n in 0..=255u8 {
        let want = t["codes"].get(n as usize).cloned().unwrap_or(json!({"side": "no", "data": "no", "type": "no"}));
        let got = json!({
            "side": OrderSide::from_u8(n).map(|x| side(&x)).unwrap_or("no"),
            "data": DataType::from_u8(n).map(|x| match x { DataType::L1 => "L1", DataType::L2 => "L2", DataType::L3 => "L3" }).unwrap_or("no"),
            "type": TradeType::from_u8(n).map(|x| match x { TradeType::Undefined => "undefined", TradeType::Sell => "sell", TradeType::Buy => "buy" }).unwrap_or("no"),
        });
        if got != want {
            return Err(json!({"code": n, "expected": want, "observed": got}));
        }
        // the code of what a code stands for is that code
        let back = OrderSide::from_u8(n).map(|x| x as u8 == n).unwrap_or(true) && DataType::from_u8(n).map(|x| x as u8 == n).unwrap_or(true)
            && TradeType::from_u8(n).map(|x| x as u8 == n).unwrap_or(true);
        if !back {
            return Err(json!({"code": n, "why": "another code comes back"}));
        }
    }
    let names = &t["names"];
    let got = json!({
        "cur": CUR.iter().map(|c| c.as_str()).collect::<Vec<_>>(),
        "cash": CUR.iter().map(|c| c.as_isin_code().as_str().to_string()).collect::<Vec<_>>(),
        "venue": VENUES.iter().map(|v| v.as_str()).collect::<Vec<_>>(),
        "type": TYPES.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>(),
    });
    if got != *names {
        return Err(json!({"expected": names, "observed": got}));
    }
    for v in VENUES {
        let isin = IsinCode::new(b"KR7005930003").unwrap();
        let day = time::OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap();
        let m = MockInstrument::new(isin.clone(), v, 7, day, 1_700_000_000_000_000_000, Default::default(), Default::default());
        let id = InstrumentIdentifier::new(isin.clone(), v);
        if m.get_venue() != v || Instrument::Mock(m).get_venue() != v || id.get_venue() != v || *id.get_isin_code() != isin {
            return Err(json!({"why": "venue", "venue": v.as_str()}));
        }
    }
    for c in CUR {
        let i = BaseInstInfo::new(InstType::Bond, c);
        if through_text(&c) != c || through_text(&i) != i || c.as_isin_bytes() != c.as_isin_code().as_str().as_bytes() {
            return Err(json!({"why": "currency", "currency": c.as_str()}));
        }
    }
    Ok(())
}
