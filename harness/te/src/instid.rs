//! Instrument ids: replay of construction histories and recorded concurrent constructions.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use trading_engine::types::id::{IdData, Symbol};
use trading_engine::{InstId, IsinCode, Ticker, Venue};

static FRESH: AtomicU64 = AtomicU64::new(1);

fn venue(v: &str) -> Venue {
    match v {
        "Undefined" => Venue::Undefined,
        "CCP" => Venue::CCP,
        "KRX" => Venue::KRX,
        "KIS" => Venue::KIS,
        "SI" => Venue::SI,
        x => panic!("harness: venue {x}"),
    }
}
pub const VENUES: [&str; 5] = ["Undefined", "CCP", "KRX", "KIS", "SI"];

/// Token -> text; `salt` makes it fresh, `shape` decides where texts differ.
fn text(kind: &str, tok: &str, salt: u64, shape: u64) -> String {
    if tok.is_empty() {
        return String::new();
    }
    let c = tok.chars().next().unwrap();
    let c = (b'A' + (c as u8 - b'a')) as char;
    match (kind, shape) {
        ("isin", 0) => format!("{salt:011}{c}"),
        ("isin", 1) => format!("{c}{salt:011}"),
        ("isin", _) => format!("KR{c}{salt:09}"),
        (_, 0) => format!("{salt:011}{c}"), // the very text of the isin
        (_, 1) => format!("{salt}{}", "X".repeat((c as u8 - b'A') as usize)), // one a prefix of the other
        (_, _) => format!("{salt:031}{c}"),
    }
}

fn symbol(kind: &str, text: &str) -> Symbol {
    match kind {
        "isin" if text.is_empty() => Symbol::Isin(IsinCode::default()),
        "isin" => Symbol::Isin(IsinCode::new(text.as_bytes()).unwrap()),
        _ => Symbol::Ticker(Ticker::new(text.as_bytes()).unwrap()),
    }
}

fn mk(route: &str, kind: &str, text: &str, v: &str) -> InstId {
    match route {
        "default" => InstId::default(),
        "new" => InstId::new(symbol(kind, text), venue(v)),
        "json" => {
            let j = serde_json::to_string(&IdData { symbol: symbol(kind, text), venue: venue(v) }).unwrap();
            serde_json::from_str(&j).unwrap()
        }
        x => panic!("harness: route {x}"),
    }
}

fn again(id: &InstId, how: u64) -> InstId {
    match how % 4 {
        0 => serde_json::from_str(&serde_json::to_string(id).unwrap()).unwrap(),
        1 => serde_json::from_value(serde_json::to_value(id).unwrap()).unwrap(),
        2 => {
            let d = id.get_id_clone();
            InstId::new(d.symbol, d.venue)
        }
        _ => *id,
    }
}

fn hash(id: &InstId) -> u64 {
    let mut h = DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

fn describe(id: &InstId) -> (String, String, String, bool) {
    let d = id.get_id();
    let (kind, raw) = match &d.symbol {
        Symbol::Isin(c) => ("isin", c.as_str().to_string()),
        Symbol::Ticker(c) => ("ticker", c.as_str().to_string()),
    };
    let txt = raw.trim_end_matches('\0').to_string();
    let padded = id.symbol_str() == raw && raw.len() == if kind == "isin" { 12 } else { 32 } && id.venue() == d.venue && id.get_id_clone() == *d;
    (kind.to_string(), txt, d.venue.as_str().to_string(), padded)
}

fn observe(ids: &[InstId], n: usize) -> Value {
    let x = &ids[n];
    let pick = |f: &dyn Fn(&InstId) -> bool| -> Vec<usize> { (0..=n).filter(|&j| f(&ids[j])).map(|j| j + 1).collect() };
    let eq = pick(&|y| x == y && y == x && !(x != y));
    let same = pick(&|y| x.get_id() == y.get_id() && std::ptr::eq(x.get_id(), y.get_id()));
    let heq = pick(&|y| hash(x) == hash(y));
    let (kind, text, v, padded) = describe(x);
    json!({"eq": eq, "same": same, "heq": heq, "kind": kind, "text": text, "venue": v, "padded": padded})
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    match guard(|| replay_inner(t)) {
        Ok(x) => x,
        Err(p) => Err(json!({"panic": p})),
    }
}

fn replay_inner(t: &Value) -> Result<(), Value> {
    let shape = FRESH.load(Ordering::Relaxed) % 3;
    let salt = FRESH.fetch_add(1, Ordering::Relaxed) * 7;
    let mut ids: Vec<InstId> = Vec::new();
    for e in t["h"].as_array().unwrap() {
        let id = match s(e, "op") {
            "mk" => mk(s(e, "route"), s(e, "k"), &text(s(e, "k"), s(e, "x"), salt, shape), s(e, "v")),
            _ => again(&ids[i(e, "n") as usize - 1], salt / 7),
        };
        ids.push(id);
    }
    let n = ids.len() - 1;
    let key = &t["ids"][n];
    let (k, x, v) = (key[0].as_str().unwrap(), key[1].as_str().unwrap(), key[2].as_str().unwrap());
    let want_text = text(k, x, salt, shape);
    let o = observe(&ids, n);
    let mut map: HashMap<InstId, usize> = HashMap::new();
    for (j, id) in ids.iter().enumerate() {
        map.entry(*id).or_insert(j + 1);
    }
    let distinct: std::collections::HashSet<String> = t["ids"].as_array().unwrap().iter().map(|x| x.to_string()).collect();
    let first = t["eq"][0].as_u64().unwrap() as usize;
    let heq_ok = t["eq"].as_array().unwrap().iter().all(|j| o["heq"].as_array().unwrap().contains(j));
    if o["eq"] != t["eq"] || o["same"] != t["eq"] || !heq_ok || o["kind"] != json!(k) || o["text"] != json!(want_text)
        || o["venue"] != json!(v) || o["padded"] != json!(true) || map.len() != distinct.len() || map.get(&ids[n]) != Some(&first) {
        return Err(json!({"observed": o, "map": map.len(), "text": want_text}));
    }
    Ok(())
}

pub fn record(seed: u64, batches: u64, path: &str) {
    let mut rng = Rng::new(seed);
    let mut out = Out::new(path);
    codes(&mut rng, &mut out);
    for b in 0..batches {
        let threads = rng.range(2, 8) as usize;
        let salt = (seed % 1000) * 100_000 + b * 3 + 1;
        let shape = rng.below(3);
        let toks = ["a", "b", "c"];
        let bar = Arc::new(Barrier::new(threads));
        // all threads walk the same list, so that first constructions collide
        let mut list = Vec::new();
        for _ in 0..6 {
            let k = *rng.pick(&["isin", "ticker"]);
            let x = *rng.pick(&toks);
            let v = *rng.pick(&VENUES);
            list.push((k, x, v));
        }
        let mut hs = Vec::new();
        for _ in 0..threads {
            let bar = bar.clone();
            let list = list.clone();
            let mut r = Rng::new(rng.next());
            hs.push(std::thread::spawn(move || {
                bar.wait();
                let mut got = Vec::new();
                for (k, x, v) in list {
                    let route = if r.chance(1, 2) { "new" } else { "json" };
                    let tx = text(k, x, salt, shape);
                    got.push((k, tx.clone(), v, route, mk(route, k, &tx, v)));
                }
                got
            }));
        }
        out.line(&json!({"op": "reset"}));
        let mut ids: Vec<InstId> = Vec::new();
        for h in hs {
            match h.join() {
                Err(_) => out.line(&json!({"op": "panic"})),
                Ok(got) => {
                    for (k, x, v, route, id) in got {
                        ids.push(id);
                        let mut o = observe(&ids, ids.len() - 1);
                        o["op"] = json!("mk");
                        o["k"] = json!(k);
                        o["x"] = json!(x);
                        o["v"] = json!(v);
                        o["route"] = json!(route);
                        out.line(&o);
                    }
                }
            }
        }
        for _ in 0..3 {
            let n = rng.below(ids.len() as u64) as usize;
            let id = again(&ids[n], rng.below(4));
            ids.push(id);
            let mut o = observe(&ids, ids.len() - 1);
            o["op"] = json!("again");
            o["n"] = json!(n + 1);
            out.line(&o);
        }
    }
}

/// which codes are accepted at all
fn codes(rng: &mut Rng, out: &mut Out) {
    for n in 0..400u64 {
        let kind = if n % 2 == 0 { "isin" } else { "ticker" };
        let len = if kind == "isin" && rng.chance(2, 3) { 12 } else { rng.below(41) as usize };
        let mut b: Vec<u8> = (0..len).map(|_| b'A' + rng.below(26) as u8).collect();
        let (mut ascii, mut blank) = (true, false);
        if kind == "isin" && len > 0 && rng.chance(1, 3) {
            let at = rng.below(len as u64) as usize;
            b[at] = *rng.pick(&[b' ', b'\t', 0x80, 0xff, b'0', b'~']);
            ascii = b[at] < 0x80;
            blank = b[at] == b' ' || b[at] == b'\t';
        }
        let ok = if kind == "isin" { IsinCode::new(&b).map(|c| c.as_bytes() == b.as_slice()) } else { Ticker::new(&b).map(|c| c.as_str().as_bytes().starts_with(&b)) };
        let ok = ok.unwrap_or(false);
        out.line(&json!({"op": "code", "kind": kind, "len": len, "ascii": ascii, "blank": blank, "ok": ok}));
    }
}
