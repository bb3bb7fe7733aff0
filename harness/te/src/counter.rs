//! Counters: replay of draws under several widths and starts, and recorded multi-threaded draws.
use crate::util::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use trading_engine::utils::counter::*;

enum C {
    Us(CounterUsize),
    U64(CounterU64),
    Uus(UnboundedCounterUsize),
    Uu64(UnboundedCounterU64),
}
const FREE: i64 = 1_000_000_000;
impl C {
    /// last = -1: end lies just before start (an empty range); FREE: no bound within reach
    fn new(kind: u64, start: u64, last: i64) -> C {
        let end = if last >= FREE { u64::MAX } else { start.wrapping_add(last as u64) };
        match kind {
            0 => C::Us(CounterUsize::new(start as usize, end as usize)),
            1 => C::U64(CounterU64::new(start, end)),
            2 => C::Uus(UnboundedCounterUsize::new(start as usize)),
            _ => C::Uu64(UnboundedCounterU64::new(start)),
        }
    }
    /// the number relative to start, -1 for a refusal, -2 for a number below start or absurdly far from it
    fn draw(&self, start: u64) -> i64 {
        let v = match self {
            C::Us(c) => c.next().map(|x| x as u64).ok(),
            C::U64(c) => c.next().ok(),
            C::Uus(c) => Some(c.next() as u64),
            C::Uu64(c) => Some(c.next()),
        };
        match v {
            None => -1,
            Some(v) if v < start || v - start > FREE as u64 => 2 * FREE,
            Some(v) => (v - start) as i64,
        }
    }
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    let last = i(t, "last");
    for kind in 0..4 {
        for start in [0u64, 1, 977, u64::MAX - 5000] {
            if last < 1000 && (kind >= 2 || (last == -1 && start == 0)) {
                continue;
            }
            let last = if last == 1000 { FREE } else { last };
            let c = C::new(kind, start, last);
            let r = guard(|| t["h"].as_array().unwrap().iter().map(|_| c.draw(start)).collect::<Vec<_>>());
            match r {
                Ok(v) if json!(v) == t["h"] => {}
                Ok(v) => return Err(json!({"kind": kind, "start": start.to_string(), "observed": v})),
                Err(p) => return Err(json!({"kind": kind, "start": start.to_string(), "panic": p})),
            }
        }
    }
    Ok(())
}

pub fn record(seed: u64, batches: u64, keep: u64, draws: u64, path: &str) {
    let mut rng = Rng::new(seed);
    let mut out = Out::new(path);
    let mut odd_seen = 0;
    for b in 0..batches {
        let threads = rng.range(2, 12) as u64;
        let kind = rng.below(4);
        let total = (threads * draws) as i64;
        let last = if kind >= 2 || rng.chance(1, 3) { FREE } else { *rng.pick(&[0, 1, total / 3, total - 2, total - 1, total]) };
        let start = *rng.pick(&[0u64, 1, 4242, u64::MAX - 40 * FREE as u64, u64::MAX - 100_000]);
        let c = Arc::new(C::new(kind, start, last));
        let clock = Arc::new(AtomicU64::new(0));
        let bar = Arc::new(Barrier::new(threads as usize));
        let mut hs = Vec::new();
        for t in 0..threads {
            let (c, clock, bar) = (c.clone(), clock.clone(), bar.clone());
            hs.push(std::thread::spawn(move || {
                let mut ev = Vec::with_capacity(2 * draws as usize);
                bar.wait();
                for _ in 0..draws {
                    let a = clock.fetch_add(1, Ordering::SeqCst);
                    let v = c.draw(start);
                    let z = clock.fetch_add(1, Ordering::SeqCst);
                    ev.push((a, t, 0, true));
                    ev.push((z, t, v, false));
                }
                ev
            }));
        }
        let mut ev = Vec::new();
        let mut died = false;
        for h in hs {
            match h.join() {
                Ok(e) => ev.extend(e),
                Err(_) => died = true,
            }
        }
        ev.sort();
        let mut vals: Vec<i64> = ev.iter().filter(|e| !e.3 && e.2 >= 0).map(|e| e.2).collect();
        vals.sort();
        let want = total.min(last + 1);
        let odd = died || vals.len() as i64 != want || vals.iter().enumerate().any(|(k, v)| k as i64 != *v);
        if b < keep || odd {
            out.line(&json!({"op": "reset", "last": last, "kind": kind}));
            for (_, t, v, call) in ev {
                if call {
                    out.line(&json!({"op": "call", "t": t}));
                } else {
                    out.line(&json!({"op": "ret", "t": t, "v": v}));
                }
            }
            // after the dust settled: one more draw each from this thread, then the count must be exact
            let mut extra = 0;
            for _ in 0..3 {
                let v = c.draw(start);
                extra += 1;
                out.line(&json!({"op": "call", "t": 0}));
                out.line(&json!({"op": "ret", "t": 0, "v": v}));
            }
            if died {
                out.line(&json!({"op": "died"}));
            }
            out.line(&json!({"op": "end", "n": (total + extra).min(last + 1)}));
        }
        odd_seen += odd as u64;
        if odd_seen >= 2 {
            break;
        }
    }
}

/// Many rounds in which every thread draws once, all at the same moment, from a counter that is about to run out.
/// All draws of a round overlap; the first rounds and those that do not hand out exactly 0..last are written down.
pub fn sprint(seed: u64, rounds: u64, keep: u64, path: &str) {
    const T: usize = 8;
    let mut rng = Rng::new(seed);
    let mut out = Out::new(path);
    let plan: Vec<(u64, i64, u64)> = (0..rounds).map(|_| {
        let kind = rng.below(4);
        (kind, if kind >= 2 { FREE } else { rng.range(0, T as i64 - 1) }, *rng.pick(&[0u64, 1, 4242, u64::MAX - 40 * FREE as u64, u64::MAX - 100_000]))
    }).collect();
    let counters: Arc<Vec<C>> = Arc::new(plan.iter().map(|(k, last, start)| C::new(*k, *start, *last)).collect());
    let plan = Arc::new(plan);
    let arrived = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicU64::new(u64::MAX));
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..T).map(|t| {
        let (counters, plan, arrived, stop) = (counters.clone(), plan.clone(), arrived.clone(), stop.clone());
        std::thread::spawn(move || {
            let mut got = Vec::with_capacity(counters.len());
            for (r, c) in counters.iter().enumerate() {
                if t == 0 && r % 64 == 0 && t0.elapsed().as_secs() >= 12 {
                    stop.store(r as u64 + 1, Ordering::SeqCst); // everybody still plays this round
                }
                arrived.fetch_add(1, Ordering::SeqCst);
                let mut spins = 0u32;
                while arrived.load(Ordering::SeqCst) < (T * (r + 1)) as u64 {
                    spins += 1;
                    if spins % 4096 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() }
                }
                got.push(c.draw(plan[r].2));
                if stop.load(Ordering::SeqCst) <= r as u64 + 1 { break; }
            }
            got
        })
    }).collect();
    let got: Vec<Vec<i64>> = hs.into_iter().map(|h| h.join().expect("a drawing thread")).collect();
    let played = got.iter().map(|g| g.len()).min().unwrap();
    let mut odd_seen = 0;
    for r in 0..played {
        let (kind, last, start) = plan[r];
        let mut vals: Vec<i64> = got.iter().map(|g| g[r]).filter(|v| *v >= 0).collect();
        vals.sort();
        let odd = vals.len() as i64 != (T as i64).min(last + 1) || vals.iter().enumerate().any(|(k, v)| k as i64 != *v);
        if (r as u64) < keep || odd {
            out.line(&json!({"op": "reset", "last": last, "kind": kind}));
            for t in 0..T { out.line(&json!({"op": "call", "t": t})) }
            for (t, g) in got.iter().enumerate() { out.line(&json!({"op": "ret", "t": t, "v": g[r]})) }
            let v = counters[r].draw(start);
            out.line(&json!({"op": "call", "t": 0}));
            out.line(&json!({"op": "ret", "t": 0, "v": v}));
            out.line(&json!({"op": "end", "n": (T as i64 + 1).min(last + 1)}));
            odd_seen += odd as u64;
            if odd_seen >= 2 { break; }
        }
    }
}
