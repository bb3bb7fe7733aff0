//! DataSpinQueue: replay of call interleavings, and recorded multi-threaded runs.
use crate::util::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};

#[derive(Clone, Debug, Default)]
pub struct Data {
    a: u64,
    pad: [u64; 15],
    b: u64,
}

fn make(ids: &[u64]) -> Result<(DataSpinQueue<Data>, Vec<WorkerId>), String> {
    let mut v = Vec::new();
    for &i in ids {
        v.push(WorkerId::new(i as u16).map_err(|e| e.to_string())?);
    }
    let q = DataSpinQueue::new(Data::default(), v.clone()).map_err(|e| e.to_string())?;
    Ok((q, v))
}

pub fn replay_one(t: &Value) -> Result<(), Value> {
    let r = guard(|| replay_inner(t));
    match r {
        Ok(x) => x,
        Err(p) => Err(json!({"panic": p})),
    }
}

fn replay_inner(t: &Value) -> Result<(), Value> {
    let mut q: Option<DataSpinQueue<Data>> = None;
    let ids: Vec<WorkerId> = (0..16).map(|i| WorkerId::new(i).unwrap()).collect();
    let mut n = 0u64;
    let mut wptr: Option<*mut Data> = None;
    let mut rptr: Vec<Option<*const Data>> = vec![None; 16];
    let hist = t["h"].as_array().unwrap();
    for (k, e) in hist.iter().enumerate() {
        let w = e["w"].as_u64().unwrap_or(0) as usize;
        let differs = |what: Value| Err(json!({"step": k, "event": e, "observed": what}));
        match s(e, "op") {
            "new" => {
                let l: Vec<u64> = e["ids"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                let r = make(&l);
                if r.is_ok() != e["ok"].as_bool().unwrap() {
                    return differs(json!(r.is_ok()));
                }
                if let Ok((x, _)) = r {
                    q = Some(x);
                }
            }
            "getmut" => {
                let r = q.as_ref().unwrap().get_mut();
                if r.is_some() != e["ok"].as_bool().unwrap() {
                    return differs(json!(r.is_some()));
                }
                if let Some(p) = r {
                    wptr = Some(p);
                }
            }
            "w1" => unsafe { (*wptr.unwrap()).a = n + 1 },
            "w2" => unsafe { (*wptr.unwrap()).b = n + 1 },
            "notify" => {
                q.as_ref().unwrap().notify_all_workers();
                n += 1;
                wptr = None;
            }
            "get" => {
                let r = q.as_ref().unwrap().get(&ids[w]);
                if r.is_some() != e["ok"].as_bool().unwrap() {
                    return differs(json!(r.is_some()));
                }
                if let Some(p) = r {
                    rptr[w] = Some(p);
                }
            }
            "r1" | "r2" => {
                let d = unsafe { &*rptr[w].unwrap() };
                let v = if s(e, "op") == "r1" { d.a } else { d.b };
                if Some(v) != e["v"].as_u64() {
                    return differs(json!(v));
                }
            }
            "done" => {
                q.as_ref().unwrap().work_done(&ids[w]);
                rptr[w] = None;
            }
            "ready" => {
                let r = q.as_ref().unwrap().ready_to_work(&ids[w]);
                if Some(r) != e["v"].as_bool() {
                    return differs(json!(r));
                }
            }
            "readyp" => {
                let r = q.as_ref().unwrap().ready_to_update();
                if Some(r) != e["v"].as_bool() {
                    return differs(json!(r));
                }
            }
            x => panic!("harness: op {x}"),
        }
    }
    if let Some(q) = &q {
        if t["made"] == json!(true) {
            let cw = q.ready_to_update();
            let cr: Vec<bool> = ids.iter().map(|i| q.ready_to_work(i)).collect();
            let cg: Vec<bool> = ids.iter().map(|i| q.get(i).is_some()).collect();
            if json!(cw) != t["cw"] || json!(cr) != t["cr"] || cg != cr || q.get_mut().is_some() != cw {
                return Err(json!({"observed": {"cw": cw, "cr": cr, "get": cg}}));
            }
        }
    }
    Ok(())
}

type Ev = (u64, &'static str, u64, u64);

/// One batch: a producer, one thread per registered id, and a thread polling with an unregistered id.
fn batch(rng: &mut Rng, nreg: usize, rounds: u64) -> (Vec<u64>, Vec<Ev>, bool) {
    let mut ids: Vec<u64> = (0..16).collect();
    for k in 0..16 {
        let j = rng.range(k as i64, 15) as usize;
        ids.swap(k, j);
    }
    let outsider = if nreg < 16 { Some(ids[nreg]) } else { None };
    ids.truncate(nreg);
    let (q, wids) = make(&ids).expect("queue");
    let q = Arc::new(q);
    let clock = Arc::new(AtomicU64::new(0));
    let halt = Arc::new(AtomicBool::new(false));
    let odd = Arc::new(AtomicBool::new(false));
    let bar = Arc::new(Barrier::new(nreg + 1 + outsider.is_some() as usize));
    let limit = Duration::from_secs(4);
    let pause = rng.below(3);
    let mut hs = Vec::new();
    for w in wids {
        let (q, clock, halt, odd, bar) = (q.clone(), clock.clone(), halt.clone(), odd.clone(), bar.clone());
        let work = rng.below(4);
        hs.push(std::thread::spawn(move || {
            let id = w.id as u64;
            let mut ev: Vec<Ev> = Vec::new();
            let mut n = 0u64;
            let tick = |op, v, ev: &mut Vec<Ev>| ev.push((clock.fetch_add(1, Ordering::SeqCst), op, id, v));
            bar.wait();
            let t0 = Instant::now();
            let mut spins = 0u64;
            while n < rounds && !halt.load(Ordering::Relaxed) {
                let Some(p) = q.get(&w) else {
                    spins += 1;
                    if spins % 256 == 0 {
                        std::thread::yield_now();
                        if t0.elapsed() > limit {
                            halt.store(true, Ordering::SeqCst);
                            odd.store(true, Ordering::SeqCst);
                        }
                    }
                    continue;
                };
                tick("get", 0, &mut ev);
                let a = unsafe { std::ptr::read_volatile(&(*p).a) };
                tick("r1", a, &mut ev);
                for _ in 0..work * 8 {
                    std::hint::spin_loop();
                }
                let b = unsafe { std::ptr::read_volatile(&(*p).b) };
                tick("r2", b, &mut ev);
                n += 1;
                if a != n || b != n {
                    odd.store(true, Ordering::SeqCst);
                }
                tick("done", 0, &mut ev);
                q.work_done(&w);
            }
            // nobody may be handed anything after the last update
            if n >= rounds && q.get(&w).is_some() {
                tick("get", 0, &mut ev);
                odd.store(true, Ordering::SeqCst);
            }
            ev
        }));
    }
    if let Some(o) = outsider {
        let (q, clock, halt, odd, bar) = (q.clone(), clock.clone(), halt.clone(), odd.clone(), bar.clone());
        let w = WorkerId::new(o as u16).unwrap();
        hs.push(std::thread::spawn(move || {
            let mut ev: Vec<Ev> = Vec::new();
            bar.wait();
            for _ in 0..rounds * 4 {
                if halt.load(Ordering::Relaxed) {
                    break;
                }
                if q.get(&w).is_some() {
                    ev.push((clock.fetch_add(1, Ordering::SeqCst), "get", o, 0));
                    odd.store(true, Ordering::SeqCst);
                    break;
                }
                q.work_done(&w); // harmless for an id that has nothing to do
                std::hint::spin_loop();
            }
            ev
        }));
    }
    let mut ev: Vec<Ev> = Vec::new();
    bar.wait();
    let t0 = Instant::now();
    let (mut n, mut spins) = (0u64, 0u64);
    while n < rounds && !halt.load(Ordering::Relaxed) {
        let Some(p) = q.get_mut() else {
            spins += 1;
            if spins % 256 == 0 {
                std::thread::yield_now();
                if t0.elapsed() > limit {
                    halt.store(true, Ordering::SeqCst);
                    odd.store(true, Ordering::SeqCst);
                }
            }
            continue;
        };
        let mut tick = |op| ev.push((clock.fetch_add(1, Ordering::SeqCst), op, 0, 0));
        tick("getmut");
        n += 1;
        unsafe { std::ptr::write_volatile(&mut (*p).a, n) };
        tick("w1");
        for _ in 0..pause * 4 {
            std::hint::spin_loop();
        }
        unsafe { std::ptr::write_volatile(&mut (*p).b, n) };
        tick("w2");
        tick("notify");
        q.notify_all_workers();
    }
    for h in hs {
        ev.extend(h.join().expect("thread"));
    }
    ev.sort();
    let stuck = halt.load(Ordering::SeqCst);
    ev.push((u64::MAX, if stuck { "stuck" } else { "end" }, 0, n));
    (ids, ev, odd.load(Ordering::SeqCst))
}

/// Runs many batches. All are pre-screened; a sample, and any that look odd, are written for TLC to judge.
pub fn record(seed: u64, batches: u64, keep: u64, rounds: u64, path: &str) {
    let mut rng = Rng::new(seed);
    let mut out = Out::new(path);
    let mut odd_seen = 0;
    // refused constructions
    out.line(&json!({"op": "reset"}));
    for _ in 0..60 {
        let n = rng.below(6);
        let l: Vec<u64> = (0..n).map(|_| if rng.chance(1, 12) { 14 + rng.below(5) } else { rng.below(16) }).collect();
        let ok = make(&l).is_ok();
        out.line(&json!({"op": "new", "ids": l, "ok": ok}));
        out.line(&json!({"op": "reset"}));
    }
    for b in 0..batches {
        let nreg = match rng.below(10) {
            0..=5 => 2 + rng.below(3) as usize,
            6..=8 => 5 + rng.below(4) as usize,
            _ => rng.range(9, 16) as usize,
        };
        let r = if nreg > 6 { rounds / 3 + 1 } else { rounds };
        let (ids, ev, odd) = batch(&mut rng, nreg, r);
        if b < keep || odd {
            out.line(&json!({"op": "reset"}));
            out.line(&json!({"op": "new", "ids": ids, "ok": true}));
            for (_, op, w, v) in ev {
                let j = match op {
                    "getmut" | "w1" | "w2" | "notify" => json!({"op": op}),
                    "r1" | "r2" => json!({"op": op, "w": w, "v": v}),
                    "end" | "stuck" => json!({"op": op, "pub": v}),
                    _ => json!({"op": op, "w": w}),
                };
                out.line(&j);
            }
        }
        if odd {
            odd_seen += 1;
            if odd_seen >= 2 {
                break;
            }
        }
    }
}
