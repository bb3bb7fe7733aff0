//! Use of the shared slot from several threads, meant to run under Miri: the real code is executed on a
//! release/acquire memory and two accesses to the data that nothing orders are reported as a data race.
//! No clock is shared between the threads (it would order what the slot must order): every thread keeps its
//! own log, and the specification decides whether the logs can be merged into one of its behaviours.
use std::sync::Arc;
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};

#[derive(Clone, Debug, Default)]
struct Data {
    a: u64,
    b: Vec<u64>,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

type Ev = (&'static str, u64);
const PATIENCE: u32 = 30_000;

fn worker(q: &DataSpinQueue<Data>, w: &WorkerId, n: u64) -> Vec<Ev> {
    let mut log = Vec::new();
    for _ in 0..n {
        let mut left = PATIENCE;
        let p = loop {
            if let Some(p) = q.get(w) {
                break p;
            }
            left -= 1;
            if left == 0 {
                log.push(("stuck", 0));
                return log;
            }
            std::thread::yield_now();
        };
        log.push(("get", 0));
        log.push(("r1", unsafe { (*p).a }));
        let b = unsafe { &(*p).b };
        log.push(("r2", if b.len() == 3 && b[0] == b[2] { b[1] } else { 999_999 }));
        log.push(("done", 0));
        q.work_done(w);
    }
    log
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut rng = Rng(a[0] * 7919 + 13);
    rng.next(2);
    for _ in 0..a[1] {
        let mut ids: Vec<u16> = (0..16).collect();
        for k in 0..16 {
            let j = k + rng.next(16 - k as u64) as usize;
            ids.swap(k, j);
        }
        ids.truncate(1 + rng.next(3) as usize);
        let n = 1 + rng.next(3);
        let ws: Vec<WorkerId> = ids.iter().map(|i| WorkerId::new(*i).unwrap()).collect();
        let q = Arc::new(DataSpinQueue::new(Data { a: 0, b: vec![0; 3] }, ws.clone()).unwrap());
        let hs: Vec<_> = ws
            .into_iter()
            .map(|w| {
                let q = q.clone();
                std::thread::spawn(move || worker(&q, &w, n))
            })
            .collect();
        let mut log: Vec<Ev> = Vec::new();
        'rounds: for k in 1..=n {
            let mut left = PATIENCE;
            let p = loop {
                if let Some(p) = q.get_mut() {
                    break p;
                }
                left -= 1;
                if left == 0 {
                    log.push(("stuck", 0));
                    break 'rounds;
                }
                std::thread::yield_now();
            };
            log.push(("getmut", 0));
            unsafe { (*p).a = k };
            log.push(("w1", 0));
            unsafe { (*p).b = vec![k; 3] };
            log.push(("w2", 0));
            log.push(("notify", 0));
            q.notify_all_workers();
        }
        let mut logs = vec![log];
        for h in hs {
            logs.push(h.join().unwrap());
        }
        let t: Vec<String> = logs
            .iter()
            .map(|l| format!("[{}]", l.iter().map(|e| format!("{{\"op\":\"{}\",\"v\":{}}}", e.0, e.1)).collect::<Vec<_>>().join(",")))
            .collect();
        println!("{{\"ids\":{ids:?},\"pub\":{n},\"logs\":[{}]}}", t.join(","));
    }
}
