//! Shared plumbing: PRNG, panic capture, hang watchdog, replay loop.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("unguarded panic: {s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// An object as it comes back from storage. In a stored run (V_STORED=1) the object is written as JSON text and read back, and the copy is used in its place.
pub fn stored<T: serde::Serialize + serde::de::DeserializeOwned>(x: T) -> T {
    if in_store() { through_text(&x) } else { x }
}
pub fn in_store() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var("V_STORED").is_ok_and(|v| v == "1"))
}
/// the same for 64-bit floats, whose last bit the JSON reader does not promise to keep
pub fn reread<T: serde::Serialize + serde::de::DeserializeOwned>(x: T) -> T {
    if !in_store() {
        return x;
    }
    serde_json::from_str(&serde_json::to_string(&x).expect("written")).expect("read back")
}
pub fn through_text<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    let kind = std::any::type_name::<T>();
    let text = serde_json::to_string(x).unwrap_or_else(|e| panic!("{kind} is not written: {e}"));
    let y: T = serde_json::from_str(&text).unwrap_or_else(|e| panic!("{kind} is not read back: {e}: {}", &text[..text.len().min(200)]));
    let tree = |x: &T| serde_json::to_value(x).expect("harness: tree");
    assert!(tree(x) == tree(&y), "{kind} reads back different: {}", &text[..text.len().min(200)]);
    y
}

/// Run code under test; a panic becomes data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

static RESULTS: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// Keep what the code under test prints away from the results: standard output moves to another
/// descriptor, which only `say` writes, and descriptor 1 becomes /dev/null.
#[allow(dead_code)]
pub fn own_stdout() {
    use std::os::fd::{FromRawFd, IntoRawFd};
    extern "C" {
        fn dup(a: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null").into_raw_fd();
    unsafe {
        let fd = dup(1);
        assert!(fd > 2 && dup2(null, 1) == 1);
        *RESULTS.lock().unwrap() = Some(std::fs::File::from_raw_fd(fd));
    }
}
/// What `f` prints to standard output (with nothing else running).
#[allow(dead_code)]
pub fn printed(scratch: &str, f: impl FnOnce()) -> String {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup(a: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(a: i32) -> i32;
    }
    let file = std::fs::File::create(scratch).expect("harness: scratch");
    let _ = std::io::stdout().flush();
    unsafe {
        let old = dup(1);
        assert!(old > 2 && dup2(file.as_raw_fd(), 1) == 1);
        f();
        let _ = std::io::stdout().flush();
        assert!(dup2(old, 1) == 1 && close(old) == 0);
    }
    let r = std::fs::read_to_string(scratch).expect("harness: scratch");
    let _ = std::fs::remove_file(scratch);
    r
}
/// One line of results.
pub fn say(v: Value) {
    match RESULTS.lock().unwrap().as_mut() {
        Some(f) => f.write_all(format!("{v}\n").as_bytes()).expect("results"),
        None => println!("{v}"),
    }
}

static CURRENT: Mutex<Option<std::collections::HashMap<std::thread::ThreadId, (Instant, String)>>> = Mutex::new(None);
/// Mark the start of a call that must return; `what` describes it for the report.
pub fn watch(what: String) {
    CURRENT.lock().unwrap().get_or_insert_with(Default::default).insert(std::thread::current().id(), (Instant::now(), what));
}
pub fn unwatch() {
    if let Some(m) = CURRENT.lock().unwrap().as_mut() {
        m.remove(&std::thread::current().id());
    }
}
/// A call that does not return within `secs` is reported as one mismatch line, and the process ends with 9.
pub fn start_watchdog(secs: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let late = CURRENT.lock().unwrap().as_ref().and_then(|m| m.values().find(|x| x.0.elapsed().as_secs() >= secs).cloned());
        if let Some((_, what)) = late {
            say(json!({"bad": {"why": format!("call did not return within {secs} s"), "at": what}}));
            std::process::exit(9);
        }
    });
}

static KNOWN: Mutex<std::collections::BTreeMap<&'static str, u64>> = Mutex::new(std::collections::BTreeMap::new());
/// The code did what a recorded finding says it does; run.py checks that the finding is listed.
#[allow(dead_code)]
pub fn known(id: &'static str) {
    *KNOWN.lock().unwrap().entry(id).or_insert(0) += 1;
}

thread_local! { static TEST_NO: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// number of the test being replayed, in the order of the input: lets a replay vary what the test leaves open
#[allow(dead_code)]
pub fn test_no() -> u64 {
    TEST_NO.with(|t| t.get())
}

/// Read TLC output on stdin. Lines carrying a test (`"@@..."`) are replayed by `f`; all others are copied
/// to the file `log`. Mismatches are printed as {"bad":..}; the last line is {"replayed":n,"bad":k,"sample":..}.
pub fn replay_stdin(log: &str, f: impl Fn(&Value) -> Result<(), Value> + Sync) -> i32 {
    replay_with(log, 1, f)
}
/// the same with several threads; each test still runs in one
pub fn replay_with(log: &str, threads: usize, f: impl Fn(&Value) -> Result<(), Value> + Sync) -> i32 {
    let mut logf = std::io::BufWriter::new(std::fs::File::create(log).expect("log file"));
    let (n, bad) = (AtomicU64::new(0), AtomicU64::new(0));
    let sample = Mutex::new(Value::Null);
    let broken = std::sync::atomic::AtomicBool::new(false);
    let t = Instant::now();
    let one = |line: String, k: u64| {
        let s: String = match serde_json::from_str(&line) {
            Ok(s) => s,
            Err(e) => {
                say(json!({"tool_error": format!("unparsable test line: {e}")}));
                broken.store(true, Ordering::SeqCst);
                return;
            }
        };
        let v: Value = serde_json::from_str(&s[2..]).expect("test json");
        if k % 997 == 1 {
            *sample.lock().unwrap() = v.clone();
        }
        TEST_NO.with(|t| t.set(k));
        watch(s);
        let r = f(&v);
        unwatch();
        if let Err(why) = r {
            if bad.fetch_add(1, Ordering::SeqCst) < 5 {
                say(json!({"bad": {"why": why, "test": v}}));
            }
        }
    };
    std::thread::scope(|sc| {
        let (tx, rx) = std::sync::mpsc::sync_channel::<(String, u64)>(256);
        let rx = Mutex::new(rx);
        if threads > 1 {
            let (rx, one) = (std::sync::Arc::new(rx), &one);
            for _ in 0..threads {
                let rx = rx.clone();
                sc.spawn(move || loop {
                    let m = rx.lock().unwrap().recv();
                    match m {
                        Ok((line, k)) => one(line, k),
                        Err(_) => return,
                    }
                });
            }
        }
        for line in std::io::stdin().lock().lines() {
            let line = line.expect("stdin");
            if line.starts_with("\"@@") {
                let k = n.fetch_add(1, Ordering::SeqCst) + 1;
                if threads > 1 {
                    tx.send((line, k)).expect("worker");
                } else {
                    one(line, k);
                }
            } else {
                writeln!(logf, "{line}").unwrap();
            }
        }
        drop(tx);
    });
    for (id, n) in KNOWN.lock().unwrap().iter() {
        say(json!({"known": id, "count": n}));
    }
    let (n, bad) = (n.into_inner(), bad.into_inner());
    say(json!({"replayed": n, "bad": bad, "sample": sample.into_inner().unwrap(), "ms": t.elapsed().as_millis() as u64}));
    if broken.into_inner() { 2 } else if bad > 0 { 1 } else { 0 }
}

pub struct Out(std::io::BufWriter<std::fs::File>);
impl Out {
    pub fn new(path: &str) -> Self {
        Out(std::io::BufWriter::new(std::fs::File::create(path).expect("trace file")))
    }
    pub fn line(&mut self, v: &Value) {
        writeln!(self.0, "{v}").unwrap();
    }
}

pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: missing int {k} in {v}"))
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: missing str {k} in {v}"))
}
