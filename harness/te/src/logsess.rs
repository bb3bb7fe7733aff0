//! Logger sessions. Every session is one child process (the logger is a process-wide singleton).
//! `logger child <script> <dir>` runs a script; the parent reads the files it leaves behind.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use trading_engine::logger::{LogLevel, LogMessage, Logger, TimeZone};
use trading_engine::{
    debug, error, flushing_log_debug, flushing_log_error, flushing_log_info, flushing_log_trace, info, log_debug,
    log_error, log_info, log_trace, log_warn, trace, warn,
};

pub const LEVELS: [&str; 6] = ["Nil", "Error", "Warn", "Info", "Debug", "Trace"];

fn payload(t: u64, n: u64, size: u64) -> String {
    let unit = format!("<{t}.{n}>");
    let mut s = format!("m {t} {n} \"quoted\" \\ tab\t");
    while (s.len() as u64) < size {
        s.push_str(&unit);
    }
    s
}

/// one logging call, through the macro `m`
fn emit(m: &str, t: u64, n: u64, size: u64) {
    let p = payload(t, n, size);
    match m {
        "error!" => error!("{}", p),
        "warn!" => warn!("{}", p),
        "info!" => info!("{}", p),
        "debug!" => debug!("{}", p),
        "trace!" => trace!("{}", p),
        "log_error!" => log_error!("topic-e", text = p),
        "log_warn!" => log_warn!("topic-w", text = p, extra = n),
        "log_info!" => log_info!("topic-i", text = p, extra = n,),
        "log_debug!" => log_debug!("topic-d", text = p),
        "log_trace!" => log_trace!("topic-t", text = p),
        "flushing_log_error!" => flushing_log_error!("topic-fe", text = p),
        "flushing_log_info!" => flushing_log_info!("topic-fi", text = p, extra = n),
        "flushing_log_debug!" => flushing_log_debug!("topic-fd", text = p),
        "flushing_log_trace!" => flushing_log_trace!("topic-ft", text = p),
        "static" => {
            let j = json!({"level": "Static", "topic": "topic-s", "data": {"text": p}});
            let line: &'static str = Box::leak((j.to_string() + "\n").into_boxed_str());
            let _ = trading_engine::LOG_SENDER.try_send(LogMessage::StaticString(line));
        }
        x => panic!("harness: macro {x}"),
    }
}
/// macro -> (level, topic, sent whatever the level)
fn about(m: &str) -> (u64, &'static str, bool) {
    match m {
        "error!" => (1, "not given", false),
        "warn!" => (2, "not given", false),
        "info!" => (3, "not given", false),
        "debug!" => (4, "not given", false),
        "trace!" => (5, "not given", false),
        "log_error!" => (1, "topic-e", false),
        "log_warn!" => (2, "topic-w", false),
        "log_info!" => (3, "topic-i", false),
        "log_debug!" => (4, "topic-d", false),
        "log_trace!" => (5, "topic-t", false),
        "flushing_log_error!" => (1, "topic-fe", false),
        "flushing_log_info!" => (3, "topic-fi", false),
        "flushing_log_debug!" => (4, "topic-fd", false),
        "flushing_log_trace!" => (5, "topic-ft", false),
        "static" => (0, "topic-s", true),
        x => panic!("harness: macro {x}"),
    }
}
const MACROS: [&str; 15] = [
    "error!", "warn!", "info!", "debug!", "trace!", "log_error!", "log_warn!", "log_info!", "log_debug!", "log_trace!",
    "flushing_log_error!", "flushing_log_info!", "flushing_log_debug!", "flushing_log_trace!", "static",
];

fn level(v: u64) -> LogLevel {
    LogLevel::from_usize(v as usize).unwrap()
}

/// Script: a list of steps {"level":v} | {"attach":k} | {"threads":[[{m,t,n,size,pause}..]..]} | {"pause":ms}; ends by shutdown.
pub fn child(script: &str, dir: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(script).unwrap()).unwrap();
    let mut guards = Vec::new();
    for st in v["steps"].as_array().unwrap() {
        if let Some(x) = st["level"].as_u64() {
            let _ = Logger::initialize().with_max_log_level(level(x));
        } else if let Some(k) = st["attach"].as_u64() {
            let mut l = Logger::initialize().with_file(&format!("{dir}/f{k}"), "s").unwrap();
            if let Some(b) = st["console"].as_bool() {
                l = l.with_console_report(b);
            }
            if st["seoul"] == json!(true) {
                l = l.with_timezone(TimeZone::Seoul);
            }
            if let Some(x) = st["with_level"].as_u64() {
                l = l.with_max_log_level(level(x));
            }
            guards.push(l.launch());
        } else if let Some(k) = st["file"].as_u64() {
            let d = format!("{dir}/f{k}");
            std::fs::create_dir_all(&d).unwrap();
            let _ = trading_engine::LOG_SENDER.try_send(LogMessage::SetFile(PathBuf::from(format!("{d}/named.log"))));
        } else if let Some(ms) = st["pause"].as_u64() {
            std::thread::sleep(Duration::from_millis(ms));
        } else {
            let th = st["threads"].as_array().unwrap().clone();
            let run = |ops: &Value| {
                for o in ops.as_array().unwrap() {
                    emit(s(o, "m"), i(o, "t") as u64, i(o, "n") as u64, i(o, "size") as u64);
                    let us = i(o, "pause") as u64;
                    if us > 0 {
                        std::thread::sleep(Duration::from_micros(us));
                    }
                }
            };
            if th.len() == 1 {
                run(&th[0]);
            } else {
                let bar = Arc::new(Barrier::new(th.len()));
                std::thread::scope(|sc| {
                    for ops in &th {
                        let bar = bar.clone();
                        sc.spawn(move || {
                            bar.wait();
                            run(ops);
                        });
                    }
                });
            }
        }
    }
    if v["finalize"] == json!(true) {
        guards.into_iter().for_each(std::mem::forget);
        Logger::finalize();
    } else {
        let last = guards.pop();
        guards.into_iter().for_each(std::mem::forget);
        drop(last);
    }
    // shutdown has returned: everything must be in the files now, so leave without any further clean-up
    std::process::exit(0);
}

/// what an earlier session left in a file
fn prior(n: u64) -> String {
    (0..n).map(|k| format!("{{\"earlier\":{k}}}\n")).collect()
}

/// Runs a session; returns the lines of its files in order of attachment, or what went wrong.
fn session(script: &Value, dir: &Path, attaches: u64) -> Result<Vec<String>, String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for k in 0..attaches {
        let n = script["prior"][k as usize].as_u64().unwrap_or(0);
        if n > 0 {
            let d = dir.join(format!("f{k}"));
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("named.log"), prior(n)).unwrap();
        }
    }
    let sp = dir.join("script.json");
    std::fs::File::create(&sp).unwrap().write_all(script.to_string().as_bytes()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["logger", "child", sp.to_str().unwrap(), dir.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(25) {
            let _ = c.kill();
            let _ = c.wait();
            return Err("shutdown did not return".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    if !st.success() {
        return Err(format!("session died: {st}"));
    }
    let mut lines = Vec::new();
    for k in 0..attaches {
        let d = dir.join(format!("f{k}"));
        let mut fs: Vec<PathBuf> = std::fs::read_dir(&d).map(|r| r.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
        fs.sort();
        let was = prior(script["prior"][k as usize].as_u64().unwrap_or(0));
        let mut kept = was.is_empty();
        let at = lines.len();
        for f in fs {
            let mut text = String::from_utf8_lossy(&std::fs::read(f).unwrap()).into_owned();
            if !kept && text.starts_with(&was) {
                kept = true;
                text = text[was.len()..].to_string();
            }
            if !text.is_empty() && !text.ends_with('\n') {
                lines.extend(text.lines().map(String::from));
                lines.push("unterminated".into());
            } else {
                lines.extend(text.lines().map(String::from));
            }
        }
        if script["prior"].is_array() {
            lines.insert(at, format!("file {kept}"));
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    Ok(lines)
}

/// a line of a log file as an event; the guard's own farewell is not a user message
fn line_event(line: &str, sizes: &HashMap<(u64, u64), u64>) -> Option<Value> {
    let bad = || json!({"op": "line", "t": 0, "n": -1, "name": "?", "topic": "?", "whole": false, "text": line.chars().take(200).collect::<String>()});
    if let Some(kept) = line.strip_prefix("file ") {
        return Some(json!({"op": "file", "prior": kept == "true"}));
    }
    let Ok(v) = serde_json::from_str::<Value>(line) else { return Some(bad()) };
    if v["topic"] == json!("logger") {
        return None;
    }
    let Some(text) = v["data"]["text"].as_str() else { return Some(bad()) };
    let mut w = text.split(' ');
    w.next();
    let (Some(t), Some(n)) = (w.next().and_then(|x| x.parse::<u64>().ok()), w.next().and_then(|x| x.parse::<u64>().ok())) else { return Some(bad()) };
    let Some(size) = sizes.get(&(t, n)) else { return Some(bad()) };
    let mut whole = text == payload(t, n, *size);
    if let Some(x) = v["data"].get("extra") {
        whole = whole && *x == json!(n);
    }
    Some(json!({"op": "line", "t": t, "n": n, "name": v["level"], "topic": v["topic"], "whole": whole}))
}

struct Built {
    script: Value,
    events: Vec<Value>,
    sizes: HashMap<(u64, u64), u64>,
    attaches: u64,
    mixed: bool,
}

fn log_event(o: &Value) -> Value {
    let (lv, topic, always) = about(s(o, "m"));
    let name = if always { "Static" } else { LEVELS[lv as usize] };
    json!({"op": "log", "t": o["t"], "n": o["n"], "lv": lv, "name": name, "topic": topic, "always": always})
}

fn build(rng: &mut Rng, k: u64) -> Built {
    let mut steps = Vec::new();
    let mut events = Vec::new();
    let mut sizes = HashMap::new();
    let mut attaches = 0;
    let nthreads = rng.range(1, 6) as u64;
    let mut next = vec![0u64; 16];
    let phases = rng.range(1, 4);
    let attach_at = rng.range(0, phases);
    let second = rng.chance(1, 4);
    let mut lvl;
    // files by name: some not empty, some visited again
    let mixed = k % 4 == 2;
    let names = rng.range(1, 3) as u64;
    let mut named = false;
    let burst = k % 25 == 1; // many ordinary messages in no time: nothing is flushed before shutdown
    for p in 0..=phases {
        if mixed {
            if p == attach_at || rng.chance(1, 2) || (p == phases && !named) {
                steps.push(json!({"file": rng.below(names)}));
                named = true;
            }
        } else if p == attach_at || (second && p == phases) || (p == phases && attaches == 0) {
            let with = if rng.chance(1, 2) { Some(rng.below(6)) } else { None };
            let mut st = json!({"attach": attaches, "seoul": rng.chance(1, 3), "console": rng.chance(1, 4)});
            if let Some(x) = with {
                st["with_level"] = json!(x);
                events.push(json!({"op": "level", "v": x}));
            }
            steps.push(st);
            attaches += 1;
        }
        if p == 0 || rng.chance(1, 2) {
            lvl = rng.below(6);
            steps.push(json!({"level": lvl}));
            events.push(json!({"op": "level", "v": lvl}));
        }
        let mut th = Vec::new();
        for t in 0..nthreads {
            let mut ops = Vec::new();
            let cnt = if burst { rng.range(50, 400) } else if rng.chance(1, 5) { rng.range(0, 120) } else { rng.range(0, 12) };
            for _ in 0..cnt {
                next[t as usize] += 1;
                let n = next[t as usize];
                let m = if burst { *rng.pick(&["error!", "log_warn!", "log_error!", "static"]) } else { *rng.pick(&MACROS) };
                let size = if k % 10 == 0 && rng.chance(1, 60) { 2_100_000 } else if rng.chance(1, 15) { rng.below(20_000) } else { rng.below(60) };
                let pause = if !burst && rng.chance(1, 25) { 2_500 } else { 0 };
                sizes.insert((t, n), size);
                let o = json!({"m": m, "t": t, "n": n, "size": size, "pause": pause});
                events.push(log_event(&o));
                ops.push(o);
            }
            th.push(Value::Array(ops));
        }
        steps.push(json!({"threads": th}));
        if rng.chance(1, 4) {
            steps.push(json!({"pause": rng.range(1, 4)}));
        }
    }
    let mut script = json!({"steps": steps, "finalize": rng.chance(1, 3)});
    if mixed {
        attaches = names;
        script["finalize"] = json!(true); // no guard without a launch
        script["prior"] = (0..names).map(|_| if rng.chance(1, 2) { rng.range(1, 5) } else { 0 }).collect();
    }
    Built { script, events, sizes, attaches, mixed }
}

pub fn record(seed: u64, sessions: u64, path: &str) {
    let mut out = Out::new(path);
    let base = std::env::current_dir().unwrap().join(format!("logs-{seed}-{}", std::process::id()));
    let jobs: Vec<(u64, Built)> = {
        let mut rng = Rng::new(seed);
        (0..sessions).map(|k| (k, build(&mut rng, k))).collect()
    };
    let res: Vec<Result<Vec<String>, String>> = in_parallel(&jobs, |(k, b)| session(&b.script, &base.join(k.to_string()), b.attaches));
    for ((_, b), r) in jobs.iter().zip(res) {
        out.line(&json!({"op": "reset", "mixed": b.mixed}));
        for e in &b.events {
            out.line(e);
        }
        out.line(&json!({"op": "closed"}));
        match r {
            Err(why) => out.line(&json!({"op": "failed", "why": why})),
            Ok(lines) => {
                for x in lines {
                    if let Some(e) = line_event(&x, &b.sizes) {
                        out.line(&e);
                    }
                }
                out.line(&json!({"op": "eof"}));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
}

fn in_parallel<T: Sync, R: Send>(jobs: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let slots: Vec<std::sync::Mutex<Option<R>>> = jobs.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= jobs.len() {
                    break;
                }
                *slots[k].lock().unwrap() = Some(f(&jobs[k]));
            });
        }
    });
    slots.into_iter().map(|s| s.into_inner().unwrap().unwrap()).collect()
}

/// tests generated from the specification: all collected first, then run eight at a time
pub fn replay_all(log: &str) -> i32 {
    use std::io::BufRead;
    let stdin = std::io::stdin();
    let mut logf = std::io::BufWriter::new(std::fs::File::create(log).unwrap());
    let mut tests: Vec<Value> = Vec::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.starts_with("\"@@") {
            let x: String = serde_json::from_str(&line).unwrap();
            tests.push(serde_json::from_str(&x[2..]).unwrap());
        } else {
            writeln!(logf, "{line}").unwrap();
        }
    }
    logf.flush().unwrap();
    let base = std::env::current_dir().unwrap().join(format!("logt-{}", std::process::id()));
    let idx: Vec<usize> = (0..tests.len()).collect();
    let res = in_parallel(&idx, |&k| replay_one(&tests[k], k as u64, &base.join(k.to_string())));
    let _ = std::fs::remove_dir_all(&base);
    let mut bad = 0;
    for (t, r) in tests.iter().zip(&res) {
        if let Err(why) = r {
            bad += 1;
            if bad <= 5 {
                println!("{}", json!({"bad": {"why": why, "test": t}}));
            }
        }
    }
    println!("{}", json!({"replayed": tests.len(), "bad": bad, "sample": tests.last()}));
    if bad > 0 { 1 } else { 0 }
}

fn replay_one(t: &Value, k: u64, dir: &Path) -> Result<(), Value> {
    let mut steps = Vec::new();
    let mut sizes = HashMap::new();
    let mut want = Vec::new();
    let mut sent: HashMap<(u64, u64), (String, String)> = HashMap::new();
    let mut attaches = 0;
    for (j, e) in t["h"].as_array().unwrap().iter().enumerate() {
        match s(e, "op") {
            "level" => steps.push(json!({"level": e["v"]})),
            "attach" => {
                steps.push(json!({"attach": attaches}));
                attaches += 1;
            }
            "log" => {
                let flush = e["flush"] == json!(true);
                let pool: &[&str] = match (i(e, "lv"), flush) {
                    (1, false) => &["error!", "log_error!"],
                    (1, true) => &["flushing_log_error!"],
                    (2, _) => &["warn!", "log_warn!"],
                    (3, false) => &["info!", "log_info!"],
                    (3, true) => &["flushing_log_info!"],
                    (4, false) => &["debug!", "log_debug!"],
                    (4, true) => &["flushing_log_debug!"],
                    (5, false) => &["trace!", "log_trace!"],
                    _ => &["flushing_log_trace!"],
                };
                let m = pool[(k as usize + j) % pool.len()];
                let (th, n) = (i(e, "t") as u64, i(e, "n") as u64);
                let size = [10, 10, 3000, 40_000][(k as usize + j) % 4];
                sizes.insert((th, n), size);
                let (lv, topic, _) = about(m);
                sent.insert((th, n), (LEVELS[lv as usize].into(), topic.into()));
                // one thread at a time, in the order of the history
                steps.push(json!({"threads": [[{"m": m, "t": th, "n": n, "size": size, "pause": if (k + j as u64) % 9 == 0 { 2500 } else { 0 }}]]}));
            }
            _ => {}
        }
    }
    for m in t["exp"].as_array().unwrap() {
        let key = (m[0].as_u64().unwrap(), m[1].as_u64().unwrap());
        let (name, topic) = &sent[&key];
        want.push(json!({"op": "line", "t": key.0, "n": key.1, "name": name, "topic": topic, "whole": true}));
    }
    let script = json!({"steps": steps, "finalize": k % 2 == 0});
    let got: Vec<Value> = session(&script, dir, attaches).map_err(|e| json!(e))?.iter().filter_map(|x| line_event(x, &sizes)).collect();
    if got != want {
        return Err(json!({"file": got, "expected": want}));
    }
    Ok(())
}
