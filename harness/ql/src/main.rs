#[path = "../../te/src/util.rs"]
mod util;
mod cal;
mod cash;
mod chol;
mod curve;
mod daycount;
mod engine;
mod fit;
mod grid;
mod holcal;
mod instr;
mod market;
mod matching;
mod price;
mod sched;
mod store;
mod tenor;
mod text;
mod vol;

fn main() {
    util::quiet_panics();
    util::own_stdout();
    let a: Vec<String> = std::env::args().collect();
    let n = |k: usize| -> u64 { a[k].parse().expect("number") };
    util::start_watchdog(if a[2] == "record" { 240 } else { 60 });
    let rc = match (a[1].as_str(), a[2].as_str()) {
        ("tenor", "replay") => util::replay_with(&a[3], 4, tenor::replay_one),
        ("daycount", "replay") => util::replay_with(&a[3], 4, daycount::replay_one),
        ("grid", "replay") => util::replay_with(&a[3], 4, grid::replay_one),
        ("chol", "replay") => util::replay_with(&a[3], 4, chol::replay_one),
        ("text", "replay") => util::replay_with(&a[3], 4, text::replay_one),
        ("fit", "replay") => util::replay_with(&a[3], 4, fit::replay_one),
        ("instr", "replay") => util::replay_with(&a[3], 4, instr::replay_one),
        ("cash", "replay") => util::replay_with(&a[3], 6, cash::replay_one),
        ("holcal", "replay") => util::replay_with(&a[3], 4, holcal::replay_one),
        ("sched", "replay") => util::replay_with(&a[3], 4, sched::replay_one),
        ("vol", "replay") => util::replay_with(&a[3], 6, vol::replay_one),
        ("curve", "replay") => util::replay_with(&a[3], 6, curve::replay_one),
        ("match", "replay") => util::replay_with(&a[3], 4, matching::replay_one),
        ("price", "replay") => util::replay_with(&a[3], 6, price::replay_one),
        ("engine", "replay") => util::replay_with(&a[3], 6, engine::replay_one),
        ("market", "replay") => util::replay_with(&a[3], 4, market::replay_one),
        ("sheet", "replay") => util::replay_with(&a[3], 4, store::sheet_one),
        ("store", "replay") => util::replay_with(&a[3], 4, store::store_one),
        ("series", "replay") => util::replay_with(&a[3], 4, store::series_one),
        (what, "record") => {
            util::watch(format!("recording {what}"));
            match what {
                "tenor" => tenor::record(n(3), n(4), n(5), &a[6]),
                "daycount" => daycount::record(n(3), n(4), n(5), &a[6]),
                "holcal" => holcal::record(n(3), n(4), n(5), &a[6]),
                "chol" => chol::record(n(3), n(4), n(5), &a[6]),
                "text" => text::record(n(3), n(4), n(5), &a[6]),
                "grid" => grid::record(n(3), n(4), n(5), &a[6]),
                "months" => holcal::record_months(n(3), n(4), &a[5]),
                "bonds" | "swaps" | "coupons" => cash::record(what, n(3), n(4), n(5), &a[6]),
                "sched" => sched::record(n(3), n(4), n(5), &a[6]),
                "market" => market::record(n(3), n(4), n(5), &a[6]),
                "match" => matching::record(n(3), n(4), n(5), &a[6]),
                "curve" => curve::record(n(3), n(4), n(5), &a[6]),
                x => panic!("harness: unknown component {x}"),
            }
            0
        }
        x => {
            eprintln!("unknown command {x:?}");
            2
        }
    };
    std::process::exit(rc);
}
