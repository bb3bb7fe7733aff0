mod book;
mod counter;
mod dayroll;
mod desk;
mod ewm;
mod field;
mod instid;
mod krx;
mod logsess;
mod ofi;
mod spin;
mod util;

fn main() {
    util::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let n = |k: usize| -> u64 { a[k].parse().expect("number") };
    let rc = match (a[1].as_str(), a[2].as_str()) {
        ("book", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], book::replay_one)
        }
        ("book", "record") => {
            util::start_watchdog(20);
            book::record(n(3), n(4), n(5), &a[6], &a[7]);
            0
        }
        ("spin", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], spin::replay_one)
        }
        ("spin", "record") => {
            spin::record(n(3), n(4), n(5), n(6), &a[7]);
            0
        }
        ("counter", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], counter::replay_one)
        }
        ("counter", "record") => {
            counter::record(n(3), n(4), n(5), n(6), &a[7]);
            0
        }
        ("counter", "sprint") => {
            counter::sprint(n(3), n(4), n(5), &a[6]);
            0
        }
        ("instid", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], instid::replay_one)
        }
        ("instid", "record") => {
            instid::record(n(3), n(4), &a[5]);
            0
        }
        ("logger", "replay") => logsess::replay_all(&a[3]),
        ("logger", "record") => {
            logsess::record(n(3), n(4), &a[5]);
            0
        }
        ("logger", "child") => {
            logsess::child(&a[3], &a[4]);
            0
        }
        ("dayroll", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], dayroll::replay_one)
        }
        ("dayroll", "record") => {
            util::start_watchdog(60);
            dayroll::record(n(3), n(4), n(5), &a[6]);
            0
        }
        ("dayroll", "render") => {
            dayroll::record_render(n(3), n(4), &a[5]);
            0
        }
        ("krx", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], krx::replay_one)
        }
        ("krx", "record") => {
            util::start_watchdog(20);
            krx::record(n(3), n(4), n(5), &a[6]);
            0
        }
        ("desk", "replay") => {
            util::own_stdout();
            util::start_watchdog(20);
            util::replay_stdin(&a[3], desk::replay_one)
        }
        ("field", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], field::replay_one)
        }
        ("ewm", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], ewm::replay_one)
        }
        ("ewm", "record") => {
            util::start_watchdog(20);
            ewm::record(n(3), n(4), n(5), &a[6]);
            0
        }
        ("ofi", "replay") => {
            util::start_watchdog(20);
            util::replay_stdin(&a[3], ofi::replay_one)
        }
        ("ofi", "record") => {
            util::start_watchdog(20);
            ofi::record(n(3), n(4), n(5), &a[6]);
            0
        }
        x => {
            eprintln!("unknown command {x:?}");
            2
        }
    };
    std::process::exit(rc);
}
