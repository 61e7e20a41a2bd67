//! Deterministic simulation of clients using the `dendron` crate, with fault injection.

mod check;
mod exec;
mod gen;
mod model;
mod op;
mod ops_churn;
mod ops_cmp;
mod ops_edit;
mod ops_handle;
mod ops_iter;
mod ops_stream;
mod payload;
mod report;
mod rng;
mod run;
mod scale;
mod scale_more;
mod scale_owned;
mod world;

use std::io::Write;

use world::VERBOSE;

fn quit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    // Worlds given up in the middle may hold data: no destructors of thread locals.
    unsafe { world::_exit(code) }
}

fn usage() -> ! {
    eprintln!(
        "usage: sim check C01..C20 quick|thorough SEED [BIN...]
       sim replay FILE
       sim run-trace FILE
       sim show C01..C20 SEED
       sim hashes C01..C20 FROM COUNT"
    );
    quit(2)
}

fn prop_num(s: &str) -> u32 {
    match s.strip_prefix('C').and_then(|x| x.parse().ok()) {
        Some(n) if (1..=20).contains(&n) => n,
        _ => usage(),
    }
}

fn main() {
    run::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| -> &str { args.get(i).map_or_else(|| usage(), |s| s.as_str()) };
    match arg(1) {
        "check" => {
            let bins: Vec<String> = args[5.min(args.len())..].to_vec();
            let code = check::check(prop_num(arg(2)), arg(3), arg(4).parse().unwrap_or(1), &bins);
            quit(code)
        }
        "worker" => {
            let n = |i: usize| -> u64 { arg(i).parse().unwrap_or_else(|_| usage()) };
            check::worker(prop_num(arg(2)), n(3), n(4), n(5), n(6), arg(7));
            quit(0)
        }
        "run-trace" => {
            VERBOSE.with(|v| v.set(std::env::var_os("SIM_VERBOSE").is_some()));
            let text = std::fs::read_to_string(arg(2)).unwrap_or_else(|_| usage());
            println!("HASH {:016x}", check::run_text(&text));
            quit(0)
        }
        "replay" => {
            std::env::set_var("SIM_VERBOSE", "1");
            quit(check::replay(arg(2)))
        }
        "show" => {
            let p = prop_num(arg(2));
            let seed = arg(3).parse().unwrap_or_else(|_| usage());
            print!("{}", check::text_of(p, seed));
            quit(0)
        }
        // Development: a run on huge trees.
        "hugegen" => {
            let p = prop_num(arg(2));
            let seed = arg(3).parse().unwrap_or_else(|_| usage());
            print!("{}", scale::generate(p, seed).to_text());
            quit(0)
        }
        "hashes" => {
            let p = prop_num(arg(2));
            let from: u64 = arg(3).parse().unwrap_or_else(|_| usage());
            let n: u64 = arg(4).parse().unwrap_or_else(|_| usage());
            for i in from..from + n {
                let t = check::text_of(p, i);
                println!("{} {:016x}", i, check::run_text(&t));
            }
            quit(0)
        }
        // Development: run seeds without a supervisor.
        "seeds" => {
            let p = prop_num(arg(2));
            let from: u64 = arg(3).parse().unwrap_or_else(|_| usage());
            let n: u64 = arg(4).parse().unwrap_or_else(|_| usage());
            VERBOSE.with(|v| v.set(args.len() > 5));
            for i in from..from + n {
                check::run_seed(p, i);
            }
            quit(0)
        }
        _ => usage(),
    }
}
