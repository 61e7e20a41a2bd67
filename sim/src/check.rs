//! The supervisor: worker processes over a fixed set of seeds, crash and hang attribution,
//! minimisation, replay files and evidence.

use std::fs;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::gen;
use crate::op::{Act, Fault, Kind, Trace};
use crate::report::{self, bump, json_str, Cover};
use crate::rng::{mix, Rng};
use crate::run;
use crate::scale::{self, Scale};
use crate::world::{tag_names, Tags, VIOLATION_EXIT};

const WORKERS: u64 = 8;
/// A run takes milliseconds. One that takes this long hangs.
const HANG: Duration = Duration::from_secs(60);
/// Runs that may end early because of violations of other properties.
const MAX_FOREIGN: u64 = 240;

/// Number of runs: (quick, thorough).
fn runs(prop: u32) -> (u64, u64) {
    match prop {
        10 => (2_500, 100_000),
        20 => (60_000, 1_500_000),
        _ => (70_000, 2_000_000),
    }
}

pub fn seed_of(base: u64, prop: u32, i: u64) -> u64 {
    let mut r = Rng::new(base.wrapping_mul(1_000_003) ^ u64::from(prop) << 56 ^ i << 16);
    r.next();
    r.next() >> 16
}

/// Whether a run is one on huge trees: all those of one property, and a few of each other one.
fn huge(prop: u32, seed: u64) -> bool {
    prop == 10 || mix(seed, 0xb16) % 200 == 0
}

pub fn text_of(prop: u32, seed: u64) -> String {
    if huge(prop, seed) {
        scale::generate(prop, seed).to_text()
    } else {
        gen::trace(prop, seed).to_text()
    }
}

/// The start of a file that describes several runs of one process: seeds first, then a trace.
const SESSION: &str = "dendron-sim-session\n";

pub fn run_text(text: &str) -> u64 {
    if let Some(rest) = text.strip_prefix(SESSION) {
        let (seeds, last) = rest.split_once("last\n").unwrap_or_else(|| bad_file());
        for l in seeds.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match (f.get(1).and_then(|x| x.strip_prefix('C')?.parse().ok()), f.get(2).and_then(|x| x.parse().ok())) {
                (Some(p), Some(n)) => run_text(&text_of(p, n)),
                _ => bad_file(),
            };
        }
        run_text(last)
    } else if text.starts_with("dendron-sim-scale") {
        match Scale::parse(text) {
            Some(s) => scale::run(&s).hash,
            None => bad_file(),
        }
    } else {
        match Trace::parse(text) {
            Some(t) => run::run(&t).hash,
            None => bad_file(),
        }
    }
}

fn bad_file() -> ! {
    eprintln!("not a trace");
    unsafe { crate::world::_exit(2) }
}

/// One generated run, counted for the evidence.
pub fn run_seed(prop: u32, seed: u64) {
    let (hash, nontrivial) = if huge(prop, seed) {
        let o = scale::run(&scale::generate(prop, seed));
        for (i, n) in o.done.iter().enumerate() {
            if *n > 0 {
                let name = scale::KINDS[i];
                let name = if prop == 10 { name.to_string() } else { format!("huge.{}", name) };
                bump(&format!("op.{}.done", name), u64::from(*n));
            }
        }
        bump("nodes", o.nodes);
        bump("huge", 1);
        (o.hash, o.done.iter().sum::<u32>() >= 3)
    } else {
        let o = run::run(&gen::trace(prop, seed));
        let f: u32 = gen::focus(prop).iter().map(|(k, _)| o.done[*k as usize]).sum();
        let ok = match prop {
            3 => f >= 3 && (o.rejected > 0 || o.faults.iter().sum::<u64>() > 0),
            9 => f >= 3 && o.faults[0] > 0,
            _ => f >= 3,
        };
        (o.hash, ok)
    };
    bump("runs", 1);
    if nontrivial {
        bump("nontrivial", 1);
        report::MINE.with(|m| m.borrow_mut().hashes.insert(hash));
    }
}

/// Runs the indexes `from`, `from + step`, ... below `to`.
pub fn worker(prop: u32, base: u64, from: u64, to: u64, step: u64, dir: &str) {
    report::PATH.with(|p| *p.borrow_mut() = format!("{}/stats", dir));
    let progress = format!("{}/progress", dir);
    let mut file = match fs::OpenOptions::new().write(true).create(true).truncate(true).open(&progress) {
        Ok(f) => f,
        Err(_) => return,
    };
    let mut i = from;
    while i < to {
        use std::io::{Seek, SeekFrom, Write};
        let _ = file.seek(SeekFrom::Start(0));
        let _ = file.write_all(format!("{:020}", i).as_bytes());
        run_seed(prop, seed_of(base, prop, i));
        i += step;
    }
    report::emit();
}

/// How a process that executed runs has ended.
#[derive(Clone, Debug)]
enum End {
    Fine,
    Viol { tags: Tags, op: usize, msg: String },
    /// Killed by a signal or an unexpected exit status.
    Crash(String),
    Hang,
}

impl End {
    fn concerns(&self, prop: u32) -> bool {
        match self {
            End::Fine => false,
            End::Viol { tags, msg, .. } => tags & (1 << prop) != 0 && !msg.contains("[harness]"),
            End::Crash(_) | End::Hang => true,
        }
    }
    fn text(&self) -> String {
        match self {
            End::Fine => "no violation".to_string(),
            End::Viol { msg, .. } => msg.clone(),
            End::Crash(s) => format!("the process died: {}", s),
            End::Hang => "the run does not end".to_string(),
        }
    }
    fn tags(&self) -> Tags {
        match self {
            End::Viol { tags, .. } => *tags,
            _ => 0,
        }
    }
    /// The same kind of ending (messages name slots and numbers that minimisation changes).
    fn like(&self, other: &End, prop: u32) -> bool {
        match (self, other) {
            (End::Viol { .. }, End::Viol { .. }) => self.concerns(prop) == other.concerns(prop),
            (End::Crash(_), End::Crash(_)) | (End::Hang, End::Hang) => true,
            _ => false,
        }
    }
}

fn parse_end(status: std::process::ExitStatus, out: &str, err: &str) -> End {
    if status.success() {
        return End::Fine;
    }
    if status.code() == Some(VIOLATION_EXIT) {
        for l in out.lines() {
            let f: Vec<&str> = l.splitn(5, ' ').collect();
            if f.len() == 5 && f[0] == "VIOL" {
                return End::Viol {
                    tags: f[1].parse().unwrap_or(0),
                    op: f[3].parse().unwrap_or(0),
                    msg: f[4].to_string(),
                };
            }
        }
    }
    let note = err.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("").trim().to_string();
    End::Crash(format!("{} {}", status, note).trim().to_string())
}

fn spawn(bin: &str, args: &[String], dir: &str) -> Option<Child> {
    let out = fs::File::create(format!("{}/out", dir)).ok()?;
    let err = fs::File::create(format!("{}/err", dir)).ok()?;
    let mut c = Command::new(bin);
    // Equal addresses in equal executions, where the system allows it.
    unsafe {
        c.pre_exec(|| {
            crate::world::personality(0x004_0000);
            Ok(())
        });
    }
    c.args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::from(out))
        .stderr(Stdio::from(err))
        .spawn()
        .ok()
}

fn read(path: String) -> String {
    fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
}

/// Runs a trace in a fresh process.
fn try_text(bin: &str, dir: &str, text: &str, limit: Duration) -> End {
    let file = format!("{}/try.txt", dir);
    if fs::write(&file, text).is_err() {
        return End::Fine;
    }
    let mut child = match spawn(bin, &["run-trace".to_string(), file], dir) {
        Some(c) => c,
        None => return End::Fine,
    };
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return parse_end(st, &read(format!("{}/out", dir)), &read(format!("{}/err", dir)));
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
}

struct Worker {
    child: Child,
    dir: String,
    id: u64,
    from: u64,
    last: u64,
    since: Instant,
}

struct Found {
    index: u64,
    /// The first run of the process.
    from: u64,
    end: End,
}

/// Runs all indexes on all cores. Returns violations of the property (lowest index first).
#[allow(clippy::too_many_arguments)]
fn sweep(
    bin: &str,
    prop: u32,
    base: u64,
    total: u64,
    scratch: &str,
    cover: &mut Cover,
    foreign: &mut Vec<(u64, End)>,
    limit: Duration,
) -> (Vec<Found>, bool) {
    let t0 = Instant::now();
    let mut next_dir = 0;
    let mut start = |id: u64, from: u64| -> Option<Worker> {
        next_dir += 1;
        let dir = format!("{}/w{}", scratch, next_dir);
        fs::create_dir_all(&dir).ok()?;
        let args: Vec<String> = vec![
            "worker".to_string(),
            format!("C{:02}", prop),
            base.to_string(),
            from.to_string(),
            total.to_string(),
            WORKERS.to_string(),
            dir.clone(),
        ];
        Some(Worker { child: spawn(bin, &args, &dir)?, dir, id, from, last: from, since: Instant::now() })
    };
    let mut ws: Vec<Worker> = (0..WORKERS).filter(|i| *i < total).filter_map(|i| start(i, i)).collect();
    let mut found: Vec<Found> = vec![];
    let mut complete = true;
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(5));
        let mut k = 0;
        while k < ws.len() {
            let at = read(format!("{}/progress", ws[k].dir)).trim().parse::<u64>().unwrap_or(ws[k].from);
            if at != ws[k].last {
                ws[k].last = at;
                ws[k].since = Instant::now();
            }
            let hang = ws[k].since.elapsed() > HANG;
            let late = t0.elapsed() > limit;
            // Later indexes do not matter once something is found.
            let moot = found.iter().any(|f| f.index < at);
            let end = match ws[k].child.try_wait() {
                Ok(Some(st)) => {
                    let dir = &ws[k].dir;
                    Some(parse_end(st, &read(format!("{}/out", dir)), &read(format!("{}/err", dir))))
                }
                _ if hang => Some(End::Hang),
                _ if late || moot => {
                    complete = false;
                    Some(End::Fine)
                }
                _ => None,
            };
            let end = match end {
                Some(e) => e,
                None => {
                    k += 1;
                    continue;
                }
            };
            let mut wk = ws.swap_remove(k);
            let _ = wk.child.kill();
            let _ = wk.child.wait();
            cover.merge(&format!("{}/stats", wk.dir));
            let index = read(format!("{}/progress", wk.dir)).trim().parse::<u64>().unwrap_or(wk.from);
            let _ = fs::remove_dir_all(&wk.dir);
            match end {
                End::Fine => {}
                e if e.concerns(prop) => found.push(Found { index, from: wk.from, end: e }),
                e => {
                    foreign.push((index, e));
                    if (foreign.len() as u64) < MAX_FOREIGN {
                        if index + WORKERS < total {
                            ws.extend(start(wk.id, index + WORKERS));
                        }
                    } else {
                        complete = false;
                    }
                }
            }
        }
    }
    found.sort_by_key(|f| f.index);
    (found, complete)
}

/// Delta debugging over a list.
fn ddmin<T: Clone>(v: &mut Vec<T>, test: &mut dyn FnMut(&[T]) -> bool) {
    let mut chunk = (v.len() / 2).max(1);
    while !v.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < v.len() {
            let mut t = v.clone();
            t.drain(i..(i + chunk).min(v.len()));
            if test(&t) {
                *v = t;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk > 1 {
            chunk = (chunk / 2).max(1);
        } else if !any {
            break;
        }
    }
}

/// The runs before a failing one that it takes to make it fail, if it does not fail on its own
/// (the code under test keeps state of its own between trees). The text to put before the trace.
fn history(bin: &str, dir: &str, prop: u32, base: u64, f: &Found) -> Option<(String, End)> {
    let t0 = Instant::now();
    let last = text_of(prop, seed_of(base, prop, f.index));
    let mut seeds: Vec<u64> = (0..)
        .map(|k| f.from + k * WORKERS)
        .take_while(|i| *i < f.index)
        .map(|i| seed_of(base, prop, i))
        .collect();
    let before = |v: &[u64]| -> String {
        let l: String = v.iter().map(|s| format!("seed C{:02} {}\n", prop, s)).collect();
        format!("{}{}last\n", SESSION, l)
    };
    let mut end = None;
    let mut test = |v: &[u64], limit: u64| -> bool {
        if t0.elapsed() > Duration::from_secs(limit) {
            return false;
        }
        let e = try_text(bin, dir, &format!("{}{}", before(v), last), HANG);
        let ok = e.concerns(prop) && e.like(&f.end, prop);
        if ok {
            end = Some(e);
        }
        ok
    };
    if !test(&seeds, 60) {
        return None;
    }
    ddmin(&mut seeds, &mut |v| test(v, 120));
    Some((before(&seeds), end?))
}

/// Shrinks a failing run. Returns the smallest text that fails in the same way, and its ending.
fn minimise(bin: &str, dir: &str, prop: u32, before: &str, text: &str, end: &End) -> (String, End, u32) {
    let mut tries = 0;
    let hang = matches!(end, End::Hang);
    let max = if hang { 12 } else if text.starts_with("dendron-sim-scale") { 150 } else { 2500 };
    let t0 = Instant::now();
    let mut best = (format!("{}{}", before, text), end.clone());
    let mut test = |t: &str| -> bool {
        if tries >= max || t0.elapsed() > Duration::from_secs(150) {
            return false;
        }
        tries += 1;
        let t = format!("{}{}", before, t);
        let e = try_text(bin, dir, &t, Duration::from_secs(if hang { 10 } else { 30 }));
        let ok = e.concerns(prop) && e.like(end, prop);
        if ok {
            best = (t, e);
        }
        ok
    };
    if let (true, Some(s)) = (text.starts_with("dendron-sim-scale"), Scale::parse(text)) {
        let mut s = s;
        let mut ops = s.ops.clone();
        let base = s.clone();
        ddmin(&mut ops, &mut |o| test(&Scale { ops: o.to_vec(), ..base.clone() }.to_text()));
        s.ops = ops;
        for n in [100, 1_000, 4_000, 12_000] {
            if n < s.n && test(&Scale { n, ..s.clone() }.to_text()) {
                break;
            }
        }
    } else if let Some(t) = Trace::parse(text) {
        let mut t = t;
        // Check after every operation, and forget what comes after.
        if let End::Viol { op, .. } = end {
            let mut u = t.clone();
            u.ops.truncate(op + 1);
            if test(&u.to_text()) {
                t = u;
            }
        }
        if t.check != 1 && t.max_nodes <= 60 {
            let u = Trace { check: 1, ..t.clone() };
            if test(&u.to_text()) {
                t = u;
            }
        }
        for _ in 0..2 {
            let base = t.clone();
            let mut ops = t.ops.clone();
            ddmin(&mut ops, &mut |o| test(&Trace { ops: o.to_vec(), ..base.clone() }.to_text()));
            t.ops = ops;
            for i in 0..t.ops.len() {
                if t.ops[i].fault.is_none() {
                    continue;
                }
                let mut u = t.clone();
                u.ops[i].fault = None;
                if test(&u.to_text()) {
                    t = u;
                    continue;
                }
                if let Some(Fault { act: Act::Nested(v), cb, n }) = t.ops[i].fault.clone() {
                    let base = t.clone();
                    let mut v = v;
                    ddmin(&mut v, &mut |o| {
                        let mut u = base.clone();
                        u.ops[i].fault = Some(Fault { cb, n, act: Act::Nested(o.to_vec()) });
                        !o.is_empty() && test(&u.to_text())
                    });
                    t.ops[i].fault = Some(Fault { cb, n, act: Act::Nested(v) });
                }
            }
            let one = Trace {
                ops: t.ops.iter().cloned().map(|mut o| { o.client = 0; o }).collect(),
                ..t.clone()
            };
            if t.ops.iter().any(|o| o.client != 0) && test(&one.to_text()) {
                t = one;
            }
        }
    }
    let _ = test;
    (best.0, best.1, tries)
}

fn with_expectation(text: &str, e: &End) -> String {
    let (op, tags) = match e {
        End::Viol { op, tags, .. } => (op.to_string(), tag_names(*tags).join(" ")),
        _ => ("-".to_string(), String::new()),
    };
    format!("{}expect-op {}\nexpect-tags {}\nexpect {}\n", text, op, tags, stable_text(e))
}

fn stable_text(e: &End) -> String {
    match e {
        // Addresses and process numbers differ between executions.
        End::Crash(_) => "the process died".to_string(),
        e => e.text(),
    }
}

fn me() -> String {
    std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default()
}

fn scratch_dir() -> Option<String> {
    let d = format!("{}/dendron-sim-{}", std::env::temp_dir().display(), std::process::id());
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).ok()?;
    Some(d)
}

/// Replays a file: 1 and the violation if it comes out as recorded, 0 if nothing happens.
pub fn replay(path: &str) -> i32 {
    let text = read(path.to_string());
    let want = text.lines().find_map(|l| l.strip_prefix("expect ")).unwrap_or("").to_string();
    let dir = match scratch_dir() {
        Some(d) => d,
        None => return 2,
    };
    let bin = text
        .lines()
        .find_map(|l| l.strip_prefix("build "))
        .and_then(|b| {
            let p = me().replace("/debug/", &format!("/{}/", b)).replace("/release/", &format!("/{}/", b));
            fs::metadata(&p).ok().map(|_| p)
        })
        .unwrap_or_else(me);
    let e = try_text(&bin, &dir, &text, HANG * 2);
    print!("{}", read(format!("{}/err", dir)));
    let _ = fs::remove_dir_all(&dir);
    println!("{}", e.text());
    match e {
        End::Fine => 0,
        e if stable_text(&e) == want => {
            println!("the recorded violation is reproduced");
            1
        }
        _ => {
            println!("this is not the recorded violation: {}", want);
            3
        }
    }
}

fn profile_of(bin: &str) -> &'static str {
    if bin.contains("/release/") {
        "release"
    } else {
        "debug"
    }
}

pub fn check(prop: u32, tier: &str, base: u64, bins: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = format!("C{:02}", prop);
    let thorough = tier == "thorough";
    let (quick_n, thorough_n) = runs(prop);
    let total = std::env::var("SIM_RUNS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { thorough_n } else { quick_n });
    let limit = Duration::from_secs(if thorough { 3 * 3600 } else { 330 });
    let bins: Vec<String> = if bins.is_empty() { vec![me()] } else { bins.to_vec() };
    let dir = match scratch_dir() {
        Some(d) => d,
        None => {
            eprintln!("no scratch directory");
            return 2;
        }
    };
    let mut cover = Cover::default();
    let mut foreign = vec![];
    let mut violation = None;
    let mut complete = true;
    let mut builds = vec![];
    let mut flaky = vec![];
    // The same seeds twice, in different processes: one seed is one execution.
    let mut twice = 0;
    for (b, bin) in bins.iter().enumerate() {
        builds.push(profile_of(bin));
        if b > 0 {
            // The other build gets other seeds.
            bump("builds", 1);
        }
        let base = base.wrapping_add(b as u64 * 0x10_0000);
        if b == 0 {
            for i in 0..12 {
                let text = text_of(prop, seed_of(base, prop, i));
                let go = |k: u32| {
                    let e = try_text(bin, &dir, &text, HANG);
                    (matches!(e, End::Fine), read(format!("{}/out", dir)), k)
                };
                let (a, b) = (go(0), go(1));
                if a.0 && b.0 {
                    if a.1 != b.1 {
                        println!("[harness] seed {} does not repeat", seed_of(base, prop, i));
                        let _ = fs::remove_dir_all(&dir);
                        return 2;
                    }
                    twice += 1;
                }
            }
        }
        let (found, all) = sweep(bin, prop, base, total, &dir, &mut cover, &mut foreign, limit);
        complete &= all;
        let mut real = None;
        let mut alone = vec![];
        for f in found {
            let text = text_of(prop, seed_of(base, prop, f.index));
            let e = try_text(bin, &dir, &text, HANG * 2);
            if e.concerns(prop) {
                real = Some((f, String::new(), e));
                break;
            }
            alone.push(f);
        }
        if real.is_none() {
            alone.sort_by_key(|f| f.index - f.from);
            for f in alone {
                let h = if t0.elapsed() > limit || matches!(f.end, End::Hang) { None } else { history(bin, &dir, prop, base, &f) };
                if let Some((before, e)) = h {
                    real = Some((f, before, e));
                    break;
                }
                flaky.push(format!("run {} (seed {}): {}", f.index, seed_of(base, prop, f.index), f.end.text()));
            }
        }
        if let Some((f, before, e)) = real {
            let seed = seed_of(base, prop, f.index);
            let text = text_of(prop, seed);
            println!("run {} (seed {}, {} build): {}", f.index, seed, profile_of(bin), e.text());
            let (min, e, tries) = minimise(bin, &dir, prop, &before, &text, &e);
            let min = format!("{}build {}\n", min, profile_of(bin));
            let out = with_expectation(&min, &e);
            let _ = fs::create_dir_all("replays");
            let path = format!("replays/{}-{}.trace", id, seed);
            let _ = fs::write(&path, &out);
            let again = try_text(bin, &dir, &out, HANG * 2);
            let same = stable_text(&again) == stable_text(&e);
            if !before.is_empty() {
                println!("it takes {} earlier runs in the same process", before.lines().count() - 2);
            }
            println!(
                "minimised to {} operations with {} executions; replay {}",
                min.lines().filter(|l| l.starts_with("op ")).count(),
                tries,
                if same { "reproduces it" } else { "differs" }
            );
            println!("{}", e.text());
            violation = Some((path, e, seed));
        }
        if violation.is_some() {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(prop, tier, base, &cover, &foreign, &flaky, complete, total, &builds, twice, wall, violation.is_some(), &dir);
    let _ = fs::remove_dir_all(&dir);
    for (i, e) in foreign.iter().take(3) {
        println!("note: run {} (seed {}) was cut short, this is not about {}: [{}] {}", i, seed_of(base, prop, *i), id, tag_names(e.tags()).join(" "), e.text());
    }
    for f in &flaky {
        println!("note: not reproduced in a fresh process: {}", f);
    }
    let harness = foreign.iter().filter(|f| f.1.text().contains("[harness]")).count();
    match violation {
        Some((path, _, _)) => {
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!(
                "{}: {} runs, {} distinct nontrivial, {} states, {:.1} s{}",
                id,
                cover.get("runs"),
                cover.hashes.len(),
                cover.states.len(),
                wall,
                if harness > 0 { format!(", {} harness problems", harness) } else { String::new() }
            );
            0
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: u32, tier: &str, base: u64, cover: &Cover, foreign: &[(u64, End)], flaky: &[String],
    complete: bool, total: u64, builds: &[&str], twice: u64, wall: f64, violated: bool, dir: &str,
) {
    let id = format!("C{:02}", prop);
    let obj = |v: &[(String, u64)]| -> String {
        let items: Vec<String> = v.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect();
        format!("{{{}}}", items.join(", "))
    };
    let ops: u64 = cover.group("op.").iter().filter(|x| !x.0.ends_with("nothing to do")).map(|x| x.1).sum();
    // Samples: actual cases of this run, with what they came to.
    let mut samples = vec![];
    for i in [0u64, total / 2, total.saturating_sub(1)] {
        let seed = seed_of(base, prop, i);
        let text = text_of(prop, seed);
        let e = try_text(&me(), dir, &text, HANG);
        let hash = read(format!("{}/out", dir)).lines().find_map(|l| l.strip_prefix("HASH ").map(str::to_string));
        let ops = text.lines().filter(|l| l.starts_with("op ")).count();
        let head: Vec<&str> = text.lines().filter(|l| l.starts_with("op ") || l.starts_with("> ")).take(14).collect();
        samples.push(format!(
            "{{\"run\": {}, \"seed\": {}, \"operations\": {}, \"first_operations\": {}, \"outcome\": {}, \"event_log_hash\": {}}}",
            i, seed, ops, json_str(&head.join("; ")), json_str(&e.text()), json_str(&hash.unwrap_or_default())
        ));
    }
    let rule = match prop {
        3 => "a run is a seeded history of operations by several clients with faults; it is non-trivial if at least 3 operations the property is about took effect or were refused and at least one operation was refused or one fault struck; distinct by the hash of the log of operations, outcomes, faults and states",
        9 => "a run is a seeded history of operations by several clients with faults; it is non-trivial if at least 3 operations the property is about were executed and user code was injected into at least one teardown; distinct by the hash of the log of operations, outcomes, faults and states",
        10 => "a run is a seeded history of operations on huge trees in a thread with a 192 KiB stack; it is non-trivial if at least 3 operations were executed; distinct by the hash of all tree contents and the step count",
        _ => "a run is a seeded history of operations by several clients with faults; it is non-trivial if at least 3 operations the property is about took effect or were refused (not skipped for lack of handles); distinct by the hash of the log of operations, outcomes, faults and states",
    };
    let mut faults = cover.group("fault.");
    for (k, n) in cover.group("op.") {
        let name = match k.as_str() {
            "Crash.done" => "client crash: all its handles dropped at once",
            "Leak.done" => "handle leaked",
            "StreamFault.done" => "event stream damaged (loss, duplication, reordering, corruption)",
            _ => continue,
        };
        faults.push((name.to_string(), n));
    }
    let rejected: u64 = cover.group("op.").iter().filter(|x| x.0.ends_with(".rejected")).map(|x| x.1).sum();
    faults.push(("operation refused by the library (misuse, conflicting locks or borrows)".to_string(), rejected));
    let foreign_s: Vec<String> = foreign.iter().take(5).map(|(i, e)| json_str(&format!("run {}: [{}] {}", i, tag_names(e.tags()).join(" "), e.text()))).collect();
    let real = "all of dendron (the working tree of /repo, built with --cfg dendron_sim, which only counts link accesses)";
    let stub = "node data (instrumented: registered, every clone/eq/fmt/drop is a fault point), clients, event transport, output sink";
    let coverage = format!(
        "{{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_planned\": {},\n  \"runs_on_huge_trees\": {},\n  \"all_planned_runs_done\": {},\n  \"seeds_per_hour\": {},\n  \"operations_executed\": {},\n  \"simulated_time\": {},\n  \"elementary_link_steps\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \"faults_injected\": {},\n  \"operations\": {},\n  \"probes\": {},\n  \"builds\": {},\n  \"seeds_run_twice_with_equal_logs\": {},\n  \"runs_cut_short_by_violations_of_other_properties\": {},\n  \"first_of_these\": [{}],\n  \"not_reproduced\": [{}],\n  \"real_components\": {},\n  \"stubbed_components\": {}\n }}",
        cover.get("runs"),
        cover.hashes.len(),
        json_str(rule),
        samples.join(", "),
        total * builds.len() as u64,
        cover.get("huge"),
        complete,
        (cover.get("runs") as f64 / wall.max(0.001) * 3600.0) as u64,
        ops,
        json_str("the library has no clock or timer: simulated time is the number of scheduled operations and of elementary link steps"),
        cover.get("steps"),
        cover.states.len(),
        json_str("hash of the shapes of all live trees, the lock state of each, and the number of handles by kind, taken at every whole-world check"),
        obj(&faults),
        obj(&cover.group("op.")),
        obj(&cover.group("probe.")),
        json_str(&builds.join(" ")),
        twice,
        foreign.len(),
        foreign_s.join(", "),
        flaky.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        json_str(real),
        json_str(stub),
    );
    let doc = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        id,
        json_str(tier),
        base,
        coverage,
        json_str("seeded search: what no explored seed reaches is not decided; std's Rc, RefCell and unwinding are trusted; one thread, as the types are neither Send nor Sync"),
        wall,
        violated as u8
    );
    let _ = fs::create_dir_all("evidence");
    let _ = fs::write(format!("evidence/{}.json", id), doc);
    let _ = Kind::Check;
}
