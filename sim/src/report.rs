//! What a worker process has covered, written to a file and merged by the supervisor.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

use crate::op::{ACTS, CBS, KINDS};
use crate::payload;
use crate::world::STATS;

#[derive(Default)]
pub struct Cover {
    pub counts: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
}

thread_local! {
    /// Where to write (empty: nowhere), and what the runs so far add up to.
    pub static PATH: RefCell<String> = RefCell::new(String::new());
    pub static MINE: RefCell<Cover> = RefCell::new(Cover::default());
}

pub fn bump(name: &str, n: u64) {
    MINE.with(|m| *m.borrow_mut().counts.entry(name.to_string()).or_insert(0) += n);
}

/// Writes what this process has covered so far.
pub fn emit() {
    let path = PATH.with(|p| p.borrow().clone());
    if path.is_empty() {
        return;
    }
    let mut out = String::new();
    MINE.with(|m| {
        let m = m.borrow();
        for (k, v) in &m.counts {
            out.push_str(&format!("n {} {}\n", v, k));
        }
        for h in &m.hashes {
            out.push_str(&format!("h {:x}\n", h));
        }
    });
    STATS.with(|s| {
        let s = s.borrow();
        for (i, k) in KINDS.iter().enumerate() {
            for (j, what) in ["nothing to do", "done", "rejected"].iter().enumerate() {
                if s.ops[i][j] > 0 {
                    out.push_str(&format!("n {} op.{}.{}\n", s.ops[i][j], k.name(), what));
                }
            }
        }
        for (k, v) in &s.probes {
            out.push_str(&format!("n {} probe.{}\n", v, k));
        }
        out.push_str(&format!("n {} steps\n", s.steps));
        for h in &s.states {
            out.push_str(&format!("s {:x}\n", h));
        }
    });
    payload::INJECTED.with(|x| {
        for (cb, row) in x.borrow().iter().enumerate() {
            for (act, n) in row.iter().enumerate() {
                if *n > 0 {
                    out.push_str(&format!("n {} fault.{} callback: {}\n", n, CBS[cb], ACTS[act]));
                }
            }
        }
    });
    let _ = fs::write(path, out);
}

impl Cover {
    pub fn merge(&mut self, path: &str) {
        let text = match fs::read_to_string(path) {
            Ok(t) => t,
            Err(_) => return,
        };
        for line in text.lines() {
            let (k, rest) = match line.split_once(' ') {
                Some(x) => x,
                None => continue,
            };
            match k {
                "n" => {
                    if let Some((n, name)) = rest.split_once(' ') {
                        *self.counts.entry(name.to_string()).or_insert(0) +=
                            n.parse::<u64>().unwrap_or(0);
                    }
                }
                "h" => self.hashes.extend(u64::from_str_radix(rest, 16)),
                "s" => self.states.extend(u64::from_str_radix(rest, 16)),
                _ => {}
            }
        }
    }
    pub fn get(&self, name: &str) -> u64 {
        self.counts.get(name).copied().unwrap_or(0)
    }
    /// All counts whose name starts with the prefix.
    pub fn group(&self, prefix: &str) -> Vec<(String, u64)> {
        self.counts
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| (k.to_string(), *v)))
            .collect()
    }
}

pub fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}
