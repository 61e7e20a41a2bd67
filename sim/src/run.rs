//! Executes one run.

use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::exec::{exec_op, kill};
use crate::op::Trace;
use crate::payload;
use crate::rng::{mix, Rng};
use crate::world::*;
use crate::fail;

/// What one run has done.
pub struct Outcome {
    pub hash: u64,
    /// Executed operations by kind.
    pub done: Vec<u32>,
    /// Rejected operations.
    pub rejected: u64,
    /// Faults that struck, by callback.
    pub faults: [u64; 6],
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if VERBOSE.with(|v| v.get()) {
            eprintln!("      {}", info);
        }
    }));
}

pub fn run(t: &Trace) -> Outcome {
    reset();
    payload::reset();
    w(|w| {
        w.max_nodes = t.max_nodes;
        w.max_slots = t.max_slots;
    });
    CUR.with(|c| c.set((t.seed, 0)));
    let r = catch_unwind(AssertUnwindSafe(|| inner(t)));
    match r {
        Ok(o) => o,
        Err(e) => {
            let msg = match (e.downcast_ref::<String>(), e.downcast_ref::<&str>()) {
                (Some(s), _) => s.clone(),
                (_, Some(s)) => s.to_string(),
                _ => "?".to_string(),
            };
            fail!(
                CUR_TAGS.with(|t| t.get()) | w(|w| w.ctx),
                "{}: panic: {}",
                w(|w| w.what.clone()),
                msg
            )
        }
    }
}

fn check() {
    w(|w| {
        w.deep(true, true);
        w.ctx = 0;
        let f = w.fingerprint();
        w.hash = mix(w.hash, f);
        STATS.with(|s| {
            let mut s = s.borrow_mut();
            if s.states.len() < 2_000_000 {
                s.states.insert(f);
            }
        });
    });
}

fn inner(t: &Trace) -> Outcome {
    let before: Vec<[u64; 3]> = STATS.with(|s| s.borrow().ops.to_vec());
    let inj0 = payload::INJECTED.with(|x| *x.borrow());
    let s0 = steps();
    for (i, op) in t.ops.iter().enumerate() {
        CUR.with(|c| c.set((t.seed, i)));
        note(|| format!("[{}]", i));
        exec_op(op, false);
        if w(|w| w.over) {
            break;
        }
        if t.check > 0 && i as u32 % t.check == t.check - 1 {
            check();
        }
    }
    CUR.with(|c| c.set((t.seed, t.ops.len())));
    if !w(|w| w.over) {
        check();
        // Everybody leaves, in a seeded order.
        let mut rng = Rng::new(u64::from(t.end));
        let mut slots: Vec<usize> = w(|w| (0..w.slots.len()).filter(|i| w.slots[*i].is_some()).collect());
        let mut k = 0;
        while !slots.is_empty() {
            let i = slots.swap_remove(rng.below(slots.len()));
            CUR_TAGS.with(|t| t.set(c(5) | c(7)));
            w(|w| {
                w.what = format!("final drop of slot {} ({})", i, w.slot_m(i).name());
                w.dead_mark = w.dead_log.len();
            });
            let mark = w(|w| w.dead_log.len());
            kill(i, c(5) | c(7));
            w(|w| w.check_deaths(mark, c(7)));
            k += 1;
            if t.check > 0 && k % 4 == 0 {
                check();
            }
        }
        check();
        w(|w| w.what = "the end".to_string());
    }
    let steps = steps() - s0;
    let (done, rejected) = STATS.with(|s| {
        let mut s = s.borrow_mut();
        s.steps += steps;
        let both = s.ops.iter().zip(&before);
        (
            both.clone()
                .map(|(a, b)| (a[1] + a[2] - b[1] - b[2]) as u32)
                .collect(),
            both.map(|(a, b)| a[2] - b[2]).sum(),
        )
    });
    let mut faults = [0; 6];
    payload::INJECTED.with(|x| {
        for (i, f) in faults.iter_mut().enumerate() {
            let now: u64 = x.borrow()[i].iter().sum();
            let then: u64 = inj0[i].iter().sum();
            *f = now - then;
        }
    });
    Outcome {
        hash: w(|w| mix(w.hash, steps)),
        done,
        rejected,
        faults,
    }
}
