//! The data associated to the nodes: every instance is registered, every callback is a fault point.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};

use crate::op::{Act, Cb, Fault};

/// State of each payload instance, by id.
pub const LIVE: u8 = 1;
pub const DROPPED: u8 = 2;

pub struct Reg {
    pub state: Vec<u8>,
    pub nlive: usize,
    pub double_drop: Option<u64>,
    pub clones: u64,
    pub drops: u64,
    pub eqs: u64,
}

thread_local! {
    pub static REG: RefCell<Reg> = RefCell::new(Reg { state: vec![0], nlive: 0, double_drop: None, clones: 0, drops: 0, eqs: 0 });
    static PLAN: RefCell<Option<Plan>> = RefCell::new(None);
    /// Callback kinds that fired a plan in the current operation (bit set of `Cb`).
    pub static FIRED: Cell<u32> = Cell::new(0);
    /// Number of injected faults by (callback, action).
    pub static INJECTED: RefCell<[[u64; 4]; 6]> = RefCell::new([[0; 4]; 6]);
    /// An injected panic happened in a destructor.
    pub static DROP_PANIC: Cell<bool> = Cell::new(false);
    /// Callbacks are delivered to the plan only while the library is being called.
    pub static IN_CALL: Cell<u32> = Cell::new(0);
}

pub struct Plan {
    pub cb: Cb,
    pub countdown: u32,
    pub act: Act,
}

pub fn reset() {
    REG.with(|r| {
        *r.borrow_mut() = Reg {
            state: vec![0],
            nlive: 0,
            double_drop: None,
            clones: 0,
            drops: 0,
            eqs: 0,
        }
    });
    PLAN.with(|p| *p.borrow_mut() = None);
    FIRED.with(|f| f.set(0));
    DROP_PANIC.with(|f| f.set(false));
    IN_CALL.with(|f| f.set(0));
}

pub fn arm(f: Option<&Fault>) {
    FIRED.with(|x| x.set(0));
    DROP_PANIC.with(|x| x.set(false));
    PLAN.with(|p| {
        *p.borrow_mut() = f.map(|f| Plan {
            cb: f.cb,
            countdown: f.n,
            act: f.act.clone(),
        })
    });
}

pub fn disarm() {
    PLAN.with(|p| *p.borrow_mut() = None);
}

pub fn fired() -> u32 {
    FIRED.with(|f| f.get())
}

/// The payload of an injected panic.
pub struct Injected;

thread_local! {
    static UNWINDING: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// A client is being unwound which drops its handles one after another, each under control of the
/// simulator: user code which runs then is a fault point as at any other time.
pub fn unwinding(on: bool) {
    UNWINDING.with(|u| u.set(on));
}

/// Whether the next callback of this kind is a fault: if so, whether it is an observation.
pub fn due(cb: Cb) -> Option<bool> {
    if IN_CALL.with(|c| c.get()) == 0 {
        return None;
    }
    PLAN.with(|p| match p.borrow().as_ref() {
        Some(x) if x.cb == cb && x.countdown == 0 => Some(matches!(x.act, Act::Observe)),
        _ => None,
    })
}

pub fn fire(cb: Cb, id: u64) -> bool {
    if IN_CALL.with(|c| c.get()) == 0 {
        return false;
    }
    if std::thread::panicking() && !UNWINDING.with(|u| u.get()) {
        return false;
    }
    let act = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        match p.as_mut() {
            Some(plan) if plan.cb == cb => {
                if plan.countdown > 0 {
                    plan.countdown -= 1;
                    None
                } else {
                    p.take().map(|plan| plan.act)
                }
            }
            _ => None,
        }
    });
    let act = match act {
        Some(a) => a,
        None => return false,
    };
    FIRED.with(|f| f.set(f.get() | (1 << (cb as u32))));
    let ai = match &act {
        Act::Panic => 0,
        Act::FmtErr => 1,
        Act::Observe => 2,
        Act::Nested(_) => 3,
    };
    INJECTED.with(|i| i.borrow_mut()[cb as usize][ai] += 1);
    if std::thread::panicking() {
        crate::world::probe("fault in user code which ran while the stack was being unwound");
    }
    match act {
        Act::Panic => {
            if cb == Cb::Drop {
                DROP_PANIC.with(|d| d.set(true));
            }
            std::panic::resume_unwind(Box::new(Injected));
        }
        Act::FmtErr => return true,
        Act::Observe => crate::world::callback(cb, id, &[]),
        Act::Nested(ops) => crate::world::callback(cb, id, &ops),
    }
    false
}

/// Node data.
pub struct P {
    pub id: u64,
    pub val: i64,
}

impl P {
    pub fn new(val: i64) -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.state.len() as u64;
            r.state.push(LIVE);
            r.nlive += 1;
            P { id, val }
        })
    }
}

pub fn is_live(id: u64) -> bool {
    REG.with(|r| r.borrow().state.get(id as usize) == Some(&LIVE))
}

impl Drop for P {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.drops += 1;
            match r.state.get_mut(self.id as usize) {
                Some(s) if *s == LIVE => {
                    *s = DROPPED;
                    r.nlive -= 1;
                }
                _ => r.double_drop = Some(self.id),
            }
        });
        fire(Cb::Drop, self.id);
    }
}

impl Clone for P {
    fn clone(&self) -> Self {
        REG.with(|r| r.borrow_mut().clones += 1);
        fire(Cb::Clone, self.id);
        P::new(self.val)
    }
}

impl PartialEq for P {
    fn eq(&self, other: &P) -> bool {
        REG.with(|r| r.borrow_mut().eqs += 1);
        fire(Cb::Eq, self.id);
        same(self.val, other.val)
    }
}
impl Eq for P {}

/// A value that does not equal itself, as floating point numbers have one.
pub const NAN: i64 = 6;

pub fn same(a: i64, b: i64) -> bool {
    a == b && a != NAN
}

/// The text printed for a payload. Some payloads span several lines, one kind prints nothing.
pub fn token(id: u64, val: i64, alt: bool) -> String {
    let mark = if alt { "#" } else { "" };
    let t = format!("<{}{}.{}>", mark, id, val);
    if val % 7 != 3 {
        return t;
    }
    match id % 9 {
        0..=2 => t + "\nx",
        3 => t + "\n\nx",
        4 => t + "\n",
        5 => format!("\n{}", t),
        6 => t + "\nx\ny\n",
        7 => t + "\n\n",
        _ => String::new(),
    }
}

/// The text comes in pieces.
fn write_pieces(id: u64, t: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match id / 9 % 4 {
        0 => t.chars().try_for_each(|c| f.write_char(c)),
        1 => {
            let k = t.len() / 2;
            f.write_str(&t[..k])?;
            f.write_str("")?;
            f.write_str(&t[k..])
        }
        2 => t.split_inclusive('\n').try_for_each(|l| f.write_str(l)),
        _ => f.write_str(t),
    }
}

impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if fire(Cb::Fmt, self.id) {
            return Err(fmt::Error);
        }
        write_pieces(self.id, &token(self.id, self.val, f.alternate()), f)
    }
}

impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if fire(Cb::Fmt, self.id) {
            return Err(fmt::Error);
        }
        write_pieces(self.id, &token(self.id, self.val, f.alternate()), f)
    }
}
