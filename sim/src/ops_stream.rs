//! Event streams between clients (with message faults) and the tree builders that consume them.

use std::cell::RefCell;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, Tree};

use crate::exec::*;
use crate::model::N;
use crate::op::{Cb, Op};
use crate::ops_iter::{self, Got, Want};
use crate::payload::{self, P};
use crate::rng::Rng;
use crate::world::*;
use crate::{fail, nh};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum BErr {
    NotOpened,
    Closed,
    Borrow,
}

fn berr(e: &TreeBuildError) -> BErr {
    match e {
        TreeBuildError::RootNotOpened => BErr::NotOpened,
        TreeBuildError::RootClosed => BErr::Closed,
        _ => BErr::Borrow,
    }
}

fn own_stream(client: u8) -> Option<usize> {
    w(|w| {
        w.candidates(Some(client), &|_, m| matches!(m, M::Stream(_)))
            .first()
            .copied()
    })
}

fn stream_mut<R>(slot: usize, f: impl FnOnce(&mut Vec<MEv>, &mut Vec<SEv>) -> R) -> R {
    w(|w| {
        let s = w.slots[slot].as_mut().unwrap();
        match (&mut s.m, &mut s.r) {
            (M::Stream(a), Some(Real::Stream(b))) => f(a, b),
            _ => unreachable!(),
        }
    })
}

/// Moves events from an iterator to the stream of the client.
pub fn pump(op: &Op) -> Out {
    let slot = match ops_iter::pick_iter(op.client, op.a, &|it| {
        matches!(it, MIter::Ser { .. } | MIter::Dft { .. })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let mut tags = 0;
    let large = w(|w| w.max_nodes > 200);
    for _ in 0..if large && op.b % 4 != 0 { 1 + op.b % 700 } else { 1 + op.b % 9 } {
        let (want, got) = match ops_iter::move_iter(slot, 0, 0, 1) {
            Ok(x) => x,
            Err(out) => return out,
        };
        let (m, r) = match (want, got) {
            (Some(Want::SerOpen { n, .. }), Some(Got::SerOpen(p))) => {
                tags |= c(14) | c(16);
                let val = w(|w| w.m.nodes[n].val);
                (MEv::Open { val, pid: p.id }, SEv::E(Event::Open(p)))
            }
            (_, Some(Got::SerClose(k))) => {
                tags |= c(14);
                (MEv::Close(k), SEv::E(Event::Close(k)))
            }
            (Some(Want::Node { n, .. }), Some(Got::Node { ev, h: Real::Node(x), .. })) => {
                tags |= c(12);
                if ev == 0 {
                    (MEv::DOpen(n), SEv::D(DftEvent::Open(x)))
                } else {
                    (MEv::DClose(n), SEv::D(DftEvent::Close(x)))
                }
            }
            (_, Some(Got::SerErr)) => {
                probe("serialisation of borrowed data refused");
                return (2, c(14) | c(18));
            }
            _ => break,
        };
        // The stream of the client.
        let s = match own_stream(op.client) {
            Some(s) => s,
            None => add(op.client, M::Stream(vec![]), Real::Stream(vec![])),
        };
        stream_mut(s, |a, b| {
            a.push(m);
            b.push(r);
        });
        if stream_mut(s, |a, _| a.len()) > if large { 1500 } else { 80 } {
            break;
        }
    }
    (1, tags)
}

/// A client that makes events up.
pub fn forge(op: &Op) -> Out {
    let s = match own_stream(op.client) {
        Some(s) => s,
        None => add(op.client, M::Stream(vec![]), Real::Stream(vec![])),
    };
    if stream_mut(s, |a, _| a.len()) > 60 {
        return SKIP;
    }
    let mut rng = Rng::new(u64::from(op.b) << 32 | u64::from(op.c));
    let opens = 2 + op.d as usize % 4;
    for _ in 0..1 + op.a / 8 % 10 {
        let (m, r) = if rng.below(8) < opens {
            let v = val(rng.u32());
            let p = P::new(v);
            (MEv::Open { val: v, pid: p.id }, SEv::E(Event::Open(p)))
        } else {
            let k = [0, 1, 1, 1, 2, 2, 3, 5][rng.below(8)];
            (MEv::Close(k), SEv::E(Event::Close(k)))
        };
        stream_mut(s, |a, b| {
            a.push(m);
            b.push(r);
        });
    }
    (1, 0)
}

/// Message faults.
pub fn stream_fault(op: &Op) -> Out {
    let s = match own_stream(op.client) {
        Some(s) => s,
        None => return SKIP,
    };
    let len = stream_mut(s, |a, _| a.len());
    if len == 0 {
        return SKIP;
    }
    let i = op.b as usize % len;
    let mut gone: Vec<SEv> = vec![];
    // While the events are dropped one by one, the rest still holds trees.
    w(|w| {
        let m = w.slot_m(s).clone();
        let mut v = vec![];
        m.related(&w.m, &mut |t| v.push(t));
        w.in_hand.extend(v);
    });
    let level = match op.c % 12 {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX / 2 + 1,
        x => x as usize - 2,
    };
    match op.a % 9 {
        0 => {
            gone.push(stream_mut(s, |a, b| {
                a.remove(i);
                b.remove(i)
            }));
            probe("stream: message lost");
        }
        1 => {
            stream_mut(s, |a, b| {
                let (m, r) = match (&a[i], &b[i]) {
                    (MEv::Open { val, .. }, _) => {
                        let p = P::new(*val);
                        (MEv::Open { val: *val, pid: p.id }, SEv::E(Event::Open(p)))
                    }
                    (MEv::Close(k), _) => (MEv::Close(*k), SEv::E(Event::Close(*k))),
                    (m, SEv::D(e)) => (m.clone(), SEv::D(e.clone())),
                    _ => unreachable!(),
                };
                a.insert(i, m);
                b.insert(i, r);
            });
            probe("stream: message duplicated");
        }
        2 => {
            let j = (i + 1 + op.c as usize % 3).min(len - 1);
            stream_mut(s, |a, b| {
                a.swap(i, j);
                b.swap(i, j);
            });
            probe("stream: messages reordered");
        }
        3 => {
            // Merges or splits closings.
            let done = stream_mut(s, |a, b| match (&a[i], a.get(i + 1)) {
                (MEv::Close(x), Some(MEv::Close(y))) => {
                    let k = x.saturating_add(*y);
                    a[i] = MEv::Close(k);
                    b[i] = SEv::E(Event::Close(k));
                    a.remove(i + 1);
                    b.remove(i + 1);
                    true
                }
                (MEv::Close(x), _) if *x > 1 => {
                    let k = *x - 1;
                    a[i] = MEv::Close(k);
                    b[i] = SEv::E(Event::Close(k));
                    a.insert(i, MEv::Close(1));
                    b.insert(i, SEv::E(Event::Close(1)));
                    true
                }
                _ => false,
            });
            if !done {
                return SKIP;
            }
            probe("stream: messages regrouped");
        }
        4 => {
            if !stream_mut(s, |a, b| match &mut a[i] {
                MEv::Close(k) => {
                    *k = level;
                    b[i] = SEv::E(Event::Close(level));
                    true
                }
                _ => false,
            }) {
                return SKIP;
            }
            probe("stream: message corrupted");
        }
        5 => {
            gone = stream_mut(s, |a, b| {
                a.truncate(i);
                b.split_off(i)
            });
            probe("stream: cut off");
        }
        6 => {
            if op.c % 4 != 0 {
                return SKIP;
            }
            gone = stream_mut(s, |a, b| {
                a.clear();
                std::mem::take(b)
            });
            probe("stream: reset");
        }
        7 => {
            stream_mut(s, |a, b| {
                a.insert(i, MEv::Close(level));
                b.insert(i, SEv::E(Event::Close(level)));
            });
            probe("stream: message forged");
        }
        _ => {
            let v = val(op.c);
            let p = P::new(v);
            stream_mut(s, |a, b| {
                a.insert(i, MEv::Open { val: v, pid: p.id });
                b.insert(i, SEv::E(Event::Open(p)));
            });
            probe("stream: message forged");
        }
    }
    let b = lin(gone.len()) + w(|w| w.gc_budget());
    drop_real(b, c(7), "stream events", gone);
    (1, c(7))
}

fn pick_builder(op: &Op) -> Option<usize> {
    w(|w| w.pick(op.client, op.a, &|_, m| matches!(m, M::Builder(_))))
}
fn mb(slot: usize) -> MBuilder {
    match w(|w| w.slot_m(slot).clone()) {
        M::Builder(b) => b,
        _ => unreachable!(),
    }
}
/// Whether the path of the open nodes is still a path in the tree.
fn intact(b: &MBuilder) -> bool {
    w(|w| b.stack.windows(2).all(|x| w.m.parent(x[1]) == Some(x[0])))
}

/// The effect of an event on the model of the builder.
fn apply(w: &mut World, b: &mut MBuilder, ev: &MEv) -> Result<(), BErr> {
    let (v, pid) = match ev {
        MEv::Open { val, pid } => (*val, *pid),
        MEv::DOpen(n) => {
            if w.mut_borrowed(*n) {
                return Err(BErr::Borrow);
            }
            (w.m.nodes[*n].val, 0)
        }
        MEv::Close(_) | MEv::DClose(_) => {
            let k = match ev {
                MEv::Close(k) => *k,
                _ => 1,
            };
            if k == 0 {
                return Ok(());
            }
            if b.root.is_none() {
                return Err(BErr::NotOpened);
            }
            if k > b.stack.len() {
                return Err(BErr::Closed);
            }
            let l = b.stack.len() - k;
            b.stack.truncate(l);
            return Ok(());
        }
    };
    if b.root.is_none() {
        let (_, n) = w.m.new_tree(v, pid);
        b.root = Some(n);
        b.stack = vec![n];
        return Ok(());
    }
    match b.stack.last().copied() {
        None => Err(BErr::Closed),
        Some(p) => {
            let n = w.m.new_node(w.m.tree(p), v, pid);
            let i = w.m.ch(p).len();
            w.m.insert(n, p, i);
            b.stack.push(n);
            Ok(())
        }
    }
}

/// Cost of a closing.
fn bcost(b: &MBuilder) -> u64 {
    lin(b.stack.len())
}

pub fn builder_new(op: &Op) -> Out {
    let r = call(CONST, || {
        if op.b % 2 == 0 {
            TreeBuilder::<P>::new()
        } else {
            TreeBuilder::<P>::default()
        }
    });
    match r {
        Ok(r) => {
            add(
                op.client,
                M::Builder(MBuilder::new(None)),
                Real::Builder(r),
            );
            (1, c(15))
        }
        Err(_) => fail!(c(15), "{}: panic", w(|w| w.what.clone())),
    }
}

pub fn builder_root(op: &Op) -> Out {
    let slot = match w(|w| w.pick(op.client, op.a, &|_, m| matches!(m, M::Hot(_)))) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let hot = match take(slot) {
        Real::Hot(h) => h,
        _ => unreachable!(),
    };
    let consume = op.b % 2 == 0;
    let given = if consume { hot } else {
        let g = hot.clone();
        put(slot, Real::Hot(hot));
        g
    };
    match call(CONST, move || TreeBuilder::with_root(given)) {
        Ok(r) => {
            if consume {
                w(|w| w.remove(slot));
            }
            add(
                op.client,
                M::Builder(MBuilder::new(Some(n))),
                Real::Builder(r),
            );
            (1, c(15) | c(5))
        }
        Err(_) => fail!(c(15), "{}: panic", w(|w| w.what.clone())),
    }
}

/// Trees that are in flux while the builder works.
fn hide(w: &mut World, b: &MBuilder, evs: &[MEv]) {
    let mut v = vec![];
    for n in b.root.iter().chain(b.stack.iter()) {
        v.push(w.m.tree(*n));
    }
    for e in evs {
        if let MEv::DOpen(n) | MEv::DClose(n) = e {
            v.push(w.m.tree(*n));
        }
    }
    w.exclude.extend(v);
}

fn verdict(got: Result<(), TreeBuildError>, want: Result<(), BErr>, tags: Tags) -> Out {
    let g = got.as_ref().map(|_| ()).map_err(berr);
    if g != want {
        fail!(tags, "{}: the builder returned {:?} instead of {:?}", w(|w| w.what.clone()), g, want);
    }
    if want.is_err() {
        probe("builder refused an event");
        (2, tags)
    } else {
        (1, tags)
    }
}

pub fn builder_open(op: &Op) -> Out {
    if w(|w| w.alive_nodes() >= w.max_nodes) {
        return SKIP;
    }
    let slot = match pick_builder(op) {
        Some(s) => s,
        None => return SKIP,
    };
    let mut b = mb(slot);
    let v = val(op.b);
    let p = P::new(v);
    let pid = p.id;
    let ev = MEv::Open { val: v, pid };
    let mut real = take(slot);
    let mark = w(|w| {
        let k = w.exclude.len();
        hide(w, &b, &[]);
        k
    });
    let push = op.c % 2 == 0;
    let res = match &mut real {
        Real::Builder(r) => call(2 * CONST, move || {
            if push {
                r.push_event(Event::Open(p))
            } else {
                r.open(p)
            }
        }),
        _ => unreachable!(),
    };
    w(|w| w.exclude.truncate(mark));
    let tags = b.tags();
    let want = w(|w| apply(w, &mut b, &ev));
    b.failed |= want.is_err() || res.is_err();
    w(|w| w.slots[slot].as_mut().unwrap().m = M::Builder(b));
    put(slot, real);
    match res {
        Ok(g) => verdict(g, want, tags),
        Err(Pan::Lib(m)) => lib_panic(c(15), &m),
        Err(Pan::Injected) => {
            injected(c(15));
            if want.is_ok() {
                fail!(c(15) | c(7), "{}: data was dropped by an accepted opening", w(|w| w.what.clone()));
            }
            (2, c(15))
        }
    }
}

pub fn builder_close(op: &Op) -> Out {
    let slot = match pick_builder(op) {
        Some(s) => s,
        None => return SKIP,
    };
    let mut b = mb(slot);
    if !intact(&b) {
        return SKIP;
    }
    let depth = b.stack.len();
    let k = match op.b % 10 {
        0 => 0,
        1 => depth,
        2 => depth + 1,
        3 => usize::MAX,
        4 => 2.min(depth),
        5 => depth.saturating_sub(1),
        _ => 1,
    };
    let cost = bcost(&b);
    let tags = b.tags();
    let want = w(|w| apply(w, &mut b, &MEv::Close(k)));
    b.failed |= want.is_err();
    let mut real = take(slot);
    let push = op.c % 2 == 0;
    let budget = w(|w| {
        w.slots[slot].as_mut().unwrap().m = M::Builder(b);
        cost + w.gc_budget()
    });
    let res = match &mut real {
        Real::Builder(r) => call(budget, || {
            if push {
                r.push_event(Event::Close(k))
            } else {
                r.close(k)
            }
        }),
        _ => unreachable!(),
    };
    put(slot, real);
    match res {
        Ok(g) => verdict(g, want, tags | c(5)),
        Err(Pan::Lib(m)) => lib_panic(c(15), &m),
        Err(Pan::Injected) => {
            injected(c(15));
            (1, c(15))
        }
    }
}

/// An iterator of events which a builder consumes.
struct Pull<'a> {
    slot: usize,
    b: MBuilder,
    mevs: &'a [MEv],
    pulled: usize,
    /// The number of events that the model has seen.
    applied: usize,
    err: Option<BErr>,
    /// The iterator has panicked, perhaps.
    stopped: bool,
}

/// The builder asks for the next event: a fault point. What it has been given is in the tree then.
fn asked(p: &RefCell<Pull>) {
    let due = payload::due(Cb::Pull);
    let saved = w(|w| {
        let p = &mut *p.borrow_mut();
        let observe = due?;
        while p.applied < p.pulled && p.err.is_none() {
            p.err = apply(w, &mut p.b, &p.mevs[p.applied]).err();
            p.applied += 1;
        }
        w.slots[p.slot].as_mut().unwrap().m = M::Builder(p.b.clone());
        if let Some(n) = p.b.root {
            let t = w.m.tree(n);
            w.exclude.push(t);
        }
        let saved = w.exclude.clone();
        if observe {
            let given: Vec<usize> = p.mevs.iter().filter_map(|e| match e {
                MEv::DOpen(n) | MEv::DClose(n) => Some(w.m.tree(*n)),
                _ => None,
            }).collect();
            let own: Vec<usize> = p.b.root.iter().chain(&p.b.stack).map(|n| w.m.tree(*n)).collect();
            w.exclude.retain(|t| !own.contains(t) || given.contains(t));
        }
        p.stopped = true;
        Some(saved)
    });
    payload::fire(Cb::Pull, 0);
    if let Some(saved) = saved {
        w(|w| w.exclude = saved);
    }
    let mut p = p.borrow_mut();
    p.stopped = false;
    p.pulled += 1;
}

/// Feeds the events of the stream to a builder.
pub fn builder_push(op: &Op) -> Out {
    let slot = match pick_builder(op) {
        Some(s) => s,
        None => return SKIP,
    };
    let s = match own_stream(op.client) {
        Some(s) => s,
        None => return SKIP,
    };
    let mut b = mb(slot);
    if !intact(&b) {
        return SKIP;
    }
    // Events of one kind, one by one or in a batch.
    let free = w(|w| w.max_nodes.saturating_sub(w.alive_nodes()));
    let chunk = op.b % 3 == 0;
    let large = w(|w| w.max_nodes > 200);
    let max = if chunk { 1 + (op.c % if large { 900 } else { 12 }) as usize } else { 1 };
    let (mevs, sevs) = stream_mut(s, |a, r| {
        let mut k = 0;
        let mut opens = 0;
        let dft = matches!(r.first(), Some(SEv::D(_)));
        while k < r.len() && k < max {
            if matches!(r[k], SEv::D(_)) != dft {
                break;
            }
            if matches!(a[k], MEv::Open { .. } | MEv::DOpen(_)) {
                opens += 1;
                if opens > free {
                    break;
                }
            }
            k += 1;
        }
        let m: Vec<MEv> = a.drain(..k).collect();
        let r: Vec<SEv> = r.drain(..k).collect();
        (m, r)
    });
    if sevs.is_empty() {
        return SKIP;
    }
    let dft = matches!(sevs[0], SEv::D(_));
    let tags = b.tags() | c(14) | if dft { c(16) } else { 0 };
    let mut real = take(slot);
    let (mark, budget) = w(|w| {
        let mark = w.exclude.len();
        hide(w, &b, &mevs);
        let srcs: u64 = 2 * CONST * (mevs.len() as u64 + 1);
        let b = srcs + lin(b.stack.len() + mevs.len()) * (mevs.len() as u64 + 1) + w.gc_budget();
        (mark, b)
    });
    let clones = payload::REG.with(|r| r.borrow().clones);
    let what = w(|w| w.what.clone());
    let pull = RefCell::new(Pull { slot, b, mevs: &mevs, pulled: 0, applied: 0, err: None, stopped: false });
    let res = match &mut real {
        Real::Builder(r) => call(budget, || {
            if chunk {
                if dft {
                    r.push_dft_events(sevs.into_iter().map(|e| match (asked(&pull), e) {
                        (_, SEv::D(e)) => e,
                        _ => unreachable!(),
                    }))
                } else {
                    r.push_events(sevs.into_iter().map(|e| match (asked(&pull), e) {
                        (_, SEv::E(e)) => e,
                        _ => unreachable!(),
                    }))
                }
            } else {
                match sevs.into_iter().next() {
                    Some(SEv::D(e)) => r.push_dft_event(e),
                    Some(SEv::E(e)) => r.push_event(e),
                    None => Ok(()),
                }
            }
        }),
        _ => unreachable!(),
    };
    w(|w| {
        w.exclude.truncate(mark);
        w.what = what;
    });
    // A panic of the clone of the k-th data stops the batch there.
    let cloned = payload::REG.with(|r| r.borrow().clones) - clones;
    let stop = match &res {
        Err(Pan::Injected) if !payload::DROP_PANIC.with(|d| d.get()) => cloned,
        _ => u64::MAX,
    };
    let Pull { mut b, applied, err, stopped, .. } = pull.into_inner();
    let want = w(|w| {
        let mut opened = 0;
        if let Some(e) = err {
            return Err(e);
        }
        // A panic of the iterator stops the batch as well.
        if stopped && matches!(res, Err(Pan::Injected)) {
            return Ok(());
        }
        for e in &mevs[applied..] {
            if let MEv::DOpen(n) = e {
                if !w.mut_borrowed(*n) {
                    opened += 1;
                    if opened == stop {
                        return Ok(());
                    }
                }
            }
            apply(w, &mut b, e)?;
        }
        Ok(())
    });
    b.failed |= want.is_err() || res.is_err();
    w(|w| w.slots[slot].as_mut().unwrap().m = M::Builder(b));
    put(slot, real);
    w(|w| w.gc());
    match res {
        Ok(g) => verdict(g, want, tags),
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => {
            injected(tags);
            if payload::DROP_PANIC.with(|d| d.get()) {
                // How far the batch went is unspecified.
                probe("batch stopped by a destructor");
                w(|w| w.over = true);
            }
            (1, tags | c(3))
        }
    }
}

pub fn builder_finish(op: &Op) -> Out {
    let slot = match pick_builder(op) {
        Some(s) => s,
        None => return SKIP,
    };
    let b = mb(slot);
    let real = match take(slot) {
        Real::Builder(r) => r,
        _ => unreachable!(),
    };
    let (mark, budget) = w(|w| {
        w.remove(slot);
        let mark = w.pins.len();
        w.pins.extend(b.root.map(M::Node));
        (mark, CONST + w.gc_budget())
    });
    let opt = op.b % 2 == 0;
    let res = call(budget, move || {
        if opt {
            Ok(real.finish_opt())
        } else {
            real.finish().map(Some)
        }
    });
    w(|w| w.pins.truncate(mark));
    let tags = b.tags() | c(5) | c(7);
    let got = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            if berr(&e) != BErr::NotOpened {
                fail!(tags, "{}: finish reports {:?}", w(|w| w.what.clone()), e);
            }
            None
        }
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => {
            injected(tags);
            w(|w| w.over = true);
            return (1, tags);
        }
    };
    if got.is_some() != b.root.is_some() {
        fail!(tags, "{}: finish gives a root: {}", w(|w| w.what.clone()), got.is_some());
    }
    match (got, b.root) {
        (Some(x), Some(n)) => {
            w(|w| {
                if w.obs(n).is_none() {
                    w.set_obs(n, x.downgrade());
                }
                if !w.is_node(&x, n) {
                    fail!(tags, "{}: finish gives {} instead of node {}", w.what, w.describe(&x), n);
                }
            });
            add(op.client, M::Node(n), Real::Node(x));
            w(|w| w.ctx |= c(14) | c(16));
            (1, tags)
        }
        _ => (2, tags),
    }
}

enum Built {
    Node(Node<P>),
    Frozen(FrozenNode<P>),
    Hot(HotNode<P>),
    Tree(Tree<P>),
}

fn asked_for<E>(e: E) -> E {
    payload::fire(Cb::Pull, 0);
    e
}

fn gather(kind: u32, v: Vec<Event<P>>) -> Result<Built, TreeBuildError> {
    match kind % 4 {
        0 => v.into_iter().map(asked_for).collect::<Result<Node<P>, _>>().map(Built::Node),
        1 => v.into_iter().map(asked_for).collect::<Result<FrozenNode<P>, _>>().map(Built::Frozen),
        2 => v.into_iter().map(asked_for).collect::<Result<HotNode<P>, _>>().map(Built::Hot),
        _ => v.into_iter().map(asked_for).collect::<Result<Tree<P>, _>>().map(Built::Tree),
    }
}

fn install(client: u8, root: N, x: Built) {
    let (m, r, o) = match x {
        Built::Node(x) => {
            let o = x.downgrade();
            (M::Node(root), Real::Node(x), o)
        }
        Built::Frozen(x) => {
            let o = x.plain().downgrade();
            (M::Frozen(root), Real::Frozen(x), o)
        }
        Built::Hot(x) => {
            let o = x.plain().downgrade();
            (M::Hot(root), Real::Hot(x), o)
        }
        Built::Tree(x) => {
            let o = x.root().downgrade();
            (M::Tree(w(|w| w.m.tree(root))), Real::Tree(x), o)
        }
    };
    w(|w| {
        w.set_obs(root, o);
        w.add(client, m, r);
    });
    w(|w| w.ctx |= c(14) | c(16) | c(5));
}

/// Builds a tree from events at once.
pub fn collect(op: &Op) -> Out {
    if op.b % 3 == 2 {
        return collect_stream(op);
    }
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let (t, nodes, borrowed, free) = w(|w| {
        let v = w.m.subtree(n);
        let b = w.any_mut_borrowed(&v);
        (w.m.tree(n), v, b, w.max_nodes.saturating_sub(w.alive_nodes()))
    });
    if nodes.len() > free {
        return SKIP;
    }
    let size = nodes.len();
    let r = take(slot);
    let mark = w(|w| {
        w.soft.push(t);
        w.soft.len() - 1
    });
    let what = w(|w| w.what.clone());
    let events = op.b % 3 == 0;
    let kind = op.c;
    let rr = &r;
    let before = payload::REG.with(|r| r.borrow().clones);
    let res = call(6 * lin(size) + 8 * CONST * size as u64, move || -> Result<Built, TreeBuildError> {
        if events {
            let v: Vec<Event<P>> = nh!(rr, x => x.to_events()).collect::<Result<Vec<_>, _>>()?;
            gather(kind, v)
        } else {
            nh!(rr, x => x.depth_first_traverse())
                .collect::<Result<Node<P>, _>>()
                .map(Built::Node)
        }
    });
    let cloned = payload::REG.with(|r| r.borrow().clones) - before;
    w(|w| {
        w.soft.truncate(mark);
        w.what = what;
    });
    put(slot, r);
    let tags = c(14) | c(15) | c(16);
    match res {
        Ok(Ok(x)) => {
            if borrowed {
                fail!(tags | c(18), "{}: rebuilt although some data is exclusively borrowed", w(|w| w.what.clone()));
            }
            if !w(|w| w.nested_ran) && cloned != size as u64 {
                fail!(tags, "{}: {} clones for {} nodes", w(|w| w.what.clone()), cloned, size);
            }
            let root = w(|w| {
                let root = w.m.copy(n, 0);
                w.m.new_tree_of(root);
                root
            });
            install(op.client, root, x);
            (1, tags)
        }
        Ok(Err(e)) => {
            if !borrowed || berr(&e) != BErr::Borrow {
                fail!(tags, "{}: rebuilding failed: {:?}", w(|w| w.what.clone()), e);
            }
            probe("rebuilding refused by a borrow");
            (2, tags)
        }
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => {
            injected(tags);
            (2, tags)
        }
    }
}

fn collect_stream(op: &Op) -> Out {
    let s = match own_stream(op.client) {
        Some(s) => s,
        None => return SKIP,
    };
    let free = w(|w| w.max_nodes.saturating_sub(w.alive_nodes()));
    let ok = stream_mut(s, |a, r| {
        let dft = matches!(r.first(), Some(SEv::D(_)));
        let opens = a.iter().filter(|e| matches!(e, MEv::Open { .. } | MEv::DOpen(_))).count();
        r.iter().all(|e| matches!(e, SEv::D(_)) == dft) && opens <= free
    });
    if !ok {
        return SKIP;
    }
    let (mevs, sevs) = stream_mut(s, |a, r| (std::mem::take(a), std::mem::take(r)));
    let dft = matches!(sevs.first(), Some(SEv::D(_)));
    let tags = c(14) | c(15) | if dft { c(16) } else { 0 };
    let none = MBuilder::new(None);
    let k = mevs.len() as u64 + 1;
    let (mark, budget) = w(|w| {
        let mark = w.exclude.len();
        hide(w, &none, &mevs);
        (mark, 4 * CONST * k + 2 * lin(mevs.len()) * k + w.gc_budget())
    });
    let what = w(|w| w.what.clone());
    let kind = op.c;
    let res = call(budget, move || {
        if dft {
            sevs.into_iter()
                .map(|e| match asked_for(e) {
                    SEv::D(e) => e,
                    _ => unreachable!(),
                })
                .collect::<Result<Node<P>, _>>()
                .map(Built::Node)
        } else {
            let v = sevs
                .into_iter()
                .map(|e| match e {
                    SEv::E(e) => e,
                    _ => unreachable!(),
                })
                .collect();
            gather(kind, v)
        }
    });
    w(|w| {
        w.exclude.truncate(mark);
        w.what = what;
    });
    if let Err(Pan::Injected) = &res {
        injected(tags);
        if payload::DROP_PANIC.with(|d| d.get()) {
            w(|w| w.over = true);
        }
        // Otherwise the panic came from a clone: everything built so far is released.
        return (2, tags);
    }
    let mut b = none;
    let want = w(|w| {
        for e in &mevs {
            apply(w, &mut b, e)?;
        }
        b.root.ok_or(BErr::NotOpened)
    });
    match res {
        Ok(Ok(x)) => match want {
            Ok(root) => {
                install(op.client, root, x);
                (1, tags)
            }
            Err(e) => fail!(tags, "{}: a tree was built, but {:?} is expected", w(|w| w.what.clone()), e),
        },
        Ok(Err(e)) => {
            if want != Err(berr(&e)) {
                fail!(tags, "{}: {:?} instead of {:?}", w(|w| w.what.clone()), e, want);
            }
            w(|w| w.gc());
            probe("collecting refused");
            (2, tags)
        }
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => unreachable!(),
    }
}
