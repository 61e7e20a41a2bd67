//! Traversal iterators: the real iterator against its cursor (live) or its item list (stable).

use std::collections::VecDeque;

use dendron::serial::Event;
use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, DftEvent,
    NonAllocatingBreadthFirstTraverser, ReverseDepthFirstTraverser, ReverseSiblingsTraverser,
    SiblingsTraverser, StableDepthFirstTraverser, StableShallowDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::{FrozenNode, HotNode, Node};

use crate::exec::*;
use crate::model::{Ev, Model, N};
use crate::op::Op;
use crate::payload::P;
use crate::world::*;
use crate::{fail, nh};

/// Expected item.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// `ev`: 0 opening, 1 closing, 2 plain node.
    Node { ev: u8, n: N, depth: Option<usize> },
    SerOpen { n: N, err: bool },
    SerClose(usize),
}

/// Real item.
pub enum Got {
    Node { ev: u8, h: Real, depth: Option<usize> },
    SerOpen(P),
    SerErr,
    SerClose(usize),
}

pub fn tags_of(it: &MIter) -> Tags {
    match it {
        MIter::Ser { .. } => c(14) | c(12),
        MIter::Stable { kind: SK::NaBfs | SK::ABfs, .. } => c(13),
        MIter::Stable { .. } => c(11),
        _ => c(12),
    }
}

fn ev_want(e: Ev) -> Want {
    match e {
        Ev::Open(n) => Want::Node { ev: 0, n, depth: None },
        Ev::Close(n) => Want::Node { ev: 1, n, depth: None },
    }
}

fn item_want(kind: SK, i: &Item) -> Want {
    Want::Node {
        ev: i.ev,
        n: i.n,
        depth: match kind {
            SK::Sib | SK::Dft => None,
            _ => Some(i.depth),
        },
    }
}

/// Takes the next item from the model of the iterator.
pub fn advance(w: &World, it: &mut MIter) -> Option<Want> {
    let m: &Model = &w.m;
    match it {
        MIter::Dft { next, start } => {
            let e = next.take()?;
            if e != Ev::Close(*start) {
                *next = m.next_ev(e);
            }
            Some(ev_want(e))
        }
        MIter::RDft { next, start } => {
            let e = next.take()?;
            if e != Ev::Open(*start) {
                *next = m.prev_ev(e);
            }
            Some(ev_want(e))
        }
        MIter::Ser { next, start } => {
            let mut step = |next: &mut Option<Ev>| {
                let e = next.take()?;
                if e != Ev::Close(*start) {
                    *next = m.next_ev(e);
                }
                Some(e)
            };
            match step(next)? {
                Ev::Open(n) => Some(Want::SerOpen { n, err: w.mut_borrowed(n) }),
                Ev::Close(_) => {
                    let mut k = 1;
                    while let Some(Ev::Close(_)) = next {
                        step(next);
                        k += 1;
                    }
                    Some(Want::SerClose(k))
                }
            }
        }
        MIter::Sib(x) => {
            let n = x.take()?;
            *x = m.next_sib(n);
            Some(Want::Node { ev: 2, n, depth: None })
        }
        MIter::RSib(x) => {
            let n = x.take()?;
            *x = m.prev_sib(n);
            Some(Want::Node { ev: 2, n, depth: None })
        }
        MIter::Anc(x) => {
            let n = x.take()?;
            *x = m.parent(n);
            Some(Want::Node { ev: 2, n, depth: None })
        }
        MIter::Stable { kind, items, .. } => items.pop_front().map(|i| item_want(*kind, &i)),
    }
}

fn advance_back(it: &mut MIter) -> Option<Want> {
    match it {
        MIter::Stable { kind, items, .. } => items.pop_back().map(|i| item_want(*kind, &i)),
        _ => None,
    }
}

fn is_close(x: &Want) -> Option<bool> {
    match x {
        Want::Node { ev: 1, .. } => Some(true),
        Want::Node { ev: 0, .. } => Some(false),
        _ => None,
    }
}

fn double_ended(it: &MIter) -> bool {
    matches!(it, MIter::Stable { kind: SK::Sib | SK::Dft | SK::Shallow, .. })
}

fn remaining(w: &World, it: &MIter) -> usize {
    match it {
        MIter::Stable { items, .. } => items.len(),
        _ => {
            let mut it = it.clone();
            let mut k = 0;
            while advance(w, &mut it).is_some() {
                k += 1;
            }
            k
        }
    }
}

fn node_ev(e: DftEvent<Node<P>>) -> Got {
    match e {
        DftEvent::Open(x) => Got::Node { ev: 0, h: Real::Node(x), depth: None },
        DftEvent::Close(x) => Got::Node { ev: 1, h: Real::Node(x), depth: None },
    }
}
fn frozen_ev(e: DftEvent<FrozenNode<P>>) -> Got {
    match e {
        DftEvent::Open(x) => Got::Node { ev: 0, h: Real::Frozen(x), depth: None },
        DftEvent::Close(x) => Got::Node { ev: 1, h: Real::Frozen(x), depth: None },
    }
}
fn shallow_ev(e: DftEvent<(FrozenNode<P>, usize)>) -> Got {
    match e {
        DftEvent::Open((x, d)) => Got::Node { ev: 0, h: Real::Frozen(x), depth: Some(d) },
        DftEvent::Close((x, d)) => Got::Node { ev: 1, h: Real::Frozen(x), depth: Some(d) },
    }
}
fn node(x: Node<P>) -> Got {
    Got::Node { ev: 2, h: Real::Node(x), depth: None }
}
fn frozen(x: FrozenNode<P>) -> Got {
    Got::Node { ev: 2, h: Real::Frozen(x), depth: None }
}
fn bfs(x: (FrozenNode<P>, usize)) -> Got {
    Got::Node { ev: 2, h: Real::Frozen(x.0), depth: Some(x.1) }
}
fn ser(x: Result<Event<P>, std::cell::BorrowError>) -> Got {
    match x {
        Ok(Event::Open(p)) => Got::SerOpen(p),
        Ok(Event::Close(k)) => Got::SerClose(k),
        Err(_) => Got::SerErr,
    }
}

macro_rules! each {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            RIter::Dft($x) => ($e).map(node_ev),
            RIter::RDft($x) => ($e).map(node_ev),
            RIter::Ser($x) => ($e).map(ser),
            RIter::Sib($x) => ($e).map(node),
            RIter::RSib($x) => ($e).map(node),
            RIter::Anc($x) => ($e).map(node),
            RIter::SSib($x) => ($e).map(frozen),
            RIter::SDft($x) => ($e).map(frozen_ev),
            RIter::SSh($x) => ($e).map(shallow_ev),
            RIter::NaB($x) => ($e).map(bfs),
            RIter::AB($x) => ($e).map(bfs),
        }
    };
}
macro_rules! each_de {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            RIter::SSib($x) => ($e).map(frozen),
            RIter::SDft($x) => ($e).map(frozen_ev),
            RIter::SSh($x) => ($e).map(shallow_ev),
            _ => unreachable!(),
        }
    };
}

fn next(r: &mut RIter) -> Option<Got> {
    each!(r, x => x.next())
}
fn next_back(r: &mut RIter) -> Option<Got> {
    each_de!(r, x => x.next_back())
}
fn nth(r: &mut RIter, k: usize) -> Option<Got> {
    each!(r, x => x.nth(k))
}
fn nth_back(r: &mut RIter, k: usize) -> Option<Got> {
    each_de!(r, x => x.nth_back(k))
}
fn last(r: RIter) -> Option<Got> {
    each!(r, x => x.last())
}
fn close_current(r: &mut RIter) -> Option<Got> {
    match r {
        RIter::Dft(x) => x
            .close_current()
            .map(|x| Got::Node { ev: 1, h: Real::Node(x), depth: None }),
        RIter::SDft(x) => x
            .close_current()
            .map(|x| Got::Node { ev: 1, h: Real::Frozen(x), depth: None }),
        RIter::SSh(x) => x
            .close_current()
            .map(|(x, d)| Got::Node { ev: 1, h: Real::Frozen(x), depth: Some(d) }),
        _ => unreachable!(),
    }
}
fn size_hint(r: &RIter) -> (usize, Option<usize>) {
    match r {
        RIter::Dft(x) => x.size_hint(),
        RIter::RDft(x) => x.size_hint(),
        RIter::Ser(x) => x.size_hint(),
        RIter::Sib(x) => x.size_hint(),
        RIter::RSib(x) => x.size_hint(),
        RIter::Anc(x) => x.size_hint(),
        RIter::SSib(x) => x.size_hint(),
        RIter::SDft(x) => x.size_hint(),
        RIter::SSh(x) => x.size_hint(),
        RIter::NaB(x) => x.size_hint(),
        RIter::AB(x) => x.size_hint(),
    }
}
/// What the iterator would yield next, for those that can tell.
fn peek(r: &RIter) -> Option<Option<Got>> {
    Some(match r {
        RIter::Dft(x) => x.peek().cloned().map(node_ev),
        RIter::RDft(x) => x.peek().cloned().map(node_ev),
        RIter::Ser(_) | RIter::NaB(_) => return None,
        RIter::Sib(x) => x.peek().cloned().map(node),
        RIter::RSib(x) => x.peek().cloned().map(node),
        RIter::Anc(x) => x.peek().cloned().map(node),
        RIter::SSib(x) => x.peek().cloned().map(frozen),
        RIter::SDft(x) => x.peek().cloned().map(frozen_ev),
        RIter::SSh(x) => x.peek().cloned().map(shallow_ev),
        RIter::AB(x) => x.peek().map(bfs),
    })
}
fn peek_back(r: &RIter) -> Option<Option<Got>> {
    Some(match r {
        RIter::SSib(x) => x.peek_back().cloned().map(frozen),
        RIter::SDft(x) => x.peek_back().cloned().map(frozen_ev),
        RIter::SSh(x) => x.peek_back().cloned().map(shallow_ev),
        _ => return None,
    })
}

/// Whether the real item is the expected one.
fn matches(w: &World, g: &Option<Got>, x: &Option<Want>) -> bool {
    match (g, x) {
        (None, None) => true,
        (Some(Got::Node { ev, h, depth }), Some(Want::Node { ev: e2, n, depth: d2 })) => {
            ev == e2 && depth == d2 && w.is_node(&h.plain(), *n)
        }
        (Some(Got::SerOpen(p)), Some(Want::SerOpen { n, err: false })) => w.m.nodes[*n].val == p.val,
        (Some(Got::SerErr), Some(Want::SerOpen { err: true, .. })) => true,
        (Some(Got::SerClose(a)), Some(Want::SerClose(b))) => a == b,
        _ => false,
    }
}
fn show(w: &World, g: &Option<Got>) -> String {
    match g {
        None => "nothing".to_string(),
        Some(Got::Node { ev, h, depth }) => format!(
            "{}{}{}",
            ["opening of ", "closing of ", ""][*ev as usize],
            w.describe(&h.plain()),
            depth.map_or(String::new(), |d| format!(" at depth {}", d))
        ),
        Some(Got::SerOpen(p)) => format!("opening with data {}", p.val),
        Some(Got::SerErr) => "a borrow error".to_string(),
        Some(Got::SerClose(k)) => format!("closing of {}", k),
    }
}

fn compare(g: &Option<Got>, x: &Option<Want>, tags: Tags, by: &str) {
    w(|w| {
        if !matches(w, g, x) {
            fail!(tags, "{}: {} gives {} but {:?} is expected", w.what, by, show(w, g), x);
        }
    })
}

fn name(it: &MIter) -> &'static str {
    match it {
        MIter::Dft { .. } => "depth-first traversal",
        MIter::RDft { .. } => "reverse depth-first traversal",
        MIter::Ser { .. } => "serialisation",
        MIter::Sib(_) => "siblings traversal",
        MIter::RSib(_) => "reverse siblings traversal",
        MIter::Anc(_) => "ancestors traversal",
        MIter::Stable { kind, .. } => match kind {
            SK::Sib => "stable siblings traversal",
            SK::Dft => "stable depth-first traversal",
            SK::Shallow => "stable shallow traversal",
            SK::NaBfs => "non-allocating breadth-first traversal",
            SK::ABfs => "allocating breadth-first traversal",
        },
    }
}

/// Elementary steps that taking `k` items may take.
fn cost(w: &World, it: &MIter, k: usize) -> u64 {
    let size = |n: N| w.tree_size(w.m.tree(n));
    let one = match it {
        MIter::Ser { next: Some(e), .. } => lin(size(e.node())),
        MIter::Stable { kind: SK::NaBfs, top, .. } => 4 * lin(size(*top)),
        MIter::Stable { kind: SK::ABfs, top, .. } => lin(size(*top)),
        // Cloning and dropping of handles and locks only.
        _ => CONST,
    };
    one * (k as u64 + 1)
}

/// Checks everything that the iterator tells without advancing.
fn observe(it: &MIter, r: &RIter) {
    let tags = tags_of(it);
    let (want, back, left) = w(|w| {
        let mut a = it.clone();
        let mut b = it.clone();
        (advance(w, &mut a), advance_back(&mut b), remaining(w, it))
    });
    let by = name(it);
    if let Some(g) = sure(tags, CONST, || peek(r)) {
        compare(&g, &want, tags, &format!("peeking the {}", by));
    }
    if let Some(g) = sure(tags, CONST, || peek_back(r)) {
        compare(&g, &back, tags, &format!("peeking the back of the {}", by));
    }
    let (lo, hi) = sure(tags, CONST, || size_hint(r));
    if lo > left || hi.map_or(false, |h| h < left) {
        fail!(
            tags,
            "{}: size hint ({}, {:?}) of {} with {} items left",
            w(|w| w.what.clone()),
            lo,
            hi,
            by,
            left
        );
    }
}

/// When the model has no more items: the real iterator has no more items, repeatedly, and nothing
/// is held by it.
pub fn settle(slot: usize) {
    let it = match w(|w| w.slot_m(slot).clone()) {
        M::Iter(it) => it,
        _ => unreachable!(),
    };
    let over = match &it {
        MIter::Stable { items, done, .. } => items.is_empty() && !*done,
        _ => false,
    };
    if !over {
        return;
    }
    let mut r = match take(slot) {
        Real::Iter(r) => r,
        _ => unreachable!(),
    };
    let tags = tags_of(&it);
    let b = w(|w| {
        let b = cost(w, &it, 1);
        if let M::Iter(MIter::Stable { done, .. }) = &mut w.slots[slot].as_mut().unwrap().m {
            *done = true;
        }
        b + w.gc_budget()
    });
    let de = double_ended(&it);
    let res = call(b, || {
        let a = next(&mut r);
        let b = if de { next_back(&mut r) } else { next(&mut r) };
        (a, b)
    });
    match res {
        Ok((a, b)) => {
            compare(&a, &None, tags, &format!("the exhausted {}", name(&it)));
            compare(&b, &None, tags, &format!("the exhausted {}", name(&it)));
        }
        Err(Pan::Injected) => injected(tags),
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
    }
    put(slot, Real::Iter(r));
    w(|w| w.ctx |= c(5) | c(7));
}

fn install(client: u8, it: MIter, r: RIter) -> Out {
    let tags = tags_of(&it);
    observe(&it, &r);
    let slot = add(client, M::Iter(it), Real::Iter(r));
    settle(slot);
    (1, tags)
}

pub fn live(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let k = op.b % 22;
    let r = take(slot);
    // Cursor positions inside the subtree for the explicit constructors.
    let (evs, at) = w(|w| {
        let evs: Vec<Ev> = w.m.events(n).into_iter().map(|x| x.0).collect();
        let at = op.c as usize % evs.len();
        (evs, at)
    });
    let ev = evs[at];
    let target = w(|w| w.up(ev.node()));
    let plain = r.plain();
    let rev = || match ev {
        Ev::Open(_) => DftEvent::Open(target.clone()),
        Ev::Close(_) => DftEvent::Close(target.clone()),
    };
    let res = call(2 * CONST, || match k {
        0 | 1 => RIter::Dft(nh!(&r, x => x.depth_first_traverse())),
        2 => RIter::RDft(nh!(&r, x => x.depth_first_reverse_traverse())),
        3 | 4 => RIter::Ser(nh!(&r, x => x.to_events())),
        5 => RIter::Sib(nh!(&r, x => x.children())),
        6 => RIter::RSib(nh!(&r, x => x.children_reverse())),
        7 => RIter::Anc(nh!(&r, x => x.ancestors())),
        8 => RIter::Anc(nh!(&r, x => x.ancestors_or_self())),
        9 => RIter::Sib(nh!(&r, x => x.siblings())),
        10 => RIter::RSib(nh!(&r, x => x.siblings_reverse())),
        11 => RIter::RSib(nh!(&r, x => x.preceding_siblings_reverse())),
        12 => RIter::RSib(nh!(&r, x => x.preceding_siblings_or_self_reverse())),
        13 => RIter::Sib(nh!(&r, x => x.following_siblings())),
        14 => RIter::Sib(nh!(&r, x => x.following_siblings_or_self())),
        15 => RIter::Dft(DepthFirstTraverser::with_start(if op.d % 4 == 0 { None } else { Some(plain.clone()) })),
        16 => RIter::Dft(DepthFirstTraverser::with_next_event(plain.clone(), if op.d % 8 == 0 { None } else { Some(rev()) })),
        17 => RIter::RDft(ReverseDepthFirstTraverser::with_start(if op.d % 4 == 0 { None } else { Some(plain.clone()) })),
        18 => RIter::RDft(ReverseDepthFirstTraverser::with_next_event(plain.clone(), if op.d % 8 == 0 { None } else { Some(rev()) })),
        19 => RIter::Sib(SiblingsTraverser::new(if op.d % 4 == 0 { None } else { Some(plain.clone()) })),
        20 => RIter::RSib(ReverseSiblingsTraverser::new(if op.d % 4 == 0 { None } else { Some(plain.clone()) })),
        _ => RIter::Anc(AncestorsTraverser::new(if op.d % 4 == 0 { None } else { Some(plain.clone()) })),
    });
    drop(target);
    drop(plain);
    put(slot, r);
    let it = w(|w| {
        let m = &w.m;
        let some = if op.d % 4 == 0 { None } else { Some(n) };
        let ev8 = if op.d % 8 == 0 { None } else { Some(ev) };
        match k {
            0 | 1 => MIter::Dft { next: Some(Ev::Open(n)), start: n },
            2 => MIter::RDft { next: Some(Ev::Close(n)), start: n },
            3 | 4 => MIter::Ser { next: Some(Ev::Open(n)), start: n },
            5 => MIter::Sib(m.ch(n).first().copied()),
            6 => MIter::RSib(m.ch(n).last().copied()),
            7 => MIter::Anc(m.parent(n)),
            8 => MIter::Anc(Some(n)),
            9 => MIter::Sib(Some(m.siblings(n)[0])),
            10 => MIter::RSib(m.siblings(n).last().copied()),
            11 => MIter::RSib(m.prev_sib(n)),
            12 => MIter::RSib(Some(n)),
            13 => MIter::Sib(m.next_sib(n)),
            14 => MIter::Sib(Some(n)),
            15 => MIter::Dft { next: some.map(Ev::Open), start: n },
            16 => MIter::Dft { next: ev8, start: n },
            17 => MIter::RDft { next: some.map(Ev::Close), start: n },
            18 => MIter::RDft { next: ev8, start: n },
            19 => MIter::Sib(some),
            20 => MIter::RSib(some),
            _ => MIter::Anc(some),
        }
    });
    match res {
        Ok(x) => install(op.client, it, x),
        Err(Pan::Lib(m)) => lib_panic(tags_of(&it), &m),
        Err(Pan::Injected) => fail!(0, "[harness] injected panic while creating an iterator"),
    }
}

pub fn stable(op: &Op) -> Out {
    // A frozen handle, or a plain one that gets frozen for this.
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| matches!(m, M::Frozen(_)))
            .filter(|_| op.d % 4 != 0)
            .or_else(|| w.pick(op.client, op.a, &|w, m| m.is_handle() && !w.grants(w.m.tree(m.node()))))
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let r = take(slot);
    let fr: Option<FrozenNode<P>> = match &r {
        Real::Frozen(x) => Some(x.clone()),
        _ => sure(c(4), CONST, || r.plain().bundle_new_hierarchy_edit_prohibition().ok()),
    };
    put(slot, r);
    let fr = match fr {
        Some(f) => f,
        None => {
            if w(|w| w.grants(w.m.tree(n))) {
                return SKIP;
            }
            fail!(c(4) | c(5), "{}: tree of node {} cannot be frozen", w(|w| w.what.clone()), n);
        }
    };
    let k = op.b % 17;
    let depth = (op.c % 7) as usize;
    let max: Option<usize> = match op.c % 9 {
        0 | 1 => None,
        2 => Some(usize::MAX),
        3 => Some(usize::MAX - 1),
        x => Some((x - 4) as usize),
    };
    let (evs, i, j) = w(|w| {
        let evs: Vec<Ev> = w.m.events(n).into_iter().map(|x| x.0).collect();
        let mut i = op.c as usize % evs.len();
        let mut j = (op.c >> 8) as usize % evs.len();
        if i > j {
            std::mem::swap(&mut i, &mut j);
        }
        (evs, i, j)
    });
    let froz = |n: N| {
        w(|w| w.up(n)).bundle_new_hierarchy_edit_prohibition().expect("[harness] frozen")
    };
    let fev = |e: Ev| match e {
        Ev::Open(n) => DftEvent::Open(froz(n)),
        Ev::Close(n) => DftEvent::Close(froz(n)),
    };
    let (first, lst) = (fev(evs[i]), fev(evs[j]));
    let none = op.d % 5 == 0;
    let start = match op.c % 16 {
        15 => usize::MAX,
        14 => usize::MAX - 1,
        _ => depth % 4,
    };
    let size = w(|w| w.tree_size(w.m.tree(n)));
    let budget = match k {
        // The allocating traversal collects the items at the starting depth.
        14 | 15 => 4 * lin(size),
        _ => 2 * CONST,
    };
    let f = &fr;
    let res = call(budget, || match k {
        0 => RIter::SDft(f.depth_first_traverse_stable()),
        1 => RIter::SSib(f.children_stable()),
        2 => RIter::SSib(f.siblings_stable()),
        3 => RIter::SSib(f.preceding_siblings_stable()),
        4 => RIter::SSib(f.preceding_siblings_or_self_stable()),
        5 => RIter::SSib(f.following_siblings_stable()),
        6 => RIter::SSib(f.following_siblings_or_self_stable()),
        7 | 8 => RIter::SSh(f.shallow_depth_first_traverse_stable(max)),
        9 => RIter::SSh(StableShallowDepthFirstTraverser::with_toplevel(
            if none { None } else { Some(f.clone()) },
            max,
        )),
        10 => RIter::SDft(StableDepthFirstTraverser::with_toplevel(if none { None } else { Some(f.clone()) })),
        11 => RIter::SDft(StableDepthFirstTraverser::with_first_last_event(first.clone(), lst.clone())),
        12 => RIter::NaB(f.non_allocating_breadth_first_traverse_stable(start)),
        13 => RIter::NaB(NonAllocatingBreadthFirstTraverser::with_toplevel(f.clone(), start)),
        14 => RIter::AB(f.allocating_breadth_first_traverse_stable(start)),
        15 => RIter::AB(AllocatingBreadthFirstTraverser::with_toplevel(f.clone(), start)),
        _ => RIter::SSib(StableSiblingsTraverser::with_parent(if none { None } else { Some(f.clone()) })),
    });
    let (kind, items) = w(|w| {
        let m = &w.m;
        let sib = m.siblings(n);
        let idx = m.index(n);
        let nodes = |v: &[N]| -> VecDeque<Item> {
            v.iter().map(|n| Item { ev: 2, n: *n, depth: 0 }).collect()
        };
        let evi = |v: Vec<(Ev, usize)>| -> VecDeque<Item> {
            v.into_iter()
                .map(|(e, depth)| match e {
                    Ev::Open(n) => Item { ev: 0, n, depth },
                    Ev::Close(n) => Item { ev: 1, n, depth },
                })
                .collect()
        };
        match k {
            0 => (SK::Dft, evi(m.events(n))),
            1 => (SK::Sib, nodes(m.ch(n))),
            2 => (SK::Sib, nodes(&sib)),
            3 => (SK::Sib, nodes(&sib[..idx])),
            4 => (SK::Sib, nodes(&sib[..=idx])),
            5 => (SK::Sib, nodes(&sib[idx + 1..])),
            6 => (SK::Sib, nodes(&sib[idx..])),
            7 | 8 => (SK::Shallow, evi(m.events_limited(n, max.unwrap_or(usize::MAX)))),
            9 => (
                SK::Shallow,
                if none { VecDeque::new() } else { evi(m.events_limited(n, max.unwrap_or(usize::MAX))) },
            ),
            10 => (SK::Dft, if none { VecDeque::new() } else { evi(m.events(n)) }),
            11 => (SK::Dft, evi(m.events(n)[i..=j].to_vec())),
            12 | 13 => (
                SK::NaBfs,
                m.bfs(n, start).into_iter().map(|(n, depth)| Item { ev: 2, n, depth }).collect(),
            ),
            14 | 15 => (
                SK::ABfs,
                m.bfs(n, start).into_iter().map(|(n, depth)| Item { ev: 2, n, depth }).collect(),
            ),
            _ => (SK::Sib, if none { VecDeque::new() } else { nodes(m.ch(n)) }),
        }
    });
    let it = MIter::Stable { kind, top: n, items, done: false };
    let tags = tags_of(&it);
    drop(first);
    drop(lst);
    drop(fr);
    match res {
        Ok(x) => {
            if let RIter::SSh(s) = &x {
                if s.max_depth() != max.unwrap_or(usize::MAX) {
                    fail!(tags, "{}: max_depth is {}", w(|w| w.what.clone()), s.max_depth());
                }
            }
            install(op.client, it, x)
        }
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => fail!(0, "[harness] injected panic while creating an iterator"),
    }
}

/// Handle corresponding to the real item.
fn handle_m(h: &Real, n: N) -> M {
    match h {
        Real::Frozen(_) => M::Frozen(n),
        _ => M::Node(n),
    }
}
fn want_m(it: &MIter, x: &Want) -> Option<M> {
    match (it, x) {
        (MIter::Stable { .. }, Want::Node { n, .. }) => Some(M::Frozen(*n)),
        (_, Want::Node { n, .. }) => Some(M::Node(*n)),
        _ => None,
    }
}

pub fn pick_iter(client: u8, salt: u32, pred: &dyn Fn(&MIter) -> bool) -> Option<usize> {
    w(|w| w.pick(client, salt, &|_, m| matches!(m, M::Iter(it) if pred(it))))
}

/// Moves the iterator in the slot, checking it against its model.
///
/// `how` is 0: next, 1: next_back, 2: nth, 3: nth_back, 4: close_current. Fails with the outcome if
/// user code has panicked; the iterator is given up then.
pub fn move_iter(slot: usize, how: u32, k: usize, shrink: u32) -> Result<(Option<Want>, Option<Got>), Out> {
    let it = match w(|w| w.slot_m(slot).clone()) {
        M::Iter(it) => it,
        _ => unreachable!(),
    };
    let tags = tags_of(&it);
    let mut after = it.clone();
    let (want, budget) = w(|w| {
        let full = match &it {
            MIter::Dft { next: Some(e), .. } => lin(w.tree_size(w.m.tree(e.node()))),
            MIter::Stable { items, .. } => lin(items.len()),
            _ => CONST,
        };
        let b = cost(w, &it, if how == 2 || how == 3 { k } else { 0 });
        match how {
            0 => (advance(w, &mut after), b),
            1 => (advance_back(&mut after), b),
            2 => {
                let mut x = None;
                for _ in 0..=k {
                    x = advance(w, &mut after);
                }
                (x, b)
            }
            3 => {
                let mut x = None;
                for _ in 0..=k {
                    x = advance_back(&mut after);
                }
                (x, b)
            }
            _ => {
                let mut depth = 0;
                let x = loop {
                    match advance(w, &mut after) {
                        None => break None,
                        Some(x) => match is_close(&x) {
                            Some(true) if depth == 0 => break Some(x),
                            Some(true) => depth -= 1,
                            _ => depth += 1,
                        },
                    }
                };
                (x, full + b)
            }
        }
    });
    if let (None, MIter::Stable { done, .. }) = (&want, &mut after) {
        // Having said that there is nothing more, the iterator is not to hold anything.
        *done = true;
    }
    let mut r = match take(slot) {
        Real::Iter(r) => r,
        _ => unreachable!(),
    };
    let what = w(|w| {
        w.what = format!("{}: {}", w.what, name(&it));
        w.what.clone()
    });
    observe(&it, &r);
    let (budget, softs, mark) = w(|w| {
        let softs = w.soft.len();
        let mark = w.pins.len();
        if let MIter::Ser { next: Some(e), start } = &it {
            // Both are held by the iterator itself, and may be in different trees by now.
            let ts = [w.m.tree(e.node()), w.m.tree(*start)];
            w.soft.extend(ts);
        }
        if let Some(x) = want.as_ref().and_then(|x| want_m(&it, x)) {
            w.pins.push(x);
        }
        w.slots[slot].as_mut().unwrap().m = M::Iter(after.clone());
        (budget + w.gc_budget(), softs, mark)
    });
    let res = call(budget, || {
        if let (RIter::AB(x), 0) = (&mut r, shrink % 4) {
            if shrink % 8 == 0 {
                x.shrink_to_fit();
            } else {
                x.shrink_to(2);
            }
        }
        match how {
            0 => next(&mut r),
            1 => next_back(&mut r),
            2 => nth(&mut r, k),
            3 => nth_back(&mut r, k),
            _ => close_current(&mut r),
        }
    });
    w(|w| w.soft.truncate(softs));
    let got = match res {
        Ok(x) => x,
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => {
            injected(tags);
            w(|w| w.pins.truncate(mark));
            // Where the iterator stands after a panic of user code is unspecified.
            put(slot, Real::Iter(r));
            kill(slot, tags);
            return Err((1, tags | c(3)));
        }
    };
    w(|w| w.what = what);
    compare(&got, &want, tags, &format!("the {}", name(&it)));
    put(slot, Real::Iter(r));
    settle(slot);
    w(|w| w.pins.truncate(mark));
    Ok((want, got))
}

pub fn step(op: &Op) -> Out {
    let slot = match pick_iter(op.client, op.a, &|_| true) {
        Some(s) => s,
        None => return SKIP,
    };
    let it = match w(|w| w.slot_m(slot).clone()) {
        M::Iter(it) => it,
        _ => unreachable!(),
    };
    let tags = tags_of(&it);
    let de = double_ended(&it);
    let cc = matches!(
        it,
        MIter::Dft { .. } | MIter::Stable { kind: SK::Dft | SK::Shallow, .. }
    );
    let how = match op.b % 12 {
        5..=7 if de => 1,
        8 => 2,
        9 if de => 3,
        10 if cc => 4,
        _ => 0,
    };
    let (want, got) = match move_iter(slot, how, (op.c % 4) as usize, op.d) {
        Ok(x) => x,
        Err(out) => return out,
    };
    match got {
        Some(Got::Node { h, .. }) => {
            let n = match want {
                Some(Want::Node { n, .. }) => n,
                _ => unreachable!(),
            };
            let m = handle_m(&h, n);
            let s = add(op.client, m, h);
            keep_or_kill(s, op.d % 3 == 0, c(5) | c(7));
        }
        Some(Got::SerOpen(p)) => {
            w(|w| w.ctx |= c(16));
            drop_real(CONST, c(16), "serialised data", p);
        }
        Some(Got::SerErr) => probe("serialisation of borrowed data refused"),
        _ => {}
    }
    if how == 1 || how == 3 {
        probe("iterator advanced from the back");
    }
    (1, tags)
}

pub fn drain(op: &Op) -> Out {
    let slot = match pick_iter(op.client, op.a, &|_| true) {
        Some(s) => s,
        None => return SKIP,
    };
    let it = match w(|w| w.slot_m(slot).clone()) {
        M::Iter(it) => it,
        _ => unreachable!(),
    };
    let tags = tags_of(&it);
    let de = double_ended(&it);
    // 0: forward, 1: backward, 2: both ends by a coin, 3: count, 4: last, 5: for_each (fold).
    let how = match op.b % 8 {
        1 if de => 1,
        2 | 3 if de => 2,
        4 => 3,
        5 => 4,
        6 => 5,
        7 if de => 6,
        _ => 0,
    };
    let coin = op.c;
    let mut m2 = it.clone();
    let (want, budget) = w(|w| {
        let mut v: Vec<Want> = vec![];
        let total = remaining(w, &it);
        for i in 0..total + 2 {
            let x = if how == 1 || how == 6 || (how == 2 && coin >> (i % 32) & 1 == 1) {
                advance_back(&mut m2)
            } else {
                advance(w, &mut m2)
            };
            v.extend(x);
        }
        (v, cost(w, &it, total + 4))
    });
    if want.len() > 600 && how < 3 {
        return SKIP;
    }
    let mut r = match take(slot) {
        Real::Iter(r) => r,
        _ => unreachable!(),
    };
    observe(&it, &r);
    let total = want.len();
    let (mark, softs) = w(|w| (w.pins.len(), w.soft.len()));
    let keeps = how < 3 || how > 4;
    let budget = w(|w| {
        if let MIter::Ser { next: Some(e), start } = &it {
            let ts = [w.m.tree(e.node()), w.m.tree(*start)];
            w.soft.extend(ts);
        }
        if keeps {
            for x in &want {
                if let Some(m) = want_m(&it, x) {
                    w.pins.push(m);
                }
            }
        } else if how == 4 {
            if let Some(m) = want.last().and_then(|x| want_m(&it, x)) {
                w.pins.push(m);
            }
        }
        w.remove(slot);
        budget + w.gc_budget()
    });
    let mut got: Vec<Got> = vec![];
    let mut count = 0;
    let g = &mut got;
    let cnt = &mut count;
    let res = call(budget + lin(total), move || match how {
        0..=2 => {
            for i in 0..total + 2 {
                let x = if how == 1 || (how == 2 && coin >> (i % 32) & 1 == 1) {
                    next_back(&mut r)
                } else {
                    next(&mut r)
                };
                g.extend(x);
            }
        }
        3 => {
            *cnt = match r {
                RIter::Dft(x) => x.count(),
                RIter::RDft(x) => x.count(),
                RIter::Ser(x) => x.count(),
                RIter::Sib(x) => x.count(),
                RIter::RSib(x) => x.count(),
                RIter::Anc(x) => x.count(),
                RIter::SSib(x) => x.count(),
                RIter::SDft(x) => x.count(),
                RIter::SSh(x) => x.count(),
                RIter::NaB(x) => x.count(),
                RIter::AB(x) => x.count(),
            };
        }
        4 => g.extend(last(r)),
        6 => match r {
            RIter::SSib(x) => x.rfold((), |(), x| g.push(frozen(x))),
            RIter::SDft(x) => x.rfold((), |(), x| g.push(frozen_ev(x))),
            RIter::SSh(x) => x.rfold((), |(), x| g.push(shallow_ev(x))),
            _ => unreachable!(),
        },
        _ => match r {
            RIter::Dft(x) => x.for_each(|x| g.push(node_ev(x))),
            RIter::RDft(x) => x.for_each(|x| g.push(node_ev(x))),
            RIter::Ser(x) => x.for_each(|x| g.push(ser(x))),
            RIter::Sib(x) => x.for_each(|x| g.push(node(x))),
            RIter::RSib(x) => x.for_each(|x| g.push(node(x))),
            RIter::Anc(x) => x.for_each(|x| g.push(node(x))),
            RIter::SSib(x) => x.for_each(|x| g.push(frozen(x))),
            RIter::SDft(x) => x.for_each(|x| g.push(frozen_ev(x))),
            RIter::SSh(x) => x.for_each(|x| g.push(shallow_ev(x))),
            RIter::NaB(x) => x.for_each(|x| g.push(bfs(x))),
            RIter::AB(x) => x.for_each(|x| g.push(bfs(x))),
        },
    });
    w(|w| w.soft.truncate(softs));
    match res {
        Ok(()) => {
            if how == 3 {
                if count != want.len() {
                    fail!(
                        tags,
                        "{}: the {} yields {} items instead of {}",
                        w(|w| w.what.clone()),
                        name(&it),
                        count,
                        want.len()
                    );
                }
            } else {
                let skip = if how == 4 { want.len().saturating_sub(1) } else { 0 };
                w(|w| {
                    let exp = &want[skip..];
                    if exp.len() != got.len() {
                        fail!(
                            tags,
                            "{}: the {} yields {} items instead of {}",
                            w.what,
                            name(&it),
                            got.len(),
                            exp.len()
                        );
                    }
                });
                let mut rest = vec![];
                for (i, (g, x)) in got.into_iter().zip(want[skip..].iter().cloned()).enumerate() {
                    let g = Some(g);
                    compare(&g, &Some(x), tags, &format!("item {} of the {}", i, name(&it)));
                    rest.push(g);
                }
                got = rest.into_iter().flatten().collect();
            }
        }
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => {
            injected(tags);
            if crate::payload::DROP_PANIC.with(|d| d.get()) {
                // Which of the items in flight got lost is unspecified.
                w(|w| w.over = true);
            }
        }
    }
    let b = w(|w| {
        w.pins.truncate(mark);
        w.gc_budget()
    });
    let b = b + lin(got.len());
    drop_real(b, tags, "items of an iterator", got);
    (1, tags | c(5) | c(7))
}

/// Makes a serial event of a traversal event.
fn ev_convert(op: &Op, slot: usize, n: N, open: bool) -> Out {
    let r = take(slot);
    macro_rules! go {
        ($x:expr) => {{
            let ev = if open { DftEvent::Open($x.clone()) } else { DftEvent::Close($x.clone()) };
            Event::<P>::try_from(ev)
        }};
    }
    let rr = &r;
    let res = call(CONST, move || match rr {
        Real::Node(x) => go!(x),
        Real::Frozen(x) => go!(x),
        Real::Hot(x) => go!(x),
        _ => unreachable!(),
    });
    put(slot, r);
    let tags = c(14) | c(16);
    let (borrowed, val) = w(|w| (w.mut_borrowed(n), w.m.nodes[n].val));
    match res {
        Ok(Ok(Event::Open(p))) => {
            if !open || borrowed || p.val != val {
                fail!(tags | c(18), "{}: conversion of the {} event gives Open({}), data {} borrowed: {}", w(|w| w.what.clone()), if open { "Open" } else { "Close" }, p.val, val, borrowed);
            }
            let s = add(op.client, M::Stream(vec![MEv::Open { val, pid: p.id }]), Real::Stream(vec![SEv::E(Event::Open(p))]));
            keep_or_kill(s, op.c % 8 == 0, c(7));
            (1, tags)
        }
        Ok(Ok(Event::Close(k))) => {
            if open || k != 1 {
                fail!(tags, "{}: conversion of the event gives Close({})", w(|w| w.what.clone()), k);
            }
            (1, tags)
        }
        Ok(Err(_)) => {
            if !open || !borrowed {
                fail!(tags | c(18), "{}: conversion of the {} event fails, data borrowed: {}", w(|w| w.what.clone()), if open { "Open" } else { "Close" }, borrowed);
            }
            probe("event conversion refused by a borrow");
            (2, tags)
        }
        Err(Pan::Lib(m)) => lib_panic(tags | c(12), &m),
        Err(Pan::Injected) => {
            injected(tags);
            (2, tags)
        }
    }
}

pub fn ev_step(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let (m, n) = w(|w| (w.slot_m(slot).clone(), w.slot_m(slot).node()));
    let open = op.b % 2 == 0;
    let how = op.b / 2 % 5;
    if how == 4 {
        return ev_convert(op, slot, n, open);
    }
    let e = if open { Ev::Open(n) } else { Ev::Close(n) };
    let want = w(|w| match how {
        0 | 1 => w.m.next_ev(e),
        2 => w.m.prev_ev(e),
        _ => match e {
            Ev::Open(n) => Some(Ev::Close(n)),
            Ev::Close(n) => w.m.parent(n).map(Ev::Close),
        },
    });
    let budget = if how == 3 {
        w(|w| lin(w.tree_size(w.m.tree(n))))
    } else {
        CONST
    };
    let r = take(slot);
    macro_rules! go {
        ($x:expr, $ctor:expr) => {{
            let ev = if open { DftEvent::Open($x.clone()) } else { DftEvent::Close($x.clone()) };
            let out = match how {
                0 | 1 => ev.next(),
                2 => ev.prev(),
                _ => ev.close_current().map(DftEvent::Close),
            };
            out.map(|e| match e {
                DftEvent::Open(x) => (0u8, $ctor(x)),
                DftEvent::Close(x) => (1u8, $ctor(x)),
            })
        }};
    }
    let rr = &r;
    let res = call(budget, move || match rr {
        Real::Node(x) => go!(x, |x: Node<P>| Real::Node(x)),
        Real::Frozen(x) => go!(x, |x: FrozenNode<P>| Real::Frozen(x)),
        Real::Hot(x) => go!(x, |x: HotNode<P>| Real::Hot(x)),
        _ => unreachable!(),
    });
    put(slot, r);
    let tags = c(12);
    let got = match res {
        Ok(x) => x,
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => fail!(0, "[harness] injected panic in an event step"),
    };
    let got = got.map(|(ev, h)| Got::Node { ev, h, depth: None });
    compare(&got, &want.map(ev_want), tags, "the event step");
    if let Some(Got::Node { h, .. }) = got {
        let n = want.unwrap().node();
        let s = add(op.client, M::of(m.hk(), n), h);
        keep_or_kill(s, op.c % 4 == 0, c(5) | c(7));
    }
    (1, tags)
}
