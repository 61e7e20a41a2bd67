//! Handles, locks, data borrows and client lifecycle.

use std::cell::{Ref, RefMut};

use dendron::{FrozenNode, HotNode, Node};

use crate::exec::*;
use crate::model::{Model, N};
use crate::op::Op;
use crate::payload::P;
use crate::rng::Rng;
use crate::world::*;
use crate::{fail, nh};

fn any(_: &World, _: &M) -> bool {
    true
}

pub fn clone_handle(op: &Op) -> Out {
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            !matches!(m, M::Guard { .. } | M::Builder(_) | M::Stream(_) | M::Hoard(..))
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let m = w(|w| w.slot_m(slot).clone());
    let r = take(slot);
    let rr = &r;
    let try_form = op.b % 2 == 0;
    let cost = match &m {
        M::Iter(MIter::Stable { items, .. }) => lin(items.len()),
        _ => CONST,
    };
    let res = call(cost, move || -> Option<Real> {
        Some(match rr {
            Real::Node(x) => Real::Node(x.clone()),
            Real::Frozen(x) => Real::Frozen(x.clone()),
            Real::Hot(x) => Real::Hot(x.clone()),
            Real::Tree(x) => Real::Tree(x.clone()),
            Real::NWeak(x) => Real::NWeak(x.clone()),
            Real::TWeak(x) => Real::TWeak(x.clone()),
            Real::Grant(x) => Real::Grant(if try_form { x.try_clone().ok()? } else { x.clone() }),
            Real::Prohib(x) => Real::Prohib(x.try_clone().ok()?),
            Real::Iter(x) => Real::Iter(x.dup()),
            _ => unreachable!(),
        })
    });
    put(slot, r);
    match res {
        Ok(Some(x)) => {
            add(op.client, m, x);
            (1, c(5) | c(7))
        }
        Ok(None) => fail!(c(4) | c(5) | c(6), "{}: a token cannot be cloned", w(|w| w.what.clone())),
        Err(Pan::Lib(s)) => lib_panic(
            match m {
                M::Grant(_) | M::Prohib(_) => c(4) | c(6),
                M::Iter(_) => c(11) | c(12) | c(13),
                _ => 0,
            } | c(5)
                | c(7),
            &s,
        ),
        Err(Pan::Injected) => fail!(0, "[harness] injected panic in clone"),
    }
}

/// Very many handles to the same thing: counters must be wide enough.
pub fn hoard(op: &Op) -> Out {
    let old = w(|w| w.pick(op.client, op.a, &|_, m| matches!(m, M::Hoard(..))));
    if let (Some(slot), true) = (old, op.b % 4 != 0) {
        // Some of them go, or one of them gets a life of its own.
        let (m, len) = match w(|w| w.slot_m(slot).clone()) {
            M::Hoard(m, len) => (*m, len),
            _ => unreachable!(),
        };
        let mut v = match take(slot) {
            Real::Hoard(v) => v,
            _ => unreachable!(),
        };
        let left = match op.c % 5 {
            0 => len - 1,
            1 => len.saturating_sub(255).max(1),
            2 => len.saturating_sub(256).max(1),
            3 => 1,
            _ => 1 + op.d as usize % len,
        };
        let left = left.max(1).min(len);
        let one = if op.d % 2 == 0 && v.len() > 1 { v.pop() } else { None };
        let gone = if left < v.len() { v.split_off(left) } else { vec![] };
        let n = v.len();
        put(slot, Real::Hoard(v));
        w(|w| w.slots[slot].as_mut().unwrap().m = M::Hoard(Box::new(m.clone()), n));
        if let Some(r) = one {
            add(op.client, m, r);
        }
        let b = lin(gone.len()) + w(|w| w.gc_budget());
        drop_real(b, c(5) | c(7), "many handles", gone);
        return (1, c(5) | c(7));
    }
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            !matches!(m, M::Guard { .. } | M::Builder(_) | M::Stream(_) | M::Iter(_) | M::Hoard(..))
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let m = w(|w| w.slot_m(slot).clone());
    let k = match op.c % 24 {
        0..=5 => 2 + op.d as usize % 6,
        6..=10 => 254 + op.d as usize % 4,
        11..=22 => 256 + op.d as usize % 100,
        _ if op.d % 4 == 0 => 65_534 + op.d as usize / 4 % 4,
        _ => 512,
    };
    let r = take(slot);
    let rr = &r;
    let res = call(lin(k), move || -> Option<Vec<Real>> {
        let mut v = Vec::with_capacity(k);
        for _ in 0..k {
            v.push(match rr {
                Real::Node(x) => Real::Node(x.clone()),
                Real::Frozen(x) => Real::Frozen(x.clone()),
                Real::Hot(x) => Real::Hot(x.clone()),
                Real::Tree(x) => Real::Tree(x.clone()),
                Real::NWeak(x) => Real::NWeak(x.clone()),
                Real::TWeak(x) => Real::TWeak(x.clone()),
                Real::Grant(x) => Real::Grant(x.try_clone().ok()?),
                Real::Prohib(x) => Real::Prohib(x.try_clone().ok()?),
                _ => unreachable!(),
            });
        }
        Some(v)
    });
    put(slot, r);
    let tags = c(5) | c(7);
    match res {
        Ok(Some(v)) => {
            if k > 255 {
                probe("hundreds of handles to the same thing");
            }
            add(op.client, M::Hoard(Box::new(m), k), Real::Hoard(v));
            (1, tags)
        }
        Ok(None) => fail!(c(4) | c(6) | tags, "{}: a token cannot be cloned", w(|w| w.what.clone())),
        Err(Pan::Lib(s)) => lib_panic(c(4) | tags, &s),
        Err(Pan::Injected) => fail!(0, "[harness] injected panic in clone"),
    }
}

pub fn drop_handle(op: &Op) -> Out {
    match w(|w| w.pick(op.client, op.a, &any)) {
        Some(i) => {
            kill(i, c(5) | c(7));
            (1, c(5) | c(7))
        }
        None => SKIP,
    }
}

pub fn leak(op: &Op) -> Out {
    if w(|w| w.leaked.len() >= 3) {
        return SKIP;
    }
    match w(|w| w.pick(op.client, op.a, &any)) {
        Some(i) => {
            w(|w| {
                let (m, r) = w.remove(i);
                std::mem::forget(r);
                w.leaked.push(m);
            });
            probe("handle leaked");
            (1, c(5) | c(7))
        }
        None => SKIP,
    }
}

/// Converts a handle into a plain one, keeping or consuming the original.
pub fn plain(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    if op.b % 2 == 0 {
        let r = take(slot);
        let x = match call(CONST, || r.plain()) {
            Ok(x) => x,
            Err(_) => fail!(c(7), "{}: panic", w(|w| w.what.clone())),
        };
        put(slot, r);
        add(op.client, M::Node(n), Real::Node(x));
    } else {
        // The new handle replaces the old one, in the same slot.
        let r = take(slot);
        w(|w| w.slots[slot].as_mut().unwrap().m = M::Node(n));
        let res = call(CONST, move || match r {
            Real::Frozen(x) => Node::from(x),
            Real::Hot(x) => Node::from(x),
            Real::Node(x) => x,
            _ => unreachable!(),
        });
        match res {
            Ok(x) => put(slot, Real::Node(x)),
            Err(Pan::Lib(m)) => lib_panic(c(5) | c(7), &m),
            Err(_) => fail!(0, "[harness] injected panic in a conversion"),
        }
    }
    (1, c(5))
}

/// The navigation functions, numbered.
pub const NAVS: u32 = 11;
fn nav_expect(m: &Model, n: N, k: u32) -> Option<N> {
    match k {
        0 => m.parent(n),
        1 => m.ch(n).first().copied(),
        2 => m.ch(n).last().copied(),
        3 => m.next_sib(n),
        4 => m.prev_sib(n),
        5 => m.siblings(n).first().copied(),
        6 => m.siblings(n).last().copied(),
        7 => m.ch(n).last().copied(),
        8 => m.siblings(n).last().copied(),
        9 => Some(m.trees[m.tree(n)].root),
        _ => m.ch(n).first().copied(),
    }
}
const NAV_NAMES: [&str; 11] = [
    "parent",
    "first_child",
    "last_child",
    "next_sibling",
    "prev_sibling",
    "first_sibling",
    "last_sibling",
    "first_last_child.1",
    "first_last_sibling.1",
    "root",
    "first_last_child.0",
];
macro_rules! nav_real {
    ($h:expr, $k:expr) => {
        match $k {
            0 => $h.parent(),
            1 => $h.first_child(),
            2 => $h.last_child(),
            3 => $h.next_sibling(),
            4 => $h.prev_sibling(),
            5 => Some($h.first_sibling()),
            6 => Some($h.last_sibling()),
            7 => $h.first_last_child().map(|x| x.1),
            8 => Some($h.first_last_sibling().1),
            9 => Some($h.root()),
            _ => $h.first_last_child().map(|x| x.0),
        }
    };
}
fn do_nav(r: &Real, k: u32) -> Option<Real> {
    match r {
        Real::Node(h) => nav_real!(h, k).map(Real::Node),
        Real::Frozen(h) => nav_real!(h, k).map(Real::Frozen),
        Real::Hot(h) => nav_real!(h, k).map(Real::Hot),
        _ => unreachable!(),
    }
}

/// Bound for accessors that visit a fixed number of nodes.
const NAV_COST: u64 = 48;

pub fn nav(op: &Op) -> Out {
    let slot = match pick_ht(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let m = w(|w| w.slot_m(slot).clone());
    let r = take(slot);
    let k = op.b % NAVS;
    let (expect, hk, res) = match (&m, &r) {
        (M::Tree(t), Real::Tree(x)) => (
            Some(w(|w| w.m.trees[*t].root)),
            HK::Node,
            call(NAV_COST, || Some(Real::Node(x.root()))),
        ),
        (m, r) => {
            let n = m.node();
            (
                w(|w| nav_expect(&w.m, n, k)),
                m.hk(),
                call(NAV_COST, || do_nav(r, k)),
            )
        }
    };
    put(slot, r);
    let what = w(|w| w.what.clone());
    match (res, expect) {
        (Ok(None), None) => (1, 0),
        (Ok(Some(x)), Some(n)) => {
            let p = x.plain();
            if !w(|w| w.is_node(&p, n)) {
                fail!(
                    c(1),
                    "{}: {} should be node {} but is {}",
                    what,
                    NAV_NAMES[k as usize],
                    n,
                    w(|w| w.describe(&p))
                );
            }
            drop(p);
            let i = add(op.client, M::of(hk, n), x);
            keep_or_kill(i, op.c % 2 == 0, c(1));
            (1, c(5) | c(7))
        }
        (Ok(x), e) => fail!(
            c(1),
            "{}: {} should be {:?} but there is{} one",
            what,
            NAV_NAMES[k as usize],
            e,
            if x.is_some() { "" } else { " not" }
        ),
        (Err(Pan::Lib(s)), _) => lib_panic(c(1), &s),
        (Err(Pan::Injected), _) => fail!(0, "[harness] injected panic in navigation"),
    }
}

trait Pl {
    fn pl(&self) -> Node<P>;
}
impl Pl for Node<P> {
    fn pl(&self) -> Node<P> {
        self.clone()
    }
}
impl Pl for FrozenNode<P> {
    fn pl(&self) -> Node<P> {
        self.plain()
    }
}
impl Pl for HotNode<P> {
    fn pl(&self) -> Node<P> {
        self.plain()
    }
}

fn same<H: Pl>(x: Option<H>, n: Option<N>) -> bool {
    match (x, n) {
        (None, None) => true,
        (Some(x), Some(n)) => {
            let p = x.pl();
            w(|w| w.is_node(&p, n))
        }
        _ => false,
    }
}

/// Measured call: at most `limit` elementary steps.
macro_rules! st {
    ($limit:expr, $name:expr, $e:expr) => {{
        let s0 = steps();
        let v = $e;
        let d = steps() - s0;
        if d > $limit {
            fail!(
                c(20),
                "{}: {} took {} elementary steps, which is more than {}",
                w(|w| w.what.clone()),
                $name,
                d,
                $limit
            );
        }
        v
    }};
}

macro_rules! check_all {
    ($h:expr, $n:expr, $other:expr, $cc:expr) => {{
        let h = $h;
        let n: N = $n;
        let what = w(|w| w.what.clone());
        macro_rules! bad {
            ($name:expr) => {
                fail!(c(1), "{}: {} of node {} is wrong", what, $name, n)
            };
        }
        for k in 0..NAVS {
            let x = st!(NAV_COST, NAV_NAMES[k as usize], nav_real!(h, k));
            let e = w(|w| nav_expect(&w.m, n, k));
            if !same(x, e) {
                bad!(NAV_NAMES[k as usize]);
            }
        }
        let (root, idx, sib, nch, depth) = w(|w| {
            (
                w.m.parent(n).is_none(),
                w.m.index(n),
                w.m.siblings(n).len(),
                w.m.ch(n).len(),
                w.m.depth(n),
            )
        });
        if st!(NAV_COST, "is_root", h.is_root()) != root {
            bad!("is_root");
        }
        if st!(NAV_COST, "has_prev_sibling", h.has_prev_sibling()) != (idx > 0) {
            bad!("has_prev_sibling");
        }
        if st!(NAV_COST, "has_next_sibling", h.has_next_sibling()) != (idx + 1 < sib) {
            bad!("has_next_sibling");
        }
        if st!(NAV_COST, "has_children", h.has_children()) != (nch > 0) {
            bad!("has_children");
        }
        if st!(NAV_COST, "num_children", h.num_children()) != nch {
            bad!("num_children");
        }
        #[allow(deprecated)]
        {
            if st!(NAV_COST, "has_one_child", h.has_one_child()) != (nch == 1) {
                bad!("has_one_child");
            }
            if st!(NAV_COST, "has_multiple_children", h.has_multiple_children()) != (nch > 1) {
                bad!("has_multiple_children");
            }
            let lim = lin(nch);
            if st!(lim, "count_children", h.count_children()) != nch {
                bad!("count_children");
            }
        }
        if st!(lin(sib), "count_preceding_siblings", h.count_preceding_siblings()) != idx {
            bad!("count_preceding_siblings");
        }
        if st!(lin(sib), "count_following_siblings", h.count_following_siblings()) != sib - 1 - idx
        {
            bad!("count_following_siblings");
        }
        if st!(lin(depth), "count_ancestors", h.count_ancestors()) != depth {
            bad!("count_ancestors");
        }
        let t = st!(NAV_COST, "tree", h.tree());
        if !st!(NAV_COST, "belongs_to", h.belongs_to(&t)) {
            bad!("belongs_to");
        }
        let (ptr, same_tree): (bool, bool) = match $other {
            Some((o, on)) => {
                let x = (h.ptr_eq(o), h.belongs_to_same_tree(o));
                let e = w(|w| (n == on, w.m.tree(n) == w.m.tree(on)));
                (x.0 == e.0, x.1 == e.1 && h.belongs_to(&o.tree()) == e.1 && t.ptr_eq(&o.tree()) == e.1)
            }
            None => (true, true),
        };
        if !ptr {
            bad!("ptr_eq");
        }
        if !same_tree {
            bad!("belongs_to_same_tree");
        }
    }};
}

pub fn nav_check(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let (n, hk) = w(|w| (w.slot_m(slot).node(), w.slot_m(slot).hk()));
    let other = w(|w| w.pick(op.client, op.b, &|_, m| m.is_handle() && m.hk() == hk));
    let r = take(slot);
    let other = other
        .filter(|o| *o != slot)
        .map(|o| (o, node_of(o), take(o)));
    let res = call(MAX / 4, || match &r {
        Real::Node(h) => {
            let o = other.as_ref().map(|(_, k, r)| match r {
                Real::Node(x) => (x, *k),
                _ => unreachable!(),
            });
            check_all!(h, n, o, true);
        }
        Real::Frozen(h) => {
            let o = other.as_ref().map(|(_, k, r)| match r {
                Real::Frozen(x) => (x, *k),
                _ => unreachable!(),
            });
            check_all!(h, n, o, false);
        }
        Real::Hot(h) => {
            let o = other.as_ref().map(|(_, k, r)| match r {
                Real::Hot(x) => (x, *k),
                _ => unreachable!(),
            });
            check_all!(h, n, o, true);
            if let Some((x, k)) = o {
                if h.ptr_eq_plain(&x.plain()) != (n == k) {
                    fail!(c(1), "{}: ptr_eq_plain of node {}", w(|w| w.what.clone()), n);
                }
            }
        }
        _ => unreachable!(),
    });
    put(slot, r);
    if let Some((o, _, r)) = other {
        put(o, r);
    }
    match res {
        Ok(()) => (1, 0),
        Err(Pan::Lib(m)) => lib_panic(c(1), &m),
        Err(_) => fail!(0, "[harness] injected panic in navigation"),
    }
}

pub fn tree_of(op: &Op) -> Out {
    let slot = match pick_ht(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let m = w(|w| w.slot_m(slot).clone());
    let r = take(slot);
    let res = call(NAV_COST, || match &r {
        Real::Tree(t) => Real::Node(t.root()),
        r => Real::Tree(nh!(r, h => h.tree())),
    });
    put(slot, r);
    match res {
        Ok(x) => {
            let (m, good) = w(|w| match &x {
                Real::Node(p) => {
                    let root = match m {
                        M::Tree(t) => w.m.trees[t].root,
                        _ => unreachable!(),
                    };
                    (M::Node(root), w.is_node(p, root))
                }
                Real::Tree(t) => {
                    let mt = w.m.tree(m.node());
                    // Trees made by an operation in progress are not known yet.
                    let good = match w.tobs(mt) {
                        Some(o) => o.upgrade().map_or(false, |x| x.ptr_eq(t)),
                        None => true,
                    };
                    (M::Tree(mt), good)
                }
                _ => unreachable!(),
            });
            if !good {
                fail!(c(1), "{}: wrong tree or root", w(|w| w.what.clone()));
            }
            add(op.client, m, x);
            (1, c(7))
        }
        Err(Pan::Lib(m)) => lib_panic(c(1) | c(7), &m),
        Err(_) => fail!(0, "[harness] injected panic in navigation"),
    }
}

pub fn downgrade(op: &Op) -> Out {
    let slot = match pick_ht(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let m = w(|w| w.slot_m(slot).clone());
    let r = take(slot);
    let res = call(CONST, || match &r {
        Real::Tree(t) => Real::TWeak(t.downgrade()),
        Real::Node(x) => Real::NWeak(x.downgrade()),
        r => Real::NWeak(r.plain().downgrade()),
    });
    put(slot, r);
    match res {
        Ok(x) => {
            let m = match m {
                M::Tree(t) => M::TWeak(t),
                m => M::NWeak(m.node()),
            };
            add(op.client, m, x);
            (1, c(8))
        }
        Err(Pan::Lib(m)) => lib_panic(c(8), &m),
        Err(_) => fail!(0, "[harness] injected panic in downgrade"),
    }
}

pub fn upgrade(op: &Op) -> Out {
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            matches!(m, M::NWeak(_) | M::TWeak(_))
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let m = w(|w| w.slot_m(slot).clone());
    let r = take(slot);
    let res = call(CONST, || match &r {
        Real::TWeak(t) => t.upgrade().map(Real::Tree),
        Real::NWeak(x) => x.upgrade().map(Real::Node),
        _ => unreachable!(),
    });
    put(slot, r);
    let what = w(|w| w.what.clone());
    let (alive, nm) = w(|w| match m {
        M::NWeak(n) => (w.m.nodes[n].alive, M::Node(n)),
        M::TWeak(t) => (w.m.trees[t].alive, M::Tree(t)),
        _ => unreachable!(),
    });
    match res {
        Ok(None) => {
            if alive {
                fail!(c(8) | c(7), "{}: the target is alive, but not upgraded", what);
            }
            probe("upgrade of a dead reference");
            (1, 0)
        }
        Ok(Some(x)) => {
            if !alive {
                fail!(c(8) | c(7), "{}: the target is gone, but upgraded", what);
            }
            let good = w(|w| match (&nm, &x) {
                (M::Node(n), Real::Node(p)) => w.is_node(p, *n),
                (M::Tree(t), Real::Tree(p)) => w
                    .tobs(*t)
                    .and_then(|o| o.upgrade())
                    .map_or(false, |o| o.ptr_eq(p)),
                _ => false,
            });
            if !good {
                fail!(c(8), "{}: upgraded to another target", what);
            }
            add(op.client, nm, x);
            (1, c(8) | c(7))
        }
        Err(Pan::Lib(m)) => lib_panic(c(8), &m),
        Err(_) => fail!(0, "[harness] injected panic in upgrade"),
    }
}

fn lock_verdict(got: bool, ok: bool, grant: bool) {
    if got != ok {
        fail!(
            c(4) | c(5),
            "{}: {} was {}, but it should{} be available",
            w(|w| w.what.clone()),
            if grant { "a grant" } else { "a prohibition" },
            if got { "given" } else { "refused" },
            if ok { "" } else { " not" }
        );
    }
}

pub fn bundle_new(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let grant = op.b % 2 == 0;
    let n = node_of(slot);
    let consume = op.c % 3 == 0 && w(|w| matches!(w.slot_m(slot), M::Node(_)));
    let ok = w(|w| {
        let t = w.m.tree(n);
        if grant {
            !w.prohibs(t)
        } else {
            !w.grants(t)
        }
    });
    let (x, budget) = if consume {
        let r = take(slot);
        let x = match r {
            Real::Node(x) => x,
            _ => unreachable!(),
        };
        if ok {
            (x, CONST)
        } else {
            // The refusal consumes the handle.
            let b = w(|w| {
                w.remove(slot);
                w.gc_budget()
            });
            (x, CONST + b)
        }
    } else {
        let r = take(slot);
        let x = r.plain();
        put(slot, r);
        (x, CONST)
    };
    let res = call(budget, move || {
        if grant {
            x.bundle_new_hierarchy_edit_grant().ok().map(Real::Hot)
        } else {
            x.bundle_new_hierarchy_edit_prohibition().ok().map(Real::Frozen)
        }
    });
    let got = match res {
        Ok(x) => x,
        Err(Pan::Lib(m)) => lib_panic(c(4) | c(5), &m),
        Err(Pan::Injected) => {
            injected(c(4));
            return (2, c(4));
        }
    };
    lock_verdict(got.is_some(), ok, grant);
    match got {
        Some(r) => {
            let m = M::of(if grant { HK::Hot } else { HK::Frozen }, n);
            if consume {
                w(|w| {
                    let s = w.slots[slot].as_mut().unwrap();
                    s.m = m;
                    s.r = Some(r);
                });
            } else {
                add(op.client, m, r);
            }
            (1, c(4) | c(5))
        }
        None => {
            probe("lock refused");
            (2, c(4) | c(7))
        }
    }
}

pub fn bundle_tok(op: &Op) -> Out {
    let ts = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            matches!(m, M::Grant(_) | M::Prohib(_))
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let slot = match pick_h(op.client, op.b) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let valid = w(|w| match w.slot_m(ts) {
        M::Grant(t) | M::Prohib(t) => *t == w.m.tree(n),
        _ => false,
    });
    let r = take(slot);
    let x = r.plain();
    put(slot, r);
    let tok = take(ts);
    let res = call(CONST + 400, || match &tok {
        Real::Grant(g) => Real::Hot(x.bundle_hierarchy_edit_grant(g)),
        Real::Prohib(g) => Real::Frozen(x.bundle_hierarchy_edit_prohibition(g)),
        _ => unreachable!(),
    });
    put(ts, tok);
    let what = w(|w| w.what.clone());
    match res {
        Ok(r) => {
            if !valid {
                fail!(c(6) | c(3), "{}: an invalid token was accepted for node {}", what, n);
            }
            let m = M::of(
                if matches!(r, Real::Hot(_)) {
                    HK::Hot
                } else {
                    HK::Frozen
                },
                n,
            );
            add(op.client, m, r);
            (1, c(6) | c(5))
        }
        Err(Pan::Lib(m)) => {
            if valid {
                fail!(c(6), "{}: a valid token was not accepted for node {}: {}", what, n, m);
            }
            probe("invalid token refused");
            (2, c(6) | c(3))
        }
        Err(_) => fail!(0, "[harness] injected panic in bundle"),
    }
}

pub fn extract(op: &Op) -> Out {
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            matches!(m, M::Hot(_) | M::Frozen(_))
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let r = take(slot);
    let res = call(CONST, || match &r {
        Real::Hot(x) => Real::Grant(x.extract_hierarchy_edit_grant()),
        Real::Frozen(x) => Real::Prohib(x.extract_hierarchy_edit_prohibition()),
        _ => unreachable!(),
    });
    put(slot, r);
    match res {
        Ok(r) => {
            w(|w| {
                let t = w.m.tree(w.slot_m(slot).node());
                let m = if matches!(r, Real::Grant(_)) {
                    M::Grant(t)
                } else {
                    M::Prohib(t)
                };
                w.add(op.client, m, r);
            });
            (1, c(5) | c(6))
        }
        Err(Pan::Lib(m)) => lib_panic(c(4) | c(5) | c(6), &m),
        Err(_) => fail!(0, "[harness] injected panic in extract"),
    }
}

pub fn tree_lock(op: &Op) -> Out {
    let slot = match pick_ht(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let grant = op.b % 2 == 0;
    let (t, ok) = w(|w| {
        let t = match w.slot_m(slot) {
            M::Tree(t) => *t,
            m => w.m.tree(m.node()),
        };
        (t, if grant { !w.prohibs(t) } else { !w.grants(t) })
    });
    let r = take(slot);
    let res = call(CONST, || {
        let tree = match &r {
            Real::Tree(t) => t.clone(),
            r => nh!(r, h => h.tree()),
        };
        if grant {
            tree.grant_hierarchy_edit().ok().map(Real::Grant)
        } else {
            tree.prohibit_hierarchy_edit().ok().map(Real::Prohib)
        }
    });
    put(slot, r);
    match res {
        Ok(x) => {
            lock_verdict(x.is_some(), ok, grant);
            match x {
                Some(r) => {
                    add(op.client, if grant { M::Grant(t) } else { M::Prohib(t) }, r);
                    (1, c(4) | c(5))
                }
                None => {
                    probe("lock refused");
                    (2, c(4))
                }
            }
        }
        Err(Pan::Lib(m)) => lib_panic(c(4) | c(5), &m),
        Err(_) => fail!(0, "[harness] injected panic in locking"),
    }
}

pub fn use_tok(op: &Op) -> Out {
    let ts = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            matches!(m, M::Grant(_) | M::Prohib(_))
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let slot = match pick_h(op.client, op.b) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let valid = w(|w| match w.slot_m(ts) {
        M::Grant(t) | M::Prohib(t) => *t == w.m.tree(n),
        _ => false,
    });
    let r = take(slot);
    let tok = take(ts);
    let res = call(CONST, || {
        let p = r.plain();
        match &tok {
            Real::Grant(g) => g.is_valid_for_node(&p),
            Real::Prohib(g) => g.is_valid_for_node(&p),
            _ => unreachable!(),
        }
    });
    put(ts, tok);
    put(slot, r);
    match res {
        Ok(v) if v == valid => (1, 0),
        Ok(v) => fail!(
            c(6),
            "{}: the token is {} for node {}",
            w(|w| w.what.clone()),
            if v { "valid" } else { "not valid" },
            n
        ),
        Err(Pan::Lib(m)) => lib_panic(c(6), &m),
        Err(_) => fail!(0, "[harness] injected panic in a token"),
    }
}

pub fn borrow(op: &Op) -> Out {
    if w(|w| {
        w.slots
            .iter()
            .flatten()
            .filter(|s| matches!(s.m, M::Guard { .. }))
            .count()
            >= 6
    }) {
        return SKIP;
    }
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let (n, hk) = w(|w| (w.slot_m(slot).node(), w.slot_m(slot).hk()));
    let mutable = op.b % 2 == 0;
    let try_form = op.b / 2 % 2 == 0;
    let ok = w(|w| {
        if mutable {
            !w.borrowed(n)
        } else {
            !w.mut_borrowed(n)
        }
    });
    let r = take(slot);
    let owner = Box::new(match &r {
        Real::Node(x) => Real::Node(x.clone()),
        Real::Frozen(x) => Real::Frozen(x.clone()),
        Real::Hot(x) => Real::Hot(x.clone()),
        _ => unreachable!(),
    });
    put(slot, r);
    let own: &Real = &owner;
    let res = call(CONST, || -> Option<GRef> {
        // The owner is boxed and outlives the borrow.
        unsafe {
            Some(if mutable {
                let x: RefMut<'_, P> = nh!(own, h => {
                    if try_form { h.try_borrow_data_mut().ok()? } else { h.borrow_data_mut() }
                });
                GRef::M(std::mem::transmute::<RefMut<'_, P>, RefMut<'static, P>>(x))
            } else {
                let x: Ref<'_, P> = nh!(own, h => {
                    if try_form { h.try_borrow_data().ok()? } else { h.borrow_data() }
                });
                GRef::S(std::mem::transmute::<Ref<'_, P>, Ref<'static, P>>(x))
            })
        }
    });
    let what = w(|w| w.what.clone());
    match res {
        Ok(Some(g)) => {
            if !ok {
                fail!(c(18), "{}: data of node {} was borrowed against the rule", what, n);
            }
            add(
                op.client,
                M::Guard { n, mutable, hk },
                Real::Guard(Guard { r: g, owner }),
            );
            (1, c(18))
        }
        Ok(None) => {
            if ok || !try_form {
                fail!(c(18), "{}: data of node {} could not be borrowed", what, n);
            }
            probe("borrow refused");
            (2, c(18))
        }
        Err(Pan::Lib(m)) => {
            if ok || try_form {
                lib_panic(c(18), &m);
            }
            probe("borrow refused");
            (2, c(18))
        }
        Err(_) => fail!(0, "[harness] injected panic in a borrow"),
    }
}

/// Writes data through a handle, or through an exclusive borrow.
pub fn write(op: &Op) -> Out {
    let v = val(op.b);
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            m.is_handle() || matches!(m, M::Guard { mutable: true, .. })
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let mut r = take(slot);
    if let Real::Guard(g) = &mut r {
        if let GRef::M(x) = &mut g.r {
            x.val = v;
        }
        w(|w| w.m.nodes[n].val = v);
        put(slot, r);
        return (1, c(18));
    }
    let ok = w(|w| !w.borrowed(n));
    let res = call(CONST, || {
        nh!(&r, h => match h.try_borrow_data_mut() {
            Ok(mut x) => { x.val = v; true }
            Err(_) => false,
        })
    });
    put(slot, r);
    match res {
        Ok(got) => {
            if got != ok {
                fail!(
                    c(18),
                    "{}: data of node {} {} be borrowed exclusively",
                    w(|w| w.what.clone()),
                    n,
                    if got { "could" } else { "could not" }
                );
            }
            if got {
                w(|w| w.m.nodes[n].val = v);
                (1, c(18))
            } else {
                (2, c(18))
            }
        }
        Err(Pan::Lib(m)) => lib_panic(c(18), &m),
        Err(_) => fail!(0, "[harness] injected panic in a borrow"),
    }
}

pub fn read(op: &Op) -> Out {
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|_, m| {
            m.is_handle() || matches!(m, M::Guard { .. })
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let n = node_of(slot);
    let (pid, v, mb) = w(|w| (w.m.nodes[n].pid, w.m.nodes[n].val, w.mut_borrowed(n)));
    let r = take(slot);
    let panicking = op.b % 2 == 1;
    let res = call(CONST, || match &r {
        Real::Guard(g) => match &g.r {
            GRef::S(x) => Some((x.id, x.val)),
            GRef::M(x) => Some((x.id, x.val)),
        },
        r => nh!(r, h => {
            if panicking {
                let x = h.borrow_data();
                Some((x.id, x.val))
            } else {
                h.try_borrow_data().ok().map(|x| (x.id, x.val))
            }
        }),
    });
    let guard = matches!(r, Real::Guard(_));
    put(slot, r);
    let what = w(|w| w.what.clone());
    match res {
        Ok(Some(x)) => {
            if mb && !guard {
                fail!(c(18), "{}: exclusively borrowed data of node {} was read", what, n);
            }
            if x != (pid, v) {
                fail!(
                    c(18),
                    "{}: node {} should have data {}.{} but has {}.{}",
                    what,
                    n,
                    pid,
                    v,
                    x.0,
                    x.1
                );
            }
            (1, 0)
        }
        Ok(None) => {
            if !mb || panicking {
                fail!(c(18), "{}: data of node {} could not be read", what, n);
            }
            (2, c(18))
        }
        Err(Pan::Lib(m)) => {
            if !mb || !panicking {
                lib_panic(c(18), &m);
            }
            (2, c(18))
        }
        Err(_) => fail!(0, "[harness] injected panic in a borrow"),
    }
}

/// A client hands a handle over to another client.
pub fn send(op: &Op) -> Out {
    match w(|w| w.pick(op.client, op.a, &any)) {
        Some(i) => {
            w(|w| w.slots[i].as_mut().unwrap().client = (op.b % 4) as u8);
            (1, 0)
        }
        None => SKIP,
    }
}

/// A client goes away: its handles are dropped in a seeded order, dropped while it is unwinding,
/// or forgotten.
pub fn crash(op: &Op) -> Out {
    let mut v = w(|w| w.candidates(Some(op.client), &any));
    if v.is_empty() {
        return SKIP;
    }
    let mut rng = Rng::new(u64::from(op.a));
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
    match op.b % 8 {
        0 if w(|w| w.leaked.len() + v.len() <= 6) => {
            for i in v {
                w(|w| {
                    let (m, r) = w.remove(i);
                    std::mem::forget(r);
                    w.leaked.push(m);
                });
            }
            probe("client crashed and leaked its handles");
        }
        1 => {
            // The handles are dropped by unwinding, one after another.
            struct Guard(usize, u8);
            impl Drop for Guard {
                fn drop(&mut self) {
                    let there = w(|w| w.slots[self.0].as_ref().map_or(false, |s| s.r.is_some() && s.client == self.1));
                    if there {
                        kill(self.0, c(5) | c(7));
                    }
                }
            }
            let guards: Vec<Guard> = v.into_iter().map(|i| Guard(i, op.client)).collect();
            crate::payload::unwinding(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _held = guards;
                std::panic::resume_unwind(Box::new(Unwound));
            }));
            crate::payload::unwinding(false);
            assert!(r.map_err(|e| e.is::<Unwound>()) == Err(true), "[harness] who panicked?");
            probe("client crashed by unwinding, handle by handle");
        }
        2 => {
            // All handles are dropped by unwinding.
            let (reals, b) = w(|w| {
                let reals: Vec<Real> = v.iter().filter_map(|i| w.remove(*i).1).collect();
                let b = w.gc_budget();
                (reals, b)
            });
            let k = reals.len() as u64;
            let r = call(b + CONST * (k + 1) + lin(0) * k, move || {
                let _held = reals;
                std::panic::resume_unwind(Box::new(Unwound));
            });
            match r {
                Err(Pan::Lib(m)) if m == "?" => {}
                Err(Pan::Injected) => {}
                Err(Pan::Lib(m)) => lib_panic(c(5) | c(7) | c(9), &m),
                Ok(()) => unreachable!(),
            }
            probe("client crashed by unwinding");
        }
        _ => {
            for i in v {
                // Destructors of user data may have used the handle up.
                let there = w(|w| w.slots[i].as_ref().map_or(false, |s| s.r.is_some() && s.client == op.client));
                if there {
                    kill(i, c(5) | c(7));
                }
            }
            probe("client crashed and dropped its handles");
        }
    }
    (1, c(5) | c(7))
}

struct Unwound;
