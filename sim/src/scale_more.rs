//! More operations on huge trees: many locks, many handles, positions, depths, long closings,
//! refusals. Counters of any width narrower than `usize` show here.

use dendron::serial::{TreeBuildError, TreeBuilder};
use dendron::traverse::{DepthFirstTraverser, DftEvent};
use dendron::{
    AdoptAs, FrozenNode, HierarchyEditGrant, HierarchyEditProhibition, HierarchyError, HotNode, InsertAs,
    Node, Tree,
};

use crate::fail;
use crate::payload::{self, P};
use crate::rng::Rng;
use crate::scale::*;
use crate::world::*;

fn now() -> String {
    w(|w| w.what.clone())
}

fn cur() -> Tags {
    CUR_TAGS.with(|t| t.get())
}

/// A number of handles, locks or borrows.
fn many(r: &mut Rng) -> usize {
    [300, 5_000, 33_000, 66_000][r.weighted(&[2, 2, 3, 3])] + r.below(200)
}

enum Lock {
    Grant(HierarchyEditGrant<P>),
    Prohibition(HierarchyEditProhibition<P>),
    Hot(HotNode<P>),
    Frozen(FrozenNode<P>),
}

/// Whether (grants, prohibitions) can be acquired, by a token and by a handle.
fn acquirable(t: &Tree<P>, n: &Node<P>) -> (bool, bool) {
    let a = t.grant_hierarchy_edit().is_ok();
    let b = n.clone().bundle_new_hierarchy_edit_grant().is_ok();
    let x = t.prohibit_hierarchy_edit().is_ok();
    let y = n.clone().bundle_new_hierarchy_edit_prohibition().is_ok();
    if a != b || x != y {
        fail!(cur(), "{}: tokens and handles disagree about the locks of one tree ({} {} {} {})", now(), a, b, x, y);
    }
    (a, x)
}

/// What an iterator gives: the kind of item, a depth, and the data of the node.
type Key = (u8, usize, i64);

fn differ<A: PartialEq + std::fmt::Debug>(got: A, want: A, tags: Tags, what: std::fmt::Arguments) {
    if got != want {
        fail!(cur() | tags, "{}: {} gives {:?} instead of {:?}", now(), what, got, want);
    }
}

/// A number up to and beyond `n`, mostly close to one of the ends.
fn near(n: usize, r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(4),
        1 => (n + 2).saturating_sub(r.below(5)),
        2 => n / 2,
        _ => r.below(n + 1),
    }
}

/// The ways to use up an iterator from the front.
fn one<I: Iterator + Clone>(n: usize, make: impl Fn() -> I, key: impl Fn(I::Item) -> Key, want: &[Key], t: Tags, r: &mut Rng) {
    let a = near(want.len(), r);
    let j = near(want.len(), r);
    let how = r.below(7);
    big(8 * n + 1_000, || {
        let mut it = make();
        for k in 0..a.min(want.len() + 2) {
            differ(it.next().map(&key), want.get(k).copied(), t, format_args!("item {}", k));
        }
        let rest = &want[a.min(want.len())..];
        match how {
            0 => differ(it.count(), rest.len(), t, format_args!("count after {} items", a)),
            1 => differ(it.last().map(&key), rest.last().copied(), t, format_args!("last after {} items", a)),
            2 => {
                differ(it.nth(j).map(&key), rest.get(j).copied(), t, format_args!("nth({}) after {} items", j, a));
                differ(it.next().map(&key), rest.get(j + 1).copied(), t, format_args!("the item after nth({}) after {} items", j, a));
            }
            3 => {
                let all = it.fold(vec![], |mut v, x| {
                    v.push(key(x));
                    v
                });
                same_items(&all, rest, t, "fold", a);
            }
            4 => {
                let other = it.clone();
                differ(it.count(), rest.len(), t, format_args!("count after {} items and a clone", a));
                differ(other.last().map(&key), rest.last().copied(), t, format_args!("last of a clone after {} items", a));
            }
            5 => {
                let got: Vec<I::Item> = it.by_ref().collect();
                let got: Vec<Key> = got.into_iter().map(&key).collect();
                same_items(&got, rest, t, "collect", a);
                differ(it.next().map(&key), None, t, format_args!("an item after the last"));
            }
            _ => {
                let by = 1 + j % 9;
                let mut got = vec![];
                for x in it.step_by(by) {
                    got.push(key(x));
                }
                let every: Vec<Key> = rest.iter().step_by(by).copied().collect();
                same_items(&got, &every, t, "step_by", a);
            }
        }
    });
}

fn same_items(got: &[Key], want: &[Key], t: Tags, what: &str, a: usize) {
    if got != want {
        let k = got.iter().zip(want).take_while(|(x, y)| x == y).count();
        differ(got.get(k), want.get(k), t, format_args!("{} after {} items: item {} of {}", what, a, k, want.len()));
    }
}

/// The ways to use up an iterator from both ends.
fn both<I: DoubleEndedIterator + Clone>(
    n: usize,
    make: impl Fn() -> I,
    key: impl Fn(I::Item) -> Key,
    want: &[Key],
    t: Tags,
    r: &mut Rng,
) {
    if r.chance(1, 3) {
        return one(n, make, key, want, t, r);
    }
    if r.chance(1, 3) {
        let back: Vec<Key> = want.iter().rev().copied().collect();
        return one(n, || make().rev(), key, &back, t, r);
    }
    let a = near(want.len(), r).min(want.len());
    let b = near(want.len() - a, r).min(want.len() - a);
    let rest = &want[a..want.len() - b];
    let j = near(rest.len(), r);
    let how = r.below(6);
    big(8 * n + 1_000, || {
        let mut it = make();
        for k in 0..a {
            differ(it.next().map(&key), Some(want[k]), t, format_args!("item {}", k));
        }
        for k in 0..b {
            differ(it.next_back().map(&key), Some(want[want.len() - 1 - k]), t, format_args!("item {} from the end", k));
        }
        let from_end = |k: usize| rest.len().checked_sub(k + 1).map(|k| rest[k]);
        match how {
            0 => differ(it.count(), rest.len(), t, format_args!("count after {} and {} items", a, b)),
            1 => differ(it.last().map(&key), rest.last().copied(), t, format_args!("last after {} and {} items", a, b)),
            2 => {
                differ(it.nth(j).map(&key), rest.get(j).copied(), t, format_args!("nth({}) after {} and {} items", j, a, b));
                let left = if j + 1 < rest.len() { Some(rest[rest.len() - 1]) } else { None };
                differ(it.next_back().map(&key), left, t, format_args!("the last after nth({}) after {} and {} items", j, a, b));
            }
            3 => {
                differ(it.nth_back(j).map(&key), from_end(j), t, format_args!("nth_back({}) after {} and {} items", j, a, b));
                differ(it.next_back().map(&key), from_end(j + 1), t, format_args!("the last after nth_back({}) after {} and {} items", j, a, b));
                let left = if j + 2 < rest.len() { Some(rest[0]) } else { None };
                differ(it.next().map(&key), left, t, format_args!("the next after nth_back({}) after {} and {} items", j, a, b));
            }
            4 => {
                let mut all = it.rfold(vec![], |mut v, x| {
                    v.push(key(x));
                    v
                });
                all.reverse();
                same_items(&all, rest, t, "rfold", a);
            }
            _ => {
                let all = it.fold(vec![], |mut v, x| {
                    v.push(key(x));
                    v
                });
                same_items(&all, rest, t, "fold", a);
            }
        }
    });
}

/// Leaving the current node.
fn leave<I: DoubleEndedIterator>(
    n: usize,
    make: impl Fn() -> I,
    close: impl Fn(&mut I) -> Option<Key>,
    key: impl Fn(I::Item) -> Key,
    want: &[Key],
    t: Tags,
    r: &mut Rng,
) {
    let a = near(want.len(), r).min(want.len());
    let b = if r.chance(1, 2) { 0 } else { near(want.len() - a, r).min(want.len() - a) };
    let times = 1 + r.below(3);
    big(4 * n + 1_000, || {
        let mut it = make();
        for k in 0..a {
            differ(it.next().map(&key), Some(want[k]), t, format_args!("item {}", k));
        }
        for k in 0..b {
            differ(it.next_back().map(&key), Some(want[want.len() - 1 - k]), t, format_args!("item {} from the end", k));
        }
        let rest = &want[..want.len() - b];
        let mut at = a;
        for _ in 0..times {
            let mut depth = 0usize;
            let mut left = None;
            while let Some(x) = rest.get(at) {
                at += 1;
                if x.0 == 0 {
                    depth += 1;
                } else if depth == 0 {
                    left = Some(*x);
                    break;
                } else {
                    depth -= 1;
                }
            }
            differ(close(&mut it), left, t, format_args!("close_current after {} and {} items", a, b));
        }
        differ(it.next().map(&key), rest.get(at).copied(), t, format_args!("the item after close_current after {} and {} items", a, b));
    });
}

fn expect_locks(t: &Tree<P>, n: &Node<P>, held: usize, grant: bool) {
    let got = big(100, || acquirable(t, n));
    let want = (held == 0 || grant, held == 0 || !grant);
    if got != want {
        fail!(
            cur(),
            "{}: with {} {} held, grants and prohibitions are acquirable: {:?} instead of {:?}",
            now(),
            held,
            if grant { "grants" } else { "prohibitions" },
            got,
            want
        );
    }
}

impl S {
    pub fn locks(&mut self, op: &SOp, r: &mut Rng) {
        let (root, mut s) = self.open(op.a);
        let n = many(r);
        let grant = op.b & 1 == 0;
        let i = self.place(&s, op.b >> 1, r);
        let e = end_of(&s, i);
        let x = nth(&root, s.len(), i);
        let t = root.tree();
        let style = r.below(5);
        let refuse = || -> ! { fail!(cur(), "{}: a lock of the same kind is refused", now()) };
        // The holder, and whether it is a handle to the inner node.
        let mut v: Vec<(Lock, bool)> = Vec::with_capacity(n);
        for k in 0..n {
            let how = match style {
                0 => r.below(2),
                1 => 2 + r.below(2),
                _ => r.below(5),
            };
            let at = if r.chance(1, 3) { &root } else { &x };
            let on_x = std::ptr::eq(at, &x);
            let got = big(100, || match (how, v.last(), grant) {
                (1, Some((Lock::Grant(g), _)), _) => (Lock::Grant(g.try_clone().unwrap_or_else(|_| refuse())), false),
                (1, Some((Lock::Prohibition(g), _)), _) => {
                    (Lock::Prohibition(g.try_clone().unwrap_or_else(|_| refuse())), false)
                }
                (3, Some((Lock::Hot(h), on)), _) => (Lock::Hot(h.clone()), *on),
                (3, Some((Lock::Frozen(h), on)), _) => (Lock::Frozen(h.clone()), *on),
                (0 | 1, _, true) => (Lock::Grant(t.grant_hierarchy_edit().unwrap_or_else(|_| refuse())), false),
                (0 | 1, _, false) => {
                    (Lock::Prohibition(t.prohibit_hierarchy_edit().unwrap_or_else(|_| refuse())), false)
                }
                (4, _, true) => {
                    let g = t.grant_hierarchy_edit().unwrap_or_else(|_| refuse());
                    (Lock::Hot(at.clone().bundle_hierarchy_edit_grant(&g)), on_x)
                }
                (4, _, false) => {
                    let g = t.prohibit_hierarchy_edit().unwrap_or_else(|_| refuse());
                    (Lock::Frozen(at.clone().bundle_hierarchy_edit_prohibition(&g)), on_x)
                }
                (_, _, true) => (Lock::Hot(at.clone().bundle_new_hierarchy_edit_grant().unwrap_or_else(|_| refuse())), on_x),
                (_, _, false) => {
                    (Lock::Frozen(at.clone().bundle_new_hierarchy_edit_prohibition().unwrap_or_else(|_| refuse())), on_x)
                }
            });
            v.push(got);
            if k % 9_000 == 0 {
                expect_locks(&t, &x, k + 1, grant);
            }
        }
        expect_locks(&t, &x, n, grant);
        // The inner node leaves with all its locks.
        let moved = grant && i > 0 && op.c & 1 == 1;
        if moved {
            big(s.len(), || match t.grant_hierarchy_edit() {
                Ok(g) => x.detach_subtree(&g),
                Err(_) => refuse(),
            });
        }
        let new_t = x.tree();
        let mut on_x = v.iter().filter(|l| moved && l.1).count();
        let mut left = n - on_x;
        let style = r.below(3);
        // The order of release.
        match style {
            0 => {}
            1 => v.reverse(),
            _ => {
                for k in (1..v.len()).rev() {
                    v.swap(k, r.below(k + 1));
                }
            }
        }
        let check = |on_x: usize, left: usize| {
            expect_locks(&t, &root, left, grant);
            if moved {
                expect_locks(&new_t, &x, on_x, grant);
            }
        };
        check(on_x, left);
        while let Some((l, on)) = v.pop() {
            let few = if moved && on {
                on_x -= 1;
                on_x < 2
            } else {
                left -= 1;
                left < 2
            };
            big(100, || match l {
                Lock::Grant(g) => drop(g),
                Lock::Prohibition(g) => drop(g),
                Lock::Hot(h) => drop(h),
                Lock::Frozen(h) => drop(h),
            });
            if few || on_x + left < 20 || (on_x + left) % 500 == 0 {
                check(on_x, left);
            }
        }
        drop((t, new_t));
        if moved {
            let d = s[i].0;
            let sub: Seq = s[i..e].iter().map(|x| (x.0 - d, x.1)).collect();
            s.drain(i..e);
            self.put(root, s, op.c >> 3, r);
            self.put(x, sub, op.c >> 6, r);
        } else {
            drop(x);
            self.put(root, s, op.c >> 3, r);
        }
    }

    pub fn handles(&mut self, op: &SOp, r: &mut Rng) {
        enum H {
            N(Node<P>),
            T(Tree<P>),
            L(DepthFirstTraverser<P>),
            H(HotNode<P>),
        }
        let (root, s) = self.open(op.a);
        let n = many(r);
        let x = nth(&root, s.len(), self.place(&s, op.b, r));
        let (wr, wx, wt) = (root.downgrade(), x.downgrade(), root.tree().downgrade());
        let style = r.below(4);
        let dead = |what: &str| -> ! { fail!(cur() | c(8), "{}: a weak reference to a live {} does not upgrade", now(), what) };
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            let how = if style == 0 { 0 } else { r.below(9) };
            v.push(big(1_000, || match how {
                0 => H::N(root.clone()),
                1 => H::N(x.clone()),
                2 => H::T(root.tree()),
                3 => H::N(wr.upgrade().unwrap_or_else(|| dead("root"))),
                4 => H::N(wx.upgrade().unwrap_or_else(|| dead("node"))),
                5 => H::T(wt.upgrade().unwrap_or_else(|| dead("tree"))),
                6 => H::N(x.tree().root()),
                7 => H::L(x.depth_first_traverse()),
                _ => match x.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => H::H(h),
                    Err(_) => fail!(cur() | c(4), "{}: grant refused", now()),
                },
            }));
        }
        match r.below(3) {
            0 => {}
            1 => v.reverse(),
            _ => {
                for k in (1..v.len()).rev() {
                    v.swap(k, r.below(k + 1));
                }
            }
        }
        drop((root, x));
        let before = payload::REG.with(|x| x.borrow().nlive);
        while let Some(h) = v.pop() {
            let last = v.is_empty();
            big(if last { s.len() } else { 100 }, || match h {
                H::N(h) => drop(h),
                H::T(h) => drop(h),
                H::L(h) => drop(h),
                H::H(h) => drop(h),
            });
            if last || v.len() < 3 || v.len() % 5_000 == 0 {
                let live = (wr.upgrade().is_some(), wx.upgrade().is_some(), wt.upgrade().is_some());
                if live != (!last, !last, !last) {
                    fail!(cur(), "{}: with {} handles left, weak references upgrade: {:?}", now(), v.len(), live);
                }
                let gone = before - payload::REG.with(|x| x.borrow().nlive);
                if gone != if last { s.len() } else { 0 } {
                    fail!(cur(), "{}: with {} handles left, {} data of {} are gone", now(), v.len(), gone, s.len());
                }
            }
        }
    }

    /// Every navigation view of every node.
    pub fn family(&mut self, op: &SOp, r: &mut Rng) {
        let (root, s) = self.open(op.a);
        let n = s.len();
        let nodes: Vec<Node<P>> = big(n, || {
            root.depth_first_traverse().filter_map(|e| match e {
                DftEvent::Open(x) => Some(x),
                DftEvent::Close(_) => None,
            }).collect()
        });
        if nodes.len() != n {
            fail!(cur() | c(12), "{}: {} nodes traversed instead of {}", now(), nodes.len(), n);
        }
        const NO: usize = usize::MAX;
        let mut parent = vec![NO; n];
        let mut prev = vec![NO; n];
        let mut next = vec![NO; n];
        let mut first = vec![NO; n];
        let mut last = vec![NO; n];
        let mut kids = vec![0usize; n];
        let mut index = vec![0usize; n];
        let mut path: Vec<usize> = vec![0];
        for i in 1..n {
            path.truncate(s[i].0 as usize);
            let p = path[path.len() - 1];
            path.push(i);
            parent[i] = p;
            index[i] = kids[p];
            kids[p] += 1;
            if first[p] == NO {
                first[p] = i;
            } else {
                prev[i] = last[p];
                next[last[p]] = i;
            }
            last[p] = i;
        }
        let same = |a: &Option<Node<P>>, i: usize| match a {
            Some(a) => i != NO && a.ptr_eq(&nodes[i]),
            None => i == NO,
        };
        big(n, || {
            for i in 0..n {
                let x = &nodes[i];
                let ok = same(&x.parent(), parent[i])
                    && same(&x.prev_sibling(), prev[i])
                    && same(&x.next_sibling(), next[i])
                    && same(&x.first_child(), first[i])
                    && same(&x.last_child(), last[i])
                    && x.num_children() == kids[i]
                    && x.has_children() == (kids[i] > 0)
                    && x.has_one_child() == (kids[i] == 1)
                    && x.has_multiple_children() == (kids[i] > 1)
                    && x.has_prev_sibling() == (prev[i] != NO)
                    && x.has_next_sibling() == (next[i] != NO)
                    && x.is_root() == (i == 0);
                if !ok {
                    fail!(cur(), "{}: node {} of {} (depth {}, {} children): the views of its neighbours are wrong ({} children counted)", now(), i, n, s[i].0, kids[i], x.num_children());
                }
            }
        });
        for _ in 0..12 {
            let i = r.below(n);
            let big_one = (0..n).max_by_key(|k| kids[*k]).unwrap_or(0);
            let i = if r.chance(1, 3) { big_one } else { i };
            let p = if i == 0 { NO } else { parent[i] };
            let total = if p == NO { 1 } else { kids[p] };
            big(n, || {
                let x = &nodes[i];
                let got = (x.count_children(), x.count_preceding_siblings(), x.count_following_siblings(), x.count_ancestors());
                let want = (kids[i], index[i], total - 1 - index[i], s[i].0 as usize);
                if got != want {
                    fail!(cur(), "{}: node {}: counted (children, preceding, following, ancestors) {:?} instead of {:?}", now(), i, got, want);
                }
                let k = if kids[i] == 0 { 0 } else { r.below(kids[i] + 1) };
                let a = x.children().nth(k);
                let b = x.children_reverse().nth(k);
                let at = |k: usize| (1..n - i).scan(0, |c, d| { if parent[i + d] == i { *c += 1; } Some((*c, i + d)) }).find(|y| y.0 == k + 1).map_or(NO, |y| y.1);
                let (wa, wb) = if k < kids[i] { (at(k), at(kids[i] - 1 - k)) } else { (NO, NO) };
                if !same(&a, wa) || !same(&b, wb) {
                    fail!(cur() | c(12), "{}: node {}: child {} of {} is not the right one from one of the ends", now(), i, k, kids[i]);
                }
                if !same(&Some(x.root()), 0) || !x.belongs_to(&nodes[n - 1].tree()) || !x.belongs_to_same_tree(&nodes[0]) {
                    fail!(cur() | c(6), "{}: node {} does not belong to its own tree", now(), i);
                }
            });
            if let Some(p) = parent.get(i).copied().filter(|p| *p != NO) {
                let fs = big(n, || nodes[i].first_last_sibling());
                if !fs.0.ptr_eq(&nodes[first[p]]) || !fs.1.ptr_eq(&nodes[last[p]]) {
                    fail!(cur(), "{}: node {}: first or last sibling is wrong", now(), i);
                }
            }
        }
        drop(nodes);
        self.put(root, s, op.c >> 3, r);
    }

    /// The depths that traversals report, and their limits.
    pub fn depths(&mut self, op: &SOp, r: &mut Rng) {
        let (root, s) = self.open(op.a);
        let i = self.place(&s, op.b, r);
        let e = end_of(&s, i);
        let x = nth(&root, s.len(), i);
        let d0 = s[i].0;
        let sub: Vec<(usize, i64)> = s[i..e].iter().map(|y| ((y.0 - d0) as usize, y.1)).collect();
        let deep = sub.iter().map(|y| y.0).max().unwrap_or(0);
        let f = match x.clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(f) => f,
            Err(_) => fail!(cur() | c(4), "prohibition refused"),
        };
        let limit = |r: &mut Rng| match r.below(9) {
            0 => usize::MAX,
            1 => deep,
            2 => deep + 1,
            3 => deep.saturating_sub(1),
            4 => 65_535,
            5 => 65_536,
            6 => 255,
            7 => 256,
            _ => r.below(deep + 2),
        };
        let max = if r.chance(1, 3) { None } else { Some(limit(r)) };
        // The expected events.
        let mut want: Vec<(bool, usize, i64)> = vec![];
        let mut open: Vec<(usize, i64)> = vec![];
        for &(d, v) in sub.iter().filter(|y| max.map_or(true, |m| y.0 <= m)) {
            while open.len() > d {
                let (d, v) = open.pop().unwrap();
                want.push((false, d, v));
            }
            want.push((true, d, v));
            open.push((d, v));
        }
        while let Some((d, v)) = open.pop() {
            want.push((false, d, v));
        }
        let n = s.len();
        let mode = r.below(3);
        let coin = r.u32();
        big(n, || {
            let mut it = f.shallow_depth_first_traverse_stable(max);
            if it.max_depth() != max.unwrap_or(usize::MAX) {
                fail!(cur() | c(11), "{}: a maximum depth of {:?} became {}", now(), max, it.max_depth());
            }
            let (mut a, mut b) = (0, want.len());
            let mut k = 0u32;
            loop {
                if k % 97 == 0 || b - a < 5 {
                    let (lo, hi) = it.size_hint();
                    if lo > b - a || hi.map_or(false, |h| h < b - a) {
                        fail!(cur() | c(11), "{}: size hint ({}, {:?}) with {} events left", now(), lo, hi, b - a);
                    }
                }
                let back = mode == 1 || mode == 2 && coin >> (k % 32) & 1 == 1;
                k += 1;
                let got = if back { it.next_back() } else { it.next() };
                let got = got.map(|g| match g {
                    DftEvent::Open((y, d)) => (true, d, y.borrow_data().val),
                    DftEvent::Close((y, d)) => (false, d, y.borrow_data().val),
                });
                let w = if a == b {
                    None
                } else if back {
                    b -= 1;
                    Some(want[b])
                } else {
                    a += 1;
                    Some(want[a - 1])
                };
                if got != w {
                    fail!(cur() | c(11), "{}: a traversal limited to depth {:?} emitted {:?} instead of {:?} (event {} of {})", now(), max, got, w, k, want.len());
                }
                if w.is_none() {
                    break;
                }
            }
        });
        // Level order.
        let start = if r.chance(1, 2) { 0 } else { limit(r) };
        let mut want: Vec<(usize, i64)> = sub.iter().copied().filter(|y| y.0 >= start).collect();
        want.sort_by_key(|y| y.0);
        let got: Vec<(usize, i64)> = big(2 * n, || {
            f.allocating_breadth_first_traverse_stable(start).map(|(y, d)| (d, y.borrow_data().val)).collect()
        });
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            fail!(cur() | c(13), "{}: level order from depth {}: item {} is {:?} instead of {:?}", now(), start, k, got.get(k), want.get(k));
        }
        // Quadratic in the number of levels: the last ones only.
        let start = match r.below(4) {
            0 => usize::MAX,
            1 => deep + 1 + r.below(100_000),
            _ => deep.saturating_sub(r.below(3)),
        };
        let mut want: Vec<(usize, i64)> = sub.iter().copied().filter(|y| y.0 >= start).collect();
        want.sort_by_key(|y| y.0);
        let got: Vec<(usize, i64)> = big(6 * n, || {
            f.non_allocating_breadth_first_traverse_stable(start).map(|(y, d)| (d, y.borrow_data().val)).collect()
        });
        if got != want {
            fail!(cur() | c(13), "{}: level order (not allocating) from depth {} has {} items instead of {}", now(), start, got.len(), want.len());
        }
        drop(f);
        // Leaving a node with all that is below it.
        let hot = r.chance(1, 2);
        big(n, || {
            let ev = DftEvent::Open(x.clone());
            let closed = if hot {
                match x.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => DftEvent::Open(h).close_current().map(|h| h.plain()),
                    Err(_) => fail!(cur() | c(4), "grant refused"),
                }
            } else {
                ev.close_current()
            };
            let mut t = DepthFirstTraverser::with_next_event(root.clone(), Some(ev));
            let _ = t.next();
            let left = t.close_current();
            let next = if i == 0 { None } else {
                Some(match x.next_sibling() {
                    Some(y) => DftEvent::Open(y),
                    None => match x.parent() {
                        Some(y) => DftEvent::Close(y),
                        None => fail!(cur() | c(1), "{}: an inner node without parent", now()),
                    },
                })
            };
            let ok = closed.map_or(false, |y| y.ptr_eq(&x))
                && left.map_or(false, |y| y.ptr_eq(&x))
                && match (t.next(), next) {
                    (None, None) => true,
                    (Some(DftEvent::Open(a)), Some(DftEvent::Open(b))) => a.ptr_eq(&b),
                    (Some(DftEvent::Close(a)), Some(DftEvent::Close(b))) => a.ptr_eq(&b),
                    _ => false,
                };
            if !ok {
                fail!(cur() | c(12), "{}: leaving node {} of {} with its {} descendants stops elsewhere", now(), i, n, e - i - 1);
            }
        });
        drop(x);
        self.put(root, s, op.c >> 3, r);
    }

    /// Iterators that are not asked item by item: consumed in one go from one of the ends, or told
    /// to skip a part.
    pub fn skip(&mut self, op: &SOp, r: &mut Rng) {
        let (root, s) = self.open(op.a);
        let n = s.len();
        let nodes: Vec<Node<P>> = big(n, || {
            root.depth_first_traverse().filter_map(|e| match e {
                DftEvent::Open(x) => Some(x),
                DftEvent::Close(_) => None,
            }).collect()
        });
        if nodes.len() != n {
            fail!(cur() | c(12), "{}: {} nodes traversed instead of {}", now(), nodes.len(), n);
        }
        // Every node has its own data for the time being.
        for (i, x) in nodes.iter().enumerate() {
            x.borrow_data_mut().val = 1_000 + i as i64;
        }
        let i = self.place(&s, op.b, r);
        let e = end_of(&s, i);
        let x = nodes[i].clone();
        drop(nodes);
        let sub: Vec<(usize, i64)> = (i..e).map(|k| ((s[k].0 - s[i].0) as usize, 1_000 + k as i64)).collect();
        let deep = sub.iter().map(|y| y.0).max().unwrap_or(0);
        let f = match x.clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(f) => f,
            Err(_) => fail!(cur() | c(4), "prohibition refused"),
        };
        let events = |max: usize| {
            let mut want: Vec<Key> = vec![];
            let mut open: Vec<(usize, i64)> = vec![];
            for &(d, v) in sub.iter().filter(|y| y.0 <= max) {
                while open.len() > d {
                    let (d, v) = open.pop().unwrap();
                    want.push((1, d, v));
                }
                want.push((0, d, v));
                open.push((d, v));
            }
            while let Some((d, v)) = open.pop() {
                want.push((1, d, v));
            }
            want
        };
        let flat = |v: Vec<Key>| -> Vec<Key> { v.into_iter().map(|k| (k.0, 0, k.2)).collect() };
        let all = flat(events(usize::MAX));
        let max = match r.below(5) {
            0 => usize::MAX,
            1 => deep,
            2 => deep.saturating_sub(1),
            _ => r.below(deep + 2),
        };
        let limited = events(max);
        let t = c(11);
        let val = |y: &FrozenNode<P>| y.borrow_data().val;
        let k_stable = |g: DftEvent<FrozenNode<P>>| match g {
            DftEvent::Open(y) => (0, 0, val(&y)),
            DftEvent::Close(y) => (1, 0, val(&y)),
        };
        let k_shallow = |g: DftEvent<(FrozenNode<P>, usize)>| match g {
            DftEvent::Open((y, d)) => (0, d, val(&y)),
            DftEvent::Close((y, d)) => (1, d, val(&y)),
        };
        let k_live = |g: DftEvent<Node<P>>| match g {
            DftEvent::Open(y) => (0, 0, y.borrow_data().val),
            DftEvent::Close(y) => (1, 0, y.borrow_data().val),
        };
        let k_node = |y: Node<P>| (2, 0, y.borrow_data().val);
        let k_frozen = |y: FrozenNode<P>| (2, 0, val(&y));
        let k_level = |(y, d): (FrozenNode<P>, usize)| (3, d, val(&y));
        for _ in 0..2 + r.below(3) {
            match r.below(10) {
                0 => leave(n, || f.depth_first_traverse_stable(), |i| i.close_current().map(|y| (1, 0, val(&y))), k_stable, &all, t, r),
                1 => leave(
                    n,
                    || f.shallow_depth_first_traverse_stable(Some(max)),
                    |i| i.close_current().map(|(y, d)| (1, d, val(&y))),
                    k_shallow,
                    &limited,
                    t,
                    r,
                ),
                2 => both(n, || f.depth_first_traverse_stable(), k_stable, &all, t, r),
                3 => both(n, || f.shallow_depth_first_traverse_stable(Some(max)), k_shallow, &limited, t, r),
                4 => {
                    let kids: Vec<Key> = sub.iter().filter(|y| y.0 == 1).map(|y| (2, 0, y.1)).collect();
                    both(n, || f.children_stable(), k_frozen, &kids, t, r);
                }
                5 => one(n, || x.depth_first_traverse(), k_live, &all, c(12), r),
                6 => {
                    let back: Vec<Key> = all.iter().rev().copied().collect();
                    one(n, || x.depth_first_reverse_traverse(), k_live, &back, c(12), r);
                }
                7 => {
                    let mut kids: Vec<Key> = sub.iter().filter(|y| y.0 == 1).map(|y| (2, 0, y.1)).collect();
                    if r.chance(1, 2) {
                        one(n, || x.children(), k_node, &kids, c(12), r);
                    } else {
                        kids.reverse();
                        one(n, || x.children_reverse(), k_node, &kids, c(12), r);
                    }
                }
                8 => {
                    let mut up: Vec<Key> = vec![];
                    let mut d = s[i].0;
                    for k in (0..i).rev() {
                        if s[k].0 + 1 == d {
                            d = s[k].0;
                            up.push((2, 0, 1_000 + k as i64));
                        }
                    }
                    one(n, || x.ancestors(), k_node, &up, c(12), r);
                }
                _ => {
                    let start = r.below(deep + 2);
                    let mut want: Vec<Key> = sub.iter().filter(|y| y.0 >= start).map(|y| (3, y.0, y.1)).collect();
                    want.sort_by_key(|y| y.1);
                    one(n, || f.allocating_breadth_first_traverse_stable(start), k_level, &want, c(13), r);
                }
            }
        }
        drop(f);
        drop(x);
        big(n, || {
            let mut old = s.iter();
            for g in root.depth_first_traverse() {
                if let (DftEvent::Open(y), Some(v)) = (&g, if matches!(g, DftEvent::Open(_)) { old.next() } else { None }) {
                    y.borrow_data_mut().val = v.1;
                }
            }
        });
        self.put(root, s, op.c >> 3, r);
    }

    /// Closings of many levels at once.
    pub fn close(&mut self, op: &SOp, size: usize, r: &mut Rng) {
        let kind = [0, 0, 2, 4, 6, 3][op.a as usize % 6];
        let mut s = shape(kind, size, r);
        let ev = events(&s);
        let open = s[s.len() - 1].0 as usize + 1;
        let n = s.len();
        let mut b = if r.chance(1, 2) {
            TreeBuilder::new()
        } else {
            // Under a root of another tree.
            let top = HotNode::new_tree(P::new(77));
            let _ = top.create_as_first_child(P::new(5));
            let h = top.create_as_first_child(P::new(s[0].1));
            let _ = top.create_as_last_child(P::new(6));
            TreeBuilder::with_root(h)
        };
        let given = b.is_root_available();
        big(n, || {
            let pushed = b.push_events(ev.into_iter().skip(given as usize));
            if pushed.is_err() {
                fail!(cur(), "{}: push_events refused", now());
            }
        });
        for level in [open + 1, open + 65_536, open + (1 << 32), 1 << 32, 1 << 63, usize::MAX, open + 256] {
            let got = big(n, || b.close(level));
            if !matches!(got, Err(TreeBuildError::RootClosed)) || b.is_root_closed() {
                fail!(cur(), "{}: closing {} of {} open nodes: {:?}", now(), level, open, got);
            }
        }
        let some = r.below(open);
        let rest = open - some;
        big(n, || {
            if b.close(0).is_err() || b.close(some).is_err() || b.open(P::new(9)).is_err() {
                fail!(cur(), "{}: closing {} of {} open nodes and opening one is refused", now(), some, open);
            }
            if b.close(rest + 2).is_ok() || b.is_root_closed() || b.close(rest + 1).is_err() || !b.is_root_closed() {
                fail!(cur(), "{}: closing the remaining {} open nodes goes wrong", now(), rest + 1);
            }
            if b.close(1).is_ok() || b.open(P::new(8)).is_ok() || b.close(usize::MAX).is_ok() || b.close(0).is_err() {
                fail!(cur(), "{}: a finished builder accepts events", now());
            }
        });
        s.push((rest as u32, 9));
        match big(n, || b.finish_opt()) {
            Some(x) => {
                if given {
                    let g = match x.tree().grant_hierarchy_edit() {
                        Ok(g) => g,
                        Err(_) => fail!(cur() | c(5), "{}: the tree of a finished builder is still locked", now()),
                    };
                    big(n, || x.detach_subtree(&g));
                }
                self.put(x, s, op.c >> 3, r)
            }
            None => fail!(cur(), "{}: nothing was built", now()),
        }
    }

    /// Operations that must be refused, far away from anything else.
    pub fn refuse(&mut self, op: &SOp, r: &mut Rng) {
        let (root, s) = self.open(op.a);
        let n = s.len();
        let i = self.place(&s, op.b, r);
        let e = end_of(&s, i);
        let x = nth(&root, n, i);
        let before = payload::REG.with(|x| x.borrow().nlive);
        let hot = |x: &Node<P>| match x.clone().bundle_new_hierarchy_edit_grant() {
            Ok(h) => h,
            Err(_) => fail!(cur() | c(4), "grant refused"),
        };
        let wrong = |what: &str| -> ! { fail!(cur(), "{}: {} is not refused as documented", now(), what) };
        match op.c % 5 {
            0 => {
                let j = i + (0..e - i).max_by_key(|k| s[i + k].0).unwrap_or(0);
                let j = if r.chance(1, 2) { i + r.below(e - i) } else { j };
                let y = nth(&root, n, j);
                big(2 * n, || {
                    let (hx, hy) = (hot(&x), hot(&y));
                    for k in 0..4 {
                        if k > 1 && j == i {
                            // Beside itself is where it is.
                            continue;
                        }
                        let to = match k {
                            0 => InsertAs::FirstChildOf(&hy),
                            1 => InsertAs::LastChildOf(&hy),
                            2 => InsertAs::PreviousSiblingOf(&hy),
                            _ => InsertAs::NextSiblingOf(&hy),
                        };
                        if !matches!(hx.try_detach_insert_subtree(to), Err(HierarchyError::AncestorDescendantLoop)) {
                            wrong("a move below itself");
                        }
                    }
                });
            }
            1 => big(2 * n, || {
                let (hr, hx) = (hot(&root), hot(&x));
                let dest = |k: u32| if k & 1 == 0 { InsertAs::PreviousSiblingOf(&hr) } else { InsertAs::NextSiblingOf(&hr) };
                let adopt = if op.b & 8 == 0 { AdoptAs::PreviousSibling } else { AdoptAs::NextSibling };
                if !matches!(hr.try_create_node_as(P::new(1), adopt), Err(HierarchyError::SiblingsWithoutParent)) {
                    wrong("creating a sibling of the root");
                }
                if i > 0 && !matches!(hx.try_detach_insert_subtree(dest(op.b >> 4)), Err(HierarchyError::SiblingsWithoutParent)) {
                    wrong("moving beside the root");
                }
                if !matches!(x.try_clone_insert_subtree(dest(op.b >> 5)), Err(HierarchyError::SiblingsWithoutParent)) {
                    wrong("cloning beside the root");
                }
                let other = HotNode::new_tree(P::new(0));
                if !matches!(hr.try_detach_insert_subtree(InsertAs::LastChildOf(&other)), Err(HierarchyError::EmptyTree)) {
                    wrong("moving the root to another tree");
                }
            }),
            2 | 3 => {
                // Data deep inside are borrowed.
                let j = i + [e - i - 1, r.below(e - i), 0][r.below(3)];
                let y = nth(&root, n, j);
                let guard = y.borrow_data_mut();
                big(3 * n, || {
                    let top = HotNode::new_tree(P::new(0));
                    if x.try_clone_subtree().is_ok() || root.tree().try_clone_tree().is_ok() {
                        wrong("cloning borrowed data");
                    }
                    if !matches!(x.try_clone_insert_subtree(InsertAs::FirstChildOf(&top)), Err(HierarchyError::BorrowNodeData(_))) || top.has_children() {
                        wrong("inserting a clone of borrowed data");
                    }
                    let bad = x.to_events().filter(|e| e.is_err()).count();
                    if bad != 1 {
                        fail!(cur() | c(14), "{}: {} errors for one borrowed node", now(), bad);
                    }
                    let mut b = TreeBuilder::new();
                    if !matches!(b.push_dft_events(x.depth_first_traverse()), Err(TreeBuildError::BorrowData(_))) {
                        wrong("an event with borrowed data");
                    }
                });
                drop(guard);
            }
            _ => {
                let kids = s.iter().filter(|y| y.0 == 1).count();
                if kids != 1 {
                    let want_empty = kids == 0;
                    let got = big(n, || hot(&root).try_replace_with_children());
                    let ok = match got {
                        Err(HierarchyError::EmptyTree) => want_empty,
                        Err(HierarchyError::SiblingsWithoutParent) => !want_empty,
                        _ => false,
                    };
                    if !ok {
                        wrong("replacing the root with its children");
                    }
                }
            }
        }
        let after = payload::REG.with(|x| x.borrow().nlive);
        if before != after {
            fail!(cur() | c(7), "{}: {} data before and {} after a refused operation", now(), before, after);
        }
        drop(x);
        self.put(root, s, op.c >> 3, r);
    }

    /// Many borrows of the data of one node, and edits of its tree meanwhile.
    pub fn borrows(&mut self, op: &SOp, r: &mut Rng) {
        let (root, mut s) = self.open(op.a);
        let n = s.len();
        let i = self.place(&s, op.b, r);
        let e = end_of(&s, i);
        let x = nth(&root, n, i);
        let y = x.clone();
        let count = many(r);
        let bad = |what: &str, k: usize| -> ! { fail!(cur(), "{}: {} with {} borrows", now(), what, k) };
        let mut v: Vec<_> = (0..count)
            .map(|k| big(10, || if k % 2 == 0 { x.borrow_data() } else { y.try_borrow_data().unwrap_or_else(|_| bad("a shared borrow is refused", k)) }))
            .collect();
        if x.try_borrow_data_mut().is_ok() {
            bad("an exclusive borrow is granted", count);
        }
        // Borrows do not keep the node from moving.
        let moved = i > 0 && op.c & 1 == 1;
        if moved {
            big(n, || match x.tree().grant_hierarchy_edit() {
                Ok(g) => x.detach_subtree(&g),
                Err(_) => fail!(cur() | c(4), "grant refused"),
            });
        }
        while let Some(b) = v.pop() {
            if b.val != s[i].1 {
                bad("the data changed", v.len());
            }
            drop(b);
            if v.len() < 3 || v.len() % 9_000 == 0 {
                if y.try_borrow_data_mut().is_ok() != v.is_empty() {
                    bad("an exclusive borrow is wrongly granted or refused", v.len());
                }
            }
        }
        drop(v);
        // Small values: some others are not equal to themselves.
        s[i].1 = (s[i].1 + 1) % 5;
        big(10, || x.borrow_data_mut().val = s[i].1);
        drop(y);
        if moved {
            let d = s[i].0;
            let sub: Seq = s[i..e].iter().map(|x| (x.0 - d, x.1)).collect();
            s.drain(i..e);
            self.put(root, s, op.c >> 3, r);
            self.put(x, sub, op.c >> 6, r);
        } else {
            drop(x);
            self.put(root, s, op.c >> 3, r);
        }
    }
}
