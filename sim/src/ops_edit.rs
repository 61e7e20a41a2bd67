//! Trees, hierarchy edits and clones.

use dendron::{AdoptAs, HierarchyError, HotNode, InsertAs, Node};

use crate::exec::*;
use crate::model::N;
use crate::op::Op;
use crate::payload::{self, P};
use crate::rng::Rng;
use crate::world::*;
use crate::{fail, nh};

fn room(k: usize) -> bool {
    w(|w| w.alive_nodes() + k <= w.max_nodes)
}

/// Adds a node handle of a chosen kind to the slots, or gives it up.
fn keep_node(client: u8, how: u32, n: N, r: Node<P>) {
    let i = match how % 4 {
        0 => add(client, M::Node(n), Real::Node(r)),
        1 => {
            let t = r.tree();
            let mt = w(|w| w.m.tree(n));
            let i = add(client, M::Tree(mt), Real::Tree(t));
            let j = add(client, M::Node(n), Real::Node(r));
            kill(j, c(7));
            i
        }
        2 => {
            let ok = w(|w| !w.prohibs(w.m.tree(n)));
            match call(CONST, move || r.bundle_new_hierarchy_edit_grant()) {
                Ok(Ok(h)) if ok => add(client, M::Hot(n), Real::Hot(h)),
                Err(Pan::Injected) => return,
                _ => fail!(c(4), "a new tree refused a grant"),
            }
        }
        _ => {
            let ok = w(|w| !w.grants(w.m.tree(n)));
            match call(CONST, move || r.bundle_new_hierarchy_edit_prohibition()) {
                Ok(Ok(h)) if ok => add(client, M::Frozen(n), Real::Frozen(h)),
                Err(Pan::Injected) => return,
                _ => fail!(c(4), "a new tree refused a prohibition"),
            }
        }
    };
    let _ = i;
}

/// Builds a whole tree at once.
pub fn plant(op: &Op) -> Out {
    let (room, cap) = w(|w| (w.max_nodes.saturating_sub(w.alive_nodes()), w.max_nodes));
    if room == 0 {
        return SKIP;
    }
    let mut rng = Rng::new(u64::from(op.a) << 32 | u64::from(op.b));
    let size = 1 + (op.c as usize % room.min(if cap > 200 { room } else { 14 }));
    let root_id;
    let hot = {
        let p = P::new(val(op.b));
        root_id = p.id;
        match call(CONST, move || HotNode::new_tree(p)) {
            Ok(h) => h,
            Err(_) => fail!(c(2), "{}: panic in creation of a tree", w(|w| w.what.clone())),
        }
    };
    let (t, root) = w(|w| w.m.new_tree(val(op.b), root_id));
    w(|w| w.set_obs(root, hot.plain().downgrade()));
    let root_slot = w(|w| w.add_busy(op.client, M::Hot(root)));
    let mut all: Vec<(N, HotNode<P>)> = vec![(root, hot.clone())];
    let shape = op.d % 6;
    for k in 1..size {
        let pi = match shape {
            0 | 5 => rng.below(k),
            1 => k - 1,
            2 => 0,
            3 => k / 2 * 2 % k,
            _ => (k - 1) / 2,
        };
        let v = val(rng.u32());
        let p = P::new(v);
        let id = p.id;
        let first = rng.chance(1, 3);
        let ph = &all[pi].1;
        let r = call(CONST, || {
            if first {
                ph.create_as_first_child(p)
            } else {
                ph.create_as_last_child(p)
            }
        });
        let h = match r {
            Ok(h) => h,
            Err(Pan::Lib(m)) => lib_panic(c(2), &m),
            Err(_) => fail!(c(2), "[harness] injected panic in plant"),
        };
        let n = w(|w| {
            let n = w.m.new_node(t, v, id);
            let i = if first { 0 } else { w.m.ch(all[pi].0).len() };
            w.m.insert(n, all[pi].0, i);
            w.set_obs(n, h.plain().downgrade());
            n
        });
        all.push((n, h));
    }
    // Keep some handles.
    let mut plain: Vec<(N, Node<P>)> = vec![];
    if size > 1 {
        for _ in 0..rng.below(3) {
            let k = 1 + rng.below(size - 1);
            plain.push((all[k].0, all[k].1.plain()));
        }
    }
    drop(all);
    for (n, r) in plain {
        add(op.client, M::Node(n), Real::Node(r));
    }
    let r = hot.plain();
    put(root_slot, Real::Hot(hot));
    let extra = add(op.client, M::Node(root), Real::Node(r));
    kill(root_slot, c(5));
    // Exchange the plain handle for the chosen kind.
    let r = match take(extra) {
        Real::Node(r) => r,
        _ => unreachable!(),
    };
    keep_node(op.client, op.d / 6, root, r.clone());
    put(extra, Real::Node(r));
    kill(extra, c(7));
    (1, c(2))
}

pub fn new_tree(op: &Op) -> Out {
    if !room(1) {
        return SKIP;
    }
    let v = val(op.b);
    let p = P::new(v);
    let id = p.id;
    let hot = op.a % 2 == 0;
    let r = call(CONST, move || {
        if hot {
            Real::Hot(HotNode::new_tree(p))
        } else {
            Real::Node(Node::new_tree(p))
        }
    });
    match r {
        Ok(r) => {
            let o = r.plain().downgrade();
            w(|w| {
                let (_, n) = w.m.new_tree(v, id);
                w.set_obs(n, o);
                let m = M::of(if hot { HK::Hot } else { HK::Node }, n);
                w.add(op.client, m, r);
            });
            (1, c(2))
        }
        Err(Pan::Lib(m)) => lib_panic(c(2), &m),
        Err(_) => fail!(0, "[harness] injected panic in new_tree"),
    }
}

fn as_hot(r: &Real) -> &HotNode<P> {
    match r {
        Real::Hot(h) => h,
        _ => unreachable!("[harness] hot node expected"),
    }
}

/// The handle through which an edit is made, and the token if it needs one.
struct Editor {
    slot: usize,
    n: N,
    r: Real,
    auth: Option<Auth>,
    /// For a hot node used with a token.
    plain: Option<Node<P>>,
}

impl Editor {
    fn new(op: &Op, slot: usize, salt: u32) -> Option<Editor> {
        let n = node_of(slot);
        let r = take(slot);
        let direct = matches!(r, Real::Hot(_)) && salt % 5 != 0;
        if direct {
            return Some(Editor {
                slot,
                n,
                r,
                auth: None,
                plain: None,
            });
        }
        let plain = r.plain();
        match authorise(op.client, salt / 5, &plain, n) {
            Some(auth) => Some(Editor {
                slot,
                n,
                r,
                auth: Some(auth),
                plain: Some(plain),
            }),
            None => {
                drop(plain);
                put(slot, r);
                None
            }
        }
    }
    fn valid(&self) -> bool {
        self.auth.as_ref().map_or(true, |a| a.valid)
    }
    fn done(self, keep_token: bool) {
        drop(self.plain);
        put(self.slot, self.r);
        if let Some(a) = self.auth {
            release(a, keep_token);
        }
    }
}

/// Checks how an edit was rejected.
///
/// `token`: the token is invalid; `errs`: acceptable errors.
fn rejected<R>(
    res: Result<Result<R, HierarchyError>, Pan>,
    token: bool,
    errs: &[&str],
    panicking: bool,
    tags: Tags,
) -> Out {
    let what = w(|w| w.what.clone());
    let reasons = || {
        let mut v: Vec<String> = errs.iter().map(|x| x.to_string()).collect();
        if token {
            v.push("invalid token".to_string());
        }
        v.join(", ")
    };
    match res {
        Ok(Ok(_)) => fail!(
            tags | c(3) | if token { c(6) } else { 0 },
            "{}: succeeded but should be rejected: {}",
            what,
            reasons()
        ),
        Ok(Err(e)) => {
            let name = match e {
                HierarchyError::AncestorDescendantLoop => "loop",
                HierarchyError::BorrowNodeData(_) => "borrow",
                HierarchyError::EmptyTree => "empty",
                HierarchyError::SiblingsWithoutParent => "siblings",
                _ => "another error",
            };
            if !errs.contains(&name) || panicking {
                fail!(
                    tags | c(3) | if token { c(6) } else { 0 },
                    "{}: rejected with the error {:?}, but should be rejected for: {}",
                    what,
                    name,
                    reasons()
                );
            }
        }
        Err(Pan::Lib(m)) => {
            if !token && !panicking {
                fail!(tags | c(3), "{}: panicked ({}) instead of an error: {}", what, m, reasons());
            }
        }
        Err(Pan::Injected) => injected(tags),
    }
    probe("rejected edit");
    (2, c(3) | if token { c(6) } else { 0 })
}

/// An edit that must succeed.
fn accepted<R>(res: Result<Result<R, HierarchyError>, Pan>, tags: Tags, token: bool) -> Option<R> {
    let tags = tags | c(2) | if token { c(6) } else { 0 };
    match res {
        Ok(Ok(r)) => Some(r),
        Ok(Err(e)) => fail!(
            tags,
            "{}: should succeed but failed with the error {:?}",
            w(|w| w.what.clone()),
            e
        ),
        Err(Pan::Lib(m)) => lib_panic(tags | c(3), &m),
        Err(Pan::Injected) => {
            injected(tags);
            None
        }
    }
}

pub fn create(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) if room(1) => s,
        _ => return SKIP,
    };
    let e = match Editor::new(op, slot, op.c) {
        Some(e) => e,
        None => return (2, c(4)),
    };
    let n = e.n;
    let (root, t) = w(|w| (w.m.parent(n).is_none(), w.m.tree(n)));
    let dest = op.b % 4;
    let adopt = [
        AdoptAs::FirstChild,
        AdoptAs::LastChild,
        AdoptAs::PreviousSibling,
        AdoptAs::NextSibling,
    ][dest as usize];
    let style = op.b / 4 % 4;
    let v = val(op.d);
    let p = P::new(v);
    let id = p.id;
    let swp = dest >= 2 && root;
    let token = !e.valid();
    let panicking = style == 1 || style == 3;
    let (er, ea, ep) = (&e.r, &e.auth, &e.plain);
    let mut extra = 0;
    if swp || token {
        extra = 400;
    }
    let res = call(CONST + extra, move || -> Result<Real, HierarchyError> {
        match (ea, ep) {
            (None, _) => {
                let h = as_hot(er);
                match (style, dest) {
                    (0, _) => h.try_create_node_as(p, adopt),
                    (1, _) => Ok(h.create_node_as(p, adopt)),
                    (_, 0) => Ok(h.create_as_first_child(p)),
                    (_, 1) => Ok(h.create_as_last_child(p)),
                    (2, 2) => h.try_create_as_prev_sibling(p),
                    (2, _) => h.try_create_as_next_sibling(p),
                    (_, 2) => Ok(h.create_as_prev_sibling(p)),
                    (_, _) => Ok(h.create_as_next_sibling(p)),
                }
                .map(Real::Hot)
            }
            (Some(a), Some(h)) => {
                let g = &a.g;
                match (style, dest) {
                    (0, _) => h.try_create_node_as(g, p, adopt),
                    (1, _) => Ok(h.create_node_as(g, p, adopt)),
                    (_, 0) => Ok(h.create_as_first_child(g, p)),
                    (_, 1) => Ok(h.create_as_last_child(g, p)),
                    (2, 2) => h.try_create_as_prev_sibling(g, p),
                    (2, _) => h.try_create_as_next_sibling(g, p),
                    (_, 2) => Ok(h.create_as_prev_sibling(g, p)),
                    (_, _) => Ok(h.create_as_next_sibling(g, p)),
                }
                .map(Real::Node)
            }
            _ => unreachable!(),
        }
    });
    let out = if swp || token {
        rejected(res, token, if swp { &["siblings"] } else { &[] }, panicking, c(2))
    } else {
        match accepted(res, c(1), true) {
            Some(r) => {
                let o = r.plain().downgrade();
                let i = w(|w| {
                    let k = w.m.new_node(t, v, id);
                    let (p, i) = match dest {
                        0 => (n, 0),
                        1 => (n, w.m.ch(n).len()),
                        _ => (w.m.parent(n).unwrap(), w.m.index(n) + (dest as usize - 2)),
                    };
                    w.m.insert(k, p, i);
                    w.set_obs(k, o);
                    let m = if matches!(r, Real::Hot(_)) { M::Hot(k) } else { M::Node(k) };
                    w.add(op.client, m, r)
                });
                keep_or_kill(i, op.d / 5 % 3 == 0, c(2));
                (1, c(2))
            }
            None => fail!(c(2), "[harness] injected panic in a creation"),
        }
    };
    e.done(op.d / 15 % 4 == 0);
    out
}

pub fn interrupt(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) if room(1) => s,
        _ => return SKIP,
    };
    let e = match Editor::new(op, slot, op.c) {
        Some(e) => e,
        None => return (2, c(4)),
    };
    let n = e.n;
    let t = w(|w| w.m.tree(n));
    let parent = op.b % 2 == 0;
    let v = val(op.d);
    let p = P::new(v);
    let id = p.id;
    let token = !e.valid();
    let budget = if parent {
        CONST + 100
    } else {
        lin(w(|w| w.m.ch(n).len()))
    };
    let (er, ea, ep) = (&e.r, &e.auth, &e.plain);
    let res = call(budget + if token { 400 } else { 0 }, move || {
        Ok(match (ea, ep) {
            (None, _) => Real::Hot(if parent {
                as_hot(er).create_as_interrupting_parent(p)
            } else {
                as_hot(er).create_as_interrupting_child(p)
            }),
            (Some(a), Some(h)) => Real::Node(if parent {
                h.create_as_interrupting_parent(&a.g, p)
            } else {
                h.create_as_interrupting_child(&a.g, p)
            }),
            _ => unreachable!(),
        })
    });
    let out = if token {
        rejected(res, true, &[], true, c(2))
    } else {
        match accepted(res, c(1), true) {
            Some(r) => {
                let o = r.plain().downgrade();
                let i = w(|w| {
                    let k = w.m.new_node(t, v, id);
                    if parent {
                        match w.m.parent(n) {
                            Some(p) => {
                                let i = w.m.index(n);
                                w.m.unlink(n);
                                w.m.insert(k, p, i);
                            }
                            None => w.m.trees[t].root = k,
                        }
                        w.m.insert(n, k, 0);
                    } else {
                        let ch = std::mem::take(&mut w.m.nodes[n].ch);
                        for x in &ch {
                            w.m.nodes[*x].parent = Some(k);
                        }
                        w.m.nodes[k].ch = ch;
                        w.m.insert(k, n, 0);
                    }
                    w.set_obs(k, o);
                    let m = if matches!(r, Real::Hot(_)) { M::Hot(k) } else { M::Node(k) };
                    w.add(op.client, m, r)
                });
                keep_or_kill(i, op.d / 5 % 3 == 0, c(2));
                (1, c(2))
            }
            None => fail!(c(2), "[harness] injected panic in a creation"),
        }
    };
    e.done(op.d / 15 % 4 == 0);
    out
}

pub fn detach(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        _ => return SKIP,
    };
    let e = match Editor::new(op, slot, op.c) {
        Some(e) => e,
        None => return (2, c(4)),
    };
    let n = e.n;
    let token = !e.valid();
    let size = w(|w| w.m.subtree(n).len());
    let mut budget = lin(size);
    if !token {
        budget += w(|w| {
            if w.m.parent(n).is_some() {
                w.m.unlink(n);
                w.m.new_tree_of(n);
                w.gc_budget()
            } else {
                0
            }
        });
    }
    let (er, ea, ep) = (&e.r, &e.auth, &e.plain);
    let res = call(budget, move || {
        match (ea, ep) {
            (None, _) => as_hot(er).detach_subtree(),
            (Some(a), Some(h)) => h.detach_subtree(&a.g),
            _ => unreachable!(),
        }
        Ok(())
    });
    let out = if token {
        rejected(res, true, &[], true, c(2))
    } else {
        accepted(res, c(1), true);
        (1, c(2) | c(5) | c(7))
    };
    e.done(op.d % 4 == 0);
    out
}

fn dest_of(k: u32, h: &HotNode<P>) -> InsertAs<&HotNode<P>> {
    match k % 4 {
        0 => InsertAs::FirstChildOf(h),
        1 => InsertAs::LastChildOf(h),
        2 => InsertAs::PreviousSiblingOf(h),
        _ => InsertAs::NextSiblingOf(h),
    }
}

/// A hot node to be used as a destination.
struct Dest {
    slot: usize,
    temp: bool,
    h: HotNode<P>,
    n: N,
}

impl Dest {
    /// The slot is not busy yet, or `plain` is given.
    fn new(op: &Op, slot: usize, plain: Option<Node<P>>) -> Option<Dest> {
        let n = node_of(slot);
        if plain.is_none() && w(|w| matches!(w.slot_m(slot), M::Hot(_))) {
            let h = match take(slot) {
                Real::Hot(h) => h,
                _ => unreachable!(),
            };
            return Some(Dest {
                slot,
                temp: false,
                h,
                n,
            });
        }
        let plain = match plain {
            Some(p) => p,
            None => {
                let r = take(slot);
                let p = r.plain();
                put(slot, r);
                p
            }
        };
        bundle_hot(op.client, plain, n).map(|(slot, h)| Dest {
            slot,
            temp: true,
            h,
            n,
        })
    }
    fn done(self, keep: bool) {
        put(self.slot, Real::Hot(self.h));
        if self.temp && !keep {
            kill(self.slot, c(5));
        }
    }
}

pub fn mov(op: &Op) -> Out {
    let (s1, s2) = match (pick_h(op.client, op.a), pick_h(op.client, op.b)) {
        (Some(a), Some(b)) => (a, b),
        _ => return SKIP,
    };
    let e = match Editor::new(op, s1, op.c / 8) {
        Some(e) => e,
        None => return (2, c(4)),
    };
    // The very same handle may be the source and the destination.
    let same_handle = s1 == s2 && matches!(e.r, Real::Hot(_));
    let d = if same_handle {
        None
    } else {
        let plain = if s1 == s2 { Some(e.r.plain()) } else { None };
        match Dest::new(op, s2, plain) {
            Some(d) => Some(d),
            None => {
                e.done(false);
                return (2, c(4));
            }
        }
    };
    let n1 = e.n;
    let n2 = d.as_ref().map_or(n1, |d| d.n);
    let dk = op.c % 4;
    let panicking = op.c / 4 % 2 == 1;
    let token = !e.valid();
    let mut errs: Vec<&str> = vec![];
    let mut noop = false;
    let mut budget = 200;
    w(|w| {
        let m = &w.m;
        let dp = if dk < 2 { Some(n2) } else { m.parent(n2) };
        let same_tree = m.tree(n1) == m.tree(n2);
        if dp.is_none() {
            errs.push("siblings");
        }
        if same_tree {
            budget += 20 * m.depth(n2) as u64;
            if let Some(dp) = dp {
                if dk >= 2 && n1 == n2 {
                    noop = true;
                } else if m.is_anc_or_self(n1, dp) {
                    errs.push("loop");
                }
            }
        } else {
            budget += lin(m.subtree(n1).len()) + 20 * m.depth(n2) as u64;
            if m.parent(n1).is_none() {
                errs.push("empty");
            }
        }
    });
    let ok = errs.is_empty() && !token;
    let mut two_trees = false;
    if ok && !noop {
        budget += w(|w| {
            two_trees = w.m.tree(n1) != w.m.tree(n2);
            w.m.unlink(n1);
            let (p, i) = match dk {
                0 => (n2, 0),
                1 => (n2, w.m.ch(n2).len()),
                _ => (w.m.parent(n2).unwrap(), w.m.index(n2) + (dk as usize - 2)),
            };
            w.m.insert(n1, p, i);
            w.gc_budget()
        });
    }
    let (er, ea, ep, dh) = (&e.r, &e.auth, &e.plain, d.as_ref().map(|d| &d.h));
    let res = call(budget, move || {
        let dest = dest_of(dk, dh.unwrap_or_else(|| as_hot(er)));
        match (ea, ep) {
            (None, _) => {
                if panicking {
                    as_hot(er).detach_insert_subtree(dest);
                    Ok(())
                } else {
                    as_hot(er).try_detach_insert_subtree(dest)
                }
            }
            (Some(a), Some(h)) => {
                if panicking {
                    h.detach_insert_subtree(&a.g, dest);
                    Ok(())
                } else {
                    h.try_detach_insert_subtree(&a.g, dest)
                }
            }
            _ => unreachable!(),
        }
    });
    let out = if !ok {
        rejected(res, token, &errs, panicking, c(2))
    } else {
        accepted(res, c(1), true);
        if two_trees {
            probe("subtree moved to another tree");
        }
        (1, c(2) | c(5) | c(7))
    };
    if let Some(d) = d {
        d.done(op.d % 3 == 0);
    }
    e.done(op.d / 3 % 4 == 0);
    out
}

pub fn replace(op: &Op) -> Out {
    let slot = match pick_h(op.client, op.a) {
        Some(s) => s,
        _ => return SKIP,
    };
    let e = match Editor::new(op, slot, op.c) {
        Some(e) => e,
        None => return (2, c(4)),
    };
    let n = e.n;
    let token = !e.valid();
    let panicking = op.b % 2 == 1;
    let (root, nch, t) = w(|w| (w.m.parent(n).is_none(), w.m.ch(n).len(), w.m.tree(n)));
    let mut errs: Vec<&str> = vec![];
    if root && nch == 0 {
        errs.push("empty");
    }
    if root && nch > 1 {
        errs.push("siblings");
    }
    let ok = errs.is_empty() && !token;
    let mut budget = lin(nch);
    if ok {
        budget += w(|w| {
            let ch = std::mem::take(&mut w.m.nodes[n].ch);
            match w.m.parent(n) {
                Some(p) => {
                    let i = w.m.index(n);
                    w.m.unlink(n);
                    for (k, x) in ch.iter().enumerate() {
                        w.m.insert(*x, p, i + k);
                    }
                }
                None => {
                    w.m.nodes[ch[0]].parent = None;
                    w.m.trees[t].root = ch[0];
                }
            }
            w.m.new_tree_of(n);
            w.gc_budget()
        });
    }
    let (er, ea, ep) = (&e.r, &e.auth, &e.plain);
    let res = call(budget, move || match (ea, ep) {
        (None, _) => {
            if panicking {
                as_hot(er).replace_with_children();
                Ok(())
            } else {
                as_hot(er).try_replace_with_children()
            }
        }
        (Some(a), Some(h)) => {
            if panicking {
                h.replace_with_children(&a.g);
                Ok(())
            } else {
                h.try_replace_with_children(&a.g)
            }
        }
        _ => unreachable!(),
    });
    let out = if !ok {
        rejected(res, token, &errs, panicking, c(2))
    } else {
        accepted(res, c(1), true);
        if root {
            probe("root replaced with its only child");
        }
        (1, c(2) | c(5) | c(7))
    };
    e.done(op.d % 4 == 0);
    out
}

fn clones() -> u64 {
    payload::REG.with(|r| r.borrow().clones)
}

fn check_clones(before: u64, size: usize, tags: Tags) {
    let k = clones() - before;
    if k != size as u64 {
        fail!(
            tags | c(16),
            "{}: data was cloned {} times for {} nodes",
            w(|w| w.what.clone()),
            k,
            size
        );
    }
}

pub fn clone_subtree(op: &Op) -> Out {
    let slot = match pick_ht(op.client, op.a) {
        Some(s) => s,
        _ => return SKIP,
    };
    let (n, t, size, mb) = w(|w| {
        let n = match w.slot_m(slot) {
            M::Tree(t) => w.m.trees[*t].root,
            m => m.node(),
        };
        let s = w.m.subtree(n);
        (n, w.m.tree(n), s.len(), w.any_mut_borrowed(&s))
    });
    if !room(size) {
        return SKIP;
    }
    let r = take(slot);
    let panicking = op.b % 2 == 1;
    w(|w| w.soft.push(t));
    let before = clones();
    let rr = &r;
    let res = call(3 * lin(size), move || -> Result<Real, ()> {
        if let Real::Tree(t) = rr {
            return if panicking {
                Ok(Real::Tree(t.clone_tree()))
            } else {
                t.try_clone_tree().map(Real::Tree).map_err(|_| ())
            };
        }
        if panicking {
            Ok(Real::Node(nh!(rr, h => h.clone_subtree())))
        } else {
            nh!(rr, h => h.try_clone_subtree())
                .map(Real::Node)
                .map_err(|_| ())
        }
    });
    w(|w| {
        w.soft.pop();
    });
    put(slot, r);
    let what = w(|w| w.what.clone());
    match res {
        Ok(Ok(_)) if mb => fail!(
            c(16) | c(3) | c(18),
            "{}: a subtree was cloned while some data is exclusively borrowed",
            what
        ),
        Ok(Ok(r)) => {
            if w(|w| !w.nested_ran) {
                check_clones(before, size, 0);
            }
            let root = match &r {
                Real::Tree(t) => t.root(),
                r => r.plain(),
            };
            if !root.is_root() {
                fail!(c(16), "{}: the clone is not the root of a tree", what);
            }
            let i = w(|w| {
                let copy = w.m.copy(n, 0);
                let t = w.m.new_tree_of(copy);
                w.set_obs(copy, root.downgrade());
                let m = if matches!(r, Real::Tree(_)) { M::Tree(t) } else { M::Node(copy) };
                w.add(op.client, m, r)
            });
            drop(root);
            w(|w| w.bind());
            keep_or_kill(i, op.c % 4 != 0, c(16));
            (1, c(16))
        }
        Ok(Err(())) => {
            if !mb || panicking {
                fail!(c(16) | c(3), "{}: cloning failed but no data is exclusively borrowed", what);
            }
            probe("clone refused by a borrow");
            (2, c(16))
        }
        Err(Pan::Lib(m)) => {
            if !mb || !panicking {
                lib_panic(c(16), &m);
            }
            probe("clone refused by a borrow");
            (2, c(16))
        }
        Err(Pan::Injected) => {
            injected(c(16));
            probe("clone failed in the middle");
            (2, c(16))
        }
    }
}

pub fn clone_insert(op: &Op) -> Out {
    let (s1, s2) = match (pick_h(op.client, op.a), pick_h(op.client, op.b)) {
        (Some(a), Some(b)) => (a, b),
        _ => return SKIP,
    };
    let n1 = node_of(s1);
    let size = w(|w| w.m.subtree(n1).len());
    if !room(size) {
        return SKIP;
    }
    let r1 = take(s1);
    let same_handle = s1 == s2 && matches!(r1, Real::Hot(_));
    let d = if same_handle {
        None
    } else {
        let plain = if s1 == s2 { Some(r1.plain()) } else { None };
        match Dest::new(op, s2, plain) {
            Some(d) => Some(d),
            None => {
                put(s1, r1);
                return (2, c(4));
            }
        }
    };
    let n2 = d.as_ref().map_or(n1, |d| d.n);
    let dk = op.c % 4;
    // Frozen nodes have no panicking form.
    let panicking = op.c / 4 % 2 == 1 && !matches!(r1, Real::Frozen(_));
    let (mb, swp, t2) = w(|w| {
        let s = w.m.subtree(n1);
        (
            w.any_mut_borrowed(&s),
            dk >= 2 && w.m.parent(n2).is_none(),
            w.m.tree(n2),
        )
    });
    w(|w| {
        let t1 = w.m.tree(n1);
        w.soft.push(t1);
        w.exclude.push(t2);
    });
    let before = clones();
    let (rr, dh) = (&r1, d.as_ref().map(|d| &d.h));
    let res = call(3 * lin(size), move || {
        let dest = dest_of(dk, dh.unwrap_or_else(|| as_hot(rr)));
        match (rr, panicking) {
            (Real::Node(h), true) => Ok(h.clone_insert_subtree(dest)),
            (Real::Hot(h), true) => Ok(h.clone_insert_subtree(dest)),
            (rr, _) => nh!(rr, h => h.try_clone_insert_subtree(dest)),
        }
    });
    w(|w| {
        w.soft.pop();
        w.exclude.pop();
    });
    put(s1, r1);
    let mut errs: Vec<&str> = vec![];
    if mb {
        errs.push("borrow");
    }
    if swp {
        errs.push("siblings");
    }
    let out = if !errs.is_empty() {
        rejected(res, false, &errs, panicking, c(16) | c(2))
    } else {
        match accepted(res, c(16) | c(1), false) {
            Some(r) => {
                if w(|w| !w.nested_ran) {
                    check_clones(before, size, c(2));
                }
                let o = r.plain().downgrade();
                let i = w(|w| {
                    let t = w.m.tree(n2);
                    let copy = w.m.copy(n1, t);
                    let (p, i) = match dk {
                        0 => (n2, 0),
                        1 => (n2, w.m.ch(n2).len()),
                        _ => (w.m.parent(n2).unwrap(), w.m.index(n2) + (dk as usize - 2)),
                    };
                    w.m.insert(copy, p, i);
                    w.set_obs(copy, o);
                    w.add(op.client, M::Hot(copy), Real::Hot(r))
                });
                w(|w| {
                    w.ctx |= c(16) | c(2);
                    w.bind()
                });
                keep_or_kill(i, op.d / 3 % 3 == 0, c(2) | c(16));
                (1, c(2) | c(16))
            }
            None => {
                probe("clone failed in the middle");
                (2, c(16) | c(2))
            }
        }
    };
    if let Some(d) = d {
        d.done(op.d % 3 == 0);
    }
    out
}
