//! The same thing very many times, to no effect: what the library counts or caches on the way
//! must not wear out.

use dendron::{AdoptAs, InsertAs};
use dendron::{HotNode, Node};

use crate::exec::*;
use crate::fail;
use crate::op::Op;
use crate::payload::P;
use crate::world::*;

/// Where a node that is not a root belongs.
fn spot(x: &HotNode<P>) -> Option<InsertAs<HotNode<P>>> {
    let parent = x.parent()?;
    Some(match (x.prev_sibling(), x.next_sibling()) {
        (Some(p), _) => InsertAs::NextSiblingOf(p),
        (None, Some(n)) => InsertAs::PreviousSiblingOf(n),
        (None, None) => InsertAs::LastChildOf(parent),
    })
}

fn by(d: u32, y: &HotNode<P>) -> InsertAs<&HotNode<P>> {
    match d % 4 {
        0 => InsertAs::FirstChildOf(y),
        1 => InsertAs::LastChildOf(y),
        2 => InsertAs::PreviousSiblingOf(y),
        _ => InsertAs::NextSiblingOf(y),
    }
}

/// There and back again.
fn moves(x: &HotNode<P>, y: &HotNode<P>, d: u32, k: usize) -> Option<String> {
    let home = spot(x);
    // The tree must not lose its last holder on the way.
    let tree = x.tree();
    let mut went = 0;
    for i in 0..k {
        let ok = x.try_detach_insert_subtree(by(d, y)).is_ok();
        if i > 0 && ok != (went > 0) {
            return Some(format!("move {} of {} ends differently (success: {})", i, k, ok));
        }
        if ok {
            went += 1;
            match &home {
                Some(h) => {
                    let h = match h {
                        InsertAs::FirstChildOf(n) => InsertAs::FirstChildOf(n),
                        InsertAs::LastChildOf(n) => InsertAs::LastChildOf(n),
                        InsertAs::PreviousSiblingOf(n) => InsertAs::PreviousSiblingOf(n),
                        InsertAs::NextSiblingOf(n) => InsertAs::NextSiblingOf(n),
                    };
                    if let Err(e) = x.try_detach_insert_subtree(h) {
                        return Some(format!("move {} of {} back: {}", i, k, e));
                    }
                }
                // Beside or under itself.
                None if x.ptr_eq(y) => {}
                None => return Some("a root was moved".to_string()),
            }
        }
    }
    drop(tree);
    None
}

fn creations(x: &HotNode<P>, d: u32, k: usize) -> Option<String> {
    let how = match d % 4 {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    };
    let beside = d % 4 > 1;
    for i in 0..k {
        match x.try_create_node_as(P::new(0), how) {
            Ok(n) => {
                if beside && x.is_root() {
                    return Some("a root got a sibling".to_string());
                }
                if d / 4 % 2 == 0 {
                    n.detach_subtree();
                } else if let Err(e) = n.try_replace_with_children() {
                    return Some(format!("node {} of {}: {}", i, k, e));
                }
            }
            Err(_) if beside && x.is_root() => {}
            Err(e) => return Some(format!("node {} of {}: {}", i, k, e)),
        }
    }
    None
}

fn interruptions(x: &HotNode<P>, d: u32, k: usize) -> Option<String> {
    for i in 0..k {
        let n = if d % 2 == 0 {
            x.create_as_interrupting_parent(P::new(0))
        } else {
            x.create_as_interrupting_child(P::new(0))
        };
        if let Err(e) = n.try_replace_with_children() {
            return Some(format!("node {} of {}: {}", i, k, e));
        }
    }
    None
}

/// The same call always ends in the same way.
fn same(k: usize, what: &str, mut f: impl FnMut() -> bool) -> Option<String> {
    let first = f();
    for i in 1..k {
        if f() != first {
            return Some(format!("{} {} of {}: success first was {}", what, i, k, first));
        }
    }
    None
}

fn locks(x: &Node<P>, d: u32, k: usize) -> Option<String> {
    let t = x.tree();
    match d % 4 {
        0 => same(k, "grant token", || t.grant_hierarchy_edit().is_ok()),
        1 => same(k, "prohibition token", || t.prohibit_hierarchy_edit().is_ok()),
        2 => same(k, "hot node", || x.clone().bundle_new_hierarchy_edit_grant().is_ok()),
        _ => same(k, "frozen node", || x.clone().bundle_new_hierarchy_edit_prohibition().is_ok()),
    }
}

fn handles(x: &Node<P>, d: u32, k: usize) -> Option<String> {
    let weak = (x.downgrade(), x.tree().downgrade());
    match d % 6 {
        0 => same(k, "clone", || x.clone().ptr_eq(x)),
        1 => same(k, "tree", || x.belongs_to(&x.tree())),
        2 => same(k, "weak reference", || weak.0.upgrade().map_or(false, |n| n.ptr_eq(x))),
        3 => same(k, "weak reference", || weak.1.upgrade().map_or(false, |t| x.belongs_to(&t))),
        4 => same(k, "root", || x.root().belongs_to_same_tree(x)),
        _ => same(k, "weak reference", || x.downgrade().clone().upgrade().is_some()),
    }
}

fn borrows(x: &Node<P>, d: u32, k: usize) -> Option<String> {
    if d % 2 == 0 {
        same(k, "shared borrow", || x.try_borrow_data().is_ok())
    } else {
        same(k, "exclusive borrow", || x.try_borrow_data_mut().is_ok())
    }
}

fn iterators(x: &Node<P>, d: u32, k: usize) -> Option<String> {
    match d % 5 {
        0 => same(k, "traversal", || x.depth_first_traverse().next().is_some()),
        1 => same(k, "traversal", || x.depth_first_reverse_traverse().next().is_some()),
        2 => same(k, "iterator", || x.children().next().is_some()),
        3 => same(k, "iterator", || x.ancestors_or_self().next().is_some()),
        _ => same(k, "stable traversal", || {
            x.clone().bundle_new_hierarchy_edit_prohibition()
                .map_or(false, |f| f.allocating_breadth_first_traverse_stable(0).nth(1).is_some())
        }),
    }
}

pub fn churn(op: &Op) -> Out {
    let k = match op.c % 16 {
        0..=4 => 4 + op.c as usize / 16 % 60,
        5 if op.c / 16 % 8 == 0 => 65_536 - op.c as usize / 128 % 24,
        _ => 256 - op.c as usize / 16 % 24,
    };
    let all = c(1) | c(2) | c(3) | c(4) | c(5) | c(7);
    let near = match op.b % 8 {
        0 => {
            let r = sure(all, lin(0) + 64 * k as u64, || {
                (0..k).all(|_| Node::new_tree(P::new(0)).is_root())
            });
            if !r {
                fail!(all, "{}: a new node is not a root", w(|w| w.what.clone()));
            }
            return (1, all);
        }
        1..=4 => w(|w| w.pick(op.client, op.a, &|_, m| m.is_handle())),
        _ => w(|w| w.pick(op.client, op.a, &|_, m| matches!(m, M::Hot(_)))),
    };
    let slot = match near {
        Some(s) => s,
        None => return SKIP,
    };
    let size = w(|w| w.alive_nodes());
    let (budget, k) = match op.b % 8 {
        // Each visits the path to the root, a subtree or the children.
        5..=7 => {
            let k = if size > 100 { k.min(40) } else { k };
            ((lin(size) + lin(0)) * 2 * (k as u64 + 1), k)
        }
        4 => (lin(size) * (k as u64 + 1), k),
        _ => (lin(0) * (k as u64 + 1), k),
    };
    let other = if op.b % 8 == 5 {
        let i = w(|w| w.pick(op.client, op.a.rotate_left(13) ^ op.d, &|_, m| matches!(m, M::Hot(_))));
        i.filter(|i| *i != slot)
    } else {
        None
    };
    let r = take(slot);
    let r2 = other.map(take);
    let (rr, rr2) = (&r, &r2);
    let kind = ["", "locks", "handles", "borrows", "iterators", "moves", "creations", "interruptions"];
    let tags = match op.b % 8 {
        1 => c(4) | c(5),
        2 => c(5) | c(7) | c(8),
        3 => c(18),
        4 => c(11) | c(12) | c(13),
        _ => c(1) | c(2) | c(3) | c(5),
    };
    let d = op.d;
    let bad = sure(tags | c(7), budget, move || {
        let p = match rr {
            Real::Node(x) => x.clone(),
            Real::Frozen(x) => x.plain(),
            Real::Hot(x) => x.plain(),
            _ => unreachable!(),
        };
        match (op.b % 8, rr, rr2) {
            (1, ..) => locks(&p, d, k),
            (2, ..) => handles(&p, d, k),
            (3, ..) => borrows(&p, d, k),
            (4, ..) => iterators(&p, d, k),
            (5, Real::Hot(x), Some(Real::Hot(y))) => moves(x, y, d, k),
            (5, Real::Hot(x), _) => moves(x, &x.first_child().unwrap_or_else(|| x.last_sibling()), d, k),
            (6, Real::Hot(x), _) => creations(x, d, k),
            (_, Real::Hot(x), _) => interruptions(x, d, k),
            _ => unreachable!(),
        }
    });
    put(slot, r);
    if let (Some(i), Some(r2)) = (other, r2) {
        put(i, r2);
    }
    if let Some(s) = bad {
        fail!(tags, "{}: {}: {}", w(|w| w.what.clone()), kind[op.b as usize % 8], s);
    }
    if k > 200 {
        probe("something done hundreds of times to no effect");
    }
    (1, tags)
}
