//! Huge trees owned by the data of other trees: what user code does inside one whole-tree
//! operation is another whole-tree operation.

use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

use dendron::serial::TreeBuilder;
use dendron::{HotNode, Node, Tree};

use crate::fail;
use crate::rng::Rng;
use crate::scale::*;
use crate::world::*;

/// Data which may own a tree of the same kind.
struct Own {
    val: i64,
    inner: Option<Held>,
    count: Rc<Counts>,
}

enum Held {
    Node(Node<Own>),
    Hot(HotNode<Own>),
    Tree(Tree<Own>),
    Live(dendron::traverse::DepthFirstTraverser<Own>),
}

#[derive(Default)]
struct Counts {
    made: Cell<usize>,
    gone: Cell<usize>,
}

impl Own {
    fn new(val: i64, inner: Option<Held>, count: &Rc<Counts>) -> Own {
        count.made.set(count.made.get() + 1);
        Own { val, inner, count: count.clone() }
    }
    fn tree(&self) -> Option<Node<Own>> {
        self.inner.as_ref().map(|h| match h {
            Held::Node(n) => n.clone(),
            Held::Hot(n) => n.plain(),
            Held::Tree(t) => t.root(),
            Held::Live(i) => match i.peek() {
                Some(e) => e.as_value().clone(),
                None => fail!(TAGS, "an unfinished iterator peeks nothing"),
            },
        })
    }
}

impl Drop for Own {
    fn drop(&mut self) {
        self.count.gone.set(self.count.gone.get() + 1);
    }
}

impl Clone for Own {
    fn clone(&self) -> Own {
        Own::new(self.val, self.tree().map(|n| Held::Node(n.clone_subtree())), &self.count)
    }
}

impl PartialEq for Own {
    fn eq(&self, other: &Own) -> bool {
        self.val == other.val && self.tree() == other.tree()
    }
}

fn build(s: &Seq, at: usize, mut inner: Option<Held>, count: &Rc<Counts>) -> Node<Own> {
    big(s.len(), || {
        let mut b = TreeBuilder::new();
        let mut open = 0;
        let mut ok = true;
        for (i, &(d, x)) in s.iter().enumerate() {
            if open > d {
                ok &= b.close((open - d) as usize).is_ok();
            }
            let mine = if i == at { inner.take() } else { None };
            ok &= b.open(Own::new(x, mine, count)).is_ok();
            open = d + 1;
        }
        match b.finish() {
            Ok(n) if ok => n,
            _ => fail!(TAGS | c(15), "building was refused"),
        }
    })
}

fn held(n: Node<Own>, how: u32) -> Held {
    match how % 4 {
        0 => Held::Node(n),
        1 => Held::Tree(n.tree()),
        2 => match n.bundle_new_hierarchy_edit_grant() {
            Ok(h) => Held::Hot(h),
            Err(_) => fail!(TAGS | c(4), "grant refused"),
        },
        _ => Held::Live(n.depth_first_traverse()),
    }
}

fn nth(root: &Node<Own>, n: usize, i: usize) -> Node<Own> {
    big(n, || {
        let mut open = root.depth_first_traverse().filter_map(|e| match e {
            dendron::traverse::DftEvent::Open(x) => Some(x),
            _ => None,
        });
        match open.nth(i) {
            Some(x) => x,
            None => fail!(TAGS, "node {} is not found", i),
        }
    })
}

pub fn owned(op: &SOp, n: usize, r: &mut Rng) -> u64 {
    let count = Rc::new(Counts::default());
    let levels = 2 + (op.a % 5 == 0) as usize;
    let mut total = 0;
    let mut tree: Option<Node<Own>> = None;
    let mut last = (vec![], 0);
    for level in 0..levels {
        // The innermost is huge, the others may be.
        let size = if level == 0 || r.below(2) == 0 { n / levels } else { 2 + r.below(40) };
        let s = shape(r.below(7), size.max(2), r);
        let at = match r.below(5) {
            0 => 0,
            1 => s.len() - 1,
            2 => 1,
            _ => r.below(s.len()),
        };
        let inner = tree.take().map(|t| held(t, r.u32()));
        total += s.len();
        tree = Some(build(&s, at, inner, &count));
        last = (s, at);
    }
    let tree = tree.unwrap();
    let (s, at) = last;
    let alive = |k: usize, what: &str| {
        let (m, g) = (count.made.get(), count.gone.get());
        if m - g != k {
            fail!(TAGS | c(7), "{}: {} of {} data instances are alive instead of {}", what, m - g, m, k);
        }
    };
    alive(total, "trees owned by data of trees were built");
    if op.b % 4 == 0 {
        let copy = big(total, || tree.clone_subtree());
        alive(2 * total, "they were cloned");
        if big(total, || tree != copy) {
            fail!(TAGS | c(16) | c(17), "the copy differs");
        }
        big(total, move || drop(copy));
        alive(total, "the copy was dropped");
    }
    let x = nth(&tree, s.len(), at);
    let size = end_of(&s, at) - at;
    match op.c % 6 {
        0 => {
            drop(x);
            big(total, move || drop(tree));
        }
        1 => {
            drop(tree);
            let t = x.tree();
            drop(x);
            big(total, move || drop(t));
        }
        2 => {
            // The part with the owner leaves and is the last one to go, or the first one.
            match tree.tree().grant_hierarchy_edit() {
                Ok(g) => big(total, || x.detach_subtree(&g)),
                Err(_) => fail!(TAGS | c(4), "grant refused"),
            }
            if op.c / 6 % 2 == 0 {
                drop(tree);
                if at != 0 {
                    alive(total - (s.len() - size), "the rest of the tree was dropped");
                }
                big(total, move || drop(x));
            } else {
                big(total, move || drop(x));
                if at != 0 {
                    alive(s.len() - size, "the part with the owner was dropped");
                }
                drop(tree);
            }
        }
        3 => {
            drop(x);
            let e = big(total, || {
                catch_unwind(AssertUnwindSafe(move || {
                    let _tree = tree;
                    resume_unwind(Box::new(Leaving));
                }))
            });
            match e {
                Err(e) if e.is::<Leaving>() => {}
                _ => fail!(TAGS | c(7) | c(9), "another panic"),
            }
        }
        4 => {
            // The data go, their node stays.
            let new = Own::new(0, None, &count);
            big(total, || {
                *x.borrow_data_mut() = new;
            });
            alive(s.len(), "the data were replaced");
            drop(x);
            big(total, move || drop(tree));
        }
        _ => {
            // One edit discards the last reference to a tree whose data own another one.
            let root = HotNode::new_tree(Own::new(0, None, &count));
            let hot = match tree.clone().bundle_new_hierarchy_edit_grant() {
                Ok(h) => h,
                Err(_) => fail!(TAGS | c(4), "grant refused"),
            };
            let first = hot.first_child();
            drop((x, tree, hot));
            if let Some(f) = first {
                big(total, || {
                    if f.try_detach_insert_subtree(dendron::InsertAs::LastChildOf(&root)).is_err() {
                        fail!(TAGS | c(2), "the move was refused");
                    }
                });
                big(total, move || drop(f));
            }
            big(total, move || drop(root));
        }
    }
    alive(0, "everything was dropped");
    total as u64
}

struct Leaving;
