//! Runs on huge trees inside a thread with a small stack: stack use must not grow with the tree.

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::{DftEvent, StableDepthFirstTraverser};
use dendron::{AdoptAs, FrozenNode, HotNode, InsertAs, Node, Tree};

use crate::op::{Act, Cb, Fault};
use crate::payload::{self, P};
use crate::rng::{mix, Rng};
use crate::world::*;
use crate::fail;

pub const STACK: usize = 192 * 1024;
/// For the runs that are about other properties: recursion is not their business.
const AMPLE: usize = 512 * 1024 * 1024;
pub const TAGS: Tags = c(10);
pub const KINDS: [&str; 31] = [
    "build", "clone", "eq", "walk", "stable", "breadth", "ancestors", "rebuild", "detach", "graft",
    "replace", "interrupt", "clone-insert", "rehold", "drop", "local", "events-dft", "write",
    "drop-panic", "clone-panic", "eq-panic", "unwind", "locks", "handles", "family", "depths", "close",
    "refuse", "borrows", "skip", "owned",
];

/// What an operation is about, besides the stack.
fn tags_of(kind: usize) -> Tags {
    match KINDS[kind] {
        "build" => c(2) | c(15),
        "clone" => c(16),
        "eq" => c(17),
        "walk" => c(12),
        "stable" => c(11),
        "breadth" => c(13),
        "ancestors" | "family" => c(1),
        "rebuild" | "events-dft" => c(14),
        "detach" | "graft" | "replace" | "interrupt" | "write" => c(2),
        "clone-insert" => c(2) | c(16),
        "local" => c(19),
        "drop-panic" | "unwind" | "owned" => c(7) | c(9),
        "clone-panic" => c(3) | c(16),
        "eq-panic" => c(17),
        "locks" => c(4) | c(5),
        "handles" => c(7) | c(8),
        "depths" | "skip" => c(11) | c(12) | c(13),
        "close" => c(15),
        "refuse" => c(3),
        "borrows" => c(18),
        _ => c(7),
    }
}

/// Kinds of operations that the few huge runs of a property are mostly about.
fn focus(prop: u32) -> &'static [&'static str] {
    match prop {
        1 => &["family", "graft", "replace", "interrupt", "detach", "clone-insert"],
        2 => &["graft", "replace", "interrupt", "detach", "clone-insert"],
        3 => &["refuse", "clone-panic"],
        4 | 5 => &["locks"],
        6 => &["locks", "family"],
        7 => &["handles", "drop", "owned", "unwind", "drop-panic", "rehold"],
        8 => &["handles"],
        9 => &["drop-panic", "unwind", "owned"],
        11 => &["depths", "stable", "skip"],
        12 => &["depths", "walk", "skip"],
        13 => &["depths", "breadth", "skip"],
        14 => &["rebuild", "events-dft"],
        15 => &["close", "build"],
        16 => &["clone", "clone-insert", "clone-panic"],
        17 => &["eq", "eq-panic"],
        18 => &["borrows"],
        19 => &["local"],
        _ => &["walk", "graft", "detach", "eq", "clone", "drop"],
    }
}

const SHAPES: [&str; 7] = ["chain", "star", "comb", "random", "broom", "reverse-comb", "zigzag"];

#[derive(Clone, Debug)]
pub struct SOp {
    pub kind: usize,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Debug)]
pub struct Scale {
    pub prop: u32,
    pub seed: u64,
    pub n: usize,
    pub ops: Vec<SOp>,
}

pub fn generate(prop: u32, seed: u64) -> Scale {
    let mut r = Rng::new(mix(seed, 0x5ca1e));
    let mut weights = [2, 4, 4, 4, 4, 3, 2, 5, 6, 6, 5, 5, 5, 6, 5, 2, 3, 1, 5, 3, 2, 2, 1, 1, 2, 3, 3, 2, 1, 5, 5];
    let sizes: [u32; 4] = if prop == 10 { [16, 12, 3, 1] } else { [8, 4, 4, 8] };
    let n = [12_000, 25_000, 50_000, 70_000][r.weighted(&sizes)];
    if prop != 10 {
        for k in focus(prop) {
            if let Some(i) = KINDS.iter().position(|x| x == k) {
                weights[i] += 80 / focus(prop).len() as u32;
            }
        }
    }
    let count = if prop == 10 { 5 + r.below(8) } else { 3 + r.below(4) };
    let mut ops = vec![];
    for i in 0..count {
        let kind = if i == 0 { 0 } else { r.weighted(&weights) };
        ops.push(SOp { kind, a: r.u32(), b: r.u32(), c: r.u32() });
    }
    Scale { prop, seed, n, ops }
}

impl Scale {
    pub fn to_text(&self) -> String {
        let mut s = format!("dendron-sim-scale 1\nprop {}\nseed {}\nn {}\n", self.prop, self.seed, self.n);
        for o in &self.ops {
            s.push_str(&format!("op {} {} {} {}\n", KINDS[o.kind], o.a, o.b, o.c));
        }
        s
    }
    pub fn parse(text: &str) -> Option<Scale> {
        let mut s = Scale { prop: 10, seed: 0, n: 0, ops: vec![] };
        for l in text.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f.first().copied() {
                Some("prop") => s.prop = f.get(1)?.parse().ok()?,
                Some("seed") => s.seed = f.get(1)?.parse().ok()?,
                Some("n") => s.n = f.get(1)?.parse().ok()?,
                Some("op") => s.ops.push(SOp {
                    kind: KINDS.iter().position(|k| Some(k) == f.get(1))?,
                    a: f.get(2)?.parse().ok()?,
                    b: f.get(3)?.parse().ok()?,
                    c: f.get(4)?.parse().ok()?,
                }),
                _ => {}
            }
        }
        Some(s)
    }
}

/// The nodes of a tree in document order: depth and data.
pub type Seq = Vec<(u32, i64)>;

pub enum Hold {
    Tree(Tree<P>),
    Node(Node<P>),
    Frozen(FrozenNode<P>),
    Hot(HotNode<P>),
    Live(dendron::traverse::DepthFirstTraverser<P>),
    Stable(StableDepthFirstTraverser<P>),
    Builder(TreeBuilder<P>),
}

impl Hold {
    fn root(&self) -> Node<P> {
        match self {
            Hold::Tree(t) => t.root(),
            Hold::Node(n) => n.root(),
            Hold::Frozen(n) => n.root().plain(),
            Hold::Hot(n) => n.root().plain(),
            Hold::Live(i) => match i.peek() {
                Some(e) => e.as_value().root(),
                None => fail!(TAGS, "an unfinished iterator peeks nothing"),
            },
            Hold::Stable(i) => match i.peek() {
                Some(e) => e.as_value().root().plain(),
                None => fail!(TAGS, "an unfinished iterator peeks nothing"),
            },
            Hold::Builder(_) => unreachable!(),
        }
    }
}

pub struct S {
    trees: Vec<(Hold, Seq)>,
    hash: u64,
    done: Vec<u32>,
}

pub fn big<R>(n: usize, f: impl FnOnce() -> R) -> R {
    match call(4_000 + 400 * n as u64, f) {
        Ok(r) => r,
        Err(Pan::Injected) => fail!(TAGS, "[harness] injected panic"),
        Err(Pan::Lib(m)) => fail!(CUR_TAGS.with(|t| t.get()), "{}: unexpected panic: {}", w(|w| w.what.clone()), m),
    }
}

fn arm(cb: Cb, n: usize) {
    payload::arm(Some(&Fault { cb, n: n as u32, act: Act::Panic }));
}

pub fn shape(kind: usize, n: usize, r: &mut Rng) -> Seq {
    let mut v: Seq = vec![(0, 0)];
    let mut d = 0u32;
    while v.len() < n {
        let i = v.len();
        d = match kind % SHAPES.len() {
            0 => d + 1,
            1 => 1,
            // A spine with a leaf before each node of it.
            2 => if i % 2 == 1 { d + 1 } else { d },
            3 => 1 + r.below(d as usize + 1) as u32,
            // Deep, and then wide at the bottom.
            4 => if i < n / 2 { d + 1 } else { n as u32 / 2 },
            // A spine with leaves after each node of it: written from the bottom.
            5 => if i <= n / 2 { d + 1 } else { n as u32 - i as u32 },
            _ => if i % 7 == 0 { 1 + d / 2 } else { d + 1 },
        };
        v.push((d.max(1), r.below(5) as i64));
    }
    v
}

pub fn end_of(s: &Seq, i: usize) -> usize {
    let d = s[i].0;
    i + 1 + s[i + 1..].iter().take_while(|x| x.0 > d).count()
}

pub fn events(s: &Seq) -> Vec<Event<P>> {
    let mut v = vec![];
    let mut open = 0;
    for &(d, x) in s {
        if open > d {
            v.push(Event::Close((open - d) as usize));
        }
        v.push(Event::Open(P::new(x)));
        open = d + 1;
    }
    v
}

fn build(s: &Seq, how: u32) -> Node<P> {
    let what = w(|w| w.what.clone());
    w(|w| w.what = format!("{} (way {})", what, how % 4));
    match how % 4 {
        0 => {
            let mut ev = events(s);
            if how % 8 == 4 {
                ev.push(Event::Close(s[s.len() - 1].0 as usize + 1));
            }
            big(s.len(), || {
                let mut b = TreeBuilder::new();
                if b.push_events(ev).is_err() {
                    fail!(TAGS | c(14) | c(15), "{}: push_events refused", what);
                }
                match b.finish_opt() {
                    Some(n) => n,
                    None => fail!(TAGS | c(14) | c(15), "{}: nothing was built", what),
                }
            })
        }
        1 => {
            let ev = events(s);
            big(s.len(), || match ev.into_iter().collect::<Result<Node<P>, _>>() {
                Ok(n) => n,
                Err(_) => fail!(TAGS | c(14) | c(15), "{}: collect refused", what),
            })
        }
        _ => big(s.len(), || {
            let root = HotNode::new_tree(P::new(s[0].1));
            let mut path = vec![root.clone()];
            for &(d, x) in &s[1..] {
                path.truncate(d as usize);
                let p = &path[path.len() - 1];
                let n = if how % 4 == 2 {
                    p.create_as_last_child(P::new(x))
                } else {
                    p.create_node_as(P::new(x), AdoptAs::LastChild)
                };
                path.push(n);
            }
            // The path may be long: handles go one by one here.
            root.plain()
        }),
    }
}

fn seq_of(root: &Node<P>, n: usize) -> Seq {
    big(n, || {
        let mut d = 0u32;
        let mut v = vec![];
        for e in root.depth_first_traverse() {
            match e {
                DftEvent::Open(x) => {
                    let val = x.borrow_data().val;
                    v.push((d, val));
                    d += 1;
                }
                DftEvent::Close(_) => d -= 1,
            }
        }
        v
    })
}

pub fn nth(root: &Node<P>, n: usize, i: usize) -> Node<P> {
    big(n, || {
        let mut k = 0;
        for e in root.depth_first_traverse() {
            if let DftEvent::Open(x) = e {
                if k == i {
                    return x;
                }
                k += 1;
            }
        }
        fail!(TAGS, "{}: node {} is not found", w(|w| w.what.clone()), i)
    })
}

fn same(got: &Seq, want: &Seq, what: &str) {
    if got != want {
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        fail!(
            CUR_TAGS.with(|t| t.get()) | c(2),
            "after {}: the tree of {} nodes should have {} nodes and differs at node {}: {:?} instead of {:?}",
            what,
            got.len(),
            want.len(),
            i,
            got.get(i),
            want.get(i)
        );
    }
}

fn hold(root: Node<P>, n: usize, kind: u32, r: &mut Rng) -> Hold {
    let pick = |r: &mut Rng| match r.below(4) {
        0 => root.clone(),
        1 => nth(&root, n, n - 1),
        2 => nth(&root, n, n / 2),
        _ => nth(&root, n, r.below(n)),
    };
    match kind % 8 {
        0 | 1 => Hold::Tree(root.tree()),
        2 | 3 => Hold::Node(pick(r)),
        4 => match pick(r).bundle_new_hierarchy_edit_prohibition() {
            Ok(x) => Hold::Frozen(x),
            Err(_) => fail!(TAGS | c(4), "prohibition refused"),
        },
        5 => match pick(r).bundle_new_hierarchy_edit_grant() {
            Ok(x) => Hold::Hot(x),
            Err(_) => fail!(TAGS | c(4), "grant refused"),
        },
        6 => {
            let mut i = pick(r).depth_first_traverse();
            if r.chance(1, 2) {
                let _ = i.next();
            }
            Hold::Live(i)
        }
        _ => match pick(r).bundle_new_hierarchy_edit_prohibition() {
            Ok(x) => {
                let mut i = x.depth_first_traverse_stable();
                drop(x);
                let _ = i.next();
                Hold::Stable(i)
            }
            Err(_) => fail!(TAGS | c(4), "prohibition refused"),
        },
    }
}

impl S {
    /// Gives an unlocked view of a tree: its root and its nodes.
    pub fn open(&mut self, a: u32) -> (Node<P>, Seq) {
        let i = a as usize % self.trees.len();
        let (h, s) = self.trees.swap_remove(i);
        let root = big(s.len(), || h.root());
        drop(h);
        (root, s)
    }

    pub fn put(&mut self, root: Node<P>, s: Seq, kind: u32, r: &mut Rng) {
        let what = w(|w| w.what.clone());
        same(&seq_of(&root, s.len()), &s, &what);
        let h = hold(root, s.len(), kind, r);
        for x in s.iter().step_by(97) {
            self.hash = mix(self.hash, u64::from(x.0) * 8 + x.1 as u64);
        }
        self.trees.push((h, s));
    }

    fn step(&mut self, op: &SOp, size: usize, r: &mut Rng) {
        let kind = if self.trees.is_empty() { 0 } else { op.kind };
        w(|w| w.what = format!("{} on a huge tree", KINDS[kind]));
        self.done[kind] += 1;
        CUR_TAGS.with(|t| t.set(TAGS | tags_of(kind)));
        match kind {
            0 => {
                let k = op.a as usize % SHAPES.len();
                let s = shape(k, size, r);
                let root = build(&s, op.b);
                let what = w(|w| w.what.clone());
                w(|w| w.what = format!("{} {}", what, SHAPES[k]));
                self.put(root, s, op.c, r);
            }
            1 => {
                let (root, s) = self.open(op.a);
                let (from, to) = if op.b % 2 == 0 { (0, s.len()) } else {
                    let i = r.below(s.len());
                    (i, end_of(&s, i))
                };
                let src = nth(&root, s.len(), from);
                let copy = big(s.len(), || match op.c % 4 {
                    0 => src.clone_subtree(),
                    1 => match src.try_clone_subtree() {
                        Ok(x) => x,
                        Err(_) => fail!(TAGS | c(16), "clone refused"),
                    },
                    2 if from == 0 => root.tree().clone_tree().root(),
                    _ => match src.clone().bundle_new_hierarchy_edit_grant() {
                        Ok(h) => h.clone_subtree(),
                        Err(_) => fail!(TAGS | c(4), "grant refused"),
                    },
                });
                let d = s[from].0;
                let sub: Seq = s[from..to].iter().map(|x| (x.0 - d, x.1)).collect();
                drop(src);
                self.put(root, s, op.c >> 3, r);
                self.put(copy, sub, op.c >> 6, r);
            }
            2 => {
                let (root, s) = self.open(op.a);
                let copy = big(s.len(), || root.clone_subtree());
                let mut changed = s.clone();
                if op.b % 2 == 1 {
                    let i = if op.b % 4 == 1 { s.len() - 1 } else { r.below(s.len()) };
                    changed[i].1 += 7;
                    nth(&copy, s.len(), i).borrow_data_mut().val += 7;
                }
                let eq = big(s.len(), || match op.c % 3 {
                    0 => root == copy,
                    1 => root.try_eq(&copy).unwrap_or(op.b % 2 == 1),
                    _ => root.tree() == copy.tree(),
                });
                if eq != (op.b % 2 == 0) {
                    fail!(TAGS | c(17), "comparison of huge trees says {}", eq);
                }
                self.put(copy, changed, op.c >> 6, r);
                self.put(root, s, op.c >> 3, r);
            }
            3 => {
                let (root, s) = self.open(op.a);
                let n = big(s.len(), || {
                    let mut n = 0;
                    for e in root.depth_first_reverse_traverse() {
                        n += matches!(e, DftEvent::Open(_)) as usize;
                    }
                    n
                });
                let first = big(s.len(), || {
                    let mut i = root.depth_first_traverse();
                    let _ = i.next();
                    i.close_current()
                });
                let closed = big(s.len(), || DftEvent::Open(root.clone()).close_current());
                if n != s.len() || first.is_none() || closed.is_none() {
                    fail!(TAGS | c(12), "reverse traversal of {} nodes saw {}", s.len(), n);
                }
                let sib = big(s.len(), || root.children().count() + root.children_reverse().count());
                let want = 2 * s.iter().filter(|x| x.0 == 1).count();
                if sib != want || 2 * root.num_children() != want {
                    fail!(TAGS | c(12), "{} children from both ends instead of {}", sib, want);
                }
                self.put(root, s, op.c, r);
            }
            4 => {
                let (root, s) = self.open(op.a);
                let i = if op.b % 2 == 0 { 0 } else { r.below(s.len()) };
                let x = nth(&root, s.len(), i);
                let f = match x.clone().bundle_new_hierarchy_edit_prohibition() {
                    Ok(f) => f,
                    Err(_) => fail!(TAGS | c(4), "prohibition refused"),
                };
                let n = big(s.len(), || {
                    let mut it = f.depth_first_traverse_stable();
                    let mut n = 0;
                    let mut k = op.c;
                    loop {
                        k = k.rotate_left(1);
                        let e = if k & 1 == 0 { it.next() } else { it.next_back() };
                        match e {
                            None => break,
                            Some(_) => n += 1,
                        }
                    }
                    n
                });
                let want = 2 * (end_of(&s, i) - i);
                if n != want {
                    fail!(TAGS | c(11), "stable traversal emitted {} events instead of {}", n, want);
                }
                let max = r.below(4);
                let m = big(s.len(), || f.shallow_depth_first_traverse_stable(Some(max)).count());
                let d = s[i].0;
                let want = 2 * s[i..end_of(&s, i)].iter().filter(|x| (x.0 - d) as usize <= max).count();
                if m != want {
                    fail!(TAGS | c(11), "shallow traversal emitted {} events instead of {}", m, want);
                }
                drop((f, x));
                self.put(root, s, op.c >> 3, r);
            }
            5 => {
                let (root, s) = self.open(op.a);
                let f = match root.clone().bundle_new_hierarchy_edit_prohibition() {
                    Ok(f) => f,
                    Err(_) => fail!(TAGS | c(4), "prohibition refused"),
                };
                let (n, last) = big(s.len(), || {
                    let mut last = 0;
                    let mut n = 0;
                    for (_, d) in f.allocating_breadth_first_traverse_stable(0) {
                        if d < last {
                            fail!(TAGS | c(13), "depth {} after depth {}", d, last);
                        }
                        last = d;
                        n += 1;
                    }
                    (n, last)
                });
                if n != s.len() || last as u32 != s.iter().map(|x| x.0).max().unwrap_or(0) {
                    fail!(TAGS | c(13), "breadth first traversal emitted {} of {} nodes", n, s.len());
                }
                // The documented quadratic one, for a few levels.
                let k = big(40 * s.len(), || {
                    f.non_allocating_breadth_first_traverse_stable(0)
                        .take_while(|x| x.1 < 3)
                        .take(200)
                        .count()
                });
                if k == 0 {
                    fail!(TAGS | c(13), "breadth first traversal emitted nothing");
                }
                drop(f);
                self.put(root, s, op.c >> 3, r);
            }
            6 => {
                let (root, s) = self.open(op.a);
                let (i, _) = s.iter().enumerate().max_by_key(|x| x.1 .0).unwrap();
                let x = nth(&root, s.len(), i);
                let (a, b, top) = big(s.len(), || (x.ancestors().count(), x.count_ancestors(), x.root()));
                if a as u32 != s[i].0 || b != a || !top.ptr_eq(&root) || !x.ancestors_or_self().last().map_or(false, |y| y.ptr_eq(&root)) {
                    fail!(TAGS | c(1), "a node at depth {} has {} ancestors", s[i].0, a);
                }
                drop(x);
                self.put(root, s, op.c, r);
            }
            7 => {
                let (root, s) = self.open(op.a);
                let n = big(s.len(), || match op.b % 3 {
                    0 => {
                        let ev: Result<Vec<Event<P>>, _> = root.to_events().collect();
                        match ev {
                            Ok(ev) => ev.into_iter().collect::<Result<Tree<P>, _>>().map(|t| t.root()).ok(),
                            Err(_) => None,
                        }
                    }
                    1 => {
                        let mut b = TreeBuilder::new();
                        let mut ok = true;
                        for e in root.to_events() {
                            ok &= e.map_or(false, |e| b.push_event(e).is_ok());
                        }
                        if ok { b.finish().ok() } else { None }
                    }
                    _ => {
                        let top = HotNode::new_tree(P::new(s[0].1));
                        let mut b = TreeBuilder::with_root(top);
                        let ev: Result<Vec<Event<P>>, _> = root.to_events().skip(1).collect();
                        match ev {
                            Ok(mut ev) => {
                                // The last closing is for the given root.
                                let _ = ev.pop();
                                b.push_events(ev).ok().and_then(|_| b.finish_opt())
                            }
                            Err(_) => None,
                        }
                    }
                });
                match n {
                    Some(n) => {
                        // A stream cannot tell merged closings: compare what came out.
                        let got = seq_of(&n, s.len());
                        if op.b % 3 != 2 {
                            same(&got, &s, "rebuild");
                        } else if got != s {
                            fail!(TAGS | c(14), "rebuilding under a given root changed the tree");
                        }
                        self.put(n, s.clone(), op.c >> 3, r);
                    }
                    None => fail!(TAGS | c(14), "rebuilding a huge tree was refused (way {})", op.b % 3),
                }
                self.put(root, s, op.c >> 6, r);
            }
            8 => {
                let (root, s) = self.open(op.a);
                let i = self.place(&s, op.b, r);
                let e = end_of(&s, i);
                let x = nth(&root, s.len(), i);
                big(s.len(), || {
                    if op.c % 2 == 0 {
                        match x.tree().grant_hierarchy_edit() {
                            Ok(g) => x.detach_subtree(&g),
                            Err(_) => fail!(TAGS | c(4), "grant refused"),
                        }
                    } else {
                        match x.clone().bundle_new_hierarchy_edit_grant() {
                            Ok(h) => h.detach_subtree(),
                            Err(_) => fail!(TAGS | c(4), "grant refused"),
                        }
                    }
                });
                if i == 0 {
                    drop(x);
                    self.put(root, s, op.c >> 3, r);
                } else {
                    let d = s[i].0;
                    let sub: Seq = s[i..e].iter().map(|x| (x.0 - d, x.1)).collect();
                    let mut rest = s;
                    rest.drain(i..e);
                    self.put(root, rest, op.c >> 3, r);
                    self.put(x, sub, op.c >> 6, r);
                }
            }
            9 | 12 => {
                // Move (or copy) a subtree of one tree into another one, or inside one tree.
                let (ra, mut sa) = self.open(op.a);
                let i = self.place(&sa, op.b, r);
                let inside = self.trees.is_empty() || op.c % 4 == 0;
                let (rb, mut sb) = if inside { (ra.clone(), vec![]) } else { self.open(op.a >> 5) };
                let e = end_of(&sa, i);
                let total = sa.len() + sb.len();
                let x = nth(&ra, sa.len(), i);
                let d = sa[i].0;
                let sub: Seq = sa[i..e].iter().map(|x| (x.0 - d, x.1)).collect();
                let j = {
                    let s = if inside { &sa } else { &sb };
                    self.place(s, op.c >> 8, r)
                };
                let moving = kind == 9;
                if inside && moving && (i == 0 || (j >= i && j < e)) {
                    drop((x, rb));
                    self.put(ra, sa, op.c >> 3, r);
                    return;
                }
                let dest = nth(&rb, total, j);
                let first = op.c >> 12 & 1 == 0;
                let fail_grant = || -> ! { fail!(TAGS | c(4), "grant refused") };
                let made = big(total, || {
                    let hd = match dest.clone().bundle_new_hierarchy_edit_grant() {
                        Ok(h) => h,
                        Err(_) => fail_grant(),
                    };
                    let to = if first { InsertAs::FirstChildOf(&hd) } else { InsertAs::LastChildOf(&hd) };
                    if moving {
                        let hx = match x.clone().bundle_new_hierarchy_edit_grant() {
                            Ok(h) => h,
                            Err(_) => fail_grant(),
                        };
                        if hx.try_detach_insert_subtree(to).is_err() {
                            return None;
                        }
                        Some(hx.plain())
                    } else {
                        x.try_clone_insert_subtree(to).ok().map(|h| h.plain())
                    }
                });
                let made = match made {
                    Some(m) => m,
                    None if moving && i == 0 => {
                        // The root of a tree cannot leave it.
                        drop((x, dest));
                        self.put(ra, sa, op.c >> 3, r);
                        self.put(rb, sb, op.c >> 6, r);
                        return;
                    }
                    None => fail!(TAGS | c(2), "{}: refused", KINDS[kind]),
                };
                if moving && i == 0 {
                    fail!(TAGS | c(3), "moving a root was accepted");
                }
                drop((made, x, dest));
                if inside {
                    let mut j = j;
                    if moving {
                        sa.drain(i..e);
                        if j >= e {
                            j -= e - i;
                        }
                    }
                    splice(&mut sa, j, &sub, first);
                    drop(rb);
                    self.put(ra, sa, op.c >> 3, r);
                } else {
                    if moving {
                        sa.drain(i..e);
                    }
                    splice(&mut sb, j, &sub, first);
                    self.put(ra, sa, op.c >> 3, r);
                    self.put(rb, sb, op.c >> 6, r);
                }
            }
            10 => {
                let (root, mut s) = self.open(op.a);
                let i = self.place(&s, op.b, r);
                let e = end_of(&s, i);
                let kids = s[i + 1..e].iter().filter(|x| x.0 == s[i].0 + 1).count();
                if i == 0 && kids != 1 {
                    self.put(root, s, op.c >> 3, r);
                    return;
                }
                let x = nth(&root, s.len(), i);
                let t = root.tree();
                drop(root);
                big(s.len(), || match x.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => h.replace_with_children(),
                    Err(_) => fail!(TAGS | c(4), "grant refused"),
                });
                let val = s[i].1;
                s.remove(i);
                for y in &mut s[i..e - 1] {
                    y.0 -= 1;
                }
                let root = t.root();
                self.put(root, s, op.c >> 3, r);
                self.put(x, vec![(0, val)], op.c >> 6, r);
            }
            11 => {
                let (root, mut s) = self.open(op.a);
                let i = self.place(&s, op.b, r);
                let e = end_of(&s, i);
                let x = nth(&root, s.len(), i);
                let t = root.tree();
                drop(root);
                big(s.len(), || match x.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => {
                        if op.c % 2 == 0 {
                            drop(h.create_as_interrupting_parent(P::new(3)))
                        } else {
                            drop(h.create_as_interrupting_child(P::new(3)))
                        }
                    }
                    Err(_) => fail!(TAGS | c(4), "grant refused"),
                });
                let at = if op.c % 2 == 0 { i } else { i + 1 };
                for y in &mut s[at..e] {
                    y.0 += 1;
                }
                let d = if op.c % 2 == 0 { s[at].0 - 1 } else { s[i].0 + 1 };
                s.insert(at, (d, 3));
                drop(x);
                self.put(t.root(), s, op.c >> 3, r);
            }
            13 => {
                let (root, s) = self.open(op.a);
                self.put(root, s, op.c, r);
            }
            14 => {
                let i = op.a as usize % self.trees.len();
                let (h, s) = self.trees.swap_remove(i);
                self.kill(h, s);
            }
            15 => {
                let (root, s) = self.open(op.a);
                let i = self.place(&s, op.b, r);
                let x = nth(&root, s.len(), i);
                let out = format!("{:?}", x.debug_print_local());
                let out2 = format!("{:?} {:?}", x.tree().debug_print_local(), x.downgrade());
                if out.is_empty() || out2.is_empty() {
                    fail!(TAGS | c(19), "nothing printed");
                }
                // The printer of whole trees is for shallow ones.
                if s.iter().map(|x| u64::from(x.0)).sum::<u64>() < 3_000_000 {
                    let p = big(s.len(), || root.debug_pretty_print().to_string());
                    if p.lines().count().max(1) < s.len() {
                        fail!(TAGS | c(19), "{} lines printed for {} nodes", p.lines().count(), s.len());
                    }
                }
                self.put(root, s, op.c, r);
            }
            16 => {
                let (root, s) = self.open(op.a);
                let n = big(s.len(), || {
                    let mut b = TreeBuilder::new();
                    if b.push_dft_events(root.depth_first_traverse()).is_err() {
                        fail!(TAGS | c(14), "traversal events were refused");
                    }
                    b.finish().ok()
                });
                match n {
                    Some(n) => self.put(n, s.clone(), op.c >> 3, r),
                    None => fail!(TAGS | c(14), "nothing was built of traversal events"),
                }
                self.put(root, s, op.c >> 6, r);
            }
            18 => {
                // A destructor panics in the middle.
                let i = op.a as usize % self.trees.len();
                let (h, s) = self.trees.swap_remove(i);
                let n = self.place(&s, op.b, r);
                self.kill_with(h, s, Some(n as u32));
            }
            19 => {
                // The clone of some data panics.
                let (root, s) = self.open(op.a);
                let before = payload::REG.with(|x| x.borrow().nlive);
                let at = self.place(&s, op.b, r);
                arm(Cb::Clone, at);
                let res = call(4_000 + 400 * s.len() as u64, || match op.c % 3 {
                    0 => drop(root.clone_subtree()),
                    1 => drop(root.tree().clone_tree()),
                    _ => {
                        let top = HotNode::new_tree(P::new(1));
                        let _ = root.try_clone_insert_subtree(InsertAs::LastChildOf(&top));
                    }
                });
                payload::disarm();
                self.panicked(res, before);
                self.put(root, s, op.c >> 3, r);
            }
            20 => {
                // A comparison of data panics.
                let (root, s) = self.open(op.a);
                let copy = big(s.len(), || root.clone_subtree());
                let before = payload::REG.with(|x| x.borrow().nlive);
                let at = self.place(&s, op.b, r);
                arm(Cb::Eq, at);
                let res = call(4_000 + 400 * s.len() as u64, || {
                    let _ = root == copy;
                });
                payload::disarm();
                self.panicked(res, before);
                self.put(copy, s.clone(), op.c >> 6, r);
                self.put(root, s, op.c >> 3, r);
            }
            21 => {
                // The client that holds the tree panics.
                let i = op.a as usize % self.trees.len();
                let (h, s) = self.trees.swap_remove(i);
                let before = payload::REG.with(|x| x.borrow().nlive);
                let res = call(4_000 + 400 * s.len() as u64, move || {
                    let _h = h;
                    std::panic::resume_unwind(Box::new(payload::Injected));
                });
                self.panicked(res, before - s.len());
            }
            22 => self.locks(op, r),
            23 => self.handles(op, r),
            24 => self.family(op, r),
            25 => self.depths(op, r),
            26 => self.close(op, size, r),
            27 => self.refuse(op, r),
            28 => self.borrows(op, r),
            29 => self.skip(op, r),
            30 => self.hash = mix(self.hash, crate::scale_owned::owned(op, size, r)),
            _ => {
                // An abandoned builder deep inside.
                let n = size / 2;
                let mut b = TreeBuilder::new();
                let ev = events(&shape(0, n, r));
                if big(n, || b.push_events(ev)).is_err() {
                    fail!(TAGS | c(15), "push_events refused");
                }
                self.kill(Hold::Builder(b), vec![(0, 0); n]);
            }
        }
        // Nobody else holds anything.
        while self.trees.len() > 4 {
            let (h, s) = self.trees.swap_remove(r.below(self.trees.len()));
            self.kill(h, s);
        }
        let want: usize = self.trees.iter().map(|x| x.1.len()).sum();
        let live = payload::REG.with(|x| x.borrow().nlive);
        if want != live {
            fail!(TAGS | c(7), "after {}: {} data instances should be alive but {} are", KINDS[kind], want, live);
        }
    }

    pub fn place(&self, s: &Seq, b: u32, r: &mut Rng) -> usize {
        match b % 5 {
            0 => 0,
            1 => s.len() - 1,
            2 => (s.len() - 1).min(1),
            3 => s.len() / 2,
            _ => r.below(s.len()),
        }
    }

    fn panicked(&self, res: Result<(), Pan>, live: usize) {
        match res {
            Err(Pan::Injected) => {}
            Err(Pan::Lib(m)) => fail!(TAGS | c(3), "{}: unexpected panic: {}", w(|w| w.what.clone()), m),
            Ok(()) => fail!(TAGS | c(3), "{}: a panic of user code is swallowed", w(|w| w.what.clone())),
        }
        let now = payload::REG.with(|x| x.borrow().nlive);
        if now != live {
            fail!(TAGS | c(7), "{}: {} data instances should be alive but {} are", w(|w| w.what.clone()), live, now);
        }
    }

    fn kill(&mut self, h: Hold, s: Seq) {
        self.kill_with(h, s, None)
    }

    fn kill_with(&mut self, h: Hold, s: Seq, panic_at: Option<u32>) {
        let before = payload::REG.with(|x| x.borrow().nlive);
        w(|w| w.what = format!("drop of a huge tree ({})", match &h {
            Hold::Tree(_) => "tree handle",
            Hold::Node(_) => "node handle",
            Hold::Frozen(_) => "frozen handle",
            Hold::Hot(_) => "hot handle",
            Hold::Live(_) => "traverser",
            Hold::Stable(_) => "stable traverser",
            Hold::Builder(_) => "builder",
        }));
        if let Some(n) = panic_at {
            arm(Cb::Drop, n as usize);
            let res = call(4_000 + 400 * s.len() as u64, move || drop(h));
            payload::disarm();
            return self.panicked(res, before - s.len());
        }
        big(s.len(), move || drop(h));
        let after = payload::REG.with(|x| x.borrow().nlive);
        if before - after != s.len() {
            fail!(TAGS | c(7), "dropping the last handle freed {} of {} nodes", before - after, s.len());
        }
    }
}

fn splice(s: &mut Seq, j: usize, sub: &Seq, first: bool) {
    let d = s[j].0 + 1;
    let at = if first { j + 1 } else { end_of(s, j) };
    let add: Seq = sub.iter().map(|x| (x.0 + d, x.1)).collect();
    s.splice(at..at, add);
}

pub struct Out {
    pub hash: u64,
    pub done: Vec<u32>,
    pub nodes: u64,
}

fn inner(t: &Scale) -> Out {
    CUR.with(|c| c.set((t.seed, 0)));
    CUR_TAGS.with(|x| x.set(TAGS | c(7)));
    payload::reset();
    let mut r = Rng::new(mix(t.seed, 0xdee9));
    let mut s = S { trees: vec![], hash: 0, done: vec![0; KINDS.len()] };
    let mut nodes = 0;
    for (i, op) in t.ops.iter().enumerate() {
        CUR.with(|c| c.set((t.seed, i)));
        note(|| format!("[{}] {} {} {} {}", i, KINDS[op.kind], op.a, op.b, op.c));
        s.step(op, t.n, &mut r);
        nodes += s.trees.iter().map(|x| x.1.len() as u64).sum::<u64>();
    }
    CUR.with(|c| c.set((t.seed, t.ops.len())));
    CUR_TAGS.with(|x| x.set(TAGS | c(7)));
    while let Some((h, q)) = s.trees.pop() {
        s.kill(h, q);
    }
    let live = payload::REG.with(|x| x.borrow().nlive);
    if live != 0 {
        fail!(TAGS | c(7), "{} data instances leaked", live);
    }
    Out { hash: s.hash, done: s.done, nodes }
}

pub fn run(t: &Scale) -> Out {
    let t = t.clone();
    let verbose = VERBOSE.with(|v| v.get());
    let s0 = steps();
    let h = std::thread::Builder::new().stack_size(if t.prop == 10 { STACK } else { AMPLE }).spawn(move || {
        VERBOSE.with(|v| v.set(verbose));
        inner(&t)
    });
    match h.map(|h| h.join()) {
        Ok(Ok(mut o)) => {
            o.hash = mix(o.hash, steps() - s0);
            o
        }
        _ => fail!(TAGS, "the thread with the huge trees panicked"),
    }
}
