//! The simulated world: clients, their handles (real and model side by side), library calls under
//! simulator control, and the whole-world check.

use std::cell::{Cell, RefCell};
use std::cell::{Ref, RefMut};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

use dendron::serial::{Event, TreeBuilder, TreeSerializeIter};
use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, DftEvent,
    NonAllocatingBreadthFirstTraverser, ReverseDepthFirstTraverser, ReverseSiblingsTraverser,
    SiblingsTraverser, StableDepthFirstTraverser, StableShallowDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::{
    FrozenNode, HierarchyEditGrant, HierarchyEditProhibition, HotNode, Node, NodeWeak, Tree,
    TreeWeak,
};

use crate::model::{Ev, Model, N, T};
use crate::op::{Cb, Kind, Op};
use crate::payload::{self, Injected, P};
use crate::rng::mix;

extern "C" {
    pub fn _exit(code: i32) -> !;
    pub fn personality(persona: u64) -> i32;
}

pub const VIOLATION_EXIT: i32 = 77;
pub const MAX: u64 = u64::MAX;

/// Set of properties, one bit per property number.
pub type Tags = u32;
pub const fn c(n: u32) -> Tags {
    1 << n
}
pub fn tag_names(t: Tags) -> Vec<String> {
    (1..=20)
        .filter(|i| t & (1 << i) != 0)
        .map(|i| format!("C{:02}", i))
        .collect()
}

#[macro_export]
macro_rules! fail {
    ($tags:expr, $($arg:tt)*) => { $crate::world::fail($tags, format!($($arg)*)) };
}

/// Handle kind.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum HK {
    Node,
    Frozen,
    Hot,
}

#[derive(Clone, Debug)]
pub struct Item {
    /// 0: opening, 1: closing, 2: no event.
    pub ev: u8,
    pub n: N,
    pub depth: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SK {
    Sib,
    Dft,
    Shallow,
    NaBfs,
    ABfs,
}

#[derive(Clone, Debug)]
pub enum MIter {
    Dft { next: Option<Ev>, start: N },
    RDft { next: Option<Ev>, start: N },
    Ser { next: Option<Ev>, start: N },
    Sib(Option<N>),
    RSib(Option<N>),
    Anc(Option<N>),
    Stable { kind: SK, top: N, items: VecDeque<Item>, done: bool },
}

#[derive(Clone, Debug)]
pub struct MBuilder {
    pub root: Option<N>,
    pub stack: Vec<N>,
    /// Some event has been refused or interrupted before.
    pub failed: bool,
}

impl MBuilder {
    pub fn new(root: Option<N>) -> Self {
        MBuilder {
            root,
            stack: root.into_iter().collect(),
            failed: false,
        }
    }
    /// What an inconsistency of the builder concerns.
    pub fn tags(&self) -> Tags {
        c(15) | if self.failed { c(3) } else { 0 }
    }
}

#[derive(Clone, Debug)]
pub enum MEv {
    Open { val: i64, pid: u64 },
    Close(usize),
    DOpen(N),
    DClose(N),
}

/// Model side of a handle.
#[derive(Clone, Debug)]
pub enum M {
    Node(N),
    Frozen(N),
    Hot(N),
    Tree(T),
    Grant(T),
    Prohib(T),
    NWeak(N),
    TWeak(T),
    Guard { n: N, mutable: bool, hk: HK },
    Iter(MIter),
    Builder(MBuilder),
    Stream(Vec<MEv>),
    /// Many handles of the same kind to the same thing.
    Hoard(Box<M>, usize),
}

impl M {
    pub fn of(hk: HK, n: N) -> M {
        match hk {
            HK::Node => M::Node(n),
            HK::Frozen => M::Frozen(n),
            HK::Hot => M::Hot(n),
        }
    }
    pub fn hk(&self) -> HK {
        match self {
            M::Frozen(_) => HK::Frozen,
            M::Hot(_) => HK::Hot,
            _ => HK::Node,
        }
    }
    pub fn node(&self) -> N {
        match self {
            M::Node(n) | M::Frozen(n) | M::Hot(n) | M::NWeak(n) => *n,
            M::Guard { n, .. } => *n,
            _ => unreachable!(),
        }
    }
    pub fn is_handle(&self) -> bool {
        matches!(self, M::Node(_) | M::Frozen(_) | M::Hot(_))
    }
    pub fn name(&self) -> &'static str {
        match self {
            M::Node(_) => "node",
            M::Frozen(_) => "frozen",
            M::Hot(_) => "hot",
            M::Tree(_) => "tree",
            M::Grant(_) => "grant",
            M::Prohib(_) => "prohibition",
            M::NWeak(_) => "node-weak",
            M::TWeak(_) => "tree-weak",
            M::Guard { .. } => "guard",
            M::Iter(_) => "iter",
            M::Builder(_) => "builder",
            M::Stream(_) => "stream",
            M::Hoard(..) => "hoard",
        }
    }
    /// Strongly held nodes/trees, locks.
    fn holds(&self, m: &Model, f: &mut dyn FnMut(T)) {
        match self {
            M::Node(n) | M::Frozen(n) | M::Hot(n) | M::Guard { n, .. } => f(m.tree(*n)),
            M::Tree(t) => f(*t),
            M::Hoard(x, _) => x.holds(m, f),
            M::Grant(_) | M::Prohib(_) | M::NWeak(_) | M::TWeak(_) => {}
            M::Iter(it) => match it {
                MIter::Dft { next, start } | MIter::RDft { next, start } | MIter::Ser { next, start } => {
                    if let Some(e) = next {
                        f(m.tree(e.node()));
                        f(m.tree(*start));
                    }
                }
                MIter::Sib(x) | MIter::RSib(x) | MIter::Anc(x) => {
                    if let Some(n) = x {
                        f(m.tree(*n));
                    }
                }
                MIter::Stable { top, done, .. } => {
                    if !done {
                        f(m.tree(*top));
                    }
                }
            },
            M::Builder(b) => {
                for n in b.root.iter().chain(b.stack.last()) {
                    f(m.tree(*n));
                }
            }
            M::Stream(v) => {
                for e in v {
                    match e {
                        MEv::DOpen(n) | MEv::DClose(n) => f(m.tree(*n)),
                        _ => {}
                    }
                }
            }
        }
    }
    pub fn related(&self, m: &Model, f: &mut dyn FnMut(T)) {
        self.holds(m, f);
        match self {
            M::Grant(t) | M::Prohib(t) | M::TWeak(t) => f(*t),
            M::NWeak(n) => f(m.tree(*n)),
            M::Hoard(x, _) => x.related(m, f),
            _ => {}
        }
    }
    fn locks(&self, m: &Model) -> (Option<T>, Option<T>) {
        match self {
            M::Hot(n) => (Some(m.tree(*n)), None),
            M::Frozen(n) => (None, Some(m.tree(*n))),
            M::Guard { n, hk, .. } => match hk {
                HK::Node => (None, None),
                HK::Frozen => (None, Some(m.tree(*n))),
                HK::Hot => (Some(m.tree(*n)), None),
            },
            M::Grant(t) => (Some(*t), None),
            M::Hoard(x, _) => x.locks(m),
            M::Prohib(t) => (None, Some(*t)),
            M::Iter(MIter::Stable { top, done, .. }) if !done => (None, Some(m.tree(*top))),
            M::Builder(b) => (b.stack.last().map(|n| m.tree(*n)), None),
            _ => (None, None),
        }
    }
}

/// A borrow of node data together with the handle it was taken through.
pub struct Guard {
    // The order matters: the borrow ends before the handle goes.
    pub r: GRef,
    pub owner: Box<Real>,
}
pub enum GRef {
    S(Ref<'static, P>),
    M(RefMut<'static, P>),
}

pub enum RIter {
    Dft(DepthFirstTraverser<P>),
    RDft(ReverseDepthFirstTraverser<P>),
    Ser(TreeSerializeIter<P>),
    Sib(SiblingsTraverser<P>),
    RSib(ReverseSiblingsTraverser<P>),
    Anc(AncestorsTraverser<P>),
    SSib(StableSiblingsTraverser<P>),
    SDft(StableDepthFirstTraverser<P>),
    SSh(StableShallowDepthFirstTraverser<P>),
    NaB(NonAllocatingBreadthFirstTraverser<P>),
    AB(AllocatingBreadthFirstTraverser<P>),
}

impl RIter {
    pub fn dup(&self) -> RIter {
        match self {
            RIter::Dft(x) => RIter::Dft(x.clone()),
            RIter::RDft(x) => RIter::RDft(x.clone()),
            RIter::Ser(x) => RIter::Ser(x.clone()),
            RIter::Sib(x) => RIter::Sib(x.clone()),
            RIter::RSib(x) => RIter::RSib(x.clone()),
            RIter::Anc(x) => RIter::Anc(x.clone()),
            RIter::SSib(x) => RIter::SSib(x.clone()),
            RIter::SDft(x) => RIter::SDft(x.clone()),
            RIter::SSh(x) => RIter::SSh(x.clone()),
            RIter::NaB(x) => RIter::NaB(x.clone()),
            RIter::AB(x) => RIter::AB(x.clone()),
        }
    }
}

pub enum SEv {
    E(Event<P>),
    D(DftEvent<Node<P>>),
}

/// Real side of a handle.
pub enum Real {
    Node(Node<P>),
    Frozen(FrozenNode<P>),
    Hot(HotNode<P>),
    Tree(Tree<P>),
    Grant(HierarchyEditGrant<P>),
    Prohib(HierarchyEditProhibition<P>),
    NWeak(NodeWeak<P>),
    TWeak(TreeWeak<P>),
    Guard(Guard),
    Iter(RIter),
    Builder(TreeBuilder<P>),
    Stream(Vec<SEv>),
    Hoard(Vec<Real>),
}

#[macro_export]
macro_rules! nh {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            $crate::world::Real::Node($x) => $e,
            $crate::world::Real::Frozen($x) => $e,
            $crate::world::Real::Hot($x) => $e,
            _ => unreachable!("[harness] node handle expected"),
        }
    };
}

impl Real {
    pub fn plain(&self) -> Node<P> {
        match self {
            Real::Node(x) => x.clone(),
            Real::Frozen(x) => x.plain(),
            Real::Hot(x) => x.plain(),
            _ => unreachable!("[harness] node handle expected"),
        }
    }
}

pub struct Slot {
    pub client: u8,
    pub m: M,
    /// Absent while a library call is using it.
    pub r: Option<Real>,
}

pub struct Stats {
    pub ops: [[u64; 3]; 64],
    pub probes: BTreeMap<&'static str, u64>,
    pub checks: u64,
    pub steps: u64,
    pub states: BTreeSet<u64>,
    pub fired_runs: u64,
}

impl Default for Stats {
    fn default() -> Self {
        Stats {
            ops: [[0; 3]; 64],
            probes: BTreeMap::new(),
            checks: 0,
            steps: 0,
            states: BTreeSet::new(),
            fired_runs: 0,
        }
    }
}

pub struct World {
    pub m: Model,
    pub slots: Vec<Option<Slot>>,
    pub leaked: Vec<M>,
    /// Things held by the operation in progress.
    pub pins: Vec<M>,
    pub obs: Vec<Option<NodeWeak<P>>>,
    pub tobs: Vec<Option<TreeWeak<P>>>,
    /// Payloads whose fate is unspecified (a destructor of their tree has panicked).
    pub loose: BTreeSet<u64>,
    /// Trees nested operations must not touch.
    pub exclude: Vec<T>,
    /// Trees nested operations may look at, but must not edit or drop.
    pub soft: Vec<T>,
    pub soft_on: bool,
    /// Trees that died, in order.
    pub dead_log: Vec<T>,
    /// The length of the log when the operation in progress has started.
    pub dead_mark: usize,
    /// What happened since the last whole-world check.
    pub ctx: Tags,
    pub what: String,
    pub depth: u32,
    pub max_nodes: usize,
    pub max_slots: usize,
    pub hash: u64,
    /// Nested operations ran inside the current call.
    pub nested_ran: bool,
    pub probe_rot: usize,
    /// Unspecified state: the run ends here.
    pub over: bool,
    /// Trees that the library call in progress may be holding by itself.
    pub touched: Vec<T>,
    /// Trees of handles that the current operation has taken away for good.
    pub in_hand: Vec<T>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::new());
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    pub static CUR: Cell<(u64, usize)> = Cell::new((0, 0));
    pub static CUR_TAGS: Cell<Tags> = Cell::new(0);
    pub static VERBOSE: Cell<bool> = Cell::new(false);
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|x| f(&mut x.borrow_mut()))
}

pub fn probe(name: &'static str) {
    STATS.with(|s| *s.borrow_mut().probes.entry(name).or_insert(0) += 1);
}

/// Reports a violation and ends this process at once: no more code runs on the broken state.
pub fn fail(tags: Tags, msg: String) -> ! {
    use std::io::Write;
    let (seed, op) = CUR.with(|c| c.get());
    let out = format!(
        "VIOL {} {} {} {}\n",
        tags,
        seed,
        op,
        msg.replace('\n', " | ")
    );
    let so = std::io::stdout();
    let mut so = so.lock();
    let _ = so.write_all(out.as_bytes());
    let _ = so.flush();
    crate::report::emit();
    unsafe { _exit(VIOLATION_EXIT) }
}

/// How a library call panicked.
pub enum Pan {
    Injected,
    Lib(String),
}

pub fn note(msg: impl FnOnce() -> String) {
    if VERBOSE.with(|v| v.get()) {
        eprintln!("      {}", msg());
    }
}

/// Calls the library under simulator control: callbacks are fault points, link steps are counted
/// against the budget, panics are caught.
pub fn call<R>(budget: u64, f: impl FnOnce() -> R) -> Result<R, Pan> {
    let s0 = steps();
    let old = set_limit(s0.saturating_add(budget));
    payload::IN_CALL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    payload::IN_CALL.with(|c| c.set(c.get() - 1));
    set_limit(old);
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<Injected>() {
                std::mem::forget(e);
                return Err(Pan::Injected);
            }
            let msg = match (e.downcast_ref::<String>(), e.downcast_ref::<&str>()) {
                (Some(s), _) => s.clone(),
                (_, Some(s)) => s.to_string(),
                _ => "?".to_string(),
            };
            if msg.contains("[simulation] step budget exhausted") {
                fail(
                    c(20) | CUR_TAGS.with(|t| t.get()),
                    format!(
                        "{}: the call took more than {} elementary steps",
                        w(|w| w.what.clone()),
                        budget
                    ),
                );
            }
            Err(Pan::Lib(msg))
        }
    }
}

#[cfg(dendron_sim)]
pub fn steps() -> u64 {
    dendron::sim::steps()
}
#[cfg(dendron_sim)]
pub fn set_limit(l: u64) -> u64 {
    dendron::sim::set_limit(l)
}
#[cfg(not(dendron_sim))]
pub fn steps() -> u64 {
    0
}
#[cfg(not(dendron_sim))]
pub fn set_limit(_: u64) -> u64 {
    MAX
}

/// Drops library values under simulator control. Model effects must have been applied.
pub fn drop_real<R>(budget: u64, tags: Tags, what: &str, r: R) {
    match call(budget, move || drop(r)) {
        Ok(()) => {}
        Err(Pan::Injected) => {
            if !payload::DROP_PANIC.with(|d| d.get()) {
                fail(tags, format!("[harness] stray injected panic in {}", what));
            }
        }
        Err(Pan::Lib(m)) => fail(
            tags | c(5) | c(7) | c(9),
            format!("panic while dropping {}: {}", what, m),
        ),
    }
}

impl World {
    fn new() -> Self {
        World {
            m: Model::default(),
            slots: vec![],
            leaked: vec![],
            pins: vec![],
            obs: vec![],
            tobs: vec![],
            loose: BTreeSet::new(),
            exclude: vec![],
            soft: vec![],
            soft_on: true,
            dead_log: vec![],
            dead_mark: 0,
            ctx: 0,
            what: String::new(),
            depth: 0,
            max_nodes: 40,
            max_slots: 40,
            hash: 0,
            nested_ran: false,
            probe_rot: 0,
            over: false,
            touched: vec![],
            in_hand: vec![],
        }
    }

    pub fn all_m(&self) -> impl Iterator<Item = &M> {
        self.slots
            .iter()
            .flatten()
            .map(|s| &s.m)
            .chain(self.leaked.iter())
            .chain(self.pins.iter())
    }
    pub fn grants(&self, t: T) -> bool {
        self.all_m().any(|x| x.locks(&self.m).0 == Some(t))
    }
    pub fn prohibs(&self, t: T) -> bool {
        self.all_m().any(|x| x.locks(&self.m).1 == Some(t))
    }
    pub fn mut_borrowed(&self, n: N) -> bool {
        self.all_m()
            .any(|x| matches!(x, M::Guard { n: k, mutable: true, .. } if *k == n))
    }
    pub fn borrowed(&self, n: N) -> bool {
        self.all_m().any(|x| matches!(x, M::Guard { n: k, .. } if *k == n))
    }
    pub fn any_mut_borrowed(&self, ns: &[N]) -> bool {
        let b: BTreeSet<N> = self
            .all_m()
            .filter_map(|x| match x {
                M::Guard { n, mutable: true, .. } => Some(*n),
                _ => None,
            })
            .collect();
        !b.is_empty() && ns.iter().any(|n| b.contains(n))
    }
    pub fn any_guard(&self) -> bool {
        self.all_m().any(|x| matches!(x, M::Guard { .. }))
    }
    pub fn alive_nodes(&self) -> usize {
        self.m.nodes.iter().filter(|n| n.alive).count()
    }
    pub fn nslots(&self) -> usize {
        self.slots.iter().flatten().count()
    }

    /// Updates liveness of the trees from the handles; logs and returns the trees that die.
    pub fn gc(&mut self) -> Vec<T> {
        let mut held = vec![false; self.m.trees.len()];
        for x in self.all_m() {
            x.holds(&self.m, &mut |t| held[t] = true);
        }
        let mut dead = vec![];
        for t in 0..self.m.trees.len() {
            if self.m.trees[t].alive && !held[t] {
                self.m.trees[t].alive = false;
                for n in self.m.subtree(self.m.trees[t].root) {
                    self.m.nodes[n].alive = false;
                }
                dead.push(t);
            }
        }
        self.dead_log.extend(&dead);
        dead
    }
    pub fn tree_size(&self, t: T) -> usize {
        self.m.subtree(self.m.trees[t].root).len()
    }
    pub fn gc_budget(&mut self) -> u64 {
        let d = self.gc();
        d.iter().map(|t| lin(self.tree_size(*t))).sum()
    }

    pub fn set_obs(&mut self, n: N, o: NodeWeak<P>) {
        if self.obs.len() <= n {
            self.obs.resize_with(n + 1, || None);
        }
        self.obs[n] = Some(o);
    }
    pub fn obs(&self, n: N) -> Option<&NodeWeak<P>> {
        self.obs.get(n).and_then(|x| x.as_ref())
    }
    pub fn tobs(&self, t: T) -> Option<&TreeWeak<P>> {
        self.tobs.get(t).and_then(|x| x.as_ref())
    }

    pub fn add(&mut self, client: u8, m: M, r: Real) -> usize {
        let s = Some(Slot {
            client,
            m,
            r: Some(r),
        });
        match self.slots.iter().position(|x| x.is_none()) {
            Some(i) => {
                self.slots[i] = s;
                i
            }
            None => {
                self.slots.push(s);
                self.slots.len() - 1
            }
        }
    }
    /// Adds a handle that the operation in progress is using.
    pub fn add_busy(&mut self, client: u8, m: M) -> usize {
        let s = Some(Slot { client, m, r: None });
        match self.slots.iter().position(|x| x.is_none()) {
            Some(i) => {
                self.slots[i] = s;
                i
            }
            None => {
                self.slots.push(s);
                self.slots.len() - 1
            }
        }
    }
    pub fn take(&mut self, i: usize) -> Real {
        self.slots[i]
            .as_mut()
            .and_then(|s| s.r.take())
            .expect("[harness] slot is busy")
    }
    pub fn put(&mut self, i: usize, r: Real) {
        self.slots[i].as_mut().expect("[harness] slot").r = Some(r);
    }
    pub fn slot_m(&self, i: usize) -> &M {
        &self.slots[i].as_ref().expect("[harness] slot").m
    }
    /// Removes the slot, giving its real part.
    pub fn remove(&mut self, i: usize) -> (M, Option<Real>) {
        let s = self.slots[i].take().expect("[harness] slot");
        let m = &self.m;
        let in_hand = &mut self.in_hand;
        s.m.related(m, &mut |t| in_hand.push(t));
        (s.m, s.r)
    }

    pub fn candidates(&self, client: Option<u8>, pred: &dyn Fn(&World, &M) -> bool) -> Vec<usize> {
        let mut v = vec![];
        for (i, s) in self.slots.iter().enumerate() {
            if let Some(s) = s {
                if s.r.is_none() || client.map_or(false, |c| c != s.client) {
                    continue;
                }
                if !self.exclude.is_empty() || !self.soft.is_empty() {
                    let mut bad = false;
                    s.m.related(&self.m, &mut |t| {
                        bad |= self.exclude.contains(&t)
                            || ((self.soft_on || !self.m.trees[t].alive) && self.soft.contains(&t))
                    });
                    if bad {
                        continue;
                    }
                }
                if pred(self, &s.m) {
                    v.push(i);
                }
            }
        }
        v
    }
    /// Picks a handle of the client, or of any client if it has none.
    pub fn pick(&self, client: u8, salt: u32, pred: &dyn Fn(&World, &M) -> bool) -> Option<usize> {
        let mut v = self.candidates(Some(client), pred);
        if v.is_empty() || salt % 8 == 7 {
            v = self.candidates(None, pred);
        }
        if v.is_empty() {
            None
        } else {
            Some(v[(salt / 8) as usize % v.len()])
        }
    }

    /// Gets a plain handle to a live node through its observer.
    pub fn up(&self, n: N) -> Node<P> {
        match self.obs(n) {
            Some(o) => match o.upgrade() {
                Some(x) => x,
                None => fail!(
                    c(8) | c(7) | self.ctx,
                    "{}: the weak reference to live node {} does not upgrade",
                    self.what,
                    n
                ),
            },
            None => fail!(c(8), "[harness] node {} has no observer", n),
        }
    }
    pub fn is_node(&self, real: &Node<P>, n: N) -> bool {
        match self.obs(n).and_then(|o| o.upgrade()) {
            Some(x) => x.ptr_eq(real),
            None => false,
        }
    }
    pub fn describe(&self, real: &Node<P>) -> String {
        for n in 0..self.m.nodes.len() {
            if self.m.nodes[n].alive && self.is_node(real, n) {
                return format!("node {}", n);
            }
        }
        "an unknown node".to_string()
    }

    /// Learns the handles of nodes created inside the library (clones, rebuilt trees).
    pub fn bind(&mut self) {
        if self.over {
            return;
        }
        for t in 0..self.m.trees.len() {
            if !self.m.trees[t].alive || self.exclude.contains(&t) {
                continue;
            }
            let root = self.m.trees[t].root;
            if self.obs(root).is_none() {
                // Being built: beyond reach until the builder is finished.
                continue;
            }
            if self.tobs(t).is_none() {
                let tw = self.up(root).tree().downgrade();
                if self.tobs.len() <= t {
                    self.tobs.resize_with(t + 1, || None);
                }
                self.tobs[t] = Some(tw);
            }
            let unbound = self
                .m
                .subtree(root)
                .iter()
                .any(|n| self.obs(*n).is_none() || self.m.nodes[*n].pid == 0);
            if !unbound {
                continue;
            }
            let mut st = vec![(root, self.up(root))];
            while let Some((n, real)) = st.pop() {
                if self.obs(n).is_none() {
                    self.set_obs(n, real.downgrade());
                }
                if self.m.nodes[n].pid == 0 {
                    match real.try_borrow_data() {
                        Ok(d) => {
                            self.m.nodes[n].pid = d.id;
                            if d.val != self.m.nodes[n].val {
                                fail!(
                                    self.ctx | c(16),
                                    "{}: node {} should have data {} but has {}",
                                    self.what,
                                    n,
                                    self.m.nodes[n].val,
                                    d.val
                                );
                            }
                        }
                        Err(_) => fail!(
                            c(18) | self.ctx,
                            "{}: data of new node {} is borrowed",
                            self.what,
                            n
                        ),
                    };
                }
                let mut cur = real.first_child();
                let ch = self.m.nodes[n].ch.clone();
                for (i, k) in ch.iter().enumerate() {
                    match cur {
                        Some(x) => {
                            cur = x.next_sibling();
                            st.push((*k, x));
                        }
                        None => fail!(
                            c(1) | self.ctx,
                            "{}: node {} should have {} children but has {}",
                            self.what,
                            n,
                            ch.len(),
                            i
                        ),
                    }
                }
                if cur.is_some() {
                    fail!(
                        c(1) | self.ctx,
                        "{}: node {} has more than {} children",
                        self.what,
                        n,
                        ch.len()
                    );
                }
            }
        }
    }

    /// Checks that the data of the trees that died since `from` are gone.
    pub fn check_deaths(&mut self, from: usize, tags: Tags) {
        if self.over {
            return;
        }
        let dead: Vec<T> = self.dead_log[from..].to_vec();
        for t in dead {
            if self.depth > 0 && self.touched.contains(&t) {
                probe("nested operation dropped a tree in use by the interrupted call");
                self.over = true;
                continue;
            }
            for n in self.m.subtree(self.m.trees[t].root) {
                let pid = self.m.nodes[n].pid;
                if pid != 0 && payload::is_live(pid) {
                    if payload::DROP_PANIC.with(|d| d.get()) || self.loose.contains(&pid) {
                        self.loose.insert(pid);
                    } else {
                        fail!(
                            c(7) | c(9) | tags,
                            "{}: the last handle of tree {} is gone, but data of node {} is not dropped",
                            self.what,
                            t,
                            n
                        );
                    }
                }
            }
        }
    }

    /// The whole-world check: everything observable against the model.
    ///
    /// `data`: probe the data borrows; `full`: also the payload registry.
    pub fn deep(&mut self, data: bool, full: bool) {
        if self.over {
            return;
        }
        STATS.with(|s| s.borrow_mut().checks += 1);
        self.probe_rot += 1;
        let ctx = self.ctx;
        let what = self.what.clone();
        let r = catch_unwind(AssertUnwindSafe(|| self.deep_inner(data, full)));
        if let Err(e) = r {
            let msg = match (e.downcast_ref::<String>(), e.downcast_ref::<&str>()) {
                (Some(s), _) => s.clone(),
                (_, Some(s)) => s.to_string(),
                _ => "?".to_string(),
            };
            fail!(
                c(1) | c(4) | c(5) | c(8) | ctx,
                "after {}: panic while observing: {}",
                what,
                msg
            );
        }
    }

    fn deep_inner(&mut self, data: bool, full: bool) {
        let ctx = self.ctx;
        let what = std::mem::take(&mut self.what);
        let m = &self.m;
        // The call in progress may still hold what it has been given.
        let skip = |t: T| {
            self.exclude.contains(&t)
                || (self.depth > 0 && !m.trees[t].alive && self.soft.contains(&t))
        };
        let live: Vec<T> = (0..m.trees.len())
            .filter(|t| m.trees[*t].alive && !skip(*t) && self.tobs(*t).is_some())
            .collect();

        // Weak references.
        for n in 0..m.nodes.len() {
            if skip(m.tree(n)) {
                continue;
            }
            if let Some(o) = self.obs(n) {
                let up = o.upgrade();
                if m.nodes[n].alive != up.is_some() {
                    fail!(
                        c(8) | c(7) | ctx,
                        "after {}: weak reference to {} node {} upgrades: {}",
                        what,
                        if m.nodes[n].alive { "live" } else { "dead" },
                        n,
                        up.is_some()
                    );
                }
            }
        }
        for t in 0..m.trees.len() {
            if skip(t) {
                continue;
            }
            if let Some(o) = self.tobs(t) {
                if m.trees[t].alive != o.upgrade().is_some() {
                    fail!(
                        c(8) | c(7) | ctx,
                        "after {}: weak reference to {} tree {} is wrong",
                        what,
                        if m.trees[t].alive { "live" } else { "dead" },
                        t
                    );
                }
            }
        }

        let mut trees: Vec<(T, Tree<P>)> = vec![];
        for &t in &live {
            let tree = match self.tobs(t).and_then(|o| o.upgrade()) {
                Some(x) => x,
                None => continue,
            };
            self.check_tree(t, &tree, data, ctx, &what);
            trees.push((t, tree));
        }
        for (t, a) in &trees {
            for (u, b) in &trees {
                if (t == u) != a.ptr_eq(b) {
                    fail!(c(1) | ctx, "after {}: identity of trees {} and {}", what, t, u);
                }
            }
        }
        // Locks.
        for (t, tree) in &trees {
            let (g, p) = (self.grants(*t), self.prohibs(*t));
            if g && p {
                fail!(c(4), "[harness] the model has both locks on tree {}", t);
            }
            let rg = tree.grant_hierarchy_edit().is_ok();
            let rp = tree.prohibit_hierarchy_edit().is_ok();
            if rg == p || rp == g {
                fail!(
                    c(4) | c(5) | ctx,
                    "after {}: tree {} should have {} active, but a grant is {} and a prohibition is {}",
                    what,
                    t,
                    if g { "a grant" } else if p { "a prohibition" } else { "no lock" },
                    if rg { "acquirable" } else { "refused" },
                    if rp { "acquirable" } else { "refused" }
                );
            }
            // Through a node, which aggregates.
            let ns = m.subtree(m.trees[*t].root);
            let n = ns[self.probe_rot % ns.len()];
            let ng = self.up(n).bundle_new_hierarchy_edit_grant().is_ok();
            let np = self.up(n).bundle_new_hierarchy_edit_prohibition().is_ok();
            if ng == p || np == g {
                fail!(
                    c(4) | c(5) | ctx,
                    "after {}: locks through node {} disagree with tree {}",
                    what,
                    n,
                    t
                );
            }
        }
        // Tokens.
        for (i, s) in self.slots.iter().enumerate() {
            let s = match s {
                Some(s) => s,
                None => continue,
            };
            let (tt, valid): (T, Box<dyn Fn(&Node<P>) -> bool>) = match (&s.m, &s.r) {
                (M::Grant(t), Some(Real::Grant(g))) => {
                    (*t, Box::new(move |n| g.is_valid_for_node(n)))
                }
                (M::Prohib(t), Some(Real::Prohib(g))) => {
                    (*t, Box::new(move |n| g.is_valid_for_node(n)))
                }
                _ => continue,
            };
            for &t in &live {
                let ns = m.subtree(m.trees[t].root);
                let picks: Vec<N> = if ns.len() <= 8 {
                    ns
                } else {
                    (0..8).map(|k| ns[(k * ns.len() / 8 + self.probe_rot) % ns.len()]).collect()
                };
                for n in picks {
                    if valid(&self.up(n)) != (tt == t) {
                        fail!(
                            c(6) | ctx,
                            "after {}: token in slot {} taken on tree {} is{} valid for node {} of tree {}",
                            what,
                            i,
                            tt,
                            if tt == t { " not" } else { "" },
                            n,
                            t
                        );
                    }
                }
            }
        }
        // Builders.
        for s in self.slots.iter().flatten() {
            if let (M::Builder(b), Some(Real::Builder(r))) = (&s.m, &s.r) {
                if r.is_root_available() != b.root.is_some()
                    || r.is_root_closed() != (b.root.is_some() && b.stack.is_empty())
                {
                    fail!(
                        b.tags() | ctx,
                        "after {}: builder with {} open nodes says root available {} and closed {}",
                        what,
                        b.stack.len(),
                        r.is_root_available(),
                        r.is_root_closed()
                    );
                }
            }
        }
        if full {
            self.check_registry(&what);
        }
        self.what = what;
    }

    fn check_registry(&self, what: &str) {
        let ctx = self.ctx;
        let (nlive, dd) = payload::REG.with(|r| {
            let r = r.borrow();
            (r.nlive, r.double_drop)
        });
        if let Some(id) = dd {
            fail!(c(7) | c(9) | ctx, "after {}: data {} was dropped twice", what, id);
        }
        let mut expect = 0;
        for (n, x) in self.m.nodes.iter().enumerate() {
            if x.alive && !self.exclude.contains(&x.tree) {
                expect += 1;
                if x.pid != 0 && !payload::is_live(x.pid) {
                    fail!(c(7) | c(18) | ctx, "after {}: data of live node {} was dropped", what, n);
                }
            }
        }
        for x in self.all_m() {
            if let M::Stream(v) = x {
                expect += v.iter().filter(|e| matches!(e, MEv::Open { .. })).count();
            }
        }
        expect += self.loose.iter().filter(|id| payload::is_live(**id)).count();
        if expect != nlive {
            fail!(
                c(7) | ctx,
                "after {}: {} data instances should be alive but {} are",
                what,
                expect,
                nlive
            );
        }
    }

    fn check_tree(&self, t: T, tree: &Tree<P>, data: bool, ctx: Tags, what: &str) {
        let m = &self.m;
        let root = m.trees[t].root;
        let tags = c(1) | ctx;
        macro_rules! bad {
            ($($a:tt)*) => { fail!(tags, "after {}: {}", what, format!($($a)*)) };
        }
        let nodes = m.subtree(root);
        let real: Vec<Node<P>> = nodes.iter().map(|n| self.up(*n)).collect();
        let mut pos = BTreeMap::new();
        for (i, n) in nodes.iter().enumerate() {
            pos.insert(*n, i);
        }
        let is = |x: &Node<P>, n: N| x.ptr_eq(&real[pos[&n]]);
        let iso = |x: Option<Node<P>>, n: Option<N>| match (&x, n) {
            (None, None) => true,
            (Some(x), Some(n)) => is(x, n),
            _ => false,
        };
        if !is(&tree.root(), root) {
            bad!("the root of tree {} should be node {} but is {}", t, root, self.describe(&tree.root()));
        }
        for (i, &n) in nodes.iter().enumerate() {
            let r = &real[i];
            let nd = &m.nodes[n];
            let ch = &nd.ch;
            let sib = m.siblings(n);
            let idx = m.index(n);
            if !iso(r.parent(), nd.parent) {
                bad!("parent of node {}", n);
            }
            if r.is_root() != nd.parent.is_none() {
                bad!("is_root of node {}", n);
            }
            if !iso(r.first_child(), ch.first().copied()) {
                bad!("first child of node {} should be {:?}", n, ch.first());
            }
            if !iso(r.last_child(), ch.last().copied()) {
                bad!("last child of node {} should be {:?}", n, ch.last());
            }
            match (r.first_last_child(), ch.first()) {
                (None, None) => {}
                (Some((a, b)), Some(_)) if is(&a, ch[0]) && is(&b, ch[ch.len() - 1]) => {}
                _ => bad!("first and last child of node {}", n),
            }
            if !iso(r.next_sibling(), m.next_sib(n)) {
                bad!("next sibling of node {} should be {:?}", n, m.next_sib(n));
            }
            if !iso(r.prev_sibling(), m.prev_sib(n)) {
                bad!("previous sibling of node {} should be {:?}", n, m.prev_sib(n));
            }
            if !is(&r.first_sibling(), sib[0]) {
                bad!("first sibling of node {}", n);
            }
            if !is(&r.last_sibling(), sib[sib.len() - 1]) {
                bad!("last sibling of node {}", n);
            }
            let (a, b) = r.first_last_sibling();
            if !is(&a, sib[0]) || !is(&b, sib[sib.len() - 1]) {
                bad!("first and last sibling of node {}", n);
            }
            if r.has_prev_sibling() != (idx > 0) || r.has_next_sibling() != (idx + 1 < sib.len()) {
                bad!("sibling predicates of node {}", n);
            }
            if r.num_children() != ch.len() || r.count_children() != ch.len() {
                bad!("number of children of node {} should be {} but is {}", n, ch.len(), r.num_children());
            }
            if r.has_children() != !ch.is_empty()
                || r.has_one_child() != (ch.len() == 1)
                || r.has_multiple_children() != (ch.len() > 1)
            {
                bad!("child predicates of node {}", n);
            }
            if sib.len() <= 64 || (i + self.probe_rot) % 16 == 0 {
                if r.count_preceding_siblings() != idx
                    || r.count_following_siblings() != sib.len() - 1 - idx
                {
                    bad!("sibling counts of node {}", n);
                }
            }
            if r.count_ancestors() != m.depth(n) {
                bad!("number of ancestors of node {}", n);
            }
            if !is(&r.root(), root) {
                bad!("root seen from node {}", n);
            }
            if !r.belongs_to(tree) || !r.tree().ptr_eq(tree) || !r.belongs_to_same_tree(&real[0]) {
                bad!("tree of node {}", n);
            }
            if data {
                let (mb, b) = (self.mut_borrowed(n), self.borrowed(n));
                match r.try_borrow_data() {
                    Ok(d) => {
                        if mb {
                            fail!(c(18) | ctx, "after {}: exclusively borrowed data of node {} can be borrowed", what, n);
                        }
                        if d.id != nd.pid || d.val != nd.val {
                            fail!(
                                c(18) | c(2) | ctx,
                                "after {}: node {} should have data {}.{} but has {}.{}",
                                what, n, nd.pid, nd.val, d.id, d.val
                            );
                        }
                    }
                    Err(_) => {
                        if !mb {
                            fail!(c(18) | ctx, "after {}: data of node {} cannot be borrowed", what, n);
                        }
                    }
                }
                if r.try_borrow_data_mut().is_ok() == b {
                    fail!(c(18) | ctx, "after {}: exclusive borrow of data of node {} should{} succeed", what, n, if b { " not" } else { "" });
                }
            }
        }
        for (u, tr) in m.trees.iter().enumerate() {
            if u != t && tr.alive && !self.exclude.contains(&u) && self.obs(tr.root).is_some() {
                let o = self.up(tr.root);
                if o.belongs_to(tree) || o.belongs_to_same_tree(&real[0]) {
                    bad!("root of tree {} belongs to tree {}", u, t);
                }
            }
        }
    }

    /// Fingerprint of the whole state: forest shapes, locks, handles.
    pub fn fingerprint(&self) -> u64 {
        let mut sum = 0u64;
        for t in 0..self.m.trees.len() {
            if !self.m.trees[t].alive {
                continue;
            }
            let mut h = 0xcbf2_9ce4_8422_2325;
            for (e, _) in self.m.events(self.m.trees[t].root) {
                h = mix(h, matches!(e, Ev::Open(_)) as u64 + 1);
            }
            h = mix(h, self.grants(t) as u64 + 2 * self.prohibs(t) as u64);
            sum = sum.wrapping_add(h);
        }
        let mut k: BTreeMap<&'static str, u64> = BTreeMap::new();
        for x in self.all_m() {
            *k.entry(x.name()).or_insert(0) += 1;
        }
        for (i, (_, v)) in k.iter().enumerate() {
            sum = mix(sum, *v * 16 + i as u64);
        }
        sum
    }
}

/// Generous bound for operations that visit `n` nodes.
pub fn lin(n: usize) -> u64 {
    400 + 80 * n as u64
}
/// Generous bound for operations that visit a fixed number of nodes.
pub const CONST: u64 = 160;

pub fn reset() {
    // Old worlds are left alone: the handles in them may be broken.
    let old = W.with(|x| std::mem::replace(&mut *x.borrow_mut(), World::new()));
    std::mem::forget(old.leaked);
    std::mem::forget(old.slots);
    drop(old.obs);
    drop(old.tobs);
}

/// Called from inside a user callback that the library is executing.
pub fn callback(cb: Cb, id: u64, ops: &[Op]) {
    let s0 = steps();
    let lim = set_limit(MAX);
    let in_call = payload::IN_CALL.with(|x| x.replace(0));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mark = w(|w| {
            w.nested_ran = true;
            w.depth += 1;
            let mut touched = w.soft.clone();
            touched.extend(&w.in_hand);
            for s in w.slots.iter().flatten().filter(|s| s.r.is_none()) {
                s.m.related(&w.m, &mut |t| touched.push(t));
            }
            for m in &w.pins {
                m.related(&w.m, &mut |t| touched.push(t));
            }
            w.touched = touched;
            if cb == Cb::Drop {
                w.ctx |= c(9);
            }
            w.exclude.len()
        });
        if cb == Cb::Drop {
            // The tree of the data being dropped must be beyond reach.
            w(|w| {
                if let Some(n) = w.m.nodes.iter().position(|x| x.pid == id) {
                    if !w.m.nodes[n].alive {
                        let t = w.m.tree(n);
                        for k in w.m.subtree(w.m.trees[t].root) {
                            if w.obs(k).map_or(false, |o| o.upgrade().is_some()) {
                                fail!(c(8) | c(9), "{}: a weak reference to node {} upgrades while its tree is being dropped", w.what, k);
                            }
                        }
                        if w.tobs(t).map_or(false, |o| o.upgrade().is_some()) {
                            fail!(c(8) | c(9), "{}: a weak reference to tree {} upgrades while it is being dropped", w.what, t);
                        }
                    } else {
                        fail!(c(7) | w.ctx, "{}: data of live node {} is being dropped", w.what, n);
                    }
                }
                // Trees going away in this operation are in an unspecified state.
                let d: Vec<T> = w.dead_log[w.dead_mark..].to_vec();
                w.exclude.extend(d);
                probe("destructor observed the world");
            });
        }
        if ops.is_empty() {
            w(|w| {
                let ctx = w.ctx;
                w.ctx = if cb == Cb::Drop { c(9) } else { ctx };
                if cb == Cb::Pull {
                    w.bind();
                }
                w.deep(cb == Cb::Drop, false);
                w.ctx = ctx;
            });
        } else {
            for op in ops {
                if w(|w| w.over) {
                    break;
                }
                if cb != Cb::Drop && matches!(op.kind, Kind::Write | Kind::Borrow) {
                    continue;
                }
                probe("operation nested in a callback");
                let what = w(|w| w.what.clone());
                let tags = CUR_TAGS.with(|t| t.get());
                crate::exec::exec_op(op, true);
                CUR_TAGS.with(|t| t.set(tags));
                w(|w| w.what = what);
            }
        }
        w(|w| {
            w.exclude.truncate(mark);
            w.touched.clear();
            w.depth -= 1;
        });
    }));
    if r.is_err() {
        fail!(
            c(8) | c(9) | w(|w| w.ctx),
            "{}: panic inside a callback",
            w(|w| w.what.clone())
        );
    }
    payload::IN_CALL.with(|x| x.set(in_call));
    set_limit(lim.saturating_add(steps() - s0));
}
