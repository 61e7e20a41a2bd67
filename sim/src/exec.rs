//! Executes operations on the real library and on the model, side by side.

use dendron::{HierarchyEditGrant, HotNode, Node};

use crate::model::{N, T};
use crate::op::{Kind, Op};
use crate::payload::{self, P};
use crate::rng::mix;
use crate::world::*;
use crate::{fail, ops_churn, ops_cmp, ops_edit, ops_handle, ops_iter, ops_stream};

/// Outcome of an operation: 0 nothing to do, 1 done, 2 rejected; and what it concerns.
pub type Out = (u8, Tags);
pub const SKIP: Out = (0, 0);

/// Properties that an abnormality in the middle of the operation concerns.
fn base_tags(k: Kind) -> Tags {
    use Kind::*;
    match k {
        Plant | NewTree => c(2) | c(7),
        Create | Interrupt | Detach | Move | Replace => c(1) | c(2) | c(3),
        CloneSubtree => c(16),
        CloneInsert => c(2) | c(16),
        CloneHandle | Hoard | Churn | DropHandle | Leak | Plain | Crash | Send => c(5) | c(7),
        Nav | NavCheck => c(1),
        TreeOf | Downgrade | Upgrade => c(7) | c(8),
        BundleNew | TreeLock | Extract => c(4) | c(5),
        BundleTok | UseTok => c(6) | c(4),
        Borrow | Write | Read => c(18),
        IterLive | IterStep | IterDrain | EvStep => c(12),
        IterStable => c(11) | c(13),
        Pump => c(14),
        Forge | StreamFault => 0,
        BuilderNew | BuilderRoot | BuilderOpen | BuilderClose | BuilderFinish => c(15),
        BuilderPush | Collect => c(14) | c(15),
        Eq => c(17),
        Print => c(19),
        Check => 0,
    }
}

/// Operations that change neither hierarchies nor lifetimes of what others hold.
fn is_safe(k: Kind) -> bool {
    use Kind::*;
    matches!(
        k,
        CloneHandle | Nav | NavCheck | TreeOf | Downgrade | Upgrade | TreeLock | UseTok | Extract
            | BundleTok | Read | Eq | Print | IterLive | IterStable | IterStep | CloneSubtree
    )
}

pub fn what(s: String) {
    w(|w| w.what = s);
}

pub fn exec_op(op: &Op, nested: bool) {
    let tags = base_tags(op.kind);
    CUR_TAGS.with(|t| t.set(tags));
    let (slots, max) = w(|w| {
        w.what = format!(
            "{}{} (client {}, {} {} {} {})",
            if nested { "nested " } else { "" },
            op.kind.name(),
            op.client,
            op.a,
            op.b,
            op.c,
            op.d
        );
        if nested {
            w.soft_on = !is_safe(op.kind);
        } else {
            w.nested_ran = false;
            w.in_hand.clear();
            w.dead_mark = w.dead_log.len();
        }
        (w.nslots(), w.max_slots)
    });
    if nested && slots > max + 12 {
        return;
    }
    let mark = w(|w| w.dead_log.len());
    if !nested {
        payload::arm(op.fault.as_ref());
        if slots >= max && op.kind != Kind::DropHandle && op.kind != Kind::Crash {
            let i = w(|w| w.pick(op.client, op.a ^ 0x5a5a, &|_, _| true));
            if let Some(i) = i {
                kill(i, c(5) | c(7));
            }
        }
    }
    let (code, t) = run(op);
    if !nested {
        payload::disarm();
    }
    let fired = payload::fired();
    STATS.with(|s| s.borrow_mut().ops[op.kind as usize][code as usize] += 1);
    w(|w| {
        if !w.pins.is_empty() && !nested {
            fail!(c(7), "[harness] pins left after {}", w.what);
        }
        w.soft_on = true;
        w.ctx |= t;
        if code == 2 {
            w.ctx |= c(3);
        }
        if fired & 1 != 0 {
            w.ctx |= c(9);
        }
        if code != 0 && fired & !1 != 0 {
            w.ctx |= c(3);
        }
        w.check_deaths(mark, tags | t);
        w.bind();
        w.hash = mix(
            w.hash,
            (op.kind as u64) << 8 | u64::from(code) | u64::from(fired) << 16,
        );
    });
    {
        note(|| {
            format!(
                "{} -> {}{}",
                w(|w| w.what.clone()),
                ["nothing to do", "done", "rejected"][code as usize],
                if fired != 0 { " (fault fired)" } else { "" }
            )
        });
    }
}

fn run(op: &Op) -> Out {
    use Kind::*;
    match op.kind {
        Plant => ops_edit::plant(op),
        NewTree => ops_edit::new_tree(op),
        Create => ops_edit::create(op),
        Interrupt => ops_edit::interrupt(op),
        Detach => ops_edit::detach(op),
        Move => ops_edit::mov(op),
        Replace => ops_edit::replace(op),
        CloneSubtree => ops_edit::clone_subtree(op),
        CloneInsert => ops_edit::clone_insert(op),
        CloneHandle => ops_handle::clone_handle(op),
        Hoard => ops_handle::hoard(op),
        Churn => ops_churn::churn(op),
        DropHandle => ops_handle::drop_handle(op),
        Leak => ops_handle::leak(op),
        Plain => ops_handle::plain(op),
        Nav => ops_handle::nav(op),
        NavCheck => ops_handle::nav_check(op),
        TreeOf => ops_handle::tree_of(op),
        Downgrade => ops_handle::downgrade(op),
        Upgrade => ops_handle::upgrade(op),
        BundleNew => ops_handle::bundle_new(op),
        BundleTok => ops_handle::bundle_tok(op),
        Extract => ops_handle::extract(op),
        TreeLock => ops_handle::tree_lock(op),
        UseTok => ops_handle::use_tok(op),
        Borrow => ops_handle::borrow(op),
        Write => ops_handle::write(op),
        Read => ops_handle::read(op),
        Send => ops_handle::send(op),
        Crash => ops_handle::crash(op),
        Check => {
            w(|w| w.deep(true, true));
            (1, 0)
        }
        IterLive => ops_iter::live(op),
        IterStable => ops_iter::stable(op),
        IterStep => ops_iter::step(op),
        IterDrain => ops_iter::drain(op),
        EvStep => ops_iter::ev_step(op),
        Pump => ops_stream::pump(op),
        Forge => ops_stream::forge(op),
        StreamFault => ops_stream::stream_fault(op),
        BuilderNew => ops_stream::builder_new(op),
        BuilderRoot => ops_stream::builder_root(op),
        BuilderOpen => ops_stream::builder_open(op),
        BuilderClose => ops_stream::builder_close(op),
        BuilderPush => ops_stream::builder_push(op),
        BuilderFinish => ops_stream::builder_finish(op),
        Collect => ops_stream::collect(op),
        Eq => ops_cmp::eq(op),
        Print => ops_cmp::print(op),
    }
}

/// Node data values: few, so that equal trees are common.
pub fn val(x: u32) -> i64 {
    if x / 5 % 64 == 63 {
        return crate::payload::NAN;
    }
    i64::from(x % 5)
}

pub fn pick_h(client: u8, salt: u32) -> Option<usize> {
    w(|w| w.pick(client, salt, &|_, m| m.is_handle()))
}
pub fn pick_ht(client: u8, salt: u32) -> Option<usize> {
    w(|w| w.pick(client, salt, &|_, m| m.is_handle() || matches!(m, M::Tree(_))))
}
pub fn take(i: usize) -> Real {
    w(|w| w.take(i))
}
pub fn put(i: usize, r: Real) {
    w(|w| w.put(i, r))
}
pub fn add(client: u8, m: M, r: Real) -> usize {
    w(|w| w.add(client, m, r))
}
pub fn node_of(i: usize) -> N {
    w(|w| w.slot_m(i).node())
}

/// Elementary steps that dropping may take, besides trees going away.
fn drop_cost(w: &World, m: &M) -> u64 {
    match m {
        M::Iter(MIter::Stable { items, .. }) => lin(items.len()),
        M::Stream(v) => lin(v.len()),
        M::Hoard(_, k) => lin(*k),
        M::Grant(t) | M::Prohib(t) => {
            let _ = (w, t);
            CONST
        }
        _ => CONST,
    }
}

/// Drops the handle in the slot.
pub fn kill(i: usize, tags: Tags) {
    let (m, r, b, mark) = w(|w| {
        let (m, r) = w.remove(i);
        let b = drop_cost(w, &m) + w.gc_budget();
        let mark = w.exclude.len();
        if let M::Builder(x) = &m {
            // The root and the open node may be in different trees by now. While one of the trees
            // is dropped the other may or may not be locked still.
            let ts: Vec<T> = x.root.iter().chain(x.stack.last()).map(|n| w.m.tree(*n)).collect();
            if ts.len() == 2 && ts[0] != ts[1] {
                w.exclude.extend(ts);
            }
        }
        (m, r, b, mark)
    });
    if let Some(r) = r {
        drop_real(b, tags, m.name(), r);
    }
    w(|w| {
        w.exclude.truncate(mark);
        w.ctx |= c(5) | c(7);
    });
}

/// Keeps the new handle in a slot or drops it at once.
pub fn keep_or_kill(i: usize, keep: bool, tags: Tags) {
    if !keep {
        kill(i, tags);
    }
}

/// An injected panic came out of the call: some fault must have fired.
pub fn injected(tags: Tags) {
    if payload::fired() == 0 {
        fail!(tags, "[harness] an injected panic without a fault");
    }
}

pub fn lib_panic(tags: Tags, msg: &str) -> ! {
    // Edits have no business with the data.
    let tags = tags | if tags & c(2) != 0 && w(|w| w.any_guard()) { c(18) } else { 0 };
    fail!(tags, "{}: unexpected panic: {}", w(|w| w.what.clone()), msg)
}

/// Runs what cannot fail.
pub fn sure<R>(tags: Tags, budget: u64, f: impl FnOnce() -> R) -> R {
    match call(budget, f) {
        Ok(r) => r,
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => fail!(tags, "[harness] an injected panic where no user code runs"),
    }
}

/// A grant token to be used for an edit.
pub struct Auth {
    pub slot: usize,
    pub temp: bool,
    pub valid: bool,
    pub g: HierarchyEditGrant<P>,
}

/// Finds or acquires a grant token. The slot of the token is busy until `release`.
pub fn authorise(client: u8, salt: u32, plain: &Node<P>, n: N) -> Option<Auth> {
    if salt % 3 == 0 {
        let s = w(|w| w.pick(client, salt / 3, &|_, m| matches!(m, M::Grant(_))));
        if let Some(slot) = s {
            let valid = w(|w| matches!(w.slot_m(slot), M::Grant(t) if *t == w.m.tree(n)));
            return match take(slot) {
                Real::Grant(g) => Some(Auth {
                    slot,
                    temp: false,
                    valid,
                    g,
                }),
                _ => fail!(0, "[harness] grant expected"),
            };
        }
    }
    let (t, ok) = w(|w| {
        let t = w.m.tree(n);
        (t, !w.prohibs(t))
    });
    match call(CONST, || plain.tree().grant_hierarchy_edit()) {
        Ok(Ok(g)) => {
            if !ok {
                fail!(
                    c(4) | c(5),
                    "{}: a grant was given for tree {} while an edit prohibition is active",
                    w(|w| w.what.clone()),
                    t
                );
            }
            let slot = w(|w| {
                let s = w.add_busy(client, M::Grant(t));
                s
            });
            Some(Auth {
                slot,
                temp: true,
                valid: true,
                g,
            })
        }
        Ok(Err(_)) => {
            if ok {
                fail!(
                    c(4) | c(5),
                    "{}: a grant was refused for tree {} without any prohibition",
                    w(|w| w.what.clone()),
                    t
                );
            }
            None
        }
        Err(Pan::Injected) => None,
        Err(Pan::Lib(m)) => lib_panic(c(4) | c(5), &m),
    }
}

pub fn release(a: Auth, keep: bool) {
    put(a.slot, Real::Grant(a.g));
    if a.temp && !keep {
        kill(a.slot, c(5));
    }
}

/// Bundles a new grant to the node. The slot of the hot node is busy.
pub fn bundle_hot(client: u8, plain: Node<P>, n: N) -> Option<(usize, HotNode<P>)> {
    let (t, ok) = w(|w| {
        let t = w.m.tree(n);
        (t, !w.prohibs(t))
    });
    match call(CONST, move || plain.bundle_new_hierarchy_edit_grant()) {
        Ok(Ok(h)) => {
            if !ok {
                fail!(
                    c(4) | c(5),
                    "{}: a grant was given for tree {} while an edit prohibition is active",
                    w(|w| w.what.clone()),
                    t
                );
            }
            let s = w(|w| w.add_busy(client, M::Hot(n)));
            Some((s, h))
        }
        Ok(Err(_)) => {
            if ok {
                fail!(
                    c(4) | c(5),
                    "{}: a grant was refused for tree {} without any prohibition",
                    w(|w| w.what.clone()),
                    t
                );
            }
            None
        }
        Err(Pan::Injected) => None,
        Err(Pan::Lib(m)) => lib_panic(c(4) | c(5), &m),
    }
}
