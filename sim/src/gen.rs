//! Seeded generation of runs: which client acts, what it does, which fault strikes.

use crate::op::{Act, Cb, Fault, Kind, Op, Trace, KINDS};
use crate::rng::{mix, Rng};

fn base(k: Kind) -> u32 {
    use Kind::*;
    match k {
        Plant => 5,
        NewTree => 3,
        Create => 12,
        Interrupt => 6,
        Detach => 6,
        Move => 10,
        Replace => 4,
        CloneSubtree => 4,
        CloneInsert => 4,
        CloneHandle => 6,
        Hoard | Churn => 1,
        DropHandle => 14,
        Leak => 1,
        Plain => 3,
        Nav => 10,
        NavCheck => 4,
        TreeOf => 4,
        Downgrade => 3,
        Upgrade => 4,
        BundleNew => 10,
        BundleTok => 4,
        Extract => 3,
        TreeLock => 5,
        UseTok => 3,
        Borrow => 3,
        Write => 4,
        Read => 2,
        IterLive => 5,
        IterStable => 4,
        IterStep => 9,
        IterDrain => 3,
        EvStep => 2,
        Pump => 3,
        Forge => 1,
        StreamFault => 1,
        BuilderNew => 2,
        BuilderRoot => 1,
        BuilderOpen => 4,
        BuilderClose => 3,
        BuilderPush => 4,
        BuilderFinish => 2,
        Collect => 3,
        Eq => 4,
        Print => 4,
        Send => 3,
        Crash => 1,
        Check => 0,
    }
}

/// Operations that a property is about, with the weights they get in its runs.
pub fn focus(prop: u32) -> &'static [(Kind, u32)] {
    use Kind::*;
    match prop {
        1 => &[(Churn, 3), (Create, 40), (Interrupt, 30), (Detach, 25), (Move, 60), (Replace, 25), (CloneInsert, 15), (Nav, 20), (NavCheck, 15), (BuilderPush, 10), (Collect, 8)],
        2 => &[(Churn, 3), (Create, 50), (Interrupt, 35), (Detach, 30), (Move, 70), (Replace, 30), (CloneInsert, 20), (NewTree, 6), (Write, 10)],
        3 => &[(Churn, 3), (Forge, 8), (Create, 40), (Interrupt, 30), (Detach, 20), (Move, 70), (Replace, 40), (CloneInsert, 40), (CloneSubtree, 20), (Borrow, 15), (UseTok, 10), (BundleTok, 10), (TreeLock, 10), (IterLive, 10), (Pump, 15), (BuilderNew, 6), (BuilderRoot, 4), (BuilderOpen, 14), (BuilderClose, 12), (BuilderPush, 25), (Collect, 8)],
        4 => &[(Churn, 3), (Hoard, 5), (BundleNew, 50), (BundleTok, 20), (Extract, 15), (TreeLock, 30), (UseTok, 10), (IterStable, 20), (IterStep, 25), (Create, 20), (Detach, 15), (Move, 25), (Interrupt, 12), (DropHandle, 40), (BuilderNew, 5), (BuilderFinish, 5)],
        5 => &[(Churn, 3), (Hoard, 5), (BundleNew, 50), (BundleTok, 15), (Extract, 10), (TreeLock, 25), (CloneHandle, 30), (DropHandle, 60), (Detach, 25), (Move, 35), (Interrupt, 12), (Leak, 4), (Crash, 6), (IterStable, 15), (IterStep, 20), (BuilderRoot, 6), (BuilderClose, 8)],
        6 => &[(Churn, 4), (Hoard, 3), (TreeLock, 50), (BundleTok, 40), (UseTok, 40), (Extract, 20), (Detach, 30), (Move, 30), (Interrupt, 10), (Create, 20), (DropHandle, 25)],
        7 => &[(Churn, 3), (Hoard, 6), (DropHandle, 80), (Crash, 10), (Leak, 4), (TreeOf, 20), (CloneHandle, 25), (Nav, 25), (Detach, 20), (Move, 20), (IterLive, 12), (IterStable, 10), (IterStep, 15), (BuilderNew, 6), (BuilderOpen, 10), (Plant, 12), (Upgrade, 10), (Downgrade, 8), (Borrow, 6), (Collect, 5)],
        8 => &[(Churn, 3), (Hoard, 4), (Downgrade, 50), (Upgrade, 60), (DropHandle, 60), (CloneHandle, 20), (Detach, 20), (Move, 15), (TreeOf, 15), (Crash, 5), (Plant, 12)],
        9 => &[(Churn, 3), (DropHandle, 90), (Crash, 15), (Plant, 25), (Detach, 20), (IterStep, 15), (IterDrain, 10), (BuilderFinish, 5), (BundleNew, 20), (TreeLock, 10), (Downgrade, 8)],
        11 => &[(Churn, 3), (IterStable, 60), (IterStep, 150), (IterDrain, 40), (CloneHandle, 20), (Plant, 12)],
        12 => &[(Churn, 3), (IterLive, 60), (IterStep, 120), (IterDrain, 15), (EvStep, 20), (Create, 30), (Move, 40), (Detach, 20), (Interrupt, 20), (Replace, 10), (Plant, 10)],
        13 => &[(IterStable, 80), (IterStep, 150), (IterDrain, 40), (CloneHandle, 15), (Plant, 15)],
        14 => &[(Forge, 5), (EvStep, 15), (IterLive, 40), (IterStep, 20), (Pump, 80), (StreamFault, 15), (BuilderNew, 15), (BuilderPush, 110), (BuilderFinish, 20), (Collect, 50), (Eq, 15), (Plant, 12), (Borrow, 5)],
        15 => &[(Forge, 30), (BuilderNew, 20), (BuilderRoot, 20), (BuilderOpen, 80), (BuilderClose, 80), (BuilderPush, 50), (BuilderFinish, 25), (Pump, 30), (StreamFault, 25), (IterLive, 20), (Collect, 20), (BundleNew, 15)],
        16 => &[(CloneSubtree, 80), (CloneInsert, 80), (Collect, 20), (Write, 30), (Borrow, 12), (Eq, 20), (Create, 20)],
        17 => &[(Eq, 160), (CloneSubtree, 40), (Collect, 20), (Write, 30), (Create, 30), (Borrow, 8), (Move, 15), (TreeOf, 10)],
        18 => &[(Churn, 3), (Borrow, 50), (Write, 60), (Read, 50), (DropHandle, 40), (Move, 20), (CloneSubtree, 15), (Eq, 15), (Print, 10), (Detach, 15), (IterLive, 8), (IterStep, 10)],
        19 => &[(Print, 200), (Borrow, 20), (DropHandle, 25), (Downgrade, 10), (IterLive, 8), (IterStable, 8), (Create, 20), (Move, 15)],
        20 => &[(Nav, 60), (NavCheck, 40), (Create, 40), (Interrupt, 20), (Move, 40), (Replace, 10), (Detach, 15), (IterLive, 25), (IterStable, 25), (IterStep, 60), (IterDrain, 6), (EvStep, 15), (BundleNew, 20), (CloneHandle, 15), (DropHandle, 25), (Eq, 6), (CloneSubtree, 3), (BuilderOpen, 8), (BuilderClose, 8)],
        _ => &[],
    }
}

/// Faults: (callback, weight).
fn callbacks(k: Kind) -> &'static [(Cb, u32)] {
    use Kind::*;
    match k {
        Collect | BuilderPush => &[(Cb::Clone, 10), (Cb::Drop, 1), (Cb::Pull, 6)],
        CloneSubtree | CloneInsert | Pump => &[(Cb::Clone, 10), (Cb::Drop, 1)],
        IterStep | IterDrain => &[(Cb::Clone, 4), (Cb::Drop, 4)],
        Eq => &[(Cb::Eq, 10)],
        Print => &[(Cb::Fmt, 10), (Cb::Sink, 5)],
        _ => &[(Cb::Drop, 10)],
    }
}

fn op(rng: &mut Rng, client: u8, kind: Kind) -> Op {
    Op {
        client,
        kind,
        a: rng.u32(),
        b: rng.u32(),
        c: rng.u32(),
        d: rng.u32(),
        fault: None,
    }
}

struct Setup {
    weights: Vec<u32>,
    fault: u32,
    panics: u32,
}

fn pick_kind(rng: &mut Rng, s: &Setup) -> Kind {
    KINDS[rng.weighted(&s.weights)]
}

fn shape(rng: &mut Rng, prop: u32, op: &mut Op) {
    // Parameters that the property is about.
    match (prop, op.kind) {
        (13, Kind::IterStable) if !rng.chance(1, 8) => op.b = 12 + rng.u32() % 4,
        (13, Kind::IterStable) => {}
        (11, Kind::IterStable) if !rng.chance(1, 8) => op.b = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16][rng.below(13)],
        (14, Kind::IterLive) => op.b = if rng.chance(2, 3) { 3 } else { 0 },
        (20, Kind::IterStable) => op.b = [0, 1, 2, 6, 7, 10, 11, 14][rng.below(8)],
        _ => {}
    }
}

fn fault(rng: &mut Rng, s: &Setup, prop: u32, clients: u8, kind: Kind) -> Fault {
    let cbs = callbacks(kind);
    let w: Vec<u32> = cbs.iter().map(|x| x.1).collect();
    let mut cb = cbs[rng.weighted(&w)].0;
    if prop == 9 && rng.chance(2, 3) {
        cb = Cb::Drop;
    }
    let n = match rng.below(4) {
        0 | 1 => 0,
        2 => rng.u32() % 3,
        _ => rng.u32() % 9,
    };
    let act = if cb == Cb::Fmt && rng.chance(1, 3) {
        Act::FmtErr
    } else if rng.chance(s.panics, 10) && !(cb == Cb::Drop && rng.chance(1, 2)) {
        Act::Panic
    } else if rng.chance(1, 4) {
        Act::Observe
    } else {
        let k = 1 + rng.below(3);
        Act::Nested(
            (0..k)
                .map(|_| {
                    let c = rng.below(clients as usize) as u8;
                    let kind = pick_kind(rng, s);
                    let mut o = op(rng, c, kind);
                    shape(rng, prop, &mut o);
                    o
                })
                .collect(),
        )
    };
    Fault { cb, n, act }
}

/// The run with the given seed for the given property.
pub fn trace(prop: u32, seed: u64) -> Trace {
    let mut rng = Rng::new(mix(seed, u64::from(prop) * 0x1_0001 + 7));
    let big = prop == 20;
    // Now and then, trees wide and deep enough for small counters to wrap around.
    let wide = !big && rng.chance(1, 48);
    let mut weights: Vec<u32> = KINDS.iter().map(|k| base(*k)).collect();
    for (k, x) in focus(prop) {
        weights[*k as usize] = *x;
    }
    // Swarm: every run leaves some kinds out and favours some.
    for (i, x) in weights.iter_mut().enumerate() {
        let focused = focus(prop).iter().any(|(k, _)| *k as usize == i);
        match rng.below(if focused { 12 } else { 5 }) {
            0 => *x = if focused { *x / 4 } else { 0 },
            1 => *x *= 3,
            _ => {}
        }
    }
    weights[Kind::DropHandle as usize] = weights[Kind::DropHandle as usize].max(4);
    if big {
        // Whole-tree operations are expensive here.
        for k in [Kind::Print, Kind::Collect, Kind::Crash, Kind::CloneInsert] {
            weights[k as usize] = weights[k as usize].min(2);
        }
    }
    let s = Setup {
        weights,
        fault: match prop {
            9 => [20, 50][rng.below(2)],
            20 => 1,
            3 | 16 | 17 | 19 => [5, 20, 40][rng.below(3)],
            14 | 15 => [0, 10, 30][rng.below(3)],
            _ => [0, 6, 20][rng.below(3)],
        },
        panics: rng.u32() % 7,
    };
    let clients = 1 + rng.below(4) as u8;
    let max_nodes = if big {
        [200, 800, 1500][rng.below(3)]
    } else if wide {
        [320, 620][rng.below(2)]
    } else {
        [12, 30, 60][rng.below(3)]
    };
    let max_slots = if prop == 9 { [6, 14, 30][rng.below(3)] } else { [8, 20, 40][rng.below(3)] };
    let len = if big {
        40 + rng.below(60)
    } else if wide {
        25 + rng.below(40)
    } else {
        30 + rng.below(120)
    };
    let mut ops = vec![];
    for i in 0..1 + rng.below(3) {
        let c = rng.below(clients as usize) as u8;
        let mut o = op(&mut rng, c, Kind::Plant);
        if big {
            o.c = max_nodes as u32 / 2 + rng.u32() % (max_nodes as u32 / 4);
        }
        if wide && i == 0 {
            o.c = 258 + rng.u32() % 40;
        }
        ops.push(o);
    }
    let mut c = 0;
    for _ in 0..len {
        if rng.chance(1, 3) {
            c = rng.below(clients as usize) as u8;
        }
        let kind = pick_kind(&mut rng, &s);
        let mut o = op(&mut rng, c, kind);
        shape(&mut rng, prop, &mut o);
        if rng.chance(s.fault, 100) && kind != Kind::Churn {
            o.fault = Some(fault(&mut rng, &s, prop, clients, kind));
        }
        ops.push(o);
    }
    Trace {
        profile: format!("C{:02}", prop),
        seed,
        max_nodes,
        max_slots,
        check: if big {
            0
        } else if wide {
            [0, 3, 12][rng.below(3)]
        } else {
            [1, 1, 3][rng.below(3)]
        },
        end: rng.u32(),
        ops,
    }
}
