//! Operations, faults and the textual trace format.

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[repr(u8)]
        pub enum Kind { $($k),* }
        pub const KINDS: &[Kind] = &[$(Kind::$k),*];
        impl Kind {
            pub fn name(self) -> &'static str { match self { $(Kind::$k => stringify!($k)),* } }
            pub fn parse(s: &str) -> Option<Kind> { match s { $(stringify!($k) => Some(Kind::$k),)* _ => None } }
        }
    };
}

kinds! {
    // Trees and hierarchy edits.
    Plant, NewTree, Create, Interrupt, Detach, Move, Replace, CloneSubtree, CloneInsert,
    // Handles.
    CloneHandle, Hoard, Churn, DropHandle, Leak, Plain, Nav, NavCheck, TreeOf, Downgrade, Upgrade,
    // Locks.
    BundleNew, BundleTok, Extract, TreeLock, UseTok,
    // Data.
    Borrow, Write, Read,
    // Iterators and events.
    IterLive, IterStable, IterStep, IterDrain, EvStep,
    // Streams and builders.
    Pump, Forge, StreamFault, BuilderNew, BuilderRoot, BuilderOpen, BuilderClose, BuilderPush, BuilderFinish, Collect,
    // Comparison and printing.
    Eq, Print,
    // Clients.
    Send, Crash, Check,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cb {
    Drop = 0,
    Clone = 1,
    Eq = 2,
    Fmt = 3,
    /// The output sink of a printer is written to.
    Sink = 4,
    /// An iterator of events is asked for the next one.
    Pull = 5,
}
pub const CBS: [&str; 6] = ["drop", "clone", "eq", "fmt", "sink", "pull"];
pub const ACTS: [&str; 4] = ["panic", "fmterr", "observe", "nested"];

#[derive(Clone, Debug)]
pub enum Act {
    /// The user callback panics.
    Panic,
    /// The formatter of the data reports an error.
    FmtErr,
    /// The user callback looks at the whole world.
    Observe,
    /// The user callback runs operations.
    Nested(Vec<Op>),
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub cb: Cb,
    /// The number of callbacks of the kind to let pass.
    pub n: u32,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub client: u8,
    pub kind: Kind,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub profile: String,
    pub seed: u64,
    pub max_nodes: usize,
    pub max_slots: usize,
    /// Whole-world check every this many operations (0: only at the end).
    pub check: u32,
    pub end: u32,
    pub ops: Vec<Op>,
}

impl Op {
    fn line(&self) -> String {
        let mut s = format!(
            "op {} {} {} {} {} {}",
            self.client,
            self.kind.name(),
            self.a,
            self.b,
            self.c,
            self.d
        );
        if let Some(f) = &self.fault {
            let act = match &f.act {
                Act::Panic => 0,
                Act::FmtErr => 1,
                Act::Observe => 2,
                Act::Nested(_) => 3,
            };
            s.push_str(&format!(
                " ! {} {} {}",
                CBS[f.cb as usize], f.n, ACTS[act]
            ));
        }
        s
    }
}

impl Trace {
    pub fn to_text(&self) -> String {
        let mut s = format!(
            "dendron-sim-trace 1\nprofile {}\nseed {}\nmax_nodes {}\nmax_slots {}\ncheck {}\nend {}\n",
            self.profile, self.seed, self.max_nodes, self.max_slots, self.check, self.end
        );
        for op in &self.ops {
            s.push_str(&op.line());
            s.push('\n');
            if let Some(Fault {
                act: Act::Nested(ops),
                ..
            }) = &op.fault
            {
                for o in ops {
                    s.push_str("> ");
                    s.push_str(&o.line());
                    s.push('\n');
                }
            }
        }
        s
    }

    pub fn parse(text: &str) -> Option<Trace> {
        let mut t = Trace {
            profile: String::new(),
            seed: 0,
            max_nodes: 40,
            max_slots: 40,
            check: 1,
            end: 0,
            ops: vec![],
        };
        for line in text.lines() {
            let nested = line.starts_with("> ");
            let line = line.trim_start_matches("> ");
            let f: Vec<&str> = line.split_whitespace().collect();
            match f.first().copied() {
                Some("profile") => t.profile = f.get(1)?.to_string(),
                Some("seed") => t.seed = f.get(1)?.parse().ok()?,
                Some("max_nodes") => t.max_nodes = f.get(1)?.parse().ok()?,
                Some("max_slots") => t.max_slots = f.get(1)?.parse().ok()?,
                Some("check") => t.check = f.get(1)?.parse().ok()?,
                Some("end") => t.end = f.get(1)?.parse().ok()?,
                Some("op") => {
                    let mut op = Op {
                        client: f.get(1)?.parse().ok()?,
                        kind: Kind::parse(f.get(2)?)?,
                        a: f.get(3)?.parse().ok()?,
                        b: f.get(4)?.parse().ok()?,
                        c: f.get(5)?.parse().ok()?,
                        d: f.get(6)?.parse().ok()?,
                        fault: None,
                    };
                    if f.get(7) == Some(&"!") {
                        let cb = match CBS.iter().position(|x| x == f.get(8).unwrap_or(&""))? {
                            0 => Cb::Drop,
                            1 => Cb::Clone,
                            2 => Cb::Eq,
                            3 => Cb::Fmt,
                            4 => Cb::Sink,
                            _ => Cb::Pull,
                        };
                        let act = match ACTS.iter().position(|x| x == f.get(10).unwrap_or(&""))? {
                            0 => Act::Panic,
                            1 => Act::FmtErr,
                            2 => Act::Observe,
                            _ => Act::Nested(vec![]),
                        };
                        op.fault = Some(Fault {
                            cb,
                            n: f.get(9)?.parse().ok()?,
                            act,
                        });
                    }
                    if nested {
                        match t.ops.last_mut()?.fault.as_mut()? {
                            Fault {
                                act: Act::Nested(v),
                                ..
                            } => v.push(op),
                            _ => return None,
                        }
                    } else {
                        t.ops.push(op);
                    }
                }
                _ => {}
            }
        }
        if t.profile.is_empty() {
            None
        } else {
            Some(t)
        }
    }
}
