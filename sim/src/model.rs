//! The reference model: an ordered forest in an arena, trivial on purpose.

pub type N = usize;
pub type T = usize;

#[derive(Clone, Debug)]
pub struct MNode {
    pub parent: Option<N>,
    pub ch: Vec<N>,
    pub tree: T,
    /// Payload id; 0 if not known yet (the library has cloned the data).
    pub pid: u64,
    pub val: i64,
    pub alive: bool,
}

#[derive(Clone, Debug)]
pub struct MTree {
    pub root: N,
    pub alive: bool,
}

#[derive(Default, Clone)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub trees: Vec<MTree>,
}

/// Depth-first traversal event.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    Open(N),
    Close(N),
}

impl Ev {
    pub fn node(self) -> N {
        match self {
            Ev::Open(n) | Ev::Close(n) => n,
        }
    }
}

impl Model {
    pub fn new_node(&mut self, tree: T, val: i64, pid: u64) -> N {
        self.nodes.push(MNode {
            parent: None,
            ch: vec![],
            tree,
            pid,
            val,
            alive: true,
        });
        self.nodes.len() - 1
    }
    pub fn new_tree_of(&mut self, root: N) -> T {
        self.trees.push(MTree { root, alive: true });
        let t = self.trees.len() - 1;
        for n in self.subtree(root) {
            self.nodes[n].tree = t;
        }
        t
    }
    pub fn new_tree(&mut self, val: i64, pid: u64) -> (T, N) {
        let t = self.trees.len();
        let n = self.new_node(t, val, pid);
        self.trees.push(MTree {
            root: n,
            alive: true,
        });
        (t, n)
    }
    pub fn tree(&self, n: N) -> T {
        self.nodes[n].tree
    }
    pub fn parent(&self, n: N) -> Option<N> {
        self.nodes[n].parent
    }
    pub fn ch(&self, n: N) -> &[N] {
        &self.nodes[n].ch
    }
    /// Index among the siblings.
    pub fn index(&self, n: N) -> usize {
        match self.parent(n) {
            Some(p) => self.nodes[p].ch.iter().position(|x| *x == n).unwrap(),
            None => 0,
        }
    }
    pub fn siblings(&self, n: N) -> Vec<N> {
        match self.parent(n) {
            Some(p) => self.nodes[p].ch.clone(),
            None => vec![n],
        }
    }
    pub fn next_sib(&self, n: N) -> Option<N> {
        let p = self.parent(n)?;
        self.nodes[p].ch.get(self.index(n) + 1).copied()
    }
    pub fn prev_sib(&self, n: N) -> Option<N> {
        let p = self.parent(n)?;
        let i = self.index(n);
        if i == 0 {
            None
        } else {
            Some(self.nodes[p].ch[i - 1])
        }
    }
    pub fn depth(&self, n: N) -> usize {
        let mut d = 0;
        let mut c = n;
        while let Some(p) = self.parent(c) {
            d += 1;
            c = p;
        }
        d
    }
    /// Whether `a` is `n` or an ancestor of `n`.
    pub fn is_anc_or_self(&self, a: N, n: N) -> bool {
        let mut c = Some(n);
        while let Some(x) = c {
            if x == a {
                return true;
            }
            c = self.parent(x);
        }
        false
    }
    pub fn subtree(&self, n: N) -> Vec<N> {
        let mut out = vec![];
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.nodes[x].ch.iter().rev());
        }
        out
    }
    pub fn events(&self, n: N) -> Vec<(Ev, usize)> {
        self.events_limited(n, usize::MAX)
    }
    pub fn events_limited(&self, n: N, max: usize) -> Vec<(Ev, usize)> {
        let mut out = vec![];
        let mut st = vec![(Ev::Open(n), 0usize)];
        while let Some((e, d)) = st.pop() {
            out.push((e, d));
            if let Ev::Open(x) = e {
                st.push((Ev::Close(x), d));
                if d < max {
                    for c in self.nodes[x].ch.iter().rev() {
                        st.push((Ev::Open(*c), d + 1));
                    }
                }
            }
        }
        out
    }
    pub fn bfs(&self, n: N, start: usize) -> Vec<(N, usize)> {
        let mut out = vec![];
        let mut cur = vec![n];
        let mut d = 0;
        while !cur.is_empty() {
            if d >= start {
                out.extend(cur.iter().map(|x| (*x, d)));
            }
            cur = cur.iter().flat_map(|x| self.nodes[*x].ch.clone()).collect();
            d += 1;
        }
        out
    }
    pub fn insert(&mut self, n: N, parent: N, idx: usize) {
        self.nodes[n].parent = Some(parent);
        self.nodes[parent].ch.insert(idx, n);
        let t = self.nodes[parent].tree;
        if self.nodes[n].tree != t {
            for x in self.subtree(n) {
                self.nodes[x].tree = t;
            }
        }
    }
    pub fn unlink(&mut self, n: N) {
        if let Some(p) = self.nodes[n].parent.take() {
            self.nodes[p].ch.retain(|x| *x != n);
        }
    }
    pub fn next_ev(&self, e: Ev) -> Option<Ev> {
        Some(match e {
            Ev::Open(n) => match self.ch(n).first() {
                Some(c) => Ev::Open(*c),
                None => Ev::Close(n),
            },
            Ev::Close(n) => match self.next_sib(n) {
                Some(s) => Ev::Open(s),
                None => Ev::Close(self.parent(n)?),
            },
        })
    }
    pub fn prev_ev(&self, e: Ev) -> Option<Ev> {
        Some(match e {
            Ev::Close(n) => match self.ch(n).last() {
                Some(c) => Ev::Close(*c),
                None => Ev::Open(n),
            },
            Ev::Open(n) => match self.prev_sib(n) {
                Some(s) => Ev::Close(s),
                None => Ev::Open(self.parent(n)?),
            },
        })
    }
    /// Structural equality, with data values.
    pub fn eq(&self, a: N, b: N) -> bool {
        let ea = self.events(a);
        let eb = self.events(b);
        ea.len() == eb.len()
            && ea.iter().zip(&eb).all(|(x, y)| match (x.0, y.0) {
                (Ev::Open(x), Ev::Open(y)) => crate::payload::same(self.nodes[x].val, self.nodes[y].val),
                (Ev::Close(_), Ev::Close(_)) => true,
                _ => false,
            })
    }
    /// Copies the subtree; the payload ids are unknown. The copy has no parent.
    pub fn copy(&mut self, n: N, tree: T) -> N {
        let val = self.nodes[n].val;
        let c = self.new_node(tree, val, 0);
        let mut st = vec![(n, c)];
        while let Some((s, d)) = st.pop() {
            for k in self.nodes[s].ch.clone() {
                let v = self.nodes[k].val;
                let x = self.new_node(tree, v, 0);
                self.nodes[x].parent = Some(d);
                self.nodes[d].ch.push(x);
                st.push((k, x));
            }
        }
        c
    }
}
