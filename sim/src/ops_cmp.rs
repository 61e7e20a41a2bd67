//! Comparison and printing.

use std::fmt::{self, Write as _};

use crate::exec::*;
use crate::model::{Ev, N};
use crate::op::{Act, Cb, Op};
use crate::payload::{self, token};
use crate::world::*;
use crate::{fail, nh};

fn root_of(w: &World, m: &M) -> N {
    match m {
        M::Tree(t) => w.m.trees[*t].root,
        m => m.node(),
    }
}

pub fn eq(op: &Op) -> Out {
    let a = match pick_ht(op.client, op.a) {
        Some(s) => s,
        None => return SKIP,
    };
    let tree = w(|w| matches!(w.slot_m(a), M::Tree(_)));
    let b = match w(|w| {
        w.pick(op.client, op.b, &|_, m| {
            if tree {
                matches!(m, M::Tree(_))
            } else {
                m.is_handle()
            }
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let (na, nb, sizes, want, borrowed) = w(|w| {
        let (x, y) = (root_of(w, w.slot_m(a)), root_of(w, w.slot_m(b)));
        let (sx, sy) = (w.m.subtree(x), w.m.subtree(y));
        let bor = w.any_mut_borrowed(&sx) || w.any_mut_borrowed(&sy);
        (x, y, sx.len() + sy.len(), w.m.eq(x, y), bor)
    });
    let ra = take(a);
    let rb_own = if a == b { None } else { Some(take(b)) };
    let rb = rb_own.as_ref().unwrap_or(&ra);
    let mark = w(|w| {
        let k = w.soft.len();
        let v = [w.m.tree(na), w.m.tree(nb)];
        w.soft.extend(v);
        k
    });
    let what = w(|w| w.what.clone());
    let form = op.c % 5;
    let try_form = form == 4;
    let rra = &ra;
    let res = call(2 * lin(sizes), move || -> Result<bool, ()> {
        macro_rules! form {
            ($x:expr, $y:expr) => {
                match form {
                    0 => $x == $y,
                    1 => $x == &$y,
                    2 => &$x == $y,
                    _ => !($x != $y),
                }
            };
        }
        match (rra, rb) {
            (Real::Tree(x), Real::Tree(y)) => {
                if try_form {
                    x.try_eq(y).map_err(|_| ())
                } else if form == 3 {
                    Ok(!(x != y))
                } else {
                    Ok(x == y)
                }
            }
            (x, y) if try_form => {
                let (x, y) = (x.plain(), y.plain());
                x.try_eq(&y).map_err(|_| ())
            }
            (Real::Node(x), Real::Node(y)) => Ok(if form == 3 { !(x != y) } else { x == y }),
            (Real::Frozen(x), Real::Frozen(y)) => Ok(if form == 3 { !(x != y) } else { x == y }),
            (Real::Hot(x), Real::Hot(y)) => Ok(if form == 3 { !(x != y) } else { x == y }),
            (Real::Node(x), Real::Frozen(y)) => Ok(form!(*x, *y)),
            (Real::Node(x), Real::Hot(y)) => Ok(form!(*x, *y)),
            (Real::Frozen(x), Real::Node(y)) => Ok(form!(*x, *y)),
            (Real::Frozen(x), Real::Hot(y)) => Ok(form!(*x, *y)),
            (Real::Hot(x), Real::Node(y)) => Ok(form!(*x, *y)),
            (Real::Hot(x), Real::Frozen(y)) => Ok(form!(*x, *y)),
            _ => unreachable!(),
        }
    });
    w(|w| {
        w.soft.truncate(mark);
        w.what = what;
    });
    put(a, ra);
    if let Some(r) = rb_own {
        put(b, r);
    }
    let what = w(|w| w.what.clone());
    let tags = c(17);
    match res {
        Ok(Ok(x)) => {
            // A node is identical to itself even if its data are not equal to themselves.
            if x != want && !(x && na == nb) {
                fail!(
                    tags,
                    "{}: comparison of the subtrees of nodes {} and {} says {}",
                    what,
                    na,
                    nb,
                    x
                );
            }
            if want && na != nb {
                probe("equal subtrees of different nodes compared");
            }
            (1, tags)
        }
        Ok(Err(())) => {
            if !borrowed {
                fail!(tags | c(18), "{}: comparison fails but no data is exclusively borrowed", what);
            }
            probe("comparison refused by a borrow");
            (2, tags)
        }
        Err(Pan::Lib(m)) => {
            if !borrowed || try_form {
                lib_panic(tags | c(18), &m);
            }
            probe("comparison refused by a borrow");
            (2, tags)
        }
        Err(Pan::Injected) => {
            injected(tags);
            (2, tags)
        }
    }
}

/// Output sink that fails at a byte position.
struct Sink {
    buf: String,
    left: usize,
    failed: bool,
    late: bool,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        payload::fire(Cb::Sink, 0);
        if self.failed {
            self.late = true;
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            self.buf.push_str(&s[..self.left]);
            self.left = 0;
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.buf.push_str(s);
        Ok(())
    }
}

fn tok(w: &World, n: N, alt: bool, placeholder: &str) -> String {
    if w.mut_borrowed(n) {
        placeholder.to_string()
    } else {
        token(w.m.nodes[n].pid, w.m.nodes[n].val, alt)
    }
}

/// The expected output of the pretty printers.
fn pretty(w: &World, root: N, alt: bool) -> String {
    let mut out = String::new();
    // Whether each open node, except for the root, is the last of its siblings.
    let mut path: Vec<bool> = vec![];
    let mut line_start = true;
    for (e, depth) in w.m.events(root) {
        let n = match e {
            Ev::Open(n) => n,
            Ev::Close(_) => continue,
        };
        path.truncate(depth.saturating_sub(1));
        if depth > 0 {
            path.push(w.m.next_sib(n).is_none());
            if !line_start {
                out.push('\n');
            }
        }
        let indent = |first: bool| -> String {
            let mut t = String::new();
            for (k, last) in path.iter().enumerate() {
                t.push_str(match (k + 1 == path.len() && first, *last) {
                    (true, true) => "`-- ",
                    (true, false) => "|-- ",
                    (false, true) => "    ",
                    (false, false) => "|   ",
                });
            }
            t
        };
        let text = tok(w, n, alt, "(borrowed)");
        if text.is_empty() {
            // The node has a line nevertheless.
            out.push_str(indent(true).trim_end());
            line_start = false;
        }
        for (i, line) in text.split_inclusive('\n').enumerate() {
            out.push_str(&indent(i == 0));
            out.push_str(line);
            line_start = line.ends_with('\n');
        }
    }
    out
}

/// Nodes with their nesting, in order of appearance in a structural output.
fn scan(s: &str) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut depth = 0;
    let mut it = s.char_indices();
    while let Some((i, ch)) = it.next() {
        match ch {
            '[' => depth += 1,
            ']' => depth -= 1,
            '<' => {
                let end = s[i..].find('>').map_or(s.len(), |k| i + k + 1);
                out.push((depth, s[i..end].to_string()));
            }
            _ => {}
        }
    }
    out
}
fn expect_scan(w: &World, root: N, alt: bool, subtree: bool) -> Vec<(usize, String)> {
    w.m.events_limited(root, if subtree { usize::MAX } else { 0 })
        .into_iter()
        .filter_map(|(e, d)| match e {
            Ev::Open(n) => {
                let t = tok(w, n, alt, "<borrowed>");
                // Data that print nothing cannot be told.
                let t = t.split('\n').find(|l| l.starts_with('<'))?.to_string();
                Some((d, t))
            }
            _ => None,
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Pretty,
    Subtree,
    Local,
    Any,
}

pub fn print(op: &Op) -> Out {
    if w(|w| w.max_nodes > 100) {
        // Deep trees print to a quadratic number of bytes.
        return SKIP;
    }
    let slot = match w(|w| {
        w.pick(op.client, op.a, &|w, m| match m {
            M::Node(_) | M::Frozen(_) | M::Hot(_) | M::Tree(_) | M::NWeak(_) | M::TWeak(_) => true,
            // The trees of the nodes inside must be known.
            M::Iter(_) => {
                let mut ok = true;
                m_related(w, m, &mut ok);
                ok
            }
            _ => false,
        })
    }) {
        Some(s) => s,
        None => return SKIP,
    };
    let k = op.b % 9;
    let alt = matches!(k, 2 | 3 | 5 | 7);
    let m = w(|w| w.slot_m(slot).clone());
    let (form, root): (Form, Option<N>) = w(|w| match &m {
        M::Node(n) | M::Frozen(n) | M::Hot(n) => (
            match k {
                0..=3 => Form::Pretty,
                6 | 7 => Form::Subtree,
                _ => Form::Local,
            },
            Some(*n),
        ),
        M::Tree(t) => (
            match k {
                0..=3 => Form::Pretty,
                4..=6 => Form::Subtree,
                _ => Form::Any,
            },
            Some(w.m.trees[*t].root),
        ),
        M::NWeak(n) => (Form::Local, if w.m.nodes[*n].alive { Some(*n) } else { None }),
        M::TWeak(t) => (
            Form::Any,
            if w.m.trees[*t].alive { Some(w.m.trees[*t].root) } else { None },
        ),
        _ => (Form::Any, None),
    });
    // What of the alternate form applies.
    let alt = match &m {
        M::Tree(_) => matches!(k, 2 | 3 | 6),
        M::NWeak(_) | M::TWeak(_) | M::Iter(_) => k % 2 == 1,
        _ => alt,
    };
    let (want_text, want_scan, size) = w(|w| {
        let r = root.unwrap_or(0);
        match (form, root) {
            (Form::Pretty, Some(_)) => (Some(pretty(w, r, alt)), None, w.m.subtree(r).len()),
            (Form::Subtree, Some(_)) => {
                (None, Some(expect_scan(w, r, alt, true)), w.m.subtree(r).len())
            }
            (Form::Local, Some(_)) => (None, Some(expect_scan(w, r, alt, false)), 1),
            _ => (None, None, 200),
        }
    });
    let r = take(slot);
    let limit = match op.c % 5 {
        0 => (op.c / 5) as usize % (want_text.as_ref().map_or(300, |t| t.len()) + 3),
        1 => (op.c / 5) as usize % 12,
        _ => usize::MAX,
    };
    let mut sink = Sink {
        buf: String::new(),
        left: limit,
        failed: false,
        late: false,
    };
    let mark = w(|w| {
        let k = w.soft.len();
        let mut ts = vec![];
        if let Some(r) = root {
            ts.push(w.m.tree(r));
        }
        m_trees(w, &m, &mut ts);
        w.soft.extend(ts);
        k
    });
    let what = w(|w| w.what.clone());
    let s = &mut sink;
    let rr = &r;
    let res = call(4 * lin(size), move || -> fmt::Result {
        match rr {
            Real::Tree(t) => match k {
                0 => write!(s, "{}", t.debug_pretty_print()),
                1 => write!(s, "{:?}", t.debug_pretty_print()),
                2 => write!(s, "{:#}", t.debug_pretty_print()),
                3 => write!(s, "{:#?}", t.debug_pretty_print()),
                4 | 5 => write!(s, "{:?}", t.debug_print()),
                6 => write!(s, "{:#?}", t.debug_print()),
                7 => write!(s, "{:?}", t.debug_print_local()),
                _ => write!(s, "{:?}", t),
            },
            Real::NWeak(x) => {
                if k % 2 == 1 {
                    write!(s, "{:#?}", x)
                } else {
                    write!(s, "{:?}", x)
                }
            }
            Real::TWeak(x) => {
                if k % 2 == 1 {
                    write!(s, "{:#?}", x)
                } else {
                    write!(s, "{:?}", x)
                }
            }
            Real::Iter(x) => match x {
                RIter::Dft(x) => write!(s, "{:?}", x),
                RIter::RDft(x) => write!(s, "{:?}", x),
                RIter::Ser(x) => write!(s, "{:?}", x),
                RIter::Sib(x) => write!(s, "{:?}", x),
                RIter::RSib(x) => write!(s, "{:?}", x),
                RIter::Anc(x) => write!(s, "{:?}", x),
                RIter::SSib(x) => write!(s, "{:?}", x),
                RIter::SDft(x) => write!(s, "{:?}", x),
                RIter::SSh(x) => write!(s, "{:?}", x),
                RIter::NaB(x) => write!(s, "{:?}", x),
                RIter::AB(x) => write!(s, "{:?}", x),
            },
            x => nh!(x, h => match k {
                0 => write!(s, "{}", h.debug_pretty_print()),
                1 => write!(s, "{:?}", h.debug_pretty_print()),
                2 => write!(s, "{:#}", h.debug_pretty_print()),
                3 => write!(s, "{:#?}", h.debug_pretty_print()),
                4 => write!(s, "{:?}", h.debug_print_local()),
                5 => write!(s, "{:#?}", h.debug_print_local()),
                6 => write!(s, "{:?}", h.debug_print_subtree()),
                7 => write!(s, "{:#?}", h.debug_print_subtree()),
                _ => write!(s, "{:?}", h),
            }),
        }
    });
    w(|w| {
        w.soft.truncate(mark);
        w.what = what.clone();
    });
    put(slot, r);
    let tags = c(19);
    // The data's formatter reported an error.
    let fmt_failed = payload::fired() & (1 << Cb::Fmt as u32) != 0
        && matches!(&op.fault, Some(f) if f.cb == Cb::Fmt && matches!(f.act, Act::FmtErr));
    if sink.late {
        fail!(tags, "{}: the printer goes on after the sink has failed", what);
    }
    match res {
        Ok(Ok(())) => {
            if sink.failed || fmt_failed {
                fail!(tags, "{}: the failure of the {} is not reported", what, if sink.failed { "sink" } else { "formatter of the data" });
            }
        }
        Ok(Err(_)) => {
            if !sink.failed && !fmt_failed {
                fail!(tags, "{}: printing fails for no reason", what);
            }
            probe(if sink.failed { "sink failed" } else { "formatter of the data failed" });
            if let Some(t) = &want_text {
                if !t.starts_with(&sink.buf) || (!fmt_failed && sink.buf.len() != limit) {
                    fail!(tags, "{}: what is printed before the failure is wrong: {:?}", what, sink.buf);
                }
            }
            return (2, tags);
        }
        Err(Pan::Lib(m)) => lib_panic(tags, &m),
        Err(Pan::Injected) => {
            injected(tags);
            return (2, tags);
        }
    }
    if let Some(t) = want_text {
        if t != sink.buf {
            fail!(tags, "{}: prints {:?} instead of {:?}", what, sink.buf, t);
        }
    }
    if let Some(x) = want_scan {
        let got = scan(&sink.buf);
        if got != x {
            fail!(tags, "{}: prints nodes {:?} instead of {:?} (depth, data) in {:?}", what, got, x, sink.buf);
        }
    }
    if let (Form::Local, Some(n), false) = (form, root, alt) {
        let fields = w(|w| {
            [
                ("parent", w.m.parent(n).is_some()),
                ("prev_sibling", w.m.prev_sib(n).is_some()),
                ("next_sibling", w.m.next_sib(n).is_some()),
                ("first_child", !w.m.ch(n).is_empty()),
            ]
        });
        for (f, v) in fields {
            let t = format!("{}: {}", f, if v { "Some(_)" } else { "None" });
            if !sink.buf.contains(&t) {
                fail!(tags, "{}: {:?} does not contain {:?}", what, sink.buf, t);
            }
        }
    }
    if let (M::NWeak(_) | M::TWeak(_), None) = (&m, root) {
        probe("dead weak reference printed");
        if !sink.buf.contains("dropped") {
            fail!(tags | c(8), "{}: a dead weak reference prints {:?}", what, sink.buf);
        }
    }
    (1, tags)
}

fn m_trees(w: &World, m: &M, out: &mut Vec<usize>) {
    if let M::Iter(_) = m {
        m.related(&w.m, &mut |t| out.push(t));
    }
}
fn m_related(w: &World, m: &M, ok: &mut bool) {
    m.related(&w.m, &mut |t| {
        if w.tobs(t).is_none() {
            *ok = false;
        }
    });
}
