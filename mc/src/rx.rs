//! Reference regular expressions: grammar, printer, and the position (Glushkov) automaton.
use crate::model::Aut;
use dandy::regex::{RegexChar, RegexTree};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Debug, Clone, PartialEq)]
pub enum Rx {
    Sym(String),
    Eps,
    Empty,
    Seq(Box<Rx>, Box<Rx>),
    Alt(Box<Rx>, Box<Rx>),
    Star(Box<Rx>),
    Plus(Box<Rx>),
}
use Rx::*;

const OPS: [char; 8] = ['(', ')', '∅', 'ε', '|', '*', '+', '\\'];

/// Reads an expression by the documented grammar
pub fn read(text: &str) -> Option<Rx> {
    let t = text.trim();
    let (e, rest) = alt(t)?;
    rest.is_empty().then_some(e)
}

fn alt(s: &str) -> Option<(Rx, &str)> {
    let (mut e, mut s) = seq(s)?;
    while let Some(r) = s.strip_prefix('|') {
        // a bar that nothing follows is left over
        let (f, r) = seq(r)?;
        e = Alt(Box::new(e), Box::new(f));
        s = r;
    }
    Some((e, s))
}

fn seq(s: &str) -> Option<(Rx, &str)> {
    let (mut e, mut s) = item(s)?;
    while !s.is_empty() && !s.starts_with(['|', ')', '*', '+']) {
        let (f, r) = item(s)?;
        e = Seq(Box::new(e), Box::new(f));
        s = r;
    }
    Some((e, s))
}

fn item(s: &str) -> Option<(Rx, &str)> {
    let c = s.chars().next()?;
    let (e, s) = match c {
        '(' => {
            let (e, r) = alt(&s[1..])?;
            (e, r.strip_prefix(')')?)
        }
        'ε' => (Eps, &s[c.len_utf8()..]),
        '∅' => (Empty, &s[c.len_utf8()..]),
        '\\' => {
            let g = s[1..].graphemes(true).next()?;
            (Sym(g.to_string()), &s[1 + g.len()..])
        }
        c if OPS.contains(&c) => return None,
        _ => {
            let g = s.graphemes(true).next()?;
            (Sym(g.to_string()), &s[g.len()..])
        }
    };
    Some(match s.chars().next() {
        Some('*') => (Star(Box::new(e)), &s[1..]),
        Some('+') => (Plus(Box::new(e)), &s[1..]),
        _ => (e, s),
    })
}

/// what the tree of a loaded expression stands for
pub fn of_tree(t: &RegexTree) -> Rx {
    let fold = |v: &[RegexTree], zero: Rx, f: fn(Box<Rx>, Box<Rx>) -> Rx| -> Rx {
        v.iter().map(of_tree).reduce(|a, b| f(Box::new(a), Box::new(b))).unwrap_or(zero)
    };
    match t {
        RegexTree::Sequence(v) => fold(v, Eps, Seq),
        RegexTree::Alt(v) => fold(v, Empty, Alt),
        RegexTree::Repeat(t) => Star(Box::new(of_tree(t))),
        RegexTree::Char(RegexChar::Epsilon) => Eps,
        RegexTree::Char(RegexChar::Empty) => Empty,
        RegexTree::Char(RegexChar::Grapheme(g)) => Sym(g.to_string()),
    }
}

struct Pos {
    syms: Vec<String>,
    follow: Vec<Vec<usize>>,
}
struct Info {
    nullable: bool,
    first: Vec<usize>,
    last: Vec<usize>,
}

impl Pos {
    fn go(&mut self, e: &Rx) -> Info {
        match e {
            Eps => Info { nullable: true, first: vec![], last: vec![] },
            Empty => Info { nullable: false, first: vec![], last: vec![] },
            Sym(s) => {
                let p = self.syms.len();
                self.syms.push(s.clone());
                self.follow.push(vec![]);
                Info { nullable: false, first: vec![p], last: vec![p] }
            }
            Alt(a, b) => {
                let (mut a, b) = (self.go(a), self.go(b));
                a.nullable |= b.nullable;
                a.first.extend(b.first);
                a.last.extend(b.last);
                a
            }
            Seq(a, b) => {
                let (mut a, mut b) = (self.go(a), self.go(b));
                self.link(&a.last, &b.first);
                if a.nullable {
                    a.first.extend(b.first);
                }
                if b.nullable {
                    b.last.extend(a.last);
                }
                Info { nullable: a.nullable && b.nullable, first: a.first, last: b.last }
            }
            Star(a) => {
                let mut a = self.go(a);
                self.link(&a.last, &a.first);
                a.nullable = true;
                a
            }
            Plus(a) => {
                let a = self.go(a);
                self.link(&a.last, &a.first);
                a
            }
        }
    }
    fn link(&mut self, from: &[usize], to: &[usize]) {
        for p in from {
            for q in to {
                if !self.follow[*p].contains(q) {
                    self.follow[*p].push(*q);
                }
            }
        }
    }
}

/// the position automaton; symbols in order of first occurrence
pub fn automaton(e: &Rx) -> Aut {
    let mut p = Pos { syms: vec![], follow: vec![] };
    let info = p.go(e);
    let mut alpha: Vec<String> = vec![];
    for s in &p.syms {
        if !alpha.contains(s) {
            alpha.push(s.clone());
        }
    }
    let n = p.syms.len() + 1;
    let mut a = Aut {
        init: 0,
        acc: vec![false; n],
        eps: vec![vec![]; n],
        tr: vec![vec![vec![]; alpha.len()]; n],
        names: (0..n).map(|i| format!("p{i}")).collect(),
        alpha,
    };
    a.acc[0] = info.nullable;
    for q in info.last {
        a.acc[q + 1] = true;
    }
    let idx: Vec<usize> = p.syms.iter().map(|s| a.alpha.iter().position(|x| x == s).unwrap()).collect();
    for q in info.first {
        a.tr[0][idx[q]].push(q + 1);
    }
    for (q, f) in p.follow.iter().enumerate() {
        for t in f {
            a.tr[q + 1][idx[*t]].push(*t + 1);
        }
    }
    a
}

/// number of expressions with exactly m operators over `leaves` leaves
pub fn count(m: usize, leaves: u64) -> u64 {
    let mut t = vec![leaves];
    for k in 1..=m {
        let bin: u64 = (0..k).map(|i| t[i] * t[k - 1 - i]).sum();
        t.push(2 * t[k - 1] + 2 * bin);
    }
    t[m]
}

/// the i-th of them
pub fn nth(mut i: u64, m: usize, leaves: &[Rx]) -> Rx {
    if m == 0 {
        return leaves[i as usize].clone();
    }
    let l = leaves.len() as u64;
    let c = count(m - 1, l);
    if i < 2 * c {
        let e = Box::new(nth(i / 2, m - 1, leaves));
        return if i % 2 == 0 { Star(e) } else { Plus(e) };
    }
    i -= 2 * c;
    for k in 0..m {
        let (x, y) = (count(k, l), count(m - 1 - k, l));
        if i < 2 * x * y {
            let op = i % 2;
            i /= 2;
            let (a, b) = (Box::new(nth(i / y, k, leaves)), Box::new(nth(i % y, m - 1 - k, leaves)));
            return if op == 0 { Seq(a, b) } else { Alt(a, b) };
        }
        i -= 2 * x * y;
    }
    unreachable!()
}

/// text with as few parentheses as possible (`full`: with all of them)
pub fn print(e: &Rx, full: bool) -> String {
    fn go(e: &Rx, level: u8, full: bool, out: &mut String) {
        let own = match e {
            Alt(..) => 0,
            Seq(..) => 1,
            Star(..) | Plus(..) => 2,
            _ => 3,
        };
        let par = own < level || (full && own < 3);
        if par {
            out.push('(');
        }
        match e {
            Eps => out.push('ε'),
            Empty => out.push('∅'),
            Sym(s) => {
                if s.starts_with(OPS) {
                    out.push('\\');
                }
                out.push_str(s);
            }
            Alt(a, b) => {
                go(a, 0, full, out);
                out.push('|');
                go(b, 0, full, out);
            }
            Seq(a, b) => {
                go(a, 1, full, out);
                go(b, 1, full, out);
            }
            Star(a) => {
                go(a, 3, full, out);
                out.push('*');
            }
            Plus(a) => {
                go(a, 3, full, out);
                out.push('+');
            }
        }
        if par {
            out.push(')');
        }
    }
    let mut s = String::new();
    go(e, 0, full, &mut s);
    s
}


/// numbers of trees of the library with up to `max` nodes; index: size
pub struct Trees {
    t: Vec<u64>,
    /// nonempty lists of trees with so many nodes in total
    f: Vec<u64>,
}

impl Trees {
    pub fn new(max: usize) -> Trees {
        let (mut t, mut f) = (vec![0, 6], vec![0]);
        for s in 1..=max {
            if s > 1 {
                t.push(t[s - 1] + 2 * f[s - 1]);
            }
            f.push(t[s] + (1..s).map(|x| t[x] * f[s - x]).sum::<u64>());
        }
        Trees { t, f }
    }
    pub fn count(&self, size: usize) -> u64 {
        self.t[size]
    }
    pub fn nth(&self, mut i: u64, size: usize) -> RegexTree {
        if size == 1 {
            return match i {
                0 => RegexTree::Char(RegexChar::Grapheme("a".into())),
                1 => RegexTree::Char(RegexChar::Grapheme("b".into())),
                2 => RegexTree::Char(RegexChar::Epsilon),
                3 => RegexTree::Char(RegexChar::Empty),
                4 => RegexTree::Sequence(vec![]),
                _ => RegexTree::Alt(vec![]),
            };
        }
        if i < self.t[size - 1] {
            return RegexTree::Repeat(Box::new(self.nth(i, size - 1)));
        }
        i -= self.t[size - 1];
        let list = self.list(i / 2, size - 1);
        if i % 2 == 0 {
            RegexTree::Sequence(list)
        } else {
            RegexTree::Alt(list)
        }
    }
    fn list(&self, mut i: u64, size: usize) -> Vec<RegexTree> {
        if i < self.t[size] {
            return vec![self.nth(i, size)];
        }
        i -= self.t[size];
        for x in 1..size {
            let here = self.t[x] * self.f[size - x];
            if i < here {
                let mut v = vec![self.nth(i % self.t[x], x)];
                v.extend(self.list(i / self.t[x], size - x));
                return v;
            }
            i -= here;
        }
        unreachable!()
    }
}
