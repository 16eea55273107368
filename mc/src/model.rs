//! The reference model: finite automata as plain data with textbook semantics, written independently of dandy.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let x = self.0;
        (x ^ (x >> 29)).wrapping_mul(0x9E3779B97F4A7C15)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64);
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

/// An automaton as data. A DFA has no `eps` and exactly one target per symbol.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Aut {
    pub alpha: Vec<String>,
    pub names: Vec<String>,
    pub init: usize,
    pub acc: Vec<bool>,
    pub eps: Vec<Vec<usize>>,
    pub tr: Vec<Vec<Vec<usize>>>,
}

impl Aut {
    pub fn n(&self) -> usize {
        self.acc.len()
    }
    pub fn k(&self) -> usize {
        self.alpha.len()
    }
    pub fn has_eps(&self) -> bool {
        self.eps.iter().any(|e| !e.is_empty())
    }
    pub fn is_det(&self) -> bool {
        !self.has_eps() && self.tr.iter().all(|t| t.iter().all(|s| s.len() == 1))
    }

    pub fn show(&self) -> String {
        let mut s = format!("alphabet {:?}\n", self.alpha);
        for q in 0..self.n() {
            s += &format!(
                "{} {} {:?}(#{q})",
                if q == self.init { "->" } else { "  " },
                if self.acc[q] { "*" } else { " " },
                self.names[q]
            );
            if self.has_eps() {
                s += &format!(" eps:{:?}", self.eps[q]);
            }
            for (c, t) in self.tr[q].iter().enumerate() {
                s += &format!(" {}:{:?}", self.alpha[c], t);
            }
            s.push('\n');
        }
        s
    }

    pub fn closure(&self, q: usize) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        seen[q] = true;
        let mut st = vec![q];
        while let Some(x) = st.pop() {
            for &y in &self.eps[x] {
                if !seen[y] {
                    seen[y] = true;
                    st.push(y);
                }
            }
        }
        seen
    }

    /// states some input can lead to
    pub fn reachable(&self) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        seen[self.init] = true;
        let mut st = vec![self.init];
        while let Some(x) = st.pop() {
            for &y in self.eps[x].iter().chain(self.tr[x].iter().flatten()) {
                if !seen[y] {
                    seen[y] = true;
                    st.push(y);
                }
            }
        }
        seen
    }

    /// states from which an accepting state can be reached
    pub fn live(&self) -> Vec<bool> {
        let n = self.n();
        let mut live = self.acc.clone();
        loop {
            let mut changed = false;
            for q in 0..n {
                if !live[q]
                    && self.eps[q]
                        .iter()
                        .chain(self.tr[q].iter().flatten())
                        .any(|&t| live[t])
                {
                    live[q] = true;
                    changed = true;
                }
            }
            if !changed {
                return live;
            }
        }
    }

    pub fn det(&self) -> Det {
        self.det_order(&(0..self.k()).collect::<Vec<_>>())
    }

    /// The subset automaton with symbols in the order of `alpha`; None unless the alphabets are the same set
    pub fn det_as(&self, alpha: &[String]) -> Option<Det> {
        if alpha.len() != self.alpha.len() {
            return None;
        }
        let mut order = Vec::with_capacity(alpha.len());
        for a in alpha {
            order.push(self.alpha.iter().position(|b| a == b)?);
        }
        Some(self.det_order(&order))
    }

    fn det_order(&self, order: &[usize]) -> Det {
        let n = self.n();
        let k = order.len();
        if n <= 64 {
            let mask = |v: &[bool]| -> u64 {
                v.iter()
                    .enumerate()
                    .fold(0, |m, (i, b)| if *b { m | 1 << i } else { m })
            };
            let has_eps = self.has_eps();
            let clo: Vec<u64> = (0..n)
                .map(|q| if has_eps { mask(&self.closure(q)) } else { 1 << q })
                .collect();
            let mut step = vec![0u64; n * k];
            for q in 0..n {
                for (c, &o) in order.iter().enumerate() {
                    for &t in &self.tr[q][o] {
                        step[q * k + c] |= clo[t];
                    }
                }
            }
            let accm = mask(&self.acc);
            let mut ids: FxMap<u64, u32> = FxMap::default();
            let mut sets = vec![clo[self.init]];
            ids.insert(clo[self.init], 0);
            let mut tr = vec![];
            let mut i = 0;
            while i < sets.len() {
                let s = sets[i];
                for c in 0..k {
                    let mut t = 0u64;
                    let mut m = s;
                    while m != 0 {
                        let q = m.trailing_zeros() as usize;
                        m &= m - 1;
                        t |= step[q * k + c];
                    }
                    let id = *ids.entry(t).or_insert_with(|| {
                        sets.push(t);
                        sets.len() as u32 - 1
                    });
                    tr.push(id);
                }
                i += 1;
            }
            Det {
                k,
                acc: sets.iter().map(|s| s & accm != 0).collect(),
                tr,
                sets: sets.into_iter().map(|s| vec![s].into_boxed_slice()).collect(),
            }
        } else {
            let w = n.div_ceil(64);
            let mask = |v: &[bool]| -> Box<[u64]> {
                let mut m = vec![0u64; w];
                for (i, b) in v.iter().enumerate() {
                    if *b {
                        m[i / 64] |= 1 << (i % 64);
                    }
                }
                m.into_boxed_slice()
            };
            let clo: Vec<Box<[u64]>> = (0..n).map(|q| mask(&self.closure(q))).collect();
            let accm = mask(&self.acc);
            let mut ids: FxMap<Box<[u64]>, u32> = FxMap::default();
            let mut sets = vec![clo[self.init].clone()];
            ids.insert(clo[self.init].clone(), 0);
            let mut tr = vec![];
            let mut i = 0;
            while i < sets.len() {
                for &o in order {
                    let mut t = vec![0u64; w];
                    for q in 0..n {
                        if sets[i][q / 64] >> (q % 64) & 1 == 1 {
                            for &x in &self.tr[q][o] {
                                for (a, b) in t.iter_mut().zip(clo[x].iter()) {
                                    *a |= b;
                                }
                            }
                        }
                    }
                    let t = t.into_boxed_slice();
                    let id = *ids.entry(t.clone()).or_insert_with(|| {
                        sets.push(t);
                        sets.len() as u32 - 1
                    });
                    tr.push(id);
                }
                i += 1;
            }
            Det {
                k,
                acc: sets
                    .iter()
                    .map(|s| s.iter().zip(accm.iter()).any(|(a, b)| a & b != 0))
                    .collect(),
                tr,
                sets,
            }
        }
    }

    /// indistinguishability classes of the states of a DFA, unreachable ones included
    pub fn moore(&self) -> Vec<usize> {
        let k = self.k();
        moore(&self.acc, |q, c| self.tr[q][c][0], k)
    }

    pub fn accepts(&self, word: &[usize]) -> bool {
        let n = self.n();
        let mut cur = self.closure(self.init);
        for &c in word {
            let mut nx = vec![false; n];
            for q in 0..n {
                if cur[q] {
                    for &t in &self.tr[q][c] {
                        for (i, b) in self.closure(t).into_iter().enumerate() {
                            nx[i] |= b;
                        }
                    }
                }
            }
            cur = nx;
        }
        (0..n).any(|q| cur[q] && self.acc[q])
    }
}

fn moore(acc: &[bool], step: impl Fn(usize, usize) -> usize, k: usize) -> Vec<usize> {
    let n = acc.len();
    let mut cls: Vec<usize> = acc.iter().map(|b| *b as usize).collect();
    let mut count = {
        let mut v = cls.clone();
        v.sort();
        v.dedup();
        v.len()
    };
    loop {
        let mut ids: FxMap<Vec<usize>, usize> = FxMap::default();
        let mut next = Vec::with_capacity(n);
        for q in 0..n {
            let mut sig = Vec::with_capacity(k + 1);
            sig.push(cls[q]);
            sig.extend((0..k).map(|c| cls[step(q, c)]));
            let l = ids.len();
            next.push(*ids.entry(sig).or_insert(l));
        }
        cls = next;
        if ids.len() == count {
            return cls;
        }
        count = ids.len();
    }
}

/// A complete DFA (all states reachable, initial state 0), as computed by the model
#[derive(Clone, Debug)]
pub struct Det {
    pub k: usize,
    pub acc: Vec<bool>,
    pub tr: Vec<u32>,
    pub sets: Vec<Box<[u64]>>,
}

impl Det {
    pub fn n(&self) -> usize {
        self.acc.len()
    }
    pub fn step(&self, q: usize, c: usize) -> usize {
        self.tr[q * self.k + c] as usize
    }
    pub fn has(&self, q: usize, x: usize) -> bool {
        self.sets[q][x / 64] >> (x % 64) & 1 == 1
    }
    pub fn accepts(&self, w: &[usize]) -> bool {
        self.acc[w.iter().fold(0, |q, &c| self.step(q, c))]
    }
    pub fn minimal_size(&self) -> usize {
        let mut c = moore(&self.acc, |q, c| self.step(q, c), self.k);
        c.sort();
        c.dedup();
        c.len()
    }
    pub fn from_fn(k: usize, n: usize, acc: impl Fn(usize) -> bool, f: impl Fn(usize, usize) -> usize) -> Det {
        Det {
            k,
            acc: (0..n).map(acc).collect(),
            tr: (0..n).flat_map(|q| (0..k).map(move |c| (q, c))).map(|(q, c)| f(q, c) as u32).collect(),
            sets: vec![],
        }
    }
    /// can an accepting state be reached in exactly 0..=len steps: table[r][q]
    fn exact(&self, len: usize) -> Vec<Vec<bool>> {
        let mut t = vec![self.acc.clone()];
        for r in 1..=len {
            let row = (0..self.n())
                .map(|q| (0..self.k).any(|c| t[r - 1][self.step(q, c)]))
                .collect();
            t.push(row);
        }
        t
    }
    /// the first `max` words in the order shorter first, then alphabet order; true if there are no more
    pub fn words(&self, max: usize) -> (Vec<Vec<usize>>, bool) {
        let mut out = vec![];
        // once n consecutive lengths have no word there are no longer words
        let mut barren = 0;
        let mut len = 0;
        let mut exact = self.exact(0);
        while barren <= self.n() {
            if exact.len() <= len {
                let r = exact.len();
                let row = (0..self.n())
                    .map(|q| (0..self.k).any(|c| exact[r - 1][self.step(q, c)]))
                    .collect();
                exact.push(row);
            }
            if exact[len][0] {
                barren = 0;
                let mut w = vec![];
                if !self.words_len(0, len, &exact, &mut w, &mut out, max) {
                    return (out, false);
                }
            } else {
                barren += 1;
            }
            len += 1;
        }
        (out, true)
    }
    fn words_len(
        &self,
        q: usize,
        left: usize,
        exact: &[Vec<bool>],
        w: &mut Vec<usize>,
        out: &mut Vec<Vec<usize>>,
        max: usize,
    ) -> bool {
        if !exact[left][q] {
            return true;
        }
        if left == 0 {
            if out.len() == max {
                return false;
            }
            out.push(w.clone());
            return true;
        }
        for c in 0..self.k {
            w.push(c);
            let ok = self.words_len(self.step(q, c), left - 1, exact, w, out, max);
            w.pop();
            if !ok {
                return false;
            }
        }
        true
    }
}

pub struct Diff {
    /// shortest word on which the relation fails
    pub word: Option<Vec<usize>>,
    pub states: u64,
    pub transitions: u64,
}

/// Explores the product of the automata completely; looks for a reachable tuple whose acceptance vector is not `ok`
pub fn check_all(dets: &[&Det], ok: impl Fn(&[bool]) -> bool) -> Diff {
    let k = dets[0].k;
    let m = dets.len();
    let mut mult = vec![1u64; m];
    for i in 1..m {
        mult[i] = mult[i - 1] * dets[i - 1].n() as u64;
    }
    let total = mult[m - 1] * dets[m - 1].n() as u64;
    let mut seen_vec = if total <= 1 << 16 { vec![false; total as usize] } else { vec![] };
    let mut seen_set: FxSet<u64> = FxSet::default();
    let mut visit = |code: u64| -> bool {
        if seen_vec.is_empty() {
            seen_set.insert(code)
        } else {
            !std::mem::replace(&mut seen_vec[code as usize], true)
        }
    };
    let mut queue: Vec<(u64, u32, u32)> = vec![(0, u32::MAX, 0)];
    visit(0);
    let mut i = 0;
    let mut bits = vec![false; m];
    let mut transitions = 0;
    while i < queue.len() {
        let (code, _, _) = queue[i];
        let mut rest = code;
        let st: [usize; 8] = {
            let mut a = [0; 8];
            for j in 0..m {
                a[j] = (rest % dets[j].n() as u64) as usize;
                rest /= dets[j].n() as u64;
                bits[j] = dets[j].acc[a[j]];
            }
            a
        };
        if !ok(&bits) {
            let mut w = vec![];
            let mut x = i;
            while queue[x].1 != u32::MAX {
                w.push(queue[x].2 as usize);
                x = queue[x].1 as usize;
            }
            w.reverse();
            return Diff { word: Some(w), states: queue.len() as u64, transitions };
        }
        for c in 0..k {
            transitions += 1;
            let mut nc = 0;
            for j in 0..m {
                nc += mult[j] * dets[j].step(st[j], c) as u64;
            }
            if visit(nc) {
                queue.push((nc, i as u32, c as u32));
            }
        }
        i += 1;
    }
    Diff { word: None, states: queue.len() as u64, transitions }
}
