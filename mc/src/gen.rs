//! Enumerators: every function here is a bijection from 0..len to a finite space of automata.
use crate::model::*;

/// mixed-radix decoder
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, radix: u64) -> usize {
        let r = self.0 % radix;
        self.0 /= radix;
        r as usize
    }
    pub fn bits(&mut self, n: usize) -> u64 {
        let r = self.0 & ((1u64 << n) - 1);
        self.0 >>= n;
        r
    }
}

pub fn pow(b: u64, e: u32) -> u64 {
    b.checked_pow(e).expect("space too large")
}

const ALPHABETS: &[[&str; 4]] = &[
    ["a", "b", "c", "d"],
    ["b", "a", "d", "c"],
    ["1", "0", "10", "01"],
    ["å", "a", "e\u{301}", "日"],
    ["ab", "a", "b", "aba"],
    ["x'", "|", "(", "\\"],
];
const NAMES: &[[&str; 6]] = &[
    ["s0", "s1", "s2", "s3", "s4", "s5"],
    ["1", "0", "2", "4", "3", "6"],
    ["s_new", "0", "1", "s_new0", "2", "x"],
    ["q₀", "日本", "a", "(a,b)", "none", "é"],
    ["b", "a", "ab", "ba", "B", "A"],
];

pub const STYLES: u64 = 30;

pub fn alpha(style: u64, k: usize) -> Vec<String> {
    let a = &ALPHABETS[(style % ALPHABETS.len() as u64) as usize];
    (0..k)
        .map(|i| a.get(i).map(|s| s.to_string()).unwrap_or_else(|| format!("x{i}")))
        .collect()
}

pub fn names(style: u64, n: usize) -> Vec<String> {
    let a = &NAMES[(style / ALPHABETS.len() as u64 % NAMES.len() as u64) as usize];
    (0..n)
        .map(|i| a.get(i).map(|s| s.to_string()).unwrap_or_else(|| format!("z{i}")))
        .collect()
}

pub fn dressed(style: u64, n: usize, k: usize) -> Aut {
    Aut {
        alpha: alpha(style, k),
        names: names(style, n),
        init: 0,
        acc: vec![false; n],
        eps: vec![vec![]; n],
        tr: vec![vec![vec![]; k]; n],
    }
}

/// all DFAs with exactly n states and k symbols (initial x accepting x transitions)
pub fn dfa_len(n: u64, k: u64) -> u64 {
    n * (1 << n) * pow(n, (n * k) as u32)
}
pub fn dfa(n: usize, k: usize, i: u64) -> Aut {
    let mut d = Dec(i);
    let mut a = dressed(i % STYLES, n, k);
    for q in 0..n {
        for c in 0..k {
            a.tr[q][c] = vec![d.take(n as u64)];
        }
    }
    let acc = d.bits(n);
    for q in 0..n {
        a.acc[q] = acc >> q & 1 == 1;
    }
    a.init = d.take(n as u64);
    a
}

/// all NFAs with n states, k symbols, with or without a column of empty moves
pub fn nfa_len(n: u64, k: u64, eps: bool) -> u64 {
    n * (1 << n) << (n * n * (k + eps as u64))
}
pub fn nfa(n: usize, k: usize, eps: bool, i: u64) -> Aut {
    let mut d = Dec(i);
    let mut a = dressed(i % STYLES, n, k);
    // every third automaton lists its targets in descending order
    let rev = i % 3 == 2;
    let set = |d: &mut Dec| -> Vec<usize> {
        let m = d.bits(n);
        let mut v: Vec<usize> = (0..n).filter(|q| m >> q & 1 == 1).collect();
        if rev {
            v.reverse();
        }
        v
    };
    for q in 0..n {
        for c in 0..k {
            a.tr[q][c] = set(&mut d);
        }
        if eps {
            a.eps[q] = set(&mut d);
        }
    }
    let acc = d.bits(n);
    for q in 0..n {
        a.acc[q] = acc >> q & 1 == 1;
    }
    a.init = d.take(n as u64);
    a
}

pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    let mut r: u64 = 1;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}

/// the i-th k-subset of 0..n (combinatorial number system)
pub fn subset(mut i: u64, n: u64, k: u64) -> Vec<u64> {
    let mut out = vec![];
    let mut hi = n;
    for j in (1..=k).rev() {
        // largest c < hi with binom(c, j) <= i
        let mut c = j - 1;
        while c + 1 < hi && binom(c + 1, j) <= i {
            c += 1;
        }
        out.push(c);
        i -= binom(c, j);
        hi = c;
    }
    out
}

/// all NFAs with n states, k symbols, exactly e edges (symbol or empty moves)
pub fn nfa_edges_len(n: u64, k: u64, eps: bool, e: u64) -> u64 {
    n * (1 << n) * binom(n * n * (k + eps as u64), e)
}
pub fn nfa_edges(n: usize, k: usize, eps: bool, e: u64, i: u64) -> Aut {
    let mut d = Dec(i);
    let mut a = dressed(i % STYLES, n, k);
    let cols = k + eps as usize;
    let slots = (n * n * cols) as u64;
    let which = d.take(binom(slots, e)) as u64;
    let acc = d.bits(n);
    for q in 0..n {
        a.acc[q] = acc >> q & 1 == 1;
    }
    a.init = d.take(n as u64);
    let mut edges = subset(which, slots, e);
    if i % 3 == 1 {
        edges.reverse();
    }
    for x in edges {
        let x = x as usize;
        let (q, r) = (x / (n * cols), x % (n * cols));
        let (c, t) = (r / n, r % n);
        if c == k {
            a.eps[q].push(t);
        } else {
            a.tr[q][c].push(t);
        }
    }
    a
}

/// structured bases on which bounded numbers of edits are made
pub const DFA_BASES: &[&str] = &["cycle", "chain", "mod", "tree", "sink", "twins"];

pub fn dfa_base(kind: &str, n: usize, k: usize) -> Aut {
    let mut a = dressed(0, n, k);
    a.names = (0..n).map(|i| format!("q{i}")).collect();
    for q in 0..n {
        for c in 0..k {
            let t = match kind {
                // one symbol walks round, the others stay
                "cycle" => {
                    if c == 0 {
                        (q + 1) % n
                    } else {
                        q
                    }
                }
                // walk to the end and stay there; other symbols start over
                "chain" => {
                    if c == 0 {
                        (q + 1).min(n - 1)
                    } else {
                        0
                    }
                }
                "mod" => (q * 2 + c) % n,
                "tree" => {
                    let t = q * k + c + 1;
                    if t < n {
                        t
                    } else {
                        n - 1
                    }
                }
                // everything falls into the last state
                "sink" => {
                    if c == q % k && q + 1 < n {
                        q + 1
                    } else {
                        n - 1
                    }
                }
                // pairs of states behaving alike
                "twins" => {
                    let p = q / 2;
                    let t = 2 * ((p + 1 + c) % n.div_ceil(2)) + (q + c) % 2;
                    t.min(n - 1)
                }
                _ => unreachable!(),
            };
            a.tr[q][c] = vec![t];
        }
    }
    match kind {
        "cycle" | "mod" | "tree" => a.acc[n - 1] = true,
        "chain" => a.acc[n - 1] = true,
        "sink" => a.acc[n.saturating_sub(2)] = true,
        "twins" => (0..n).for_each(|q| a.acc[q] = (q / 2) % 3 == 1),
        _ => {}
    }
    a
}

/// number of single edits of a DFA: redirect one transition anywhere, flip one accepting mark, move the initial mark
pub fn dfa_edit_count(n: u64, k: u64) -> u64 {
    n * k * n + n + n
}
pub fn dfa_edit(a: &mut Aut, e: u64) {
    let (n, k) = (a.n() as u64, a.k() as u64);
    if e < n * k * n {
        let (q, r) = (e / (k * n), e % (k * n));
        a.tr[q as usize][(r / n) as usize] = vec![(r % n) as usize];
    } else if e < n * k * n + n {
        let q = (e - n * k * n) as usize;
        a.acc[q] = !a.acc[q];
    } else {
        a.init = (e - n * k * n - n) as usize;
    }
}

/// base DFA with up to `edits` edits in every combination (ordered pairs for 2)
pub fn dfa_dev_len(n: u64, k: u64, edits: u32) -> u64 {
    DFA_BASES.len() as u64 * pow(dfa_edit_count(n, k), edits)
}
pub fn dfa_dev(n: usize, k: usize, edits: u32, i: u64) -> Aut {
    let mut d = Dec(i);
    let base = d.take(DFA_BASES.len() as u64);
    let mut a = dfa_base(DFA_BASES[base], n, k);
    for _ in 0..edits {
        let e = d.take(dfa_edit_count(n as u64, k as u64)) as u64;
        dfa_edit(&mut a, e);
    }
    a
}

pub const NFA_BASES: &[&str] = &["epscycle", "epschain", "chain", "nth", "star", "dead", "ladder", "dfa"];

pub fn nfa_base(kind: &str, n: usize, k: usize) -> Aut {
    let mut a = dressed(0, n, k);
    a.names = (0..n).map(|i| format!("q{i}")).collect();
    match kind {
        // a ring of empty moves; the last state has the only symbol move
        "epscycle" => {
            for q in 0..n {
                a.eps[q] = vec![(q + 1) % n];
            }
            for c in 0..k {
                a.tr[n - 1][c] = vec![c % n];
            }
            a.acc[n / 2] = true;
        }
        // a line of empty moves with symbol moves one back
        "epschain" => {
            for q in 0..n {
                if q + 1 < n {
                    a.eps[q] = vec![q + 1];
                }
                for c in 0..k {
                    a.tr[q][c] = vec![q.saturating_sub(c + 1)];
                }
            }
            a.acc[n - 1] = true;
        }
        // one word (and repetitions of its symbols)
        "chain" => {
            for q in 0..n - 1 {
                a.tr[q][q % k] = vec![q + 1];
            }
            a.acc[n - 1] = true;
        }
        // the n-th symbol from the end: exponentially many subsets
        "nth" => {
            for c in 0..k {
                a.tr[0][c].push(0);
            }
            if n > 1 {
                a.tr[0][0].push(1);
            }
            for q in 1..n - 1 {
                for c in 0..k {
                    a.tr[q][c].push(q + 1);
                }
            }
            a.acc[n - 1] = true;
        }
        // from the middle everywhere and back, half of it by empty moves
        "star" => {
            for q in 1..n {
                if q % 2 == 0 {
                    a.eps[0].push(q);
                    a.tr[q][q % k] = vec![0];
                } else {
                    a.tr[0][q % k].push(q);
                    a.eps[q].push(0);
                }
            }
            a.acc[n - 1] = true;
        }
        // useful line with dead branches hanging off through empty moves
        "dead" => {
            for q in 0..n {
                if q % 2 == 0 {
                    if q + 2 < n {
                        a.tr[q][0].push(q + 2);
                    } else {
                        a.acc[q] = true;
                    }
                    if q + 1 < n {
                        a.eps[q].push(q + 1);
                    }
                } else {
                    let d = q.saturating_sub(2);
                    a.tr[q][k - 1].push(if d % 2 == 1 { d } else { q });
                }
            }
        }
        // two parallel lines with empty rungs
        "ladder" => {
            for q in 0..n {
                if q + 2 < n {
                    a.tr[q][q % k].push(q + 2);
                }
                if q % 2 == 0 && q + 1 < n {
                    a.eps[q].push(q + 1);
                }
            }
            a.acc[n - 1] = true;
        }
        "dfa" => {
            let b = dfa_base("mod", n, k);
            a.tr = b.tr;
            a.acc = b.acc;
        }
        _ => unreachable!(),
    }
    a
}

/// single edits of an NFA: toggle one edge (any column), flip an accepting mark, move the initial mark
pub fn nfa_edit_count(n: u64, k: u64) -> u64 {
    n * (k + 1) * n + n + n
}
pub fn nfa_edit(a: &mut Aut, e: u64) {
    let (n, k) = (a.n() as u64, a.k() as u64);
    let edges = n * (k + 1) * n;
    if e < edges {
        let (q, r) = ((e / ((k + 1) * n)) as usize, e % ((k + 1) * n));
        let (c, t) = ((r / n) as usize, (r % n) as usize);
        let set = if c == k as usize { &mut a.eps[q] } else { &mut a.tr[q][c] };
        if let Some(p) = set.iter().position(|x| *x == t) {
            set.remove(p);
        } else {
            set.push(t);
        }
    } else if e < edges + n {
        let q = (e - edges) as usize;
        a.acc[q] = !a.acc[q];
    } else {
        a.init = (e - edges - n) as usize;
    }
}

pub fn nfa_dev_len(n: u64, k: u64, edits: u32) -> u64 {
    NFA_BASES.len() as u64 * pow(nfa_edit_count(n, k), edits)
}
pub fn nfa_dev(n: usize, k: usize, edits: u32, i: u64) -> Aut {
    let mut d = Dec(i);
    let base = d.take(NFA_BASES.len() as u64);
    let mut a = nfa_base(NFA_BASES[base], n, k);
    for _ in 0..edits {
        let e = d.take(nfa_edit_count(n as u64, k as u64)) as u64;
        nfa_edit(&mut a, e);
    }
    a
}

/// the automaton without its empty moves
pub fn strip_eps(mut a: Aut) -> Aut {
    a.eps.iter_mut().for_each(|e| e.clear());
    a
}

/// renumbers the states of `a`: state q becomes perm[q]; names move along
pub fn permute(a: &Aut, perm: &[usize]) -> Aut {
    let n = a.n();
    let mut b = a.clone();
    for q in 0..n {
        let p = perm[q];
        b.names[p] = a.names[q].clone();
        b.acc[p] = a.acc[q];
        b.eps[p] = a.eps[q].iter().map(|t| perm[*t]).collect();
        b.tr[p] = a.tr[q].iter().map(|s| s.iter().map(|t| perm[*t]).collect()).collect();
    }
    b.init = perm[a.init];
    b
}

/// the same automaton with its symbols in another order
pub fn reorder(a: &Aut, order: &[usize]) -> Aut {
    let mut b = a.clone();
    b.alpha = order.iter().map(|c| a.alpha[*c].clone()).collect();
    for q in 0..a.n() {
        b.tr[q] = order.iter().map(|c| a.tr[q][*c].clone()).collect();
    }
    b
}

pub fn perm(mut i: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for j in (1..=n as u64).rev() {
        out.push(pool.remove((i % j) as usize));
        i /= j;
    }
    out
}
pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}

/// triples of names (or symbols) that are easily confused: joined, prefixed, padded, in another case or normal form
pub fn confusable() -> Vec<[String; 3]> {
    let mut v: Vec<[String; 3]> = vec![];
    for sep in ["", ",", "_", "-", "|", "+", "·", ";", ":", "/", ".", "\\", "'", "\"", "\u{200b}", "),("] {
        v.push(["a".into(), "b".into(), format!("a{sep}b")]);
    }
    for t in [
        ["0", "1", "2"],
        ["1", "2", "3"],
        ["3", "2", "4"],
        ["s_new", "0", "1"],
        ["s_new", "2", "3"],
        ["s_new", "s_new0", "s_new1"],
        ["s_new", "s_new_new", "s_new'"],
        ["q0", "q1", "q10"],
        ["q01", "q1", "q001"],
        ["0", "00", "000"],
        ["1", "01", "10"],
        ["x", "x'", "x''"],
        ["none", "None", "(none,x)"],
        ["(a,b)", "a", "(a"],
        ["a", "A", "á"],
        ["é", "e\u{301}", "e"],
        ["a", "a\u{fe0f}", "a\u{301}"],
        ["K", "\u{212a}", "k"],
        ["ß", "ss", "s"],
        ["a", "aa", "aaa"],
        ["-a", "+a", "a"],
        ["01", "1", "1.0"],
        ["->a", "*a", "a"],
        ["eps_", "_eps", "εε"],
        ["x→y", "x->y", "x-y"],
        ["→→", "->->", ">"],
        ["ε1", "eps1", "1ε"],
        ["\u{937}\u{93f}", "\u{937}", "\u{93f}"],
        ["\u{600}1", "1", "\u{600}"],
        ["\u{1100}\u{1161}", "\u{1100}", "\u{1161}"],
        ["\u{1f468}\u{200d}\u{1f469}", "\u{1f468}", "\u{1f469}"],
        ["\u{1f1f8}\u{1f1ea}", "\u{1f1f8}", "\u{1f1ea}"],
        ["\u{feff}a", "a\u{feff}", "a"],
        ["Aa", "aA", "aa"],
        ["İ", "i", "I"],
        ["ab", "ba", "c"],
    ] {
        v.push(t.map(String::from));
    }
    v
}

/// the i-th of `confusable().len() * 6` dressings: three names in one of six orders
pub fn confused(i: u64) -> Vec<String> {
    let all = confusable();
    let t = &all[(i / 6 % all.len() as u64) as usize];
    perm(i % 6, 3).into_iter().map(|j| t[j].clone()).collect()
}

/// names an operation might want to give to a new state
pub const FRESH: [&str; 14] =
    ["s_new", "0", "1", "2", "3", "4", "5", "6", "s_new0", "s_new1", "s_new'", "new", "_", "s_new_"];

/// the i-th arrangement of n different names from the first m of FRESH
pub fn fresh_len(n: u64, m: u64) -> u64 {
    (0..n).map(|j| m.saturating_sub(j)).product()
}
pub fn fresh(n: usize, m: usize, mut i: u64) -> Vec<String> {
    let mut pool: Vec<&str> = FRESH[..m].to_vec();
    (0..n)
        .map(|_| {
            let l = pool.len() as u64;
            let x = pool.remove((i % l) as usize);
            i /= l;
            x.to_string()
        })
        .collect()
}

/// sizes around the places where a table, mask or counter of fixed width would end
pub const SIZES: [usize; 45] = [
    8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 41, 48, 49,
    63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258,
];

/// shapes with few reachable sets, for any size
pub const BIG_NFA: &[&str] =
    &["epscycle", "epschain", "chain", "star", "dead", "ladder", "dfa", "fan", "epsfan", "latefan", "fanin", "full", "stairs", "tailring"];

pub fn big_nfa(kind: &str, n: usize, k: usize) -> Aut {
    if NFA_BASES.contains(&kind) {
        return nfa_base(kind, n, k);
    }
    let mut a = dressed(0, n, k);
    a.names = (0..n).map(|i| format!("q{i}")).collect();
    let last = n - 1;
    a.acc[last] = true;
    let all = k - 1;
    match kind {
        // one symbol to all the others, each of which goes on to the last
        "fan" => {
            a.tr[0][0] = (1..n).collect();
            for q in 1..n {
                a.tr[q][q % k].push(last);
            }
        }
        // empty moves to all the others
        "epsfan" => {
            a.eps[0] = (1..n).rev().collect();
            for q in 1..n {
                a.tr[q][q % k] = vec![(q + 1).min(last)];
            }
        }
        // the fan starts at a state that is not initial, and goes downwards
        "latefan" => {
            let hub = 1.min(last);
            a.tr[0][all].push(hub);
            a.tr[hub][0] = (0..n).rev().collect();
            a.eps[last] = (0..n).step_by(2).collect();
            a.acc[last] = false;
            a.acc[n / 2] = true;
        }
        // one symbol to all the others, which stay; only one of them goes on to the last
        "swarm" => {
            a.tr[0][0] = (1..last).collect();
            for q in 1..last {
                a.tr[q][0] = vec![q];
            }
            a.tr[n / 2][all].push(last);
        }
        // everything leads to the last but one, which leads to the last
        "fanin" => {
            for q in 0..n {
                if q + 1 < n {
                    a.tr[q][0] = vec![q + 1];
                }
                a.tr[q][all].push(last.saturating_sub(1));
                a.tr[q][all].dedup();
                if q % 3 == 2 {
                    a.eps[q] = vec![last.saturating_sub(2)];
                }
            }
        }
        // every state to every state
        "full" => {
            for q in 0..n {
                a.tr[q][q % k] = (0..n).collect();
            }
        }
        // symbol, empty move, symbol, ...
        "stairs" => {
            for q in 0..last {
                if q % 2 == 0 {
                    a.tr[q][q / 2 % k] = vec![q + 1];
                } else {
                    a.eps[q] = vec![q + 1];
                }
            }
        }
        // a tail and a ring, entered by an empty move
        "tailring" => {
            let h = n / 2;
            for q in 0..n {
                let t = if q + 1 < n { q + 1 } else { h };
                if q + 1 == h {
                    a.eps[q] = vec![t];
                } else {
                    a.tr[q][all] = vec![t];
                }
            }
        }
        _ => unreachable!(),
    }
    a
}

/// BIG_NFA x SIZES x k in 1..=2 x (as is, numbered backwards, accepting state moved to the middle, initial state moved)
pub fn big_nfas_len() -> u64 {
    (BIG_NFA.len() * SIZES.len() * 2 * 4) as u64
}
pub fn big_nfas(i: u64) -> Aut {
    let mut d = Dec(i);
    let kind = BIG_NFA[d.take(BIG_NFA.len() as u64)];
    let v = d.take(4);
    let k = d.take(2) + 1;
    let n = SIZES[d.take(SIZES.len() as u64)];
    big_variant(big_nfa(kind, n, k), v)
}
pub fn big_variant(a: Aut, v: usize) -> Aut {
    let n = a.n();
    match v {
        0 => a,
        1 => permute(&a, &(0..n).rev().collect::<Vec<_>>()),
        2 => {
            let mut a = a;
            a.acc = vec![false; n];
            a.acc[n / 2] = true;
            a
        }
        _ => {
            let mut a = a;
            a.init = n - 2;
            a.acc[0] = true;
            a
        }
    }
}
pub fn big_dfas_len() -> u64 {
    (DFA_BASES.len() * SIZES.len() * 2 * 4) as u64
}
pub fn big_dfas(i: u64) -> Aut {
    let mut d = Dec(i);
    let kind = DFA_BASES[d.take(DFA_BASES.len() as u64)];
    let v = d.take(4);
    let k = d.take(2) + 1;
    let n = SIZES[d.take(SIZES.len() as u64)];
    big_variant(dfa_base(kind, n, k), v)
}

/// numbers of symbols
pub const WIDTHS: [usize; 48] = [
    4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 41,
    48, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258,
];
pub const WIDE: u64 = 6;

/// three states over k symbols in which single symbols matter; a DFA, or an NFA made from it
pub fn wide(kind: u64, k: usize, det: bool) -> Aut {
    let mut a = dressed(0, 3, k);
    a.alpha = (0..k).map(|c| if c < 26 { ((b'a' + c as u8) as char).to_string() } else { format!("x{c}") }).collect();
    a.names = (0..3).map(|i| format!("q{i}")).collect();
    let pos = [0, k / 2, k - 1][(kind % 3) as usize];
    for q in 0..3 {
        for c in 0..k {
            a.tr[q][c] = vec![match (kind, q) {
                (0..=2, 0) => 2 - (c == pos) as usize,
                (0..=2, 1) => (c == (pos + 1) % k) as usize,
                (0..=2, _) => 2,
                (3, _) => (q + c) % 3,
                (4, _) => (2 * q + c / 2) % 3,
                _ => (q + (c + 1 == k) as usize + (c == 1) as usize) % 3,
            }];
        }
    }
    a.acc[1] = true;
    if !det {
        // without the sink, and with an empty move
        for q in 0..3 {
            for c in 0..k {
                if a.tr[q][c] == [2] && kind < 4 {
                    a.tr[q][c] = vec![];
                }
            }
        }
        if kind == 1 {
            a.eps[2] = vec![0];
        } else {
            a.eps[0] = vec![2];
            a.tr[2][pos].push(1);
            a.tr[2][pos].dedup();
        }
    }
    a
}

pub const ORDERS: u64 = 12;
/// orders of k symbols that leave some places alone
pub fn order(o: u64, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..k).collect();
    match o {
        0 => {}
        1 => v.reverse(),
        2 => v.rotate_left(1),
        3 => v.rotate_right(1),
        4 => v.swap(0, k - 1),
        5 => v.swap(k / 2, k / 2 - 1),
        6 => v.swap(0, 1),
        7 => v.swap(k - 1, k - 2),
        8 => v[1..k - 1].rotate_left(1),
        9 => v[1..k - 1].reverse(),
        10 => v.sort_by_key(|c| (c % 2, *c)),
        _ => v[k / 2..].reverse(),
    }
    v
}

/// ranges of characters: all of Unicode, or what lies where properties change: the first scripts and symbols, conjoining
/// letters, presentation forms, emoji, tags, and the ends of the planes
fn char_ranges(all: bool) -> &'static [(u32, u32)] {
    if all {
        &[(0, 0xd800), (0xe000, 0x110000)]
    } else {
        &[
            (0, 0x3400), (0xa960, 0xa980), (0xabe0, 0xac40), (0xd780, 0xd800), (0xe000, 0xe008), (0xf8f8, 0xf908), (0xfb00, 0xfb50),
            (0xfdf0, 0x10010), (0x110b8, 0x110c8), (0x11100, 0x11110), (0x16fe0, 0x16ff8), (0x1d150, 0x1d180), (0x1d400, 0x1d410),
            (0x1f1e0, 0x1f220), (0x1f3f0, 0x1f410), (0x1f460, 0x1f470), (0x1fff8, 0x20008), (0xe0000, 0xe0200), (0x10fff0, 0x110000),
        ]
    }
}
pub fn chars_len(all: bool) -> u64 {
    char_ranges(all).iter().map(|(a, b)| (b - a) as u64).sum()
}
pub fn nth_char(all: bool, mut i: u64) -> char {
    for (a, b) in char_ranges(all) {
        if i < (b - a) as u64 {
            return char::from_u32(a + i as u32).unwrap();
        }
        i -= (b - a) as u64;
    }
    unreachable!()
}
/// how a run describes them
pub fn chars_name(all: bool) -> &'static str {
    if all {
        "every character of Unicode"
    } else {
        "every character of the first 13312 and 18 other blocks"
    }
}
/// a text with the character in the place of each @
pub fn put(template: &str, c: char) -> String {
    template.replace('@', c.encode_utf8(&mut [0; 4]))
}

/// sizes beyond every table, mask or counter one would think of
pub const HUGE: [usize; 3] = [300, 513, 1025];
/// the shapes of NFA whose determinization does not explode
pub const HUGE_NFA: &[&str] = &["star", "epscycle", "ladder", "epsfan", "stairs", "tailring", "fan", "swarm"];
pub fn huge_dfas_len() -> u64 {
    (DFA_BASES.len() * HUGE.len() * 2) as u64
}
pub fn huge_dfas(i: u64) -> Aut {
    let mut d = Dec(i);
    let (b, v, n) = (d.take(DFA_BASES.len() as u64), d.take(2), HUGE[d.take(HUGE.len() as u64)]);
    big_variant(dfa_base(DFA_BASES[b], n, 2), v)
}
pub fn huge_nfas_len() -> u64 {
    (HUGE_NFA.len() * HUGE.len() * 2) as u64
}
pub fn huge_nfas(i: u64) -> Aut {
    let mut d = Dec(i);
    let (b, v, n) = (d.take(HUGE_NFA.len() as u64), d.take(2), HUGE[d.take(HUGE.len() as u64)]);
    big_variant(big_nfa(HUGE_NFA[b], n, 2), v)
}
