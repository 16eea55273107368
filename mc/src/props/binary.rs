//! P07 - P10: set operations and equivalence of two automata
use super::*;
use dandy::dfa::Dfa;
use dandy::nfa::{Nfa, NfaState};

type Pair = Box<dyn Fn(u64) -> (Aut, Aut) + Send + Sync>;
pub struct PairSpace {
    name: String,
    len: u64,
    get: Pair,
}

fn space(name: impl Into<String>, len: u64, get: impl Fn(u64) -> (Aut, Aut) + Send + Sync + 'static) -> PairSpace {
    PairSpace { name: name.into(), len, get: Box::new(get) }
}

/// gives the second automaton the first one's symbols, in permutation `p`, and names that clash in one of several ways
pub fn align(a: &mut Aut, b: Aut, p: u64, names: u64) -> Aut {
    let k = a.k();
    let mut b = b;
    b.alpha = a.alpha.clone();
    let b2 = reorder(&b, &perm(p % factorial(k as u64), k));
    b = b2;
    let two = |xs: &[&str], n: usize| -> Vec<String> {
        (0..n).map(|i| xs.get(i).map(|s| s.to_string()).unwrap_or(format!("y{i}"))).collect()
    };
    match names % 6 {
        0 => {}
        // pairs of different states whose names combine to the same text
        1 => {
            a.names = two(&["a", "a,b", "a,b,b", "a,b,b,b"], a.n());
            b.names = two(&["b,b,c", "b,c", "c", "b,b,b,c"], b.n());
        }
        2 => b.names = a.names.iter().cloned().chain((0..).map(|i| format!("w{i}"))).take(b.n()).collect(),
        3 => {
            a.names = two(&["1", "s_new", "3", "0"], a.n());
            b.names = two(&["2", "0", "4", "s_new"], b.n());
        }
        4 => {
            a.names = two(&["none", "(none,x)", "x"], a.n());
            b.names = two(&["x", "none", "(x,none)"], b.n());
        }
        _ => b.names = (0..b.n()).map(|i| format!("{i}")).collect(),
    }
    b
}

fn init0(a: Aut, i: u64) -> Aut {
    let mut a = a;
    a.init = i as usize % a.n();
    a
}

fn dfa_pairs(tier: Tier, heavy: bool) -> Vec<PairSpace> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut all = vec![
        (1, 1, 1, 1),
        (1, 2, 1, 2),
        (2, 1, 1, 2),
        (2, 2, 1, 12),
        (1, 1, 2, 4),
        (2, 2, 2, 12),
        (1, 2, 3, 6),
        (2, 1, 3, 6),
    ];
    if th {
        all.extend([(3, 3, 1, 6), (3, 2, 2, 2)]);
    } else {
        all.extend([(3, 2, 1, 6), (2, 3, 1, 6)]);
    }
    for (n, m, k, dress) in all {
        let (ln, lm) = (dfa_len(n, k), dfa_len(m, k));
        v.push(space(
            format!("all pairs of DFAs n={n} and n={m} k={k}, {dress} orders/namings"),
            ln * lm * dress,
            move |i| {
                let mut d = Dec(i);
                let s = d.take(dress) as u64;
                let mut a = dfa(n as usize, k as usize, d.take(ln) as u64);
                let b = dfa(m as usize, k as usize, d.take(lm) as u64);
                let b = align(&mut a, b, s, s / 2);
                (a, b)
            },
        ));
    }
    // three states and two symbols against two states, initial state first
    let (t3, t2) = (8 * 729, 4 * 16);
    let step = if th { 1 } else if heavy { 16 } else { 4 };
    v.push(space(
        format!("DFAs n=3 k=2 (initial state first) with DFAs n=2 k=2{}", if step > 1 { " with one accepting set" } else { "" }),
        t3 * t2 / step,
        move |i| {
            let mut d = Dec(i);
            let x = d.take(t3) as u64;
            let y = d.take(t2 / step) as u64 + t2 / step * (step / 2);
            let mut a = init0(dfa(3, 2, x), 0);
            let b = align(&mut a, init0(dfa(2, 2, y), 0), i, i / 2);
            (a, b)
        },
    ));
    let nb = DFA_BASES.len() as u64;
    let top = if heavy && !th { 5u64 } else { 7 };
    v.push(space(
        format!("pairs of DFA bases N<={top}, k<=3, every symbol order"),
        nb * nb * top * top * 3 * 6,
        move |i| {
            let mut d = Dec(i);
            let (x, y) = (d.take(nb), d.take(nb));
            let (n, m, k, p) = (d.take(top) + 1, d.take(top) + 1, d.take(3) + 1, d.take(6));
            let mut a = dfa_base(DFA_BASES[x], n, k);
            let b = align(&mut a, dfa_base(DFA_BASES[y], m, k), p as u64, i);
            (a, b)
        },
    ));
    // one automaton and a deviation of it: the difference may show only on long words
    let devs: &[(u64, u64)] = if th { &[(4, 2), (5, 2), (6, 3), (9, 2), (12, 2)] } else { &[(4, 2), (5, 3), (8, 2)] };
    for &(n, k) in devs {
        let l = dfa_dev_len(n, k, 1);
        let o = factorial(k);
        v.push(space(format!("DFA bases N={n} k={k} with their single edits, every symbol order"), l * o, move |i| {
            let mut d = Dec(i);
            let p = d.take(o) as u64;
            let x = d.take(l) as u64;
            let b = dfa_dev(n as usize, k as usize, 1, x);
            let mut a = dfa_base(DFA_BASES[(x % nb) as usize], n as usize, k as usize);
            let b = align(&mut a, b, p, i);
            if i % 2 == 0 {
                (a, b)
            } else {
                (b, a)
            }
        }));
    }
    // cycles of different lengths: the first difference is up to lcm - 1 symbols away
    let c = if th { 13u64 } else { 9 };
    v.push(space(format!("one-symbol cycles of lengths <={c} with every pair of accepting states"), c * c * c * c, move |i| {
        let mut d = Dec(i);
        let (n, m) = (d.take(c) + 1, d.take(c) + 1);
        let (x, y) = (d.take(c) % n, d.take(c) % m);
        let mut a = dfa_base("cycle", n, 1);
        let mut b = dfa_base("cycle", m, 1);
        a.acc = (0..n).map(|q| q != x).collect();
        b.acc = (0..m).map(|q| q != y).collect();
        let b = align(&mut a, b, 0, i);
        (a, b)
    }));
    v
}

fn nfa_pairs(tier: Tier, heavy: bool) -> Vec<PairSpace> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut all = vec![(1, 1, 0, 6), (2, 2, 0, 6), (1, 1, 1, 6), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 4), (1, 2, 2, 1)];
    if th {
        all.extend([(2, 1, 2, 1), (2, 2, 1, 1)]);
    }
    for (n, m, k, dress) in all {
        let (ln, lm) = (nfa_len(n, k, true), nfa_len(m, k, true));
        v.push(space(
            format!("all pairs of NFAs with empty moves n={n} and n={m} k={k}, {dress} orders/namings"),
            ln * lm * dress,
            move |i| {
                let mut d = Dec(i);
                let s = d.take(dress) as u64;
                let mut a = nfa(n as usize, k as usize, true, d.take(ln) as u64);
                let b = nfa(m as usize, k as usize, true, d.take(lm) as u64);
                let s = if dress == 1 { i / 7 } else { s };
                let b = align(&mut a, b, s, s / 2);
                (a, b)
            },
        ));
    }
    let mut edges = vec![(2, 1, 2, 2), (2, 1, 3, 2), (2, 1, 2, 3), (2, 2, 2, 2), (3, 1, 1, 2), (3, 1, 2, 1)];
    if th {
        edges.extend([(2, 1, 4, 3), (2, 1, 3, 4), (2, 2, 3, 2), (2, 2, 2, 3), (3, 1, 2, 2)]);
    } else if !heavy {
        edges.extend([(2, 1, 3, 3)]);
    }
    for (n, k, e, f) in edges {
        // initial state first on both sides
        let (le, lf) = (nfa_edges_len(n, k, true, e) / n, nfa_edges_len(n, k, true, f) / n);
        v.push(space(
            format!("pairs of NFAs n={n} k={k} with {e} and {f} edges, initial state first"),
            le * lf,
            move |i| {
                let mut d = Dec(i);
                let mut a = nfa_edges(n as usize, k as usize, true, e, d.take(le) as u64);
                let b = nfa_edges(n as usize, k as usize, true, f, d.take(lf) as u64);
                let b = align(&mut a, b, i, i / 2);
                (a, b)
            },
        ));
    }
    let nb = NFA_BASES.len() as u64;
    let top = if heavy && !th { 4u64 } else { 6 };
    v.push(space(
        format!("pairs of NFA bases N<={top}, k<=3, every symbol order"),
        nb * nb * top * top * 3 * 6,
        move |i| {
            let mut d = Dec(i);
            let (x, y) = (d.take(nb), d.take(nb));
            let (n, m, k, p) = (d.take(top) + 1, d.take(top) + 1, d.take(3) + 1, d.take(6));
            let mut a = nfa_base(NFA_BASES[x], n, k);
            let b = align(&mut a, nfa_base(NFA_BASES[y], m, k), p as u64, i);
            (a, b)
        },
    ));
    let devs: &[(u64, u64)] = if th { &[(4, 2), (5, 2), (6, 2), (5, 3), (9, 2)] } else { &[(4, 2), (6, 2), (4, 3)] };
    for &(n, k) in devs {
        let l = nfa_dev_len(n, k, 1);
        let o = factorial(k);
        v.push(space(format!("NFA bases N={n} k={k} with their single edits, every symbol order"), l * o, move |i| {
            let mut d = Dec(i);
            let p = d.take(o) as u64;
            let x = d.take(l) as u64;
            let b = nfa_dev(n as usize, k as usize, 1, x);
            let mut a = nfa_base(NFA_BASES[(x % nb) as usize], n as usize, k as usize);
            let b = align(&mut a, b, p, i);
            if i % 2 == 0 {
                (a, b)
            } else {
                (b, a)
            }
        }));
    }
    v
}

/// sizes and alphabets around the places where a table, mask or counter of fixed width would end
fn scaled_pairs(nfa: bool, heavy: bool) -> Vec<PairSpace> {
    let mut v = vec![];
    let kinds: &'static [&'static str] = if nfa { BIG_NFA } else { DFA_BASES };
    let shape = move |x: usize, n: usize, k: usize| {
        if nfa {
            big_nfa(kinds[x], n.max(2), k)
        } else {
            dfa_base(kinds[x], n, k)
        }
    };
    let kl = kinds.len() as u64;
    // one big with one small, either way round
    let s = SIZES.len() as u64;
    v.push(space("a shape of 8..=258 states with one of 2 or 3, either way round", kl * kl * s * 2, move |i| {
        let mut d = Dec(i);
        let (x, y, swap, z) = (d.take(kl), d.take(kl), d.take(2), d.take(s));
        let k = 1 + (x + y + z) % 2;
        let mut a = shape(x, SIZES[z], k);
        let b = align(&mut a, shape(y, 2 + z % 2, k), i / 3, 0);
        if swap == 0 { (a, b) } else { (b, a) }
    }));
    // the same beyond every table one would think of
    let hl = if nfa { HUGE_NFA.len() } else { kinds.len() } as u64;
    let huge = move |x: usize, n: usize, k: usize| if nfa { big_nfa(HUGE_NFA[x], n, k) } else { dfa_base(kinds[x], n, k) };
    v.push(space("a shape of 300, 513 or 1025 states with one of 2 or 3, either way round", hl * hl * 3 * 2, move |i| {
        let mut d = Dec(i);
        let (x, y, swap, z) = (d.take(hl), d.take(hl), d.take(2), d.take(3));
        let k = 1 + (x + y + z) % 2;
        let mut a = huge(x, HUGE[z], k);
        let b = align(&mut a, huge(y, 2 + z % 2, k), i / 3, 0);
        if swap == 0 { (a, b) } else { (b, a) }
    }));
    let sizes: &'static [(usize, usize)] = if heavy && nfa {
        &[(40, 41), (67, 63)]
    } else if heavy {
        &[(63, 64), (101, 100), (128, 129)]
    } else {
        &[(63, 64), (101, 100), (128, 129), (255, 256), (512, 513)]
    };
    let sl = sizes.len() as u64;
    v.push(space(format!("two shapes of coprime sizes up to {}: thousands of pairs of states, names that look alike when joined", sizes[sizes.len() - 1].0), hl * hl * sl, move |i| {
        let mut d = Dec(i);
        let (x, y, z) = (d.take(hl), d.take(hl), d.take(sl));
        let mut a = huge(x, sizes[z].0, 1);
        let mut b = huge(y, sizes[z].1, 1);
        if (x + y) % 2 == 1 {
            // q,q with q,q,q and q,q,q with q,q; and the numbers a union would give
            let (n, m) = (a.n(), b.n());
            a.names = (0..n).map(|q| if y % 2 == 0 { vec!["q"; q + 1].join(",") } else { format!("{}", q + 1) }).collect();
            b.names = (0..m).map(|q| if y % 2 == 0 { vec!["q"; q + 1].join(",") } else { format!("{}", n + 1 - q.min(n) + q.saturating_sub(n) * n * 2) }).collect();
        }
        let b = align(&mut a, b, 0, 0);
        (a, b)
    }));
    let sizes: &'static [usize] = if heavy { &[300] } else { &HUGE };
    let sl = sizes.len() as u64;
    v.push(space(format!("a shape of 300 to {} states with itself, no or one accepting mark changed", sizes[sizes.len() - 1]), hl * sl * 4, move |i| {
        let mut d = Dec(i);
        let (x, z, e) = (d.take(hl), d.take(sl), d.take(4));
        let n = sizes[z];
        let mut a = huge(x, n, 1 + e % 2);
        let mut b = a.clone();
        if e < 3 {
            let q = [0, n / 2, n - 1][e];
            b.acc[q] = !b.acc[q];
        }
        let b = align(&mut a, b, 1, 0);
        (a, b)
    }));
    // two of about the same size
    let most = if heavy { 41 } else { 66 };
    let near: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= most).collect();
    let l = near.len() as u64;
    v.push(space(format!("two shapes of 8..={most} states of the same or the next size"), kl * kl * l, move |i| {
        let mut d = Dec(i);
        let (x, y, z) = (d.take(kl), d.take(kl), d.take(l));
        let n = near[z];
        let mut a = shape(x, n, 1);
        let b = align(&mut a, shape(y, n + (x + y) % 2, 1), 0, 0);
        (a, b)
    }));
    // a shape and itself with one accepting mark changed, symbols in the other order
    let most = if heavy && nfa { 36 } else if heavy { 66 } else { 130 };
    let near: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= most).collect();
    let l = near.len() as u64;
    v.push(space(format!("a shape of 8..={most} states with itself, no or one accepting mark or initial mark changed"), kl * l * 2 * 7, move |i| {
        let mut d = Dec(i);
        let (x, z, k, e) = (d.take(kl), d.take(l), d.take(2) + 1, d.take(7));
        let n = near[z];
        let mut a = shape(x, n, k);
        let mut b = a.clone();
        if e < 5 {
            let q = [0, 1, n / 2, n - 2, n - 1][e];
            b.acc[q] = !b.acc[q];
        } else if e == 5 {
            b.init = n - 1;
        }
        let b = align(&mut a, b, 1, 0);
        (a, b)
    }));
    let w = WIDTHS.len() as u64;
    v.push(space("n=3 with n=3 over 4..=258 symbols in twelve orders", WIDE * WIDE * ORDERS * w, move |i| {
        let mut d = Dec(i);
        let (x, y, o, z) = (d.take(WIDE) as u64, d.take(WIDE) as u64, d.take(ORDERS) as u64, d.take(w));
        let k = WIDTHS[z];
        (wide(x, k, !nfa), reorder(&wide(y, k, !nfa), &order(o, k)))
    }));
    let mut swaps: Vec<(usize, usize, usize)> = vec![];
    for k in 4..=40usize {
        for q in 1..k {
            for p in 0..q {
                if k <= 9 || p + 1 == q || p < 2 || q + 2 > k {
                    swaps.push((k, p, q));
                }
            }
        }
    }
    let l = swaps.len() as u64;
    v.push(space("n=3 with itself over 4..=40 symbols, two symbols exchanged, in place or in name only", WIDE * l * 2, move |i| {
        let mut d = Dec(i);
        let (x, place, (k, p, q)) = (d.take(WIDE) as u64, d.take(2), swaps[d.take(l)]);
        let a = wide(x, k, !nfa);
        let mut b = a.clone();
        if place == 0 {
            let mut o: Vec<usize> = (0..k).collect();
            o.swap(p, q);
            b = reorder(&a, &o);
        } else {
            b.alpha.swap(p, q);
            b = reorder(&b, &(0..k).rev().collect::<Vec<_>>());
        }
        (a, b)
    }));
    v
}

/// every assignment of names from a list to a few small pairs of automata: (states of a, states of b, names tried)
fn named_pairs(tier: Tier, nfa: bool) -> Vec<PairSpace> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let nb = NFA_BASES.len() as u64;
    for (n, m, pool) in [(1u64, 1u64, 14u64), (1, 2, 14), (2, 1, 14), (2, 2, if th { 14 } else { 8 }), (3, 3, if th { 7 } else { 0 })] {
        if fresh_len(n, pool) == 0 {
            continue;
        }
        let (ln, lm) = (fresh_len(n, pool), fresh_len(m, pool));
        let shapes = if th { nb * nb } else { 6 };
        v.push(space(
            format!("N={n} and N={m} k=1, {shapes} shapes, every assignment of names from a list of likely new names"),
            ln * lm * shapes,
            move |i| {
                let mut d = Dec(i);
                let (x, y) = (d.take(ln) as u64, d.take(lm) as u64);
                let s = if th { d.take(shapes) } else { [0, 9, 18, 35, 28, 45][d.take(6)] };
                let shape = |j: usize, n: u64| {
                    if nfa {
                        nfa_base(NFA_BASES[j % 8], n as usize, 1)
                    } else {
                        dfa_base(DFA_BASES[j % 6], n as usize, 1)
                    }
                };
                let (mut a, mut b) = (shape(s % 8, n), shape(s / 8, m));
                a.names = fresh(n as usize, pool as usize, x);
                b.names = fresh(m as usize, pool as usize, y);
                (a, b)
            },
        ));
    }
    // states numbered from s on one side and from t on the other, with and without s_new
    v.push(space("N<=5 and N<=5 k=1, names counting from every number, s_new on either side", 5 * 5 * 11 * 11 * 9, move |i| {
        let mut d = Dec(i);
        let (n, m, s, t, z) = (d.take(5) + 1, d.take(5) + 1, d.take(11), d.take(11), d.take(9));
        let shape = |j: usize, n: usize| {
            if nfa {
                nfa_base(["chain", "star", "ladder"][j % 3], n, 1)
            } else {
                dfa_base(["cycle", "chain", "sink"][j % 3], n, 1)
            }
        };
        let (mut a, mut b) = (shape(s, n), shape(t, m));
        a.names = (0..n).map(|q| format!("{}", s + q)).collect();
        b.names = (0..m).map(|q| format!("{}", t + q)).collect();
        if z % 3 == 1 {
            a.names[n - 1] = "s_new".into();
        } else if z % 3 == 2 {
            a.names[0] = "s_new".into();
        }
        if z / 3 == 1 {
            b.names[m - 1] = "s_new".into();
        } else if z / 3 == 2 {
            b.names[0] = "s_new".into();
        }
        (a, b)
    }));
    // names whose combinations look alike
    let c = confusable().len() as u64 * 6;
    let c2 = if th { c } else { 16 * 6 };
    v.push(space("N=3 and N=2 k=1 with every two triples of confusable names", c * c2, move |i| {
        let (x, y) = (i % c, i / c);
        let (mut a, mut b) = if nfa {
            (nfa_base("nth", 3, 1), nfa_base("star", 2, 1))
        } else {
            (dfa_base("cycle", 3, 1), dfa_base("cycle", 2, 1))
        };
        a.names = confused(x);
        b.names = confused(y)[..2].to_vec();
        (a, b)
    }));
    v.push(space("N=2 and N=3 k=3 with every triple of confusable symbols in two orders", c * 6, move |i| {
        let (mut a, b) = if nfa {
            (nfa_base("star", 2, 3), nfa_base("nth", 3, 3))
        } else {
            (dfa_base("mod", 2, 3), dfa_base("mod", 3, 3))
        };
        a.alpha = confused(i % c);
        let b = align(&mut a, b, i / c, 0);
        (a, b)
    }));
    v
}

/// alphabets over a few symbols, all subsets in all orders, and texts that look alike when joined
fn alphabet_list() -> Vec<Vec<String>> {
    let syms = ["a", "b", "ab"];
    let mut out: Vec<Vec<String>> = vec![];
    for m in 0..8u32 {
        let sub: Vec<&str> = (0..3).filter(|i| m >> i & 1 == 1).map(|i| syms[i]).collect();
        for p in 0..factorial(sub.len() as u64) {
            out.push(perm(p, sub.len()).into_iter().map(|i| sub[i].to_string()).collect());
        }
    }
    for extra in [&["aa", "b"][..], &["a", "bb"], &["A", "b"], &["é", "a"], &["e\u{301}", "a"], &["a", "b", "c", "d"], &["d", "c", "a", "b"]] {
        out.push(extra.iter().map(|s| s.to_string()).collect());
    }
    for t in confusable() {
        out.push(t[1..].to_vec());
        out.push(t.to_vec());
    }
    out.sort();
    out.dedup();
    out
}

fn same_set(a: &[String], b: &[String]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.contains(x))
}

fn dfa_ops(a: &Aut, b: &Aut, ctx: &mut Ctx, all16: bool) -> R {
    let (x, y) = (load_dfa(a)?, load_dfa(b)?);
    let (x0, y0) = (x.clone(), y.clone());
    ctx.sample(|| format!("{}{}", a.show(), b.show()));
    let (da, db) = (a.det(), b.det_as(&a.alpha).expect("aligned"));
    let mut judge = |what: &str, r: Option<Dfa>, f: &dyn Fn(bool, bool) -> bool| -> R {
        let w = |s: String| format!("{what} of\n{}and\n{}{s}", a.show(), b.show());
        let Some(r) = r else { fail!("{}", w("no result for the same alphabet".into())) };
        let o = obs_dfa(&r).map_err(|e| Fail::new(w(e.msg)))?;
        ensure!(o.alpha == a.alpha, "{}", w(format!("alphabet {:?}", o.alpha)));
        ensure!(
            o.reachable().iter().all(|b| *b),
            "{}",
            w(format!("unreachable states in the result\n{}", o.show()))
        );
        same_language(ctx, &w("".into()), &a.alpha, &[&da, &db], &o, |v| f(v[0], v[1]))
    };
    judge("union", x.union(&y), &|p, q| p || q)?;
    judge("intersection", x.intersection(&y), &|p, q| p && q)?;
    judge("difference", x.difference(&y), &|p, q| p && !q)?;
    judge("symmetric_difference", x.symmetric_difference(&y), &|p, q| p != q)?;
    if all16 {
        for t in 0..16u32 {
            let f = move |p: bool, q: bool| t >> (p as u32 * 2 + q as u32) & 1 == 1;
            judge(
                &format!("product_construction with table {t:04b}"),
                x.product_construction(&y, |s, u| f(s.is_accepting(), u.is_accepting())),
                &f,
            )?;
        }
    }
    if all16 && a.n() * b.n() <= 100 {
        // the combination is given the very states of the pair
        let mut ai = a.clone();
        ai.acc = (0..a.n()).map(|q| q == a.init).collect();
        let mut bi = b.clone();
        bi.acc = (0..b.n()).map(|q| q + 1 == b.n()).collect();
        let last = b.names[b.n() - 1].clone();
        let r = x.product_construction(&y, |s, u| s.is_initial() && u.name() == last);
        let Some(r) = r else { fail!("no product of\n{}and\n{}", a.show(), b.show()) };
        let o = obs_dfa(&r)?;
        let what = format!("product by initial mark and name of\n{}and\n{}", a.show(), b.show());
        same_language(ctx, &what, &a.alpha, &[&ai.det(), &bi.det_as(&a.alpha).expect("aligned")], &o, |v| v[0] && v[1])?;
    }
    ensure!(x == x0 && y == y0, "an operand was changed by an operation:\n{}{}", a.show(), b.show());
    let mut inv = x.clone();
    inv.invert();
    let o = obs_dfa(&inv)?;
    ensure!(
        o.alpha == a.alpha && o.names == a.names && o.tr == a.tr && o.init == a.init,
        "invert changed more than the accepting marks of\n{}:\n{}",
        a.show(),
        o.show()
    );
    same_language(ctx, &format!("invert of\n{}", a.show()), &a.alpha, &[&da], &o, |v| !v[0])
}

fn or(s: Option<&NfaState>, u: Option<&NfaState>) -> bool {
    s.is_some_and(|s| s.is_accepting()) || u.is_some_and(|u| u.is_accepting())
}

fn nfa_ops(a: &Aut, b: &Aut, ctx: &mut Ctx) -> R {
    nfa_ops_on(a, b, true, ctx)
}
fn nfa_ops_on(a: &Aut, b: &Aut, products: bool, ctx: &mut Ctx) -> R {
    let (x, y) = (load_nfa(a)?, load_nfa(b)?);
    let (x0, y0) = (x.clone(), y.clone());
    ctx.sample(|| format!("{}{}", a.show(), b.show()));
    let (da, db) = (a.det(), b.det_as(&a.alpha).expect("aligned"));
    if products && a.n() * b.n() <= 36 {
        // one of the sixteen combinations for each pair, all of them over the pairs of a family
        let edges = |x: &Aut| x.tr.iter().flatten().chain(&x.eps).flatten().map(|t| t + 1).sum::<usize>();
        let t = edges(a) + 5 * edges(b) + 3 * a.acc.iter().filter(|x| **x).count();
        nfa_combination(a, b, &x, &y, t as u32 % 16, ctx)?;
    }
    let mut judge = |what: &str, r: Option<Nfa>, f: &dyn Fn(bool, bool) -> bool| -> R {
        let w = |s: String| format!("{what} of\n{}and\n{}{s}", a.show(), b.show());
        let Some(r) = r else { fail!("{}", w("no result for the same alphabet".into())) };
        let o = obs_nfa(&r).map_err(|e| Fail::new(w(e.msg)))?;
        ensure!(o.alpha == a.alpha, "{}", w(format!("alphabet {:?}", o.alpha)));
        same_language(ctx, &w("".into()), &a.alpha, &[&da, &db], &o, |v| f(v[0], v[1]))
    };
    if products {
        judge("intersection", x.intersection(&y), &|p, q| p && q)?;
        judge("product_construction (or)", x.product_construction(&y, or), &|p, q| p || q)?;
    }
    ensure!(x == x0 && y == y0, "an operand was changed by an operation:\n{}{}", a.show(), b.show());
    judge("union", x.union(y).ok(), &|p, q| p || q)
}

/// A product with any combination of the marks, a missing state counting as not accepting. It accepts at least every
/// word after which the operands can be in states whose marks combine to true, and no word for which no pair of runs,
/// stuck ones included, ends in marks that do.
fn nfa_combination(a: &Aut, b: &Aut, x: &Nfa, y: &Nfa, t: u32, ctx: &mut Ctx) -> R {
    let f = |p: bool, q: bool| t >> (p as u32 * 2 + q as u32) & 1 == 1;
    let is = |s: Option<&NfaState>| s.is_some_and(|s| s.is_accepting());
    let w = |s: &str| format!("product_construction with table {t:04b} of\n{}and\n{}{s}", a.show(), b.show());
    let Some(r) = x.product_construction(y, |s, u| f(is(s), is(u))) else { fail!("{}", w("no result")) };
    let o = obs_nfa(&r).map_err(|e| Fail::new(w(&e.msg)))?;
    ensure!(o.alpha == a.alpha, "{}", w(&format!("alphabet {:?}", o.alpha)));
    let not = |x: &Aut| Aut { acc: x.acc.iter().map(|m| !m).collect(), ..x.clone() };
    // pairs of runs, with one more state for a run that is stuck
    let (n, m) = (a.n(), b.n());
    let order: Vec<usize> = a.alpha.iter().map(|s| b.alpha.iter().position(|u| u == s).expect("aligned")).collect();
    let id = |p: usize, q: usize| p * (m + 1) + q;
    let after = |x: &Aut, q: usize, c: usize| match q == x.n() || x.tr[q][c].is_empty() {
        true => vec![x.n()],
        false => x.tr[q][c].clone(),
    };
    let mut pairs = Aut {
        alpha: a.alpha.clone(),
        names: vec![],
        init: id(a.init, b.init),
        acc: vec![],
        eps: vec![],
        tr: vec![],
    };
    for p in 0..=n {
        for q in 0..=m {
            pairs.names.push(format!("{p} {q}"));
            pairs.acc.push(f(p < n && a.acc[p], q < m && b.acc[q]));
            let mut eps: Vec<usize> = vec![];
            if p < n {
                eps.extend(a.eps[p].iter().map(|p| id(*p, q)));
            }
            if q < m {
                eps.extend(b.eps[q].iter().map(|q| id(p, *q)));
            }
            pairs.eps.push(eps);
            pairs.tr.push(
                (0..a.k())
                    .map(|c| {
                        let (us, vs) = (after(a, p, c), after(b, q, order[c]));
                        us.iter().flat_map(|u| vs.iter().map(|v| id(*u, *v))).collect()
                    })
                    .collect(),
            );
        }
    }
    let ops = [a.det(), not(a).det(), b.det_as(&a.alpha).expect("aligned"), not(b).det_as(&a.alpha).expect("aligned")];
    let most = pairs.det();
    let rd = o.det_as(&a.alpha).expect("same symbols");
    let bounds = |v: &[bool]| {
        let least = [(true, true), (true, false), (false, true), (false, false)]
            .into_iter()
            .any(|(p, q)| f(p, q) && v[if p { 1 } else { 2 }] && v[if q { 3 } else { 4 }]);
        (least, v[5])
    };
    let d = check_all(&[&rd, &ops[0], &ops[1], &ops[2], &ops[3], &most], |v| {
        let (least, most) = bounds(v);
        (v[0] || !least) && (!v[0] || most)
    });
    ctx.states += d.states;
    ctx.transitions += d.transitions;
    ctx.traces += 1;
    if let Some(word) = d.word {
        let got = rd.accepts(&word);
        fail!(
            "{}",
            w(&format!(
                "the word {} is {}\nresult:\n{}",
                word_str(&a.alpha, &word),
                if got { "accepted though no pair of runs combines to true" } else { "rejected though states it leads to combine to true" },
                o.show()
            ))
        );
    }
    Ok(())
}

/// every pair of alphabets: results exactly when they are the same set
fn alphabets(i: u64, ctx: &mut Ctx, nfa_too: bool) -> R {
    let list = alphabet_list();
    let (p, q) = ((i % list.len() as u64) as usize, (i / list.len() as u64) as usize);
    two_alphabets(&list[p], &list[q], ctx, nfa_too)
}

/// what a character may be confused with
const RELATIVES: u64 = 14;
fn relative(c: char, i: u64) -> Option<String> {
    let n = c as u32;
    let code = |n: u32| char::from_u32(n).map(String::from);
    match i {
        0 => Some(c.to_lowercase().collect()),
        1 => Some(c.to_uppercase().collect()),
        2 => code(n + 1),
        3 => code(n ^ 0x20),
        4 => code(n ^ 0x80),
        5 => code(n + 0x100),
        6 => code(n + 0x10000),
        7 => code(n % 0x100),
        8 => code(n % 0x80),
        9 => Some(format!("{c}\u{301}")),
        10 => Some(format!("{c}\u{fe0f}")),
        11 => Some(format!("{c}{c}")),
        12 => Some(format!("\u{200d}{c}")),
        _ => Some(c.escape_unicode().to_string().replace(['{', '}'], "")),
    }
}
fn related(i: u64, all: bool) -> Option<(Vec<String>, Vec<String>)> {
    let mut d = Dec(i);
    let form = d.take(5);
    let r = d.take(RELATIVES) as u64;
    let c = nth_char(all, d.0);
    let r = relative(c, r)?;
    let c = c.to_string();
    let x = "x".to_string();
    let ok = |s: &String| !s.contains(|c: char| c.is_whitespace() || "{}#".contains(c)) && !["*", "->", "→", "ε", "eps", "x"].contains(&s.as_str());
    if c == r || !ok(&c) || !ok(&r) {
        return None;
    }
    Some(match form {
        0 => (vec![c], vec![r]),
        1 => (vec![c, x.clone()], vec![x, r]),
        2 => (vec![c.clone(), x.clone(), r.clone()], vec![r, c, x]),
        3 => (vec![c.clone(), r], vec![x, c]),
        _ => (vec![r.clone(), c], vec![r, x]),
    })
}
fn related_len(all: bool) -> u64 {
    5 * RELATIVES * chars_len(all)
}
fn related_family(f: impl Fn(&Vec<String>, &Vec<String>, u64, &mut Ctx) -> R + Send + Sync + Copy + 'static) -> Family {
    let all = false;
    family(format!("alphabets that differ by little: {}, each of {RELATIVES} characters or sequences like it, in five places", chars_name(all)), related_len(all), move |i, ctx| match related(i, all) {
        Some((al, bl)) => f(&al, &bl, i, ctx),
        None => Ok(()),
    })
}

/// results exactly when they are the same set
fn small_alphabets(al: &Vec<String>, bl: &Vec<String>, ctx: &mut Ctx, nfa_too: bool) -> R {
    sized_alphabets(al, bl, &[(1, 2)], ctx, nfa_too)
}
fn two_alphabets(al: &Vec<String>, bl: &Vec<String>, ctx: &mut Ctx, nfa_too: bool) -> R {
    sized_alphabets(al, bl, &[(1, 1), (2, 1), (2, 3)], ctx, nfa_too)
}
fn sized_alphabets(al: &Vec<String>, bl: &Vec<String>, sizes: &[(usize, usize)], ctx: &mut Ctx, nfa_too: bool) -> R {
    let same = same_set(al, bl);
    ctx.traces += 1;
    ctx.states += 1;
    ctx.sample(|| format!("{al:?} {bl:?}"));
    let w = |s: &str| format!("alphabets {al:?} and {bl:?}: {s}");
    // one state per symbol count so the automata are different but simple
    for &(n, m) in sizes {
        let mut a = dressed(0, n, al.len());
        let mut b = dressed(0, m, bl.len());
        a.alpha = al.clone();
        b.alpha = bl.clone();
        for x in [&mut a, &mut b] {
            let n = x.n();
            for q in 0..n {
                for c in 0..x.k() {
                    x.tr[q][c] = vec![(q + 1) % n];
                }
            }
            x.acc[0] = true;
        }
        if !nfa_too {
            if al.is_empty() || bl.is_empty() {
                continue;
            }
            let (x, y) = (load_dfa(&a)?, load_dfa(&b)?);
            let r = [
                ("union", x.union(&y).is_some()),
                ("intersection", x.intersection(&y).is_some()),
                ("difference", x.difference(&y).is_some()),
                ("symmetric_difference", x.symmetric_difference(&y).is_some()),
                ("product_construction", x.product_construction(&y, |_, _| true).is_some()),
            ];
            for (op, some) in r {
                ensure!(some == same, "{}", w(&format!("{op} gives {}", if some { "a result" } else { "no result" })));
            }
            if same {
                dfa_ops(&a, &b, ctx, sizes.len() > 1)?;
            }
        } else {
            let (x, y) = (load_nfa(&a)?, load_nfa(&b)?);
            let (x0, y0) = (x.clone(), y.clone());
            ensure!(x.intersection(&y).is_some() == same, "{}", w("intersection"));
            ensure!(x.product_construction(&y, or).is_some() == same, "{}", w("product_construction"));
            match x.union(y) {
                Ok(_) => ensure!(same, "{}", w("union gives a result")),
                Err((x, y)) => {
                    ensure!(!same, "{}", w("union gives no result"));
                    ensure!(x == x0 && y == y0, "{}", w("union does not hand back the operands unchanged"));
                }
            }
            if same {
                nfa_ops(&a, &b, ctx)?;
                let (x, y) = (load_nfa(&a)?, load_nfa(&b)?);
                for t in if sizes.len() > 1 { 0..16 } else { 6..7 } {
                    nfa_combination(&a, &b, &x, &y, t, ctx)?;
                }
            }
        }
    }
    Ok(())
}

/// a copy that accepts the same words: other names, order of states and symbols, an unreachable state
fn disguise(a: &Aut, i: u64) -> Aut {
    let mut b = permute(a, &perm(i, a.n()));
    b = reorder(&b, &perm(i / 3, b.k()));
    b.names = (0..b.n()).map(|j| format!("d{j}")).collect();
    if i % 2 == 0 {
        let n = b.n();
        let det = a.is_det();
        b.names.push("junk".into());
        b.acc.push(true);
        b.eps.push(vec![]);
        if !det {
            b.eps[n].push((i % n as u64) as usize);
        }
        let t = (0..b.k()).map(|c| vec![(c + i as usize) % (n + 1)]).collect();
        b.tr.push(t);
    }
    for s in b.tr.iter_mut().flatten().chain(b.eps.iter_mut()) {
        s.reverse();
    }
    b
}

fn model_equal(a: &Aut, b: &Aut, ctx: &mut Ctx) -> (bool, Option<Vec<usize>>) {
    match b.det_as(&a.alpha) {
        None => (false, None),
        Some(db) => {
            let da = a.det();
            let d = check_all(&[&da, &db], |v| v[0] == v[1]);
            ctx.states += d.states;
            ctx.transitions += d.transitions;
            (d.word.is_none(), d.word)
        }
    }
}

fn eq_dfa(a: &Aut, b: &Aut, i: u64, ctx: &mut Ctx) -> R {
    let (x, y) = (load_dfa(a)?, load_dfa(b)?);
    ctx.sample(|| format!("{}{}", a.show(), b.show()));
    let (want, word) = model_equal(a, b, ctx);
    let w = |s: &str, got: bool| {
        format!(
            "equivalent_to{s} says {got} for\n{}and\n{}difference: {:?}",
            a.show(),
            b.show(),
            word.as_ref().map(|w| word_str(&a.alpha, w))
        )
    };
    let z = load_dfa(&disguise(a, i))?;
    let u = load_dfa(&disguise(b, i / 2))?;
    ctx.traces += 7;
    for (s, got, exp) in [
        ("", x.equivalent_to(&y), want),
        (" (other direction)", y.equivalent_to(&x), want),
        (" itself", x.equivalent_to(&x), true),
        (" a renamed, reordered copy of itself", x.equivalent_to(&z), true),
        (" itself from a renamed, reordered copy", z.equivalent_to(&x), true),
        (" (renamed, reordered copies)", z.equivalent_to(&u), want),
        (" (renamed, reordered second)", x.equivalent_to(&u), want),
    ] {
        ensure!(got == exp, "{}", w(s, got));
    }
    Ok(())
}

fn eq_nfa(a: &Aut, b: &Aut, i: u64, ctx: &mut Ctx) -> R {
    let (x, y) = (load_nfa(a)?, load_nfa(b)?);
    ctx.sample(|| format!("{}{}", a.show(), b.show()));
    let (want, word) = model_equal(a, b, ctx);
    let w = |s: &str, got: bool| {
        format!(
            "equivalent_to{s} says {got} for\n{}and\n{}difference: {:?}",
            a.show(),
            b.show(),
            word.as_ref().map(|w| word_str(&a.alpha, w))
        )
    };
    let z = load_nfa(&disguise(a, i))?;
    let u = load_nfa(&disguise(b, i / 2))?;
    ctx.traces += 7;
    for (s, got, exp) in [
        ("", x.equivalent_to(&y), want),
        (" (other direction)", y.equivalent_to(&x), want),
        (" itself", x.equivalent_to(&x), true),
        (" a renamed, reordered copy of itself", x.equivalent_to(&z), true),
        (" itself from a renamed, reordered copy", z.equivalent_to(&x), true),
        (" (renamed, reordered copies)", z.equivalent_to(&u), want),
        (" (renamed, reordered second)", x.equivalent_to(&u), want),
    ] {
        ensure!(got == exp, "{}", w(s, got));
    }
    Ok(())
}

fn eq_alphabets(i: u64, ctx: &mut Ctx) -> R {
    let list = alphabet_list();
    let (p, q) = ((i % list.len() as u64) as usize, (i / list.len() as u64) as usize);
    eq_two_alphabets(&list[p], &list[q], i, 0..3, (true, true), ctx)
}

fn eq_two_alphabets(al: &Vec<String>, bl: &Vec<String>, i: u64, kinds: std::ops::Range<usize>, (dfa, nfa): (bool, bool), ctx: &mut Ctx) -> R {
    // all accept everything, nothing, or just the empty word
    for kind in kinds {
        let mk = |al: &Vec<String>| {
            let mut a = dressed(0, 2, al.len());
            a.alpha = al.clone();
            for q in 0..2 {
                for c in 0..a.k() {
                    a.tr[q][c] = vec![if kind == 2 { 1 } else { 0 }];
                }
            }
            a.acc[0] = kind != 1;
            a
        };
        let (a, b) = (mk(al), mk(bl));
        if nfa {
            eq_nfa(&a, &b, i, ctx)?;
        }
        if dfa && !al.is_empty() && !bl.is_empty() {
            eq_dfa(&a, &b, i, ctx)?;
        }
    }
    Ok(())
}

fn over(spaces: Vec<PairSpace>, f: impl Fn(&Aut, &Aut, u64, &mut Ctx) -> R + Send + Sync + Copy + 'static) -> Vec<Family> {
    spaces
        .into_iter()
        .map(|s| {
            let get = s.get;
            family(s.name, s.len, move |i, ctx| {
                let (a, b) = get(i);
                f(&a, &b, i, ctx)
            })
        })
        .collect()
}

pub fn p07(tier: Tier) -> Vec<Family> {
    let n = alphabet_list().len() as u64;
    let mut v = over(dfa_pairs(tier, true), |a, b, i, ctx| dfa_ops(a, b, ctx, i % 8 == 0));
    v.extend(over(named_pairs(tier, false), |a, b, i, ctx| dfa_ops(a, b, ctx, i % 8 == 0)));
    v.extend(over(scaled_pairs(false, true), |a, b, i, ctx| dfa_ops(a, b, ctx, i % 8 == 0)));
    v.push(family("all pairs of alphabets of a list", n * n, |i, ctx| alphabets(i, ctx, false)));
    v.push(related_family(|a, b, _, ctx| small_alphabets(a, b, ctx, false)));
    v.push(family("all pairs of DFAs n=2 k=1, all 16 combinations", dfa_len(2, 1) * dfa_len(2, 1), |i, ctx| {
        let mut a = dfa(2, 1, i / dfa_len(2, 1));
        let b = align(&mut a, dfa(2, 1, i % dfa_len(2, 1)), 0, i);
        dfa_ops(&a, &b, ctx, true)
    }));
    v
}
pub fn p08(tier: Tier) -> Vec<Family> {
    let n = alphabet_list().len() as u64;
    let mut v = over(nfa_pairs(tier, true), |a, b, _, ctx| nfa_ops(a, b, ctx));
    v.extend(over(named_pairs(tier, true), |a, b, _, ctx| nfa_ops(a, b, ctx)));
    v.extend(over(scaled_pairs(true, true), |a, b, _, ctx| {
        // the product has (edges of a) x (edges of b) edges: of large ones only the union
        let edges = |a: &Aut| a.tr.iter().flatten().chain(&a.eps).map(|s| s.len()).sum::<usize>();
        nfa_ops_on(a, b, edges(a) * edges(b) <= 20_000, ctx)
    }));
    v.push(family("all pairs of alphabets of a list", n * n, |i, ctx| alphabets(i, ctx, true)));
    v.push(related_family(|a, b, _, ctx| small_alphabets(a, b, ctx, true)));
    v
}
pub fn p09(tier: Tier) -> Vec<Family> {
    let n = alphabet_list().len() as u64;
    let mut v = over(dfa_pairs(tier, false), eq_dfa);
    v.extend(over(named_pairs(tier, false), eq_dfa));
    v.extend(over(scaled_pairs(false, false), eq_dfa));
    v.push(family("all pairs of alphabets of a list", n * n, eq_alphabets));
    v.push(related_family(|a, b, i, ctx| eq_two_alphabets(a, b, i, (i % 3) as usize..(i % 3) as usize + 1, (true, false), ctx)));
    v
}
pub fn p10(tier: Tier) -> Vec<Family> {
    let n = alphabet_list().len() as u64;
    let mut v = over(nfa_pairs(tier, false), eq_nfa);
    v.extend(over(named_pairs(tier, true), eq_nfa));
    v.extend(over(scaled_pairs(true, false), eq_nfa));
    v.push(family("all pairs of alphabets of a list", n * n, eq_alphabets));
    v.push(related_family(|a, b, i, ctx| eq_two_alphabets(a, b, i, (i % 3) as usize..(i % 3) as usize + 1, (false, true), ctx)));
    let (l, m) = (nfa_len(2, 1, false), nfa_len(2, 1, false));
    v.push(family("all pairs of NFAs n=2 k=1 without empty moves", l * m, move |i, ctx| {
        let mut a = nfa(2, 1, false, i / m);
        let b = align(&mut a, nfa(2, 1, false, i % m), 0, i);
        eq_nfa(&a, &b, i, ctx)
    }));
    v
}
