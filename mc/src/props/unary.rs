//! P03 - P06, P11, P12: operations on one automaton
use super::*;
use dandy::nfa::words::{WordComponentIndices, WordComponents, Words};

pub type DfaCheck = fn(&Aut, &mut Ctx) -> R;

/// the spaces of DFAs explored for operations on one DFA
pub fn over_dfas(tier: Tier, f: DfaCheck) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut all = vec![(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (3, 3), (5, 1)];
    if th {
        all.extend([(2, 4), (4, 2), (6, 1)]);
    }
    for (n, k) in all {
        v.push(family(format!("all DFAs n={n} k={k}"), dfa_len(n, k), move |i, c| {
            f(&dfa(n as usize, k as usize, i), c)
        }));
    }
    let mut dev = vec![(4, 2, 2), (6, 1, 2), (6, 2, 2), (8, 2, 2), (5, 3, 2), (16, 2, 1), (33, 2, 1)];
    if th {
        dev.extend([(10, 2, 2), (12, 1, 2), (7, 3, 2), (4, 2, 3), (66, 2, 1)]);
    }
    for (n, k, e) in dev {
        v.push(family(
            format!("DFA bases N={n} k={k}, all combinations of {e} edits"),
            dfa_dev_len(n, k, e),
            move |i, c| f(&dfa_dev(n as usize, k as usize, e, i), c),
        ));
    }
    v.push(family(
        "DFA bases N=1..=40 k=1..=4, every position of the initial state",
        40 * 4 * DFA_BASES.len() as u64 * 40,
        move |i, c| {
            let mut d = Dec(i);
            let (n, k, b, p) = (d.take(40) + 1, d.take(4) + 1, d.take(DFA_BASES.len() as u64), d.take(40));
            if p >= n {
                return Ok(());
            }
            let mut a = dfa_base(DFA_BASES[b], n, k);
            a.init = p;
            f(&a, c)
        },
    ));
    let c = confusable().len() as u64 * 6;
    v.push(family("DFAs n=3 k=1 (initial state first) with every triple of confusable names", 8 * 27 * c, move |i, ctx| {
        let mut a = dfa(3, 1, i / c);
        a.names = confused(i % c);
        f(&a, ctx)
    }));
    v.push(family("DFA n=2 k=3, four shapes, with every triple of confusable symbols", 4 * 4 * c, move |i, ctx| {
        let x = i / c;
        let mut a = dfa_base(["cycle", "mod", "twins", "sink"][(x % 4) as usize], 2, 3);
        a.acc = vec![x / 4 % 2 == 1, x / 8 == 1];
        a.alpha = confused(i % c);
        f(&a, ctx)
    }));
    v.push(family("DFA bases of 8..=258 states around the powers of two, k<=2, four variants", big_dfas_len(), move |i, c| f(&big_dfas(i), c)));
    v.push(family("DFA bases of 300, 513 and 1025 states, two variants", huge_dfas_len(), move |i, c| f(&huge_dfas(i), c)));
    v.push(family("DFAs n=3 over 4..=258 symbols", WIDE * WIDTHS.len() as u64, move |i, c| {
        f(&wide(i % WIDE, WIDTHS[(i / WIDE) as usize], true), c)
    }));
    v.push(family("two copies and junk: n=2 k=2 twice, plus one unreachable state", dfa_len(2, 2) * 5 * 5, move |i, c| {
        // every 2-state DFA, duplicated (all states mergeable in pairs), one more state anywhere
        let mut d = Dec(i);
        let base = d.take(dfa_len(2, 2)) as u64;
        let (t0, t1) = (d.take(5), d.take(5));
        let b = dfa(2, 2, base);
        let mut a = dressed(i % STYLES, 5, 2);
        for q in 0..2 {
            for s in 0..2 {
                // copy 0 goes to copy 1 and back
                a.tr[q][s] = vec![b.tr[q][s][0] + 2];
                a.tr[q + 2][s] = vec![b.tr[q][s][0]];
            }
            a.acc[q] = b.acc[q];
            a.acc[q + 2] = b.acc[q];
        }
        a.tr[4] = vec![vec![t0], vec![t1]];
        a.acc[4] = i % 2 == 0;
        a.init = b.init + 2 * (i as usize % 2);
        f(&a, c)
    }));
    v
}

/// the spaces of NFAs explored for operations on one NFA
pub fn over_nfas(tier: Tier, eps: bool, f: DfaCheck) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut all = vec![(1, 0), (2, 0), (3, 0), (1, 1), (1, 2), (2, 1), (2, 2)];
    if !eps {
        all.extend([(3, 1), (2, 3)]);
        if th {
            all.extend([(4, 1), (2, 4)]);
        }
    } else if th {
        all.extend([(3, 1), (2, 3)]);
    }
    for (n, k) in all {
        v.push(family(
            format!("all NFAs n={n} k={k}{}", if eps { " with empty moves" } else { "" }),
            nfa_len(n, k, eps),
            move |i, c| f(&nfa(n as usize, k as usize, eps, i), c),
        ));
    }
    let mut ed: Vec<(u64, u64, u64)> = vec![];
    for e in 0..=if th { 6 } else { 4 } {
        ed.push((3, 1, e));
    }
    for e in 2..=if th { 5 } else { 3 } {
        ed.push((3, 2, e));
    }
    for e in 3..=if th { 5 } else { 3 } {
        ed.push((4, 1, e));
    }
    if th {
        ed.push((4, 2, 4));
        ed.push((5, 1, 4));
    }
    for (n, k, e) in ed {
        v.push(family(
            format!("all NFAs n={n} k={k} with {e} edges"),
            nfa_edges_len(n, k, eps, e),
            move |i, c| f(&nfa_edges(n as usize, k as usize, eps, e, i), c),
        ));
    }
    let mut dev = vec![(4, 2, 1), (5, 1, 2), (6, 2, 1), (8, 2, 1)];
    if th {
        dev.extend([(6, 2, 2), (7, 1, 2), (10, 2, 1)]);
    }
    for (n, k, e) in dev {
        v.push(family(
            format!("NFA bases N={n} k={k}, all combinations of {e} edits"),
            nfa_dev_len(n, k, e),
            move |i, c| {
                let a = nfa_dev(n as usize, k as usize, e, i);
                f(&if eps { a } else { strip_eps(a) }, c)
            },
        ));
    }
    let c = confusable().len() as u64 * 6;
    for e in 1..=if th { 3u64 } else { 2 } {
        let l = nfa_edges_len(3, 1, true, e) / 3;
        v.push(family(
            format!("NFAs n=3 k=1 with {e} edges (initial state first) with every triple of confusable names"),
            l * c,
            move |i, ctx| {
                let mut a = nfa_edges(3, 1, true, e, i / c);
                a.names = confused(i % c);
                f(&if eps { a } else { strip_eps(a) }, ctx)
            },
        ));
    }
    let nb = NFA_BASES.len() as u64;
    v.push(family("NFA bases N=3 k=3 with every triple of confusable symbols and names", nb * c * 6, move |i, ctx| {
        let mut a = nfa_base(NFA_BASES[(i % nb) as usize], 3, 3);
        a.alpha = confused(i / nb / 6);
        a.names = confused(i / nb);
        f(&if eps { a } else { strip_eps(a) }, ctx)
    }));
    v.push(family("NFA shapes of 8..=258 states around the powers of two, k<=2, four variants", big_nfas_len(), move |i, c| {
        let a = big_nfas(i);
        // (without empty moves: for enumeration, which works with powers of the adjacency matrix)
        if eps {
            f(&a, c)
        } else if (a.n() <= 36 || a.n() <= 66 && i / BIG_NFA.len() as u64 % 4 == 1)
            && a.tr.iter().flatten().map(|s| s.len()).sum::<usize>() <= 200
        {
            f(&strip_eps(a), c)
        } else {
            Ok(())
        }
    }));
    if eps {
        v.push(family("NFA shapes of 300, 513 and 1025 states, two variants", huge_nfas_len(), move |i, c| f(&huge_nfas(i), c)));
    }
    v.push(family("NFAs n=3 over 4..=258 symbols", WIDE * WIDTHS.len() as u64, move |i, c| {
        let a = wide(i % WIDE, WIDTHS[(i / WIDE) as usize], false);
        f(&if eps { a } else { strip_eps(a) }, c)
    }));
    if eps {
        // names the operation might give to a state of its own
        let l2 = nfa_edges_len(2, 1, true, 2);
        let f2 = fresh_len(2, 14);
        v.push(family("NFAs n=2 k=1 with 2 edges, every two names from a list of likely new names", l2 * f2, move |i, ctx| {
            let mut a = nfa_edges(2, 1, true, 2, i / f2);
            a.names = fresh(2, 14, i % f2);
            f(&a, ctx)
        }));
        for n in [3u64, 4] {
            let m = if n == 3 { 12 } else { 8 };
            let fl = fresh_len(n, m);
            v.push(family(
                format!("NFA bases N={n} k=1, every initial state, every {n} names from a list of likely new names"),
                nb * n * fl,
                move |i, ctx| {
                    let mut d = Dec(i / fl);
                    let mut a = nfa_base(NFA_BASES[d.take(nb)], n as usize, 1);
                    a.init = d.take(n);
                    a.names = fresh(n as usize, m as usize, i % fl);
                    f(&a, ctx)
                },
            ));
        }
        v.push(family("NFA bases N<=12, names counting up or down from every number, s_new among them", nb * 12 * 12 * 8, move |i, ctx| {
            let mut d = Dec(i);
            let b = NFA_BASES[d.take(nb)];
            let (n, s, z) = (d.take(12) + 1, d.take(12), d.take(8));
            let mut a = nfa_base(b, n, 1);
            a.names = (0..n).map(|q| format!("{}", s + if z & 1 == 1 { n - 1 - q } else { q })).collect();
            if z & 2 == 2 {
                a.names[n - 1] = "s_new".into();
            }
            if z & 4 == 4 {
                a.init = n - 1;
            }
            f(&a, ctx)
        }));
    }
    v.push(family(
        "NFA bases N=1..=9 k=1..=3, every position of the initial state; N=62..=67",
        (9 * 3 * 9 + 6) * NFA_BASES.len() as u64,
        move |i, c| {
            let mut d = Dec(i);
            let b = NFA_BASES[d.take(NFA_BASES.len() as u64)];
            let x = d.take(9 * 3 * 9 + 6);
            let mut a = if x < 9 * 27 {
                let (n, k, p) = (x / 27 + 1, x / 9 % 3 + 1, x % 9);
                if p >= n {
                    return Ok(());
                }
                let mut a = nfa_base(b, n, k);
                a.init = p;
                a
            } else if b != "nth" {
                nfa_base(b, 62 + x - 9 * 27, 1)
            } else {
                return Ok(());
            };
            if !eps {
                a = strip_eps(a);
            }
            f(&a, c)
        },
    ));
    v
}

/// `r` must be isomorphic to the model's subset automaton (states in any order)
fn isomorphic(det: &Det, r: &Aut) -> R {
    let mut map = vec![usize::MAX; det.n()];
    let mut back = vec![usize::MAX; r.n()];
    let mut queue = vec![0];
    map[0] = r.init;
    back[r.init] = 0;
    let mut i = 0;
    while i < queue.len() {
        let q = queue[i];
        i += 1;
        let m = map[q];
        ensure!(
            det.acc[q] == r.acc[m],
            "state #{m} is{} accepting, but stands for the states {:?}\n{}",
            if r.acc[m] { "" } else { " not" },
            det.sets[q],
            r.show()
        );
        for c in 0..det.k {
            let (t, rt) = (det.step(q, c), r.tr[m][c][0]);
            if map[t] == usize::MAX && back[rt] == usize::MAX {
                map[t] = rt;
                back[rt] = t;
                queue.push(t);
            }
            ensure!(
                map[t] == rt,
                "transition of state #{m} on {:?} to #{rt} does not lead to the state standing for {:?}\n{}",
                r.alpha[c],
                det.sets[t],
                r.show()
            );
        }
    }
    Ok(())
}

pub fn to_dfa(a: &Aut, ctx: &mut Ctx) -> R {
    let d = load_nfa(a)?;
    let before = d.clone();
    ctx.sample(|| a.show());
    let r = d.to_dfa();
    let set = a.det();
    let o = obs_dfa(&r).map_err(|e| Fail::new(format!("to_dfa of\n{}{}", a.show(), e.msg)))?;
    let w = |s: String| format!("to_dfa of\n{}{s}", a.show());
    ensure!(o.alpha == a.alpha, "{}", w(format!("alphabet {:?}", o.alpha)));
    ensure!(
        o.init == 0 && o.names[0] == "0",
        "{}",
        w(format!("initial state is #{} {:?}", o.init, o.names[o.init]))
    );
    let mut numbered = vec![false; o.n()];
    for x in &o.names {
        let i = x.parse::<usize>().ok().filter(|i| *i < o.n() && i.to_string() == *x);
        ensure!(i.is_some(), "{}", w(format!("states are not numbered from 0 on\n{}", o.show())));
        numbered[i.unwrap()] = true;
    }
    ensure!(numbered.iter().all(|b| *b), "{}", w(format!("a number is missing\n{}", o.show())));
    ensure!(
        o.reachable().iter().all(|b| *b),
        "{}",
        w(format!("unreachable states in\n{}", o.show()))
    );
    ensure!(
        o.n() == set.n(),
        "{}",
        w(format!("{} states for {} reachable sets\n{}", o.n(), set.n(), o.show()))
    );
    isomorphic(&set, &o).map_err(|e| Fail::new(w(e.msg)))?;
    same_language(ctx, &w("result".into()), &a.alpha, &[&set], &o, |b| b[0])?;
    ensure!(d == before, "{}", w("the NFA was changed".into()));
    Ok(())
}

pub fn to_nfa(a: &Aut, ctx: &mut Ctx) -> R {
    let d = load_dfa(a)?;
    ctx.sample(|| a.show());
    for (how, n) in [
        ("to_nfa", d.clone().to_nfa()),
        ("Nfa::from", dandy::nfa::Nfa::from(d.clone())),
    ] {
        let o = obs_nfa(&n).map_err(|e| Fail::new(format!("{how} of\n{}{}", a.show(), e.msg)))?;
        ctx.traces += 1;
        ensure!(o == *a, "{how} of\n{}gives\n{}", a.show(), o.show());
        for (s, t) in d.states().iter().zip(n.states()) {
            let s = dandy::nfa::NfaState::from(s.clone());
            ensure!(s == *t, "NfaState::from({:?}) of\n{}gives {s:?}, but {how} {t:?}", t.name(), a.show());
        }
    }
    Ok(())
}

/// every state of `r` must behave as the state of the same name of `a` (both DFAs, same alphabet)
fn same_named_behaviour(a: &Aut, r: &Aut) -> R {
    let n = a.n();
    let mut both = a.clone();
    both.acc.extend(&r.acc);
    both.eps.extend(r.eps.iter().cloned());
    both.tr.extend(
        r.tr.iter()
            .map(|t| t.iter().map(|s| s.iter().map(|x| x + n).collect()).collect::<Vec<Vec<usize>>>()),
    );
    let cls = both.moore();
    for q in 0..r.n() {
        let Some(p) = a.names.iter().position(|x| *x == r.names[q]) else {
            fail!("state {:?} of the result is not a state of the original", r.names[q]);
        };
        ensure!(
            a.acc[p] == r.acc[q],
            "state {:?} changed its accepting mark",
            r.names[q]
        );
        ensure!(
            cls[p] == cls[n + q],
            "state {:?} accepts other words than it did",
            r.names[q]
        );
    }
    Ok(())
}

pub fn minimize(a: &Aut, ctx: &mut Ctx) -> R {
    let mut d = load_dfa(a)?;
    ctx.sample(|| a.show());
    d.minimize();
    let w = |s: String| format!("minimize of\n{}{s}", a.show());
    let o = obs_dfa(&d).map_err(|e| Fail::new(w(e.msg)))?;
    ensure!(o.alpha == a.alpha, "{}", w(format!("alphabet {:?}", o.alpha)));
    let set = a.det();
    same_language(ctx, &w("result".into()), &a.alpha, &[&set], &o, |b| b[0])?;
    let min = set.minimal_size();
    ensure!(
        o.n() == min,
        "{}",
        w(format!("{} states, the smallest equivalent DFA has {min}\n{}", o.n(), o.show()))
    );
    same_named_behaviour(a, &o).map_err(|e| Fail::new(w(format!("{}\n{}", e.msg, o.show()))))?;
    let mut again = d.clone();
    again.minimize();
    ensure!(again == d, "{}", w(format!("minimizing again changes\n{}", o.show())));
    Ok(())
}

fn names_sorted<'x>(v: impl Iterator<Item = &'x str>) -> Vec<String> {
    let mut v: Vec<String> = v.map(|s| s.to_string()).collect();
    v.sort();
    v
}

fn trimmed(a: &Aut) -> Aut {
    let keep = a.reachable();
    let mut new = vec![0; a.n()];
    let mut m = 0;
    for q in 0..a.n() {
        new[q] = m;
        m += keep[q] as usize;
    }
    let sel = |q: &usize| keep[*q];
    let qs: Vec<usize> = (0..a.n()).filter(sel).collect();
    Aut {
        alpha: a.alpha.clone(),
        names: qs.iter().map(|q| a.names[*q].clone()).collect(),
        init: new[a.init],
        acc: qs.iter().map(|q| a.acc[*q]).collect(),
        eps: qs.iter().map(|q| a.eps[*q].iter().map(|t| new[*t]).collect()).collect(),
        tr: qs
            .iter()
            .map(|q| a.tr[*q].iter().map(|s| s.iter().map(|t| new[*t]).collect()).collect())
            .collect(),
    }
}

macro_rules! reach_check {
    ($name:ident, $load:ident, $obs:ident) => {
        pub fn $name(a: &Aut, ctx: &mut Ctx) -> R {
            let mut d = $load(a)?;
            ctx.sample(|| a.show());
            let r = a.reachable();
            let n = a.n();
            let w = |s: String| format!("{}{s}", a.show());
            ctx.traces += 5;
            ctx.states += n as u64;
            ctx.transitions += a.tr.iter().flatten().chain(&a.eps).map(|s| s.len() as u64).sum::<u64>();
            let ri = d.reachable_state_idx();
            ensure!(
                (0..n).all(|q| ri.contains(&q) == r[q]) && ri.iter().all(|q| *q < n),
                "{}",
                w(format!("reachable_state_idx() = {ri:?}"))
            );
            let ui = d.unreachable_state_idx();
            ensure!(
                (0..n).all(|q| ui.contains(&q) != r[q]) && ui.iter().all(|q| *q < n),
                "{}",
                w(format!("unreachable_state_idx() = {ui:?}"))
            );
            let want = |b: bool| names_sorted((0..n).filter(|q| r[*q] == b).map(|q| a.names[q].as_str()));
            let got = names_sorted(d.reachable_states().into_iter().map(|s| s.name()));
            ensure!(got == want(true), "{}", w(format!("reachable_states() = {got:?}")));
            let got = names_sorted(d.unreachable_states().into_iter().map(|s| s.name()));
            ensure!(got == want(false), "{}", w(format!("unreachable_states() = {got:?}")));
            let set = a.det();
            let nonempty = set.acc.iter().any(|b| *b);
            ensure!(
                d.has_reachable_accepting_state() == nonempty,
                "{}",
                w(format!("has_reachable_accepting_state() = {}", !nonempty))
            );
            d.remove_unreachable_states();
            let o = $obs(&d).map_err(|e| Fail::new(w(e.msg)))?;
            let t = trimmed(a);
            ensure!(
                o == t || norm(&o) == norm(&t),
                "{}",
                w(format!("remove_unreachable_states gives\n{}", o.show()))
            );
            same_language(ctx, &w("after trimming".into()), &a.alpha, &[&set], &o, |b| b[0])
        }
    };
}
reach_check!(reach_dfa, load_dfa, obs_dfa);
reach_check!(reach_nfa, load_nfa, obs_nfa);

pub fn classes(a: &Aut, ctx: &mut Ctx) -> R {
    let d = load_dfa(a)?;
    ctx.sample(|| a.show());
    let n = a.n();
    let cls = a.moore();
    let count = cls.iter().max().unwrap() + 1;
    let w = |s: String| format!("{}{s}", a.show());
    let check = |got: &[Vec<usize>], what: &str| -> R {
        let mut seen = vec![usize::MAX; n];
        for (ci, c) in got.iter().enumerate() {
            ensure!(!c.is_empty(), "{}", w(format!("{what}: empty class in {got:?}")));
            for &q in c {
                ensure!(
                    q < n && seen[q] == usize::MAX,
                    "{}",
                    w(format!("{what}: not a partition: {got:?}"))
                );
                seen[q] = ci;
            }
        }
        ensure!(seen.iter().all(|s| *s != usize::MAX), "{}", w(format!("{what}: not a partition: {got:?}")));
        for p in 0..n {
            for q in 0..p {
                ensure!(
                    (seen[p] == seen[q]) == (cls[p] == cls[q]),
                    "{}",
                    w(format!("{what}: states #{q} and #{p} in {got:?}"))
                );
            }
        }
        Ok(())
    };
    let got: Vec<Vec<usize>> = d
        .state_equivalence_classes_idx()
        .into_iter()
        .map(|s| s.into_iter().collect())
        .collect();
    ctx.traces += 3;
    ctx.states += n as u64;
    ctx.transitions += (n * a.k()) as u64;
    check(&got, "state_equivalence_classes_idx")?;
    let got: Vec<Vec<usize>> = d
        .state_equivalence_classes()
        .into_iter()
        .map(|s| {
            s.into_iter()
                .map(|x| a.names.iter().position(|y| y == x.name()).unwrap_or(usize::MAX))
                .collect()
        })
        .collect();
    check(&got, "state_equivalence_classes")?;
    let mut m = d.clone();
    m.merge_nondistinguishable_states();
    let w = |s: String| format!("merge_nondistinguishable_states of\n{}{s}", a.show());
    let o = obs_dfa(&m).map_err(|e| Fail::new(w(e.msg)))?;
    ensure!(o.n() == count, "{}", w(format!("{} states for {count} classes\n{}", o.n(), o.show())));
    ensure!(o.alpha == a.alpha, "{}", w(format!("alphabet {:?}", o.alpha)));
    same_named_behaviour(a, &o).map_err(|e| Fail::new(w(format!("{}\n{}", e.msg, o.show()))))?;
    let mut left: Vec<usize> = o
        .names
        .iter()
        .map(|x| cls[a.names.iter().position(|y| x == y).unwrap()])
        .collect();
    let init_cls = left[o.init];
    left.sort();
    left.dedup();
    ensure!(
        left.len() == count,
        "{}",
        w(format!("not one state of each class is left\n{}", o.show()))
    );
    ensure!(
        init_cls == cls[a.init],
        "{}",
        w(format!("another class is initial\n{}", o.show()))
    );
    same_language(ctx, &w("result".into()), &a.alpha, &[&a.det()], &o, |b| b[0])
}

pub fn eps_removal(a: &Aut, ctx: &mut Ctx) -> R {
    let d = load_nfa(a)?;
    ctx.sample(|| a.show());
    let set = a.det();
    let reach = a.reachable();
    ensure!(d.has_epsilon_moves() == a.has_eps(), "{}has_epsilon_moves() is wrong", a.show());
    for optimize in [false, true] {
        let what = if optimize { "optimize" } else { "remove_epsilon_moves" };
        let w = |s: String| format!("{what} of\n{}{s}", a.show());
        let mut r = d.clone();
        if optimize {
            r.optimize();
        } else {
            r.remove_epsilon_moves();
        }
        let o = obs_nfa(&r).map_err(|e| Fail::new(w(e.msg)))?;
        ensure!(
            !r.has_epsilon_moves() && !o.has_eps(),
            "{}",
            w(format!("empty moves left\n{}", o.show()))
        );
        ensure!(o.alpha == a.alpha, "{}", w(format!("alphabet {:?}", o.alpha)));
        same_language(ctx, &w("result".into()), &a.alpha, &[&set], &o, |b| b[0])?;
        for q in 0..a.n() {
            if a.acc[q] && (!optimize || reach[q]) {
                ensure!(
                    (0..o.n()).any(|p| o.names[p] == a.names[q] && o.acc[p]),
                    "{}",
                    w(format!("accepting state {:?} is gone\n{}", a.names[q], o.show()))
                );
            }
        }
        let mut new = 0;
        for p in 0..o.n() {
            match a.names.iter().position(|x| *x == o.names[p]) {
                Some(q) => {
                    ensure!(
                        o.acc[p] == a.acc[q] || p == o.init,
                        "{}",
                        w(format!("state {:?} changed its accepting mark\n{}", o.names[p], o.show()))
                    );
                    // (a new initial state may take the name of a state that was trimmed)
                    ensure!(
                        !optimize || reach[q] || p == o.init,
                        "{}",
                        w(format!("unreachable state {:?} is kept\n{}", o.names[p], o.show()))
                    );
                }
                None => {
                    new += 1;
                    ensure!(
                        p == o.init,
                        "{}",
                        w(format!("new state {:?} is not initial\n{}", o.names[p], o.show()))
                    );
                }
            }
        }
        ensure!(new <= 1, "{}", w(format!("{new} new states\n{}", o.show())));
        // exactly the dead states are gone, the others are in their order, and a new initial state comes last
        let (mut want, replaced) = without_dead(a, &|q| !optimize || reach[q]);
        if replaced {
            want.push(o.names[o.init].clone());
        }
        ensure!(
            o.names == want && (!replaced || o.init + 1 == o.n()),
            "{}",
            w(format!("states expected: {want:?}{}\n{}", if replaced { ", the last of them new and initial" } else { "" }, o.show()))
        );
    }
    Ok(())
}

/// the names of the states that removing empty moves keeps, by the documentation, and whether there is a new initial
/// state; of the states that pass `exists`
fn without_dead(a: &Aut, exists: &dyn Fn(usize) -> bool) -> (Vec<String>, bool) {
    let live: Vec<usize> = (0..a.n()).filter(|q| exists(*q)).collect();
    let names = |gone: &[bool]| live.iter().filter(|q| !gone[**q]).map(|q| a.names[*q].clone()).collect::<Vec<_>>();
    let mut dead = vec![false; a.n()];
    if live.iter().all(|q| a.eps[*q].is_empty()) {
        return (names(&dead), false);
    }
    let cl: Vec<Vec<usize>> = (0..a.n()).map(|q| if exists(q) { let c = a.closure(q); (0..a.n()).filter(|t| c[*t]).collect() } else { vec![] }).collect();
    let to: Vec<Vec<usize>> = (0..a.n())
        .map(|q| {
            let mut v: Vec<usize> = a.tr[q].iter().flatten().flat_map(|t| cl[*t].iter().copied()).collect();
            v.sort();
            v.dedup();
            v
        })
        .collect();
    // a state dies when all it leads to is dead
    let spread = |dead: &mut Vec<bool>, init: Option<usize>| loop {
        let mut more = false;
        for &q in &live {
            if !dead[q] && !a.acc[q] && Some(q) != init && to[q].iter().all(|t| dead[*t]) {
                dead[q] = true;
                more = true;
            }
        }
        if !more {
            break;
        }
    };
    spread(&mut dead, Some(a.init));
    let replaced = cl[a.init].iter().filter(|q| !dead[**q]).count() > 1;
    if replaced {
        // the old initial state is a state like the others now
        spread(&mut dead, None);
    }
    (names(&dead), replaced)
}

pub fn enumeration(a: &Aut, max: usize, ctx: &mut Ctx) -> R {
    let d = load_nfa(a)?;
    ctx.sample(|| a.show());
    let set = a.det();
    ctx.states += set.n() as u64;
    ctx.transitions += (set.n() * set.k) as u64;
    check_words(&d, a, &set, max, ctx)
}

/// the three views of the word iterator of an NFA without empty moves
pub fn check_words(d: &dandy::nfa::Nfa, a: &Aut, set: &Det, max: usize, ctx: &mut Ctx) -> R {
    let (want, ended) = set.words(max);
    let w = |s: String| format!("{}{s}", a.show());
    let mut idx = d.word_component_indices();
    let mut strs = d.words();
    let mut comps = d.word_components();
    for (i, x) in want.iter().enumerate() {
        ctx.traces += 1;
        let got = idx.next();
        ensure!(
            got.as_ref() == Some(x),
            "{}",
            w(format!(
                "word {i} is {:?}, expected {x:?} (indices)",
                got
            ))
        );
        let s: String = x.iter().map(|c| a.alpha[*c].as_str()).collect();
        let got = strs.next();
        ensure!(got.as_ref() == Some(&s), "{}", w(format!("words(): word {i} is {got:?}, expected {s:?}")));
        let got = comps.next().map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        let v: Vec<String> = x.iter().map(|c| a.alpha[*c].clone()).collect();
        ensure!(
            got.as_ref() == Some(&v),
            "{}",
            w(format!("word_components(): word {i} is {got:?}, expected {v:?}"))
        );
    }
    for r in 0..3 {
        if ended {
            let (x, y, z) = (idx.next(), strs.next(), comps.next());
            ensure!(
                x.is_none() && y.is_none() && z.is_none(),
                "{}",
                w(format!("after the last of {} words, call {r} gives {x:?} {y:?} {z:?}", want.len()))
            );
        }
    }
    if !ended {
        let x = idx.next();
        ensure!(x.is_some(), "{}", w(format!("enumeration ends after {max} words, but there are more")));
    }
    // the other ways to make and to use the iterators
    let few = want.len().min(4);
    let all = few == want.len() && ended;
    let more = few + all as usize;
    let ids = &want[..few];
    for (how, got) in [
        ("WordComponentIndices::new", WordComponentIndices::new(d).take(more).collect::<Vec<_>>()),
        ("WordComponentIndices::from", WordComponentIndices::from(d).take(more).collect::<Vec<_>>()),
    ] {
        ensure!(got == ids, "{}", w(format!("{how}: {got:?}, expected {ids:?}")));
    }
    let text = |x: &Vec<usize>| x.iter().map(|c| a.alpha[*c].as_str()).collect::<String>();
    let got: Vec<String> = Words::new(d).take(more).collect();
    ensure!(got == ids.iter().map(text).collect::<Vec<_>>(), "{}", w(format!("Words::new: {got:?}, expected {ids:?}")));
    let got: Vec<Vec<String>> = WordComponents::new(d).take(more).map(|v| v.iter().map(|s| s.to_string()).collect()).collect();
    let v: Vec<Vec<String>> = ids.iter().map(|x| x.iter().map(|c| a.alpha[*c].clone()).collect()).collect();
    ensure!(got == v, "{}", w(format!("WordComponents::new: {got:?}, expected {v:?}")));
    if let Some(last) = few.checked_sub(1) {
        let (x, y, z) = (d.word_component_indices().nth(last), d.words().nth(last), d.word_components().nth(last).map(|v| v.len()));
        ensure!(
            x.as_ref() == Some(&want[last]) && y == Some(text(&want[last])) && z == Some(want[last].len()),
            "{}",
            w(format!("nth({last}) gives {x:?} {y:?}, expected {:?}", want[last]))
        );
    }
    for (low, high) in [d.word_component_indices().size_hint(), d.words().size_hint(), d.word_components().size_hint()] {
        ensure!(
            (!ended || low <= want.len()) && high.is_none_or(|h| h >= want.len()),
            "{}",
            w(format!("size_hint ({low}, {high:?}), there are {} words{}", want.len(), if ended { "" } else { " at least" }))
        );
    }
    ctx.traces += 1;
    Ok(())
}

pub fn p03(tier: Tier) -> Vec<Family> {
    let mut v = over_nfas(tier, true, to_dfa);
    v.extend(over_dfas(tier, to_nfa).into_iter().filter(|f| f.len < 100_000));
    v
}
pub fn p04(tier: Tier) -> Vec<Family> {
    over_dfas(tier, minimize)
}
pub fn p05(tier: Tier) -> Vec<Family> {
    let mut v = over_dfas(tier, reach_dfa);
    v.extend(over_nfas(tier, true, reach_nfa));
    v
}
pub fn p06(tier: Tier) -> Vec<Family> {
    over_dfas(tier, classes)
}
pub fn p11(tier: Tier) -> Vec<Family> {
    over_nfas(tier, true, eps_removal)
}
pub fn p12(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = over_nfas(tier, false, if th { |a, c| enumeration(a, 60, c) } else { |a, c| enumeration(a, 16, c) });
    v.push(family("DFA tables n<=3 k=2", dfa_len(3, 2), move |i, c| {
        enumeration(&dfa(3, 2, i), if th { 200 } else { 24 }, c)
    }));
    v.push(family("n=3 over 4..=66 symbols: all words of length 0, 1 and some of length 2", WIDE * 40 * 2, move |i, c| {
        let k = WIDTHS[(i / WIDE / 2) as usize];
        let a = wide(i % WIDE, k, i / WIDE % 2 == 0);
        enumeration(&strip_eps(a), 3 * k + 20, c)
    }));
    // lengths with long gaps: a tail of t states into a ring of r states, accepting at every position
    let (tails, rings) = if th { (9u64, 12u64) } else { (6, 8) };
    let name = format!("tail and ring: tail<{tails}, ring<={rings}, k<=2, each accepting position");
    v.push(family(name, tails * rings * 2 * 20, move |i, c| {
        let mut d = Dec(i);
        let (t, r, k, p) = (d.take(tails), d.take(rings) + 1, d.take(2) + 1, d.take(20));
        let n = t + r;
        if p >= n {
            return Ok(());
        }
        let mut a = dressed(0, n, k);
        a.names = (0..n).map(|i| format!("q{i}")).collect();
        for q in 0..n {
            a.tr[q][q % k] = vec![if q + 1 < n { q + 1 } else { t }];
        }
        a.acc[p] = true;
        enumeration(&a, 12, c)?;
        // a second way round the ring that is one step shorter
        if r > 2 {
            a.tr[n - 1][0].push(t + 1);
            enumeration(&a, 30, c)?;
        }
        Ok(())
    }));
    const FAR: [usize; 6] = [40, 64, 65, 66, 100, 129];
    v.push(family("tails of 40 to 129 states before a ring, one accepting position: words far apart and far away", 6 * 3 * 4 * 2, move |i, c| {
        let mut d = Dec(i);
        let (t, r, p, k) = (FAR[d.take(6)], d.take(3) + 1, d.take(4), d.take(2) + 1);
        let n = t + r;
        let mut a = dressed(0, n, k);
        a.names = (0..n).map(|i| format!("q{i}")).collect();
        for q in 0..n {
            a.tr[q][q % k] = vec![if q + 1 < n { q + 1 } else { t }];
        }
        a.acc[[t, n - 1, t / 2, t - 1][p]] = true;
        enumeration(&a, 5, c)
    }));
    // a fork somewhere on the way: words of one length that differ long before their ends
    const LONG: [usize; 5] = [24, 33, 65, 103, 130];
    v.push(family("a fork into tails of 24 to 130 states, shared, or (up to 65) separate or of different lengths: words that differ long before their ends", 5 * 3 * 4 * 2 * 2, move |i, c| {
        let mut d = Dec(i);
        let (t, at, kind, back, ring) = (LONG[d.take(5)], d.take(3), d.take(4), d.take(2), d.take(2));
        let f = [0, 1, 5][at];
        if kind > 0 && t > 65 {
            return Ok(());
        }
        // 0..=f leads to the fork, f+1..=f+t is the one tail, the other is behind it
        let other = [0, t, t - 1, t + 1][kind];
        let n = f + 1 + t + other;
        let mut a = dressed(0, n, 3);
        a.names = (0..n).map(|i| format!("q{i}")).collect();
        for q in 0..f {
            a.tr[q][0] = vec![q + 1];
        }
        a.tr[f][0] = vec![f + 1];
        for q in f + 1..f + t {
            a.tr[q][q % 2] = vec![q + 1];
        }
        a.acc[f + t] = true;
        if other == 0 {
            a.tr[f][1] = vec![f + 1];
            a.tr[f][2] = vec![f + 2];
        } else {
            a.tr[f][2] = vec![f + t + 1];
            for q in f + t + 1..n - 1 {
                a.tr[q][q % 2] = vec![q + 1];
            }
            a.acc[n - 1] = true;
        }
        if ring == 1 {
            a.tr[f + t][2] = vec![f];
        }
        if back == 1 {
            let o: Vec<usize> = (0..n).rev().collect();
            a = permute(&a, &o);
        }
        enumeration(&a, 5, c)
    }));
    v.push(family("thousands of words: NFA bases N<=3 k=1 (200 words) and k=2, 3 (3000 words)", 2 * 3 * NFA_BASES.len() as u64 * 2, move |i, c| {
        let mut d = Dec(i);
        let (n, k, b, x) = (d.take(2) + 2, d.take(3) + 1, d.take(NFA_BASES.len() as u64), d.take(2));
        let mut a = strip_eps(nfa_base(NFA_BASES[b], n, k));
        if x == 1 {
            a.acc[0] = true;
        }
        enumeration(&a, if k == 1 { 200 } else { 3000 }, c)
    }));
    let m = if th { 7u64 } else { 5 };
    v.push(family(format!("two rings from one state: sizes <= {m}, both accepting positions"), m * m * m * m, move |i, c| {
        let mut d = Dec(i);
        let (r1, r2, p1, p2) = (d.take(m) + 1, d.take(m) + 1, d.take(m), d.take(m));
        if p1 >= r1 || p2 >= r2 {
            return Ok(());
        }
        let n = 1 + r1 + r2;
        let mut a = dressed(0, n, 2);
        a.names = (0..n).map(|i| format!("q{i}")).collect();
        a.tr[0][0] = vec![1, 1 + r1];
        for j in 0..r1 {
            a.tr[1 + j][0] = vec![1 + (j + 1) % r1];
        }
        for j in 0..r2 {
            a.tr[1 + r1 + j][1] = vec![1 + r1 + (j + 1) % r2];
        }
        a.acc[1 + p1] = true;
        a.acc[1 + r1 + p2] = true;
        enumeration(&a, 40, c)
    }));
    v.push(family("finite languages: every set of words of length <= 3 over two symbols, as a tree", 1 << 15, move |i, c| {
        // nodes of the binary tree of depth 3, accepting exactly for the chosen words; useless leaves kept
        let mut a = dressed(i % STYLES, 15, 2);
        a.names = (0..15).map(|i| format!("t{i}")).collect();
        for q in 0..7 {
            a.tr[q][0] = vec![2 * q + 1];
            a.tr[q][1] = vec![2 * q + 2];
        }
        for q in 0..15 {
            a.acc[q] = i >> q & 1 == 1;
        }
        enumeration(&a, 16, c)
    }));
    v
}
