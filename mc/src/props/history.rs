//! P18, P19: histories of operations on library objects and on the browser registry
use super::*;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use std::collections::VecDeque;

#[derive(Clone)]
enum Obj {
    D(Dfa),
    N(Nfa),
}

impl Obj {
    fn obs(&self) -> R<Aut> {
        match self {
            Obj::D(d) => obs_dfa(d),
            Obj::N(n) => obs_nfa(n),
        }
    }
}

type Bool2 = fn(bool, bool) -> bool;

/// (name, operation on DFAs, language of the result from the languages of this and the partner)
const DFA_OPS: &[(&str, fn(&Dfa, &Dfa) -> Option<Obj>, Bool2)] = &[
    ("minimize", |d, _| Some(Obj::D(with(d, |d| d.minimize()))), |p, _| p),
    ("remove_unreachable_states", |d, _| Some(Obj::D(with(d, |d| d.remove_unreachable_states()))), |p, _| p),
    (
        "merge_nondistinguishable_states",
        |d, _| Some(Obj::D(with(d, |d| d.merge_nondistinguishable_states()))),
        |p, _| p,
    ),
    ("invert", |d, _| Some(Obj::D(with(d, |d| d.invert()))), |p, _| !p),
    ("to_nfa", |d, _| Some(Obj::N(d.clone().to_nfa())), |p, _| p),
    ("union(partner)", |d, e| d.union(e).map(Obj::D), |p, q| p || q),
    ("partner.intersection(it)", |d, e| e.intersection(d).map(Obj::D), |p, q| p && q),
    ("difference(partner)", |d, e| d.difference(e).map(Obj::D), |p, q| p && !q),
    ("partner.symmetric_difference(it)", |d, e| e.symmetric_difference(d).map(Obj::D), |p, q| p != q),
    ("symmetric_difference(itself)", |d, _| d.symmetric_difference(d).map(Obj::D), |_, _| false),
    ("union(itself)", |d, _| d.union(d).map(Obj::D), |p, _| p),
    ("partner.union(it)", |d, e| e.union(d).map(Obj::D), |p, q| p || q),
    ("intersection(partner)", |d, e| d.intersection(e).map(Obj::D), |p, q| p && q),
    ("partner.difference(it)", |d, e| e.difference(d).map(Obj::D), |p, q| q && !p),
    ("symmetric_difference(partner)", |d, e| d.symmetric_difference(e).map(Obj::D), |p, q| p != q),
    ("intersection(itself)", |d, _| d.intersection(d).map(Obj::D), |p, _| p),
    ("difference(itself)", |d, _| d.difference(d).map(Obj::D), |_, _| false),
    (
        "product_construction(partner, implies)",
        |d, e| d.product_construction(e, |s, t| !s.is_accepting() || t.is_accepting()).map(Obj::D),
        |p, q| !p || q,
    ),
];
const NFA_OPS: &[(&str, fn(&Nfa, &Nfa) -> Option<Obj>, Bool2)] = &[
    ("to_dfa", |n, _| Some(Obj::D(n.to_dfa())), |p, _| p),
    ("remove_epsilon_moves", |n, _| Some(Obj::N(with(n, |n| n.remove_epsilon_moves()))), |p, _| p),
    ("optimize", |n, _| Some(Obj::N(with(n, |n| n.optimize()))), |p, _| p),
    ("remove_unreachable_states", |n, _| Some(Obj::N(with(n, |n| n.remove_unreachable_states()))), |p, _| p),
    ("union(partner)", |n, e| n.clone().union(e.clone()).ok().map(Obj::N), |p, q| p || q),
    ("partner.union(it)", |n, e| e.clone().union(n.clone()).ok().map(Obj::N), |p, q| p || q),
    ("union(itself)", |n, _| n.clone().union(n.clone()).ok().map(Obj::N), |p, _| p),
    ("intersection(partner)", |n, e| n.intersection(e).map(Obj::N), |p, q| p && q),
    ("intersection(itself)", |n, _| n.intersection(n).map(Obj::N), |p, _| p),
    ("partner.intersection(it)", |n, e| e.intersection(n).map(Obj::N), |p, q| p && q),
    (
        "partner.product_construction(it, or)",
        |n, e| {
            e.product_construction(n, |s, t| s.is_some_and(|s| s.is_accepting()) || t.is_some_and(|t| t.is_accepting()))
                .map(Obj::N)
        },
        |p, q| p || q,
    ),
];

fn with<T: Clone>(t: &T, f: impl FnOnce(&mut T)) -> T {
    let mut t = t.clone();
    f(&mut t);
    t
}

struct Bound {
    depth: usize,
    max_states: usize,
}

/// breadth-first search over all sequences of operations, states deduplicated by what can be observed of them
fn histories(start: Obj, partner: &Aut, b: &Bound, ctx: &mut Ctx) -> R {
    let pn = load_nfa(partner)?;
    let pd = if partner.is_det() && partner.k() > 0 { load_dfa(partner)? } else { pn.to_dfa() };
    let a0 = start.obs()?;
    let mut seen: FxSet<(bool, Aut)> = FxSet::default();
    seen.insert((matches!(start, Obj::D(_)), a0.clone()));
    // (object, observed, its language, path)
    let mut queue = VecDeque::from([(start, a0, Vec::<&str>::new())]);
    while let Some((o, a, path)) = queue.pop_front() {
        ctx.states += 1;
        let hist = |op: &str| format!("after {path:?}, then {op}, starting from\n{}(at that point\n{})partner\n{}", path.len(), a.show(), partner.show());
        let da = a.det();
        // questions asked of the object on the way
        match &o {
            Obj::D(d) => {
                ensure!(d.equivalent_to(d), "{}not equivalent to itself", hist("equivalent_to"));
                let live = check_all(&[&da], |v| !v[0]).word.is_some();
                ensure!(d.has_reachable_accepting_state() == live, "{}wrong", hist("has_reachable_accepting_state"));
            }
            Obj::N(n) => {
                ensure!(n.equivalent_to(n), "{}not equivalent to itself", hist("equivalent_to"));
                let live = check_all(&[&da], |v| !v[0]).word.is_some();
                ensure!(n.has_reachable_accepting_state() == live, "{}wrong", hist("has_reachable_accepting_state"));
                if !a.has_eps() && a.n() <= 8 {
                    unary::check_words(n, &a, &da, 4, ctx).map_err(|e| Fail::new(format!("{}{}", hist("words"), e.msg)))?;
                }
            }
        }
        if path.len() == b.depth || a.n() > b.max_states {
            continue;
        }
        let dp = partner.det_as(&a.alpha);
        let mut next = |op: &'static str, r: Option<Obj>, f: Bool2, ctx: &mut Ctx| -> R {
            ctx.transitions += 1;
            let Some(r) = r else { return Ok(()) };
            let ra = r.obs().map_err(|e| Fail::new(format!("{}{}", hist(op), e.msg)))?;
            match &dp {
                Some(dp) => same_language(ctx, &hist(op), &a.alpha, &[&da, dp], &ra, |v| f(v[0], v[1]))?,
                None => same_language(ctx, &hist(op), &a.alpha, &[&da], &ra, |v| f(v[0], false))?,
            }
            if seen.insert((matches!(r, Obj::D(_)), ra.clone())) {
                let mut p = path.clone();
                p.push(op);
                queue.push_back((r, ra, p));
            }
            Ok(())
        };
        match &o {
            Obj::D(d) => {
                for (name, op, f) in DFA_OPS {
                    next(name, op(d, &pd), *f, ctx)?;
                }
            }
            Obj::N(n) => {
                for (name, op, f) in NFA_OPS {
                    next(name, op(n, &pn), *f, ctx)?;
                }
            }
        }
    }
    Ok(())
}

/// partners over the given symbols, with names that operations also like to give
fn partner(a: &Aut, i: u64) -> Aut {
    let k = a.k();
    let mut p = dressed(0, 2, k);
    p.alpha = reorder(a, &perm(i / 4, k)).alpha;
    p.names = [["s_new", "0"], ["1", "0"], ["a", "(a,b)"]][(i % 3) as usize].iter().map(|s| s.to_string()).collect();
    for q in 0..2 {
        for c in 0..k {
            p.tr[q][c] = vec![if c == 0 { 1 - q } else { q }];
        }
    }
    p.acc[(i % 2) as usize] = true;
    p
}

pub fn p18(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut dfas = |n: u64, k: u64, depth: usize, max: usize| {
        v.push(family(
            format!("all DFAs n={n} k={k}: all sequences of <= {depth} operations ({max} states at most before an operation)"),
            dfa_len(n, k),
            move |i, ctx| {
                let a = dfa(n as usize, k as usize, i);
                ctx.sample(|| a.show());
                histories(Obj::D(load_dfa(&a)?), &partner(&a, i), &Bound { depth, max_states: max }, ctx)
            },
        ));
    };
    dfas(1, 1, 5, 8);
    dfas(2, 1, 4, 8);
    dfas(2, 2, if th { 4 } else { 3 }, 8);
    if th {
        dfas(3, 1, 4, 10);
        dfas(3, 2, 2, 9);
    } else {
        dfas(3, 1, 3, 8);
    }
    let mut nfas = |n: u64, k: u64, e: u64, depth: usize, max: usize| {
        v.push(family(
            format!("NFAs n={n} k={k} with {e} edges: all sequences of <= {depth} operations ({max} states at most before an operation)"),
            nfa_edges_len(n, k, true, e),
            move |i, ctx| {
                let a = nfa_edges(n as usize, k as usize, true, e, i);
                ctx.sample(|| a.show());
                histories(Obj::N(load_nfa(&a)?), &partner(&a, i), &Bound { depth, max_states: max }, ctx)
            },
        ));
    };
    nfas(1, 0, 1, 4, 8);
    nfas(2, 0, 1, 3, 9);
    nfas(1, 1, 2, 4, 9);
    nfas(2, 1, 1, if th { 4 } else { 3 }, 9);
    nfas(2, 1, 2, if th { 4 } else { 3 }, 9);
    nfas(2, 2, 2, if th { 3 } else { 2 }, 9);
    nfas(3, 1, 2, 2, 9);
    nfas(2, 1, 3, if th { 3 } else { 2 }, 9);
    if th {
        nfas(3, 1, 3, 2, 9);
    }
    // combined with what they started from, whose names come back
    for (n, k, depth) in [(1u64, 1u64, 5), (2, 1, 4), (2, 2, 3), (3, 1, if th { 4 } else { 2 })] {
        v.push(family(format!("all DFAs n={n} k={k} as their own partner: all sequences of <= {depth} operations"), dfa_len(n, k), move |i, ctx| {
            let a = dfa(n as usize, k as usize, i);
            ctx.sample(|| a.show());
            histories(Obj::D(load_dfa(&a)?), &a, &Bound { depth, max_states: 9 }, ctx)
        }));
    }
    for (n, k, e, depth) in [(1u64, 1u64, 2u64, 4), (2, 1, 2, 3), (2, 2, 2, if th { 3 } else { 2 }), (3, 1, 2, if th { 2 } else { 1 })] {
        v.push(family(format!("NFAs n={n} k={k} with {e} edges as their own partner: all sequences of <= {depth} operations"), nfa_edges_len(n, k, true, e), move |i, ctx| {
            let a = nfa_edges(n as usize, k as usize, true, e, i);
            ctx.sample(|| a.show());
            histories(Obj::N(load_nfa(&a)?), &a, &Bound { depth, max_states: 9 }, ctx)
        }));
    }
    let texts = ["a", "ε", "∅", "ab", "a|b", "a*", "(a|b)*a", "(ab)+|ε", "(a|ε)(b|∅)", "a*b*", "∅*"];
    v.push(family(format!("{} regular expressions: all sequences of <= {} operations", texts.len(), if th { 4 } else { 3 }), texts.len() as u64, move |i, ctx| {
        let n = match parse_regex(texts[i as usize]) {
            Ok(r) => r.to_nfa(),
            Err(e) => fail!("{:?} is refused: {e}", texts[i as usize]),
        };
        let a = obs_nfa(&n)?;
        ctx.sample(|| texts[i as usize].to_string());
        let depth = if th { 4 } else { 3 };
        histories(Obj::N(n), &partner(&a, i), &Bound { depth, max_states: 16 }, ctx)
    }));
    let nb = DFA_BASES.len() as u64;
    v.push(family("DFA bases N<=6 k=2 from every initial state: all sequences of <= 2 operations", nb * 6 * 6, move |i, ctx| {
        let mut d = Dec(i);
        let (b, n, q) = (d.take(nb), d.take(6) + 1, d.take(6));
        if q >= n {
            return Ok(());
        }
        let mut a = dfa_base(DFA_BASES[b], n, 2);
        a.init = q;
        histories(Obj::D(load_dfa(&a)?), &partner(&a, i), &Bound { depth: 2, max_states: 16 }, ctx)
    }));
    let nb = NFA_BASES.len() as u64;
    v.push(family("NFA bases N<=6 k=2 from every initial state: all sequences of <= 2 operations", nb * 6 * 6, move |i, ctx| {
        let mut d = Dec(i);
        let (b, n, q) = (d.take(nb), d.take(6) + 1, d.take(6));
        if q >= n {
            return Ok(());
        }
        let mut a = nfa_base(NFA_BASES[b], n, 2);
        a.init = q;
        histories(Obj::N(load_nfa(&a)?), &partner(&a, i), &Bound { depth: 2, max_states: 16 }, ctx)
    }));
    let some = [9usize, 17, 33, 40, 65];
    let (nd, nn, ns) = (DFA_BASES.len() as u64, BIG_NFA.len() as u64, some.len() as u64);
    let depth = if th { 3 } else { 2 };
    v.push(family(format!("DFA bases of 9..=65 states, four variants: all sequences of <= {depth} operations (66 states at most before an operation)"), nd * ns * 4, move |i, ctx| {
        let mut d = Dec(i);
        let (b, n, x) = (d.take(nd), some[d.take(ns)], d.take(4));
        let a = big_variant(dfa_base(DFA_BASES[b], n, 2), x);
        histories(Obj::D(load_dfa(&a)?), &partner(&a, i), &Bound { depth, max_states: 66 }, ctx)
    }));
    // the products of NFAs with many ε-transitions take too long
    v.push(family("NFA shapes of 9, 17, 33 states, four variants: all sequences of <= 2 operations (34 states at most before an operation)", nn * 3 * 4, move |i, ctx| {
        let mut d = Dec(i);
        let (b, n, x) = (d.take(nn), some[d.take(3)], d.take(4));
        let a = big_variant(big_nfa(BIG_NFA[b], n, 2), x);
        if a.tr.iter().flatten().map(|t| t.len()).sum::<usize>() > 300 {
            return Ok(());
        }
        histories(Obj::N(load_nfa(&a)?), &partner(&a, i), &Bound { depth: 2, max_states: 34 }, ctx)
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P19: the browser registry

#[derive(Clone)]
enum Held {
    D(Aut, String),
    N(Aut, String),
    R(usize),
    Gone,
}

struct Model {
    /// every handle ever returned, in order
    handles: Vec<usize>,
    held: Vec<Held>,
}

const DFA_TEXTS: [&str; 2] = [
    " a b\n-> s t s\n * t u t\n * u t u\n   v v v\n",
    " b a\n* s s t\n-> t t s",
];
const NFA_TEXTS: [&str; 2] = [
    " eps a b\n-> s {t} {s} {}\n * t {} {} {t s}\n u {u} {} {}\n",
    " a b\n-> * s {s t} {}\n t {} {s}",
];
const REGEX_TEXTS: [&str; 2] = ["(a|b)*a", "é*b+|ε"];
const BAD: [&str; 3] = ["", " a\n-> s t\n", "(a|"];

fn same_aut_lang(what: &str, ctx: &mut Ctx, base: &Aut, got: &Aut) -> R {
    same_language(ctx, what, &base.alpha, &[&base.det()], got, |v| v[0])
}

impl Model {
    fn handle(&self, c: usize) -> usize {
        // beyond the issued ones: a handle nobody ever got
        self.handles.get(c).copied().unwrap_or(usize::MAX - 7)
    }
    fn new_handle(&mut self, h: usize, held: Held, how: &str) -> R {
        ensure!(!self.handles.contains(&h), "{how} returned the handle {h} again");
        self.handles.push(h);
        self.held.push(held);
        Ok(())
    }
    fn at(&self, c: usize) -> Held {
        self.held.get(c).cloned().unwrap_or(Held::Gone)
    }
}

fn table_dfa(h: usize, how: &str) -> R<(Aut, String)> {
    let Some(t) = dandy_wasm::dfa_to_table(h) else { fail!("{how}: no table for the DFA handle {h}") };
    let d = parse_dfa(&t).map_err(|e| Fail::new(format!("{how}: {e} in the table\n{t}")))?;
    Ok((obs_dfa(&d)?, t))
}
fn table_nfa(h: usize, how: &str) -> R<(Aut, String)> {
    let Some(t) = dandy_wasm::nfa_to_table(h) else { fail!("{how}: no table for the NFA handle {h}") };
    let d = parse_nfa(&t).map_err(|e| Fail::new(format!("{how}: {e} in the table\n{t}")))?;
    Ok((obs_nfa(&d)?, t))
}

const LOADS: usize = 9;
const ON_HANDLE: usize = 7;

/// performs one registry call and checks its answer; false: this step is a repetition of another one
fn step(m: &mut Model, op: usize, log: &mut Vec<String>, ctx: &mut Ctx) -> R<bool> {
    ctx.transitions += 1;
    if op < LOADS {
        match op {
            0 | 1 => {
                log.push(format!("load_dfa #{op}"));
                let h = dandy_wasm::load_dfa(DFA_TEXTS[op]).map_err(|e| Fail::new(format!("{log:?}: {e}")))?;
                let want = parse_dfa(DFA_TEXTS[op]).map_err(Fail::new)?;
                let (a, t) = table_dfa(h, &format!("{log:?}"))?;
                ensure!(a == obs_dfa(&want)?, "{log:?}: the handle {h} names another automaton:\n{t}");
                m.new_handle(h, Held::D(a, t), &format!("{log:?}"))?;
            }
            2 | 3 => {
                log.push(format!("load_nfa #{}", op - 2));
                let h = dandy_wasm::load_nfa(NFA_TEXTS[op - 2]).map_err(|e| Fail::new(format!("{log:?}: {e}")))?;
                let want = parse_nfa(NFA_TEXTS[op - 2]).map_err(Fail::new)?;
                let (a, t) = table_nfa(h, &format!("{log:?}"))?;
                ensure!(a == obs_nfa(&want)?, "{log:?}: the handle {h} names another automaton:\n{t}");
                m.new_handle(h, Held::N(a, t), &format!("{log:?}"))?;
            }
            4 | 5 => {
                log.push(format!("load_regex #{}", op - 4));
                let h = dandy_wasm::load_regex(REGEX_TEXTS[op - 4]).map_err(|e| Fail::new(format!("{log:?}: {e}")))?;
                m.new_handle(h, Held::R(op - 4), &format!("{log:?}"))?;
            }
            _ => {
                let b = BAD[op - 6];
                log.push(format!("load {b:?}"));
                for (kind, r) in [
                    ("dfa", dandy_wasm::load_dfa(b)),
                    ("nfa", dandy_wasm::load_nfa(b)),
                    ("regex", if op == 7 { Err("-".into()) } else { dandy_wasm::load_regex(b) }),
                ] {
                    match r {
                        Ok(h) => fail!("{log:?}: load_{kind} gives the handle {h}"),
                        Err(e) => ensure!(!e.is_empty(), "{log:?}: load_{kind} gives an empty error"),
                    }
                }
            }
        }
        return Ok(true);
    }
    let (kind, c) = ((op - LOADS) % ON_HANDLE, (op - LOADS) / ON_HANDLE);
    if c > m.handles.len() {
        return Ok(false);
    }
    let h = m.handle(c);
    let was = m.at(c);
    let name = ["delete_dfa", "delete_nfa", "delete_regex", "regex_to_nfa", "dfa_to_nfa", "nfa_to_dfa", "minimize_dfa"][kind];
    log.push(format!("{name}({})", if c < m.handles.len() { format!("handle {c}") } else { "unknown".into() }));
    let l = format!("{log:?}");
    match kind {
        0..=2 => {
            let (got, want) = match kind {
                0 => (dandy_wasm::delete_dfa(h), matches!(was, Held::D(..))),
                1 => (dandy_wasm::delete_nfa(h), matches!(was, Held::N(..))),
                _ => (dandy_wasm::delete_regex(h), matches!(was, Held::R(..))),
            };
            ensure!(got == want, "{l}: returned {got}");
            if want {
                m.held[c] = Held::Gone;
            }
        }
        3 => match (was, dandy_wasm::regex_to_nfa(h)) {
            (Held::R(i), Some(x)) => {
                m.held[c] = Held::Gone;
                let want = parse_regex(REGEX_TEXTS[i]).map_err(Fail::new)?.to_nfa();
                let (a, t) = table_nfa(x, &l)?;
                same_aut_lang(&l, ctx, &obs_nfa(&want)?, &a)?;
                m.new_handle(x, Held::N(a, t), &l)?;
            }
            (Held::R(_), None) => fail!("{l}: no result for a live expression"),
            (_, Some(x)) => fail!("{l}: handle {x} from a handle that names no expression"),
            _ => {}
        },
        4 => match (was, dandy_wasm::dfa_to_nfa(h)) {
            (Held::D(d, _), Some(x)) => {
                let (a, t) = table_nfa(x, &l)?;
                ensure!(a == d, "{l}: not the same automaton as an NFA:\n{t}instead of\n{}", d.show());
                m.new_handle(x, Held::N(a, t), &l)?;
            }
            (Held::D(..), None) => fail!("{l}: no result for a live DFA"),
            (_, Some(x)) => fail!("{l}: handle {x} from a handle that names no DFA"),
            _ => {}
        },
        5 => match (was, dandy_wasm::nfa_to_dfa(h)) {
            (Held::N(d, _), Some(x)) => {
                let (a, t) = table_dfa(x, &l)?;
                same_aut_lang(&l, ctx, &d, &a)?;
                ensure!(a.n() == d.det().n(), "{l}: {} states instead of {}", a.n(), d.det().n());
                m.new_handle(x, Held::D(a, t), &l)?;
            }
            (Held::N(..), None) => fail!("{l}: no result for a live NFA"),
            (_, Some(x)) => fail!("{l}: handle {x} from a handle that names no NFA"),
            _ => {}
        },
        _ => {
            let got = dandy_wasm::minimize_dfa(h);
            if let Held::D(d, _) = was {
                ensure!(got, "{l}: false for a live DFA");
                let (a, t) = table_dfa(h, &l)?;
                same_aut_lang(&l, ctx, &d, &a)?;
                ensure!(a.n() == d.det().minimal_size(), "{l}: {} states left", a.n());
                m.held[c] = Held::D(a, t);
            } else {
                ensure!(!got, "{l}: true for a handle that names no DFA");
            }
        }
    }
    Ok(true)
}

/// asks everything about every handle, then deletes all of them
fn observe(m: &mut Model, log: &[String], ctx: &mut Ctx) -> R {
    let l = format!("{log:?}");
    let n = m.handles.len() + 1;
    for c in 0..n {
        ctx.traces += 1;
        let h = m.handle(c);
        let (d, a) = (dandy_wasm::dfa_to_table(h), dandy_wasm::nfa_to_table(h));
        let (wd, wa) = match m.at(c) {
            Held::D(_, t) => (Some(t), None),
            Held::N(_, t) => (None, Some(t)),
            _ => (None, None),
        };
        ensure!(d == wd, "{l}: dfa_to_table(handle {c}) is {d:?} instead of {wd:?}");
        ensure!(a == wa, "{l}: nfa_to_table(handle {c}) is {a:?} instead of {wa:?}");
        if wd.is_none() {
            ensure!(!dandy_wasm::draw_dfa(h, "x"), "{l}: draw_dfa(handle {c})");
        }
        if wa.is_none() {
            ensure!(!dandy_wasm::draw_nfa(h, "x"), "{l}: draw_nfa(handle {c})");
        }
        for e in 0..n {
            let (x, y) = (dandy_wasm::check_dfa_eq(h, m.handle(e)), dandy_wasm::check_nfa_eq(h, m.handle(e)));
            let mut eq = |p: &Aut, q: &Aut| -> bool {
                ctx.transitions += 1;
                q.det_as(&p.alpha).is_some_and(|dq| check_all(&[&p.det(), &dq], |v| v[0] == v[1]).word.is_none())
            };
            let (wx, wy) = match (m.at(c), m.at(e)) {
                (Held::D(p, _), Held::D(q, _)) => (Some(eq(&p, &q)), None),
                (Held::N(p, _), Held::N(q, _)) => (None, Some(eq(&p, &q))),
                _ => (None, None),
            };
            ensure!(x == wx, "{l}: check_dfa_eq(handle {c}, handle {e}) is {x:?} instead of {wx:?}");
            ensure!(y == wy, "{l}: check_nfa_eq(handle {c}, handle {e}) is {y:?} instead of {wy:?}");
        }
    }
    ctx.states += 1;
    // expressions can only be seen by converting them
    for c in 0..m.handles.len() {
        if let Held::R(_) = m.at(c) {
            let mut log = log.to_vec();
            step(m, LOADS + c * ON_HANDLE + 3, &mut log, ctx)?;
        }
    }
    for c in 0..m.handles.len() + 1 {
        for k in 0..3 {
            let mut log = log.to_vec();
            step(m, LOADS + c * ON_HANDLE + k, &mut log, ctx)?;
        }
    }
    for h in &m.handles {
        ensure!(
            dandy_wasm::dfa_to_table(*h).is_none() && dandy_wasm::nfa_to_table(*h).is_none(),
            "{l}: handle {h} is still there after deletion"
        );
    }
    Ok(())
}

/// the i-th history of the given length over the first `loads` loads
fn registry(i: u64, len: usize, loads: &[usize], ctx: &mut Ctx) -> R {
    let mut d = Dec(i);
    let mut m = Model { handles: vec![], held: vec![] };
    let mut log = vec![];
    for j in 0..len {
        let x = d.take((loads.len() + ON_HANDLE * (j + 1)) as u64);
        let op = if x < loads.len() { loads[x] } else { LOADS + (x - loads.len()) };
        if !step(&mut m, op, &mut log, ctx)? {
            // leave nothing behind
            let mut quiet = Ctx::default();
            return observe(&mut m, &log, &mut quiet);
        }
    }
    ctx.sample(|| format!("{log:?}"));
    observe(&mut m, &log, ctx)
}

fn registry_len(len: usize, loads: usize) -> u64 {
    (0..len).map(|j| (loads + ON_HANDLE * (j + 1)) as u64).product()
}

pub fn p19(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let all: &[usize] = &[0, 2, 4, 1, 3, 5, 6, 7, 8];
    let mut v = vec![];
    for len in 1..=3 {
        v.push(family(
            format!("all call histories of length {len}, 9 loads (6 valid, 3 invalid), on a fresh registry each"),
            registry_len(len, 9),
            move |i, ctx| {
                let mut mine = Ctx { want_sample: ctx.want_sample, ..Ctx::default() };
                let r = std::thread::scope(|s| {
                    let mine = &mut mine;
                    s.spawn(move || guarded(|| registry(i, len, all, mine))).join().expect("joined")
                });
                ctx.states += mine.states;
                ctx.transitions += mine.transitions;
                ctx.traces += mine.traces;
                ctx.sample = mine.sample;
                r
            },
        ));
    }
    for (len, n) in if th { vec![(4, 9), (5, 4), (6, 2)] } else { vec![(4, 4), (5, 1)] } {
        let loads = if n == 2 { &[0, 4][..] } else if n == 1 { &[2][..] } else { &all[..n] };
        v.push(family(
            format!("all call histories of length {len}, {n} loads, on a registry with a past"),
            registry_len(len, n),
            move |i, ctx| registry(i, len, loads, ctx),
        ));
    }
    // many objects at once
    let many: &[usize] = &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000];
    v.push(family(
        "up to 1000 objects of mixed kinds, every second, third, ... or all but one deleted or converted, and new ones loaded",
        many.len() as u64 * 3 * 6,
        move |i, ctx| {
            let mut d = Dec(i);
            let (n, mix, how) = (many[d.take(many.len() as u64)], d.take(3), d.take(6));
            let mut m = Model { handles: vec![], held: vec![] };
            ctx.sample(|| format!("{n} objects, mix {mix}, way {how}"));
            crowd(&mut m, n, mix, how, ctx).map_err(|e| Fail::new(format!("{n} objects, mix {mix}, way {how}: {}", e.msg)))
        },
    ));
    v.push(family("70000 loads in a row, each object deleted before the next, with one that stays", 3, move |i, ctx| {
        let mut seen: FxSet<usize> = FxSet::default();
        let stay = dandy_wasm::load_dfa(DFA_TEXTS[0]).map_err(Fail::new)?;
        let table = dandy_wasm::dfa_to_table(stay);
        seen.insert(stay);
        for j in 0..70_000u32 {
            let h = match i {
                0 => dandy_wasm::load_regex("a"),
                1 => dandy_wasm::load_dfa(" a\n-> s s"),
                _ => dandy_wasm::load_nfa(" a\n-> s {}"),
            }
            .map_err(Fail::new)?;
            ctx.transitions += 2;
            ensure!(seen.insert(h), "load {j} returned the handle {h} again");
            let gone = match i {
                0 => dandy_wasm::delete_regex(h),
                1 => dandy_wasm::delete_dfa(h),
                _ => dandy_wasm::delete_nfa(h),
            };
            ensure!(gone, "load {j}: the handle {h} could not be deleted");
        }
        ensure!(dandy_wasm::dfa_to_table(stay) == table, "the object loaded first is no longer what it was");
        ensure!(dandy_wasm::delete_dfa(stay), "the object loaded first is gone");
        ctx.states += 70_000;
        Ok(())
    }).chunked(1));
    // the library's results for every object
    for (n, k) in [(2, 1), (2, 2), (3, 1)] {
        v.push(family(format!("every DFA n={n} k={k} through the bindings"), dfa_len(n, k), move |i, ctx| {
            let a = dfa(n as usize, k as usize, i);
            ctx.sample(|| a.show());
            through_dfa(&dfa_text(&a), ctx)
        }));
    }
    for (n, k, e) in [(2, 1, 1), (2, 1, 2), (2, 1, 3), (2, 2, 2), (3, 1, 2)] {
        v.push(family(format!("every NFA n={n} k={k} with {e} edges through the bindings"), nfa_edges_len(n, k, true, e), move |i, ctx| {
            let a = nfa_edges(n as usize, k as usize, true, e, i);
            ctx.sample(|| a.show());
            through_nfa(&nfa_text(&a), ctx)
        }));
    }
    v.push(family("DFA bases of 8..=258 states around the powers of two through the bindings", big_dfas_len() / 4, move |i, ctx| {
        through_dfa(&dfa_text(&big_dfas(i * 4 + i % 4)), ctx)
    }));
    v.push(family("NFA shapes of 8..=66 states around the powers of two through the bindings", big_nfas_len() / 4, move |i, ctx| {
        let a = big_nfas(i * 4 + i % 4);
        if a.n() > 66 {
            return Ok(());
        }
        through_nfa(&nfa_text(&a), ctx)
    }));
    v.push(family("DFA bases of 300 to 1025 states through the bindings", huge_dfas_len(), move |i, ctx| through_dfa(&dfa_text(&huge_dfas(i)), ctx)));
    v.push(family("NFA shapes of 300 states through the bindings", huge_nfas_len() / 3, move |i, ctx| through_nfa(&nfa_text(&huge_nfas(i)), ctx)));
    for len in 0..=if th { 6 } else { 5 } {
        v.push(family(format!("every text of {len} of 8 expression tokens through the bindings"), pow(8, len), move |i, ctx| {
            let mut d = Dec(i);
            let t: String = (0..len).map(|_| ["a", "b", "(", ")", "|", "*", "+", "ε"][d.take(8)]).collect();
            ctx.transitions += 1;
            match (dandy_wasm::load_regex(&t), parse_regex(&t)) {
                (Err(e), Err(_)) => ensure!(!e.is_empty(), "{t:?}: empty error"),
                (Ok(h), Ok(r)) => {
                    let Some(x) = dandy_wasm::regex_to_nfa(h) else { fail!("{t:?}: no automaton") };
                    ensure!(dandy_wasm::regex_to_nfa(h).is_none(), "{t:?}: converted twice");
                    let (a, _) = table_nfa(x, &t)?;
                    same_aut_lang(&t, ctx, &obs_nfa(&r.to_nfa())?, &a)?;
                    ensure!(dandy_wasm::delete_nfa(x) && !dandy_wasm::delete_regex(h), "{t:?}: deletion");
                    ctx.traces += 1;
                }
                (x, y) => fail!("{t:?}: load_regex gives {x:?}, the library {}", if y.is_ok() { "an expression" } else { "an error" }),
            }
            Ok(())
        }));
    }
    let (nd, nn) = (dfa_len(2, 1), nfa_edges_len(2, 1, true, 2));
    v.push(family("equality of every pair of DFAs n=2 k=1 through the bindings", nd * nd, move |i, ctx| {
        let (a, b) = (dfa(2, 1, i / nd), dfa(2, 1, i % nd));
        let x = dandy_wasm::load_dfa(&dfa_text(&a)).map_err(Fail::new)?;
        let y = dandy_wasm::load_dfa(&dfa_text(&b)).map_err(Fail::new)?;
        let want = load_dfa(&a)?.equivalent_to(&load_dfa(&b)?);
        ctx.transitions += 1;
        ctx.traces += 1;
        ensure!(dandy_wasm::check_dfa_eq(x, y) == Some(want), "check_dfa_eq of\n{}and\n{}should be {want}", a.show(), b.show());
        ensure!(dandy_wasm::check_nfa_eq(x, y).is_none(), "check_nfa_eq of two DFAs");
        dandy_wasm::delete_dfa(x);
        dandy_wasm::delete_dfa(y);
        Ok(())
    }));
    v.push(family("equality of every pair of NFAs n=2 k=1 with 2 edges through the bindings", nn * nn, move |i, ctx| {
        let (a, b) = (nfa_edges(2, 1, true, 2, i / nn), nfa_edges(2, 1, true, 2, i % nn));
        let x = dandy_wasm::load_nfa(&nfa_text(&a)).map_err(Fail::new)?;
        let y = dandy_wasm::load_nfa(&nfa_text(&b)).map_err(Fail::new)?;
        let want = load_nfa(&a)?.equivalent_to(&load_nfa(&b)?);
        ctx.transitions += 1;
        ctx.traces += 1;
        ensure!(dandy_wasm::check_nfa_eq(x, y) == Some(want), "check_nfa_eq of\n{}and\n{}should be {want}", a.show(), b.show());
        ensure!(dandy_wasm::check_dfa_eq(x, y).is_none(), "check_dfa_eq of two NFAs");
        dandy_wasm::delete_nfa(x);
        dandy_wasm::delete_nfa(y);
        Ok(())
    }));
    v
}

/// loads n objects, deletes or converts some, loads more; every answer is compared with the model
fn crowd(m: &mut Model, n: usize, mix: usize, how: usize, ctx: &mut Ctx) -> R {
    let load = |m: &mut Model, j: usize, ctx: &mut Ctx| -> R {
        let op = match mix {
            0 => j % 6,
            1 => j / 3 % 2,
            _ => [0, 2, 2, 3, 4, 5, 1][j % 7],
        };
        step(m, op, &mut vec![], ctx).map(|_| ())
    };
    let on = |m: &mut Model, c: usize, kind: usize, ctx: &mut Ctx| step(m, LOADS + c * ON_HANDLE + kind, &mut vec![], ctx).map(|_| ());
    let drop = |m: &mut Model, c: usize, ctx: &mut Ctx| -> R {
        for k in 0..3 {
            on(m, c, k, ctx)?;
        }
        Ok(())
    };
    for j in 0..n {
        load(m, j, ctx)?;
    }
    seen(m, ctx)?;
    match how {
        0 => (0..n).step_by(2).try_for_each(|c| drop(m, c, ctx))?,
        1 => (0..n).rev().step_by(3).try_for_each(|c| drop(m, c, ctx))?,
        2 => (0..n - 1).try_for_each(|c| drop(m, c, ctx))?,
        3 => (1..n).rev().try_for_each(|c| drop(m, c, ctx))?,
        4 => (0..n).try_for_each(|c| on(m, c, 3 + c % 4, ctx))?,
        _ => (0..n).rev().try_for_each(|c| (3..ON_HANDLE).try_for_each(|k| on(m, c, k, ctx)))?,
    }
    seen(m, ctx)?;
    for j in 0..n / 2 + 1 {
        load(m, j + 1, ctx)?;
    }
    seen(m, ctx)?;
    for c in 0..m.handles.len() {
        drop(m, c, ctx)?;
    }
    seen(m, ctx)
}

/// what every handle names
fn seen(m: &Model, ctx: &mut Ctx) -> R {
    ctx.states += 1;
    for (c, h) in m.handles.iter().enumerate() {
        ctx.traces += 1;
        let got = (dandy_wasm::dfa_to_table(*h), dandy_wasm::nfa_to_table(*h));
        let want = match m.at(c) {
            Held::D(_, t) => (Some(t), None),
            Held::N(_, t) => (None, Some(t)),
            _ => (None, None),
        };
        ensure!(got == want, "handle {c} ({h}) names {got:?} instead of {want:?}");
        let next = m.handle((c + 1) % m.handles.len());
        let (x, y) = (dandy_wasm::check_dfa_eq(*h, *h), dandy_wasm::check_nfa_eq(*h, *h));
        ensure!(x == want.0.as_ref().map(|_| true) && y == want.1.as_ref().map(|_| true), "handle {c} ({h}) with itself: {x:?}, {y:?}");
        let both = matches!((m.at(c), m.at((c + 1) % m.handles.len())), (Held::D(..), Held::D(..)));
        ensure!(dandy_wasm::check_dfa_eq(*h, next).is_some() == both, "check_dfa_eq of handle {c} and the next");
    }
    Ok(())
}

fn through_dfa(text: &str, ctx: &mut Ctx) -> R {
    let d = parse_dfa(text).map_err(Fail::new)?;
    let a = obs_dfa(&d)?;
    let h = dandy_wasm::load_dfa(text).map_err(Fail::new)?;
    ctx.transitions += 4;
    ctx.traces += 1;
    ensure!(dandy_wasm::dfa_to_table(h) == Some(d.to_table()), "dfa_to_table of\n{text}");
    let Some(x) = dandy_wasm::dfa_to_nfa(h) else { fail!("dfa_to_nfa of\n{text}") };
    ensure!(dandy_wasm::nfa_to_table(x) == Some(d.clone().to_nfa().to_table()), "nfa_to_table of dfa_to_nfa of\n{text}");
    ensure!(dandy_wasm::minimize_dfa(h), "minimize_dfa of\n{text}");
    let (b, _) = table_dfa(h, text)?;
    same_aut_lang(text, ctx, &a, &b)?;
    let min = a.det().minimal_size();
    ensure!(b.n() == min, "minimize_dfa leaves {} states instead of {min} of\n{text}", b.n());
    ensure!(dandy_wasm::nfa_to_table(x) == Some(d.to_nfa().to_table()), "minimize_dfa changes the NFA made before of\n{text}");
    ensure!(dandy_wasm::delete_dfa(h) && dandy_wasm::delete_nfa(x), "deletion");
    Ok(())
}

fn through_nfa(text: &str, ctx: &mut Ctx) -> R {
    let d = parse_nfa(text).map_err(Fail::new)?;
    let a = obs_nfa(&d)?;
    let h = dandy_wasm::load_nfa(text).map_err(Fail::new)?;
    ctx.transitions += 3;
    ctx.traces += 1;
    ensure!(dandy_wasm::nfa_to_table(h) == Some(d.to_table()), "nfa_to_table of\n{text}");
    if a.k() > 0 {
        let Some(x) = dandy_wasm::nfa_to_dfa(h) else { fail!("nfa_to_dfa of\n{text}") };
        let (b, _) = table_dfa(x, text)?;
        same_aut_lang(text, ctx, &a, &b)?;
        ensure!(b.n() == a.det().n(), "nfa_to_dfa gives {} states of\n{text}", b.n());
        ensure!(dandy_wasm::delete_dfa(x), "deletion");
    }
    ensure!(dandy_wasm::nfa_to_table(h) == Some(d.to_table()), "nfa_to_dfa changes\n{text}");
    ensure!(dandy_wasm::delete_nfa(h), "deletion");
    Ok(())
}
