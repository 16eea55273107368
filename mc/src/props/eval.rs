//! P01, P02: evaluation
use super::*;
use dandy::dfa::{Dfa, DfaEvaluator};
use dandy::nfa::{Nfa, NfaEvaluator};

/// calls f for every word of length <= len over m letters
pub fn each_word(m: usize, len: usize, f: &mut dyn FnMut(&[usize]) -> R) -> R {
    fn go(m: usize, len: usize, w: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> R) -> R {
        f(w)?;
        if w.len() < len {
            for c in 0..m {
                w.push(c);
                go(m, len, w, f)?;
                w.pop();
            }
        }
        Ok(())
    }
    go(m, len, &mut vec![], f)
}

/// known symbols followed by symbols outside the alphabet
fn letters(a: &Aut) -> Vec<String> {
    let mut v = a.alpha.clone();
    let mut extra = vec![String::new(), "¤".to_string()];
    if let Some(x) = a.alpha.first() {
        extra.push(format!("{x}{x}"));
        extra.push(a.alpha.concat());
    }
    for e in extra {
        if !v.contains(&e) {
            v.push(e);
        }
    }
    v.truncate(a.k() + 2);
    v
}

/// letters outside the alphabet that resemble a symbol of it
fn lookalikes(a: &Aut) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in a.alpha.iter().take(4) {
        for suffix in [" ", "\n", "\t", "\u{301}", "\u{fe0f}", "\u{fe0e}", "\u{200d}", "\u{200b}", "\u{feff}", "\0", "'", ".", ","] {
            v.push(format!("{x}{suffix}"));
            v.push(format!("{suffix}{x}"));
        }
        v.push(x.to_uppercase());
        v.push(x.to_lowercase());
        v.push(x.chars().rev().collect());
        let n = x.chars().count();
        v.push(x.chars().take(n - 1).collect());
        v.push(x.chars().skip(1).collect());
        v.push(format!("\u{e9}"));
        v.push(format!("e\u{301}"));
        v.push(format!("a\u{30a}"));
        if let Some(c) = x.chars().last().filter(|_| n == 1) {
            // neighbours, and the full-width form
            for d in [char::from_u32(c as u32 + 1), char::from_u32((c as u32).wrapping_sub(1)), char::from_u32(c as u32 + 0xfee0), char::from_u32(c as u32 + 256), char::from_u32(c as u32 + 65536)] {
                v.extend(d.map(|d| d.to_string()));
            }
        }
    }
    for s in ["ε", "eps", "*", "?", "_", ".", "[^a]", "->", "{", "}", "#", "other", "else", "any"] {
        v.push(s.into());
    }
    v.sort();
    v.dedup();
    v.retain(|x| !a.alpha.contains(x));
    v
}

/// what the model says about a list of letters: None once a symbol is outside the alphabet
fn run(d: &Det, k: usize, w: &[usize]) -> Option<usize> {
    let mut q = 0;
    for &c in w {
        if c >= k {
            return None;
        }
        q = d.step(q, c);
    }
    Some(q)
}

fn run_strs(d: &Det, a: &Aut, w: &[&str]) -> Option<usize> {
    let mut q = 0;
    for s in w {
        q = d.step(q, a.alpha.iter().position(|x| x == s)?);
    }
    Some(q)
}

/// one- and two-letter words with a letter that only looks like a symbol
fn strange_words(
    a: &Aut,
    set: &Det,
    strange: &[String],
    accepts: &dyn Fn(&[&str]) -> bool,
    accepts_graphemes: &dyn Fn(&str) -> bool,
) -> R {
    for u in strange {
        ensure!(!accepts(&[u]), "{}accepts([{u:?}])", a.show());
        let mut texts = vec![u.clone()];
        for s in &a.alpha {
            ensure!(!accepts(&[u, s]), "{}accepts([{u:?}, {s:?}])", a.show());
            ensure!(!accepts(&[s, u]), "{}accepts([{s:?}, {u:?}])", a.show());
            texts.push(format!("{s}{u}"));
            texts.push(format!("{u}{s}"));
        }
        for t in texts {
            let want = run_strs(set, a, &clusters(&t)).is_some_and(|q| set.acc[q]);
            ensure!(accepts_graphemes(&t) == want, "{}accepts_graphemes({t:?}) is {}", a.show(), !want);
        }
    }
    Ok(())
}

fn at_dfa(e: &DfaEvaluator, a: &Aut, set: &Det, q: usize, how: &dyn Fn() -> String) -> R {
    let i = e.current_state_idx();
    ensure!(i < a.n() && set.has(q, i), "{}: evaluator is in state #{i}", how());
    ensure!(
        e.current_state().map(|s| s.name().to_string()) == Some(a.names[i].clone()),
        "{}: current_state() is not state #{i}",
        how()
    );
    ensure!(e.is_accepting() == set.acc[q], "{}: is_accepting() is {}", how(), e.is_accepting());
    Ok(())
}

fn latched_dfa(e: &DfaEvaluator, a: &Aut, how: &dyn Fn() -> String) -> R {
    let mut e = e.clone();
    ensure!(!e.is_accepting(), "{}: accepts after an unknown symbol", how());
    for n in e.step_all() {
        ensure!(!n.is_accepting(), "{}: step_all accepts after an unknown symbol", how());
    }
    for r in 0..2 {
        for s in &a.alpha {
            if r == 0 {
                e.step(s);
            } else {
                e.step_multiple(&[s]);
            }
            ensure!(!e.is_accepting(), "{}: accepts again after an unknown symbol, on {s:?}", how());
        }
    }
    Ok(())
}

pub fn check_dfa(a: &Aut, len: usize, ctx: &mut Ctx) -> R {
    check_this_dfa(&load_dfa(a)?, a, len, ctx)
}

/// all about evaluation on the DFA `d`, which looks like `a`
fn check_this_dfa(d: &Dfa, a: &Aut, len: usize, ctx: &mut Ctx) -> R {
    let set = a.det();
    let k = a.k();
    let ls = letters(a);
    ctx.sample(|| a.show());
    let strange = if k <= 3 && (a.n() <= 2 || k == 3) { lookalikes(a) } else { vec![] };
    let d2 = d.clone();
    // product of model and evaluator
    let mut evs: Vec<Option<DfaEvaluator>> = vec![None; set.n()];
    evs[0] = Some(d.evaluator());
    let mut queue = vec![0];
    let mut i = 0;
    while i < queue.len() {
        let q = queue[i];
        i += 1;
        ctx.states += 1;
        let e = evs[q].clone().unwrap();
        at_dfa(&e, a, &set, q, &|| format!("{}after {i} explored states", a.show()))?;
        let all = e.step_all();
        ensure!(all.len() == k, "{}step_all gives {} evaluators", a.show(), all.len());
        for (c, s) in all.iter().enumerate() {
            ctx.transitions += 1;
            ctx.traces += 1;
            let t = set.step(q, c);
            at_dfa(s, a, &set, t, &|| format!("{}step_all[{c}] from {:?}", a.show(), set.sets[q]))?;
            let mut x = e.clone();
            let ret = x.step(&a.alpha[c]).map(|s| s.name().to_string());
            ensure!(ret.is_some(), "{}step({:?}) gives nothing", a.show(), a.alpha[c]);
            at_dfa(&x, a, &set, t, &|| format!("{}step({:?})", a.show(), a.alpha[c]))?;
            ensure!(
                ret.as_deref() == Some(a.names[x.current_state_idx()].as_str()),
                "{}step({:?}) returns {ret:?}",
                a.show(),
                a.alpha[c]
            );
            at_dfa(&e, a, &set, q, &|| format!("{}original after stepping a copy on {c}", a.show()))?;
            if evs[t].is_none() {
                evs[t] = Some(x);
                queue.push(t);
            }
        }
        for u in &ls[k..] {
            let mut x = e.clone();
            ensure!(x.step(u).is_none(), "{}step on unknown {u:?} gives a state", a.show());
            latched_dfa(&x, a, &|| format!("{}unknown {u:?} after state set {:?}", a.show(), set.sets[q]))?;
            at_dfa(&e, a, &set, q, &|| format!("{}original after stepping a copy on {u:?}", a.show()))?;
        }
        for u in &strange {
            ctx.transitions += 1;
            let mut x = e.clone();
            ensure!(x.step(u).is_none(), "{}step on unknown {u:?} gives a state", a.show());
            ensure!(!x.is_accepting(), "{}accepts after unknown {u:?} after state set {:?}", a.show(), set.sets[q]);
            for s in &a.alpha {
                x.step(s);
                ensure!(!x.is_accepting(), "{}accepts again after unknown {u:?} and then {s:?}", a.show());
            }
        }
    }
    strange_words(a, &set, &strange, &|w| d.accepts(w), &|t| d.accepts_graphemes(t))?;
    // whole words and all ways to cut them
    each_word(ls.len(), len, &mut |w| {
        let strs: Vec<&str> = w.iter().map(|c| ls[*c].as_str()).collect();
        let want = run(&set, k, w).is_some_and(|q| set.acc[q]);
        ctx.traces += 1;
        ensure!(
            d.accepts(&strs) == want,
            "{}accepts({strs:?}) is {}",
            a.show(),
            !want
        );
        let text = strs.concat();
        let gw = run_strs(&set, a, &clusters(&text)).is_some_and(|q| set.acc[q]);
        ensure!(
            d.accepts_graphemes(&text) == gw,
            "{}accepts_graphemes({text:?}) is {}",
            a.show(),
            !gw
        );
        if w.len() <= 3 && !w.is_empty() {
            for cut in 0..1u32 << (2 * w.len() - 1) {
                // low bits: where to cut; high bits: which pieces of one symbol are fed by step
                let mut e = if cut % 2 == 1 { d.evaluator() } else { DfaEvaluator::from(d) };
                let mut start = 0;
                let mut piece = 0;
                for end in 1..=w.len() {
                    if end == w.len() || cut >> (end - 1) & 1 == 1 {
                        if end - start == 1 && cut >> (w.len() - 1 + piece) & 1 == 1 {
                            e.step(strs[start]);
                        } else {
                            e.step_multiple(&strs[start..end]);
                        }
                        start = end;
                        piece += 1;
                    }
                }
                match run(&set, k, w) {
                    Some(q) => at_dfa(&e, a, &set, q, &|| format!("{}pieces {cut:b} of {strs:?}", a.show()))?,
                    None => latched_dfa(&e, a, &|| format!("{}pieces {cut:b} of {strs:?}", a.show()))?,
                }
            }
        }
        Ok(())
    })?;
    ensure!(*d == d2, "{}evaluating changed the automaton", a.show());
    Ok(())
}

fn at_nfa(e: &NfaEvaluator, a: &Aut, set: &Det, q: usize, how: &dyn Fn() -> String) -> R {
    let cur = e.current_states_idx();
    for i in 0..a.n() {
        ensure!(
            cur.contains(&i) == set.has(q, i),
            "{}: evaluator is in states {cur:?}",
            how()
        );
    }
    ensure!(cur.iter().all(|i| *i < a.n()), "{}: evaluator is in states {cur:?}", how());
    let cs = e.current_states();
    ensure!(
        cs.len() == cur.len() && cs.iter().all(|s| (0..a.n()).any(|i| set.has(q, i) && a.names[i] == s.name())),
        "{}: current_states() {:?}",
        how(),
        cs.iter().map(|s| s.name()).collect::<Vec<_>>()
    );
    ensure!(e.is_accepting() == set.acc[q], "{}: is_accepting() is {}", how(), e.is_accepting());
    Ok(())
}

fn latched_nfa(e: &NfaEvaluator, a: &Aut, how: &dyn Fn() -> String) -> R {
    let mut e = e.clone();
    ensure!(!e.is_accepting(), "{}: accepts after an unknown symbol", how());
    for n in e.step_all() {
        ensure!(!n.is_accepting(), "{}: step_all accepts after an unknown symbol", how());
    }
    for r in 0..2 {
        for s in &a.alpha {
            if r == 0 {
                e.step(s);
            } else {
                e.step_multiple(&[s]);
            }
            ensure!(!e.is_accepting(), "{}: accepts again after an unknown symbol, on {s:?}", how());
        }
    }
    Ok(())
}

pub fn check_nfa(a: &Aut, len: usize, ctx: &mut Ctx) -> R {
    check_this_nfa(&load_nfa(a)?, a, len, ctx)
}

/// all about evaluation on the NFA `d`, which looks like `a`
fn check_this_nfa(d: &Nfa, a: &Aut, len: usize, ctx: &mut Ctx) -> R {
    let set = a.det();
    let k = a.k();
    let ls = letters(a);
    ctx.sample(|| a.show());
    let strange = if k <= 3 && (a.n() <= 2 || k == 3) { lookalikes(a) } else { vec![] };
    for q in 0..a.n() {
        let want = a.closure(q);
        let got = d.closure(q);
        ctx.traces += 1;
        ensure!(
            got.as_ref().is_some_and(|g| (0..a.n()).all(|i| g.contains(&i) == want[i]) && g.iter().all(|i| *i < a.n())),
            "{}closure({q}) = {got:?}",
            a.show()
        );
    }
    for q in [a.n(), a.n() + 1, usize::MAX] {
        ensure!(d.closure(q).is_none(), "{}closure({q}) of no state = {:?}", a.show(), d.closure(q));
    }
    let d2 = d.clone();
    let mut evs: Vec<Option<NfaEvaluator>> = vec![None; set.n()];
    evs[0] = Some(d.evaluator());
    let mut queue = vec![0];
    let mut i = 0;
    while i < queue.len() {
        let q = queue[i];
        i += 1;
        ctx.states += 1;
        let e = evs[q].clone().unwrap();
        at_nfa(&e, a, &set, q, &|| format!("{}after {i} explored states", a.show()))?;
        let all = e.step_all();
        ensure!(all.len() == k, "{}step_all gives {} evaluators", a.show(), all.len());
        for (c, s) in all.iter().enumerate() {
            ctx.transitions += 1;
            ctx.traces += 1;
            let t = set.step(q, c);
            at_nfa(s, a, &set, t, &|| format!("{}step_all[{c}] from {:?}", a.show(), set.sets[q]))?;
            let mut x = e.clone();
            ensure!(x.step(&a.alpha[c]).is_some(), "{}step({:?}) gives nothing", a.show(), a.alpha[c]);
            at_nfa(&x, a, &set, t, &|| format!("{}step({:?})", a.show(), a.alpha[c]))?;
            at_nfa(&e, a, &set, q, &|| format!("{}original after stepping a copy on {c}", a.show()))?;
            if evs[t].is_none() {
                evs[t] = Some(x);
                queue.push(t);
            }
        }
        for u in &ls[k..] {
            let mut x = e.clone();
            x.step(u);
            latched_nfa(&x, a, &|| format!("{}unknown {u:?} after state set {:?}", a.show(), set.sets[q]))?;
            at_nfa(&e, a, &set, q, &|| format!("{}original after stepping a copy on {u:?}", a.show()))?;
        }
        for u in &strange {
            ctx.transitions += 1;
            let mut x = e.clone();
            x.step(u);
            ensure!(!x.is_accepting(), "{}accepts after unknown {u:?} after state set {:?}", a.show(), set.sets[q]);
            for s in &a.alpha {
                x.step(s);
                ensure!(!x.is_accepting(), "{}accepts again after unknown {u:?} and then {s:?}", a.show());
            }
        }
    }
    strange_words(a, &set, &strange, &|w| d.accepts(w), &|t| d.accepts_graphemes(t))?;
    each_word(ls.len(), len, &mut |w| {
        let strs: Vec<&str> = w.iter().map(|c| ls[*c].as_str()).collect();
        let want = run(&set, k, w).is_some_and(|q| set.acc[q]);
        ctx.traces += 1;
        ensure!(
            d.accepts(&strs) == want,
            "{}accepts({strs:?}) is {}",
            a.show(),
            !want
        );
        let text = strs.concat();
        let gw = run_strs(&set, a, &clusters(&text)).is_some_and(|q| set.acc[q]);
        ensure!(
            d.accepts_graphemes(&text) == gw,
            "{}accepts_graphemes({text:?}) is {}",
            a.show(),
            !gw
        );
        if w.len() <= 3 && !w.is_empty() {
            for cut in 0..1u32 << (2 * w.len() - 1) {
                let mut e = if cut % 2 == 1 { d.evaluator() } else { NfaEvaluator::from(d) };
                let mut start = 0;
                let mut piece = 0;
                for end in 1..=w.len() {
                    if end == w.len() || cut >> (end - 1) & 1 == 1 {
                        if end - start == 1 && cut >> (w.len() - 1 + piece) & 1 == 1 {
                            e.step(strs[start]);
                        } else {
                            e.step_multiple(&strs[start..end]);
                        }
                        start = end;
                        piece += 1;
                    }
                }
                match run(&set, k, w) {
                    Some(q) => at_nfa(&e, a, &set, q, &|| format!("{}pieces {cut:b} of {strs:?}", a.show()))?,
                    None => latched_nfa(&e, a, &|| format!("{}pieces {cut:b} of {strs:?}", a.show()))?,
                }
            }
        }
        Ok(())
    })?;
    ensure!(*d == d2, "{}evaluating changed the automaton", a.show());
    Ok(())
}

const LONG: [usize; 60] = [
    4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38,
    39, 40, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000,
];

/// one word of the given length: whole, as text, in two pieces at several places, and with one unknown symbol
fn long_words(a: &Aut, nfa: bool, len: usize, pattern: usize, ctx: &mut Ctx) -> R {
    let set = a.det();
    ctx.sample(|| format!("length {len}, pattern {pattern}\n{}", a.show()));
    let w: Vec<usize> = (0..len)
        .map(|i| match pattern {
            0 => 0,
            1 => 1,
            2 => i % 2,
            3 => (i % 3 == 0) as usize,
            4 => (i + 1 == len) as usize,
            5 => (i == 0) as usize,
            6 => (i / 2) % 2,
            _ => (i % 7 == 3 || i % 5 == 1) as usize,
        })
        .collect();
    let strs: Vec<&str> = w.iter().map(|c| a.alpha[*c].as_str()).collect();
    let path: Vec<usize> = std::iter::once(0)
        .chain(w.iter().scan(0, |q, c| {
            *q = set.step(*q, *c);
            Some(*q)
        }))
        .collect();
    let want = set.acc[path[len]];
    let text = strs.concat();
    let (d, n) = if nfa { (None, Some(load_nfa(a)?)) } else { (Some(load_dfa(a)?), None) };
    let accepts = |w: &[&str]| d.as_ref().map(|d| d.accepts(w)).or_else(|| n.as_ref().map(|n| n.accepts(w))).unwrap();
    let graphemes = |t: &str| d.as_ref().map(|d| d.accepts_graphemes(t)).or_else(|| n.as_ref().map(|n| n.accepts_graphemes(t))).unwrap();
    ctx.traces += 2;
    ctx.states += 1;
    ensure!(accepts(&strs) == want, "{}accepts is {} for {strs:?}", a.show(), !want);
    ensure!(graphemes(&text) == want, "{}accepts_graphemes is {} for {text:?}", a.show(), !want);
    let near = if len > 300 { 1 } else { len.min(9) };
    let mut cuts: Vec<usize> = (0..=near).flat_map(|x| [x, len - x, len / 2 + x % (len / 2 + 1)]).collect();
    cuts.extend([16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257].into_iter().filter(|x| *x < len));
    cuts.sort();
    cuts.dedup();
    for cut in cuts {
        ctx.transitions += 2;
        let how = || format!("{}cut at {cut} of {strs:?}", a.show());
        if let Some(d) = &d {
            let mut e = d.evaluator();
            e.step_multiple(&strs[..cut]);
            at_dfa(&e, a, &set, path[cut], &how)?;
            e.step_multiple(&strs[cut..]);
            at_dfa(&e, a, &set, path[len], &how)?;
        }
        if let Some(n) = &n {
            let mut e = n.evaluator();
            e.step_multiple(&strs[..cut]);
            at_nfa(&e, a, &set, path[cut], &how)?;
            e.step_multiple(&strs[cut..]);
            at_nfa(&e, a, &set, path[len], &how)?;
        }
        let mut bad = strs.clone();
        bad.insert(cut, "¤");
        ensure!(!accepts(&bad), "{}accepts {bad:?}", a.show());
        ensure!(!graphemes(&bad.concat()), "{}accepts_graphemes {bad:?}", a.show());
    }
    Ok(())
}

/// symbols of expressions, of which most cannot be written in a table
const ODD: [&str; 26] = [
    " ", "\n", "\r\n", "\r", "\t", "\u{a0}", "#", "{", "}", "*", "→", "ε", "∅", "|", "(", ")", "+", "\\", "a", "\0", "\u{937}\u{93f}", "e\u{301}",
    "\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\u{200b}", "\u{2028}",
];
const ODD_CASES: u64 = 26 * 26 * 3;

/// an NFA over two odd symbols
fn odd(i: u64) -> R<Nfa> {
    let mut d = Dec(i);
    let (x, y, f) = (ODD[d.take(26)], ODD[d.take(26)], d.take(3));
    let text = match f {
        0 => format!("\\{x}(\\{y})"),
        1 => format!("(\\{x})*(\\{y}|ε)"),
        _ => format!("((\\{x})|(\\{y}))*\\{y}a"),
    };
    parse_regex(&text).map(|r| r.to_nfa()).map_err(Fail::new)
}

const MADE: u64 = 12;

/// NFAs and DFAs that come out of the operations, and how they were made
fn made(i: u64, ctx: &mut Ctx) -> R<(Option<Dfa>, Option<Nfa>)> {
    let mut dec = Dec(i);
    let (op, x, y) = (dec.take(MADE), dec.take(40), dec.take(40));
    let k = 2;
    let da = load_dfa(&dfa_base(DFA_BASES[x % DFA_BASES.len()], 1 + x / 10, k))?;
    let mut swapped = dfa_base(DFA_BASES[y % DFA_BASES.len()], 1 + y / 10, k);
    swapped.alpha.swap(0, 1);
    let db = load_dfa(&swapped)?;
    let na = load_nfa(&nfa_base(NFA_BASES[x % NFA_BASES.len()], 1 + x / 10, k))?;
    let mut swapped = nfa_base(NFA_BASES[y % NFA_BASES.len()], 1 + y / 10, k);
    swapped.alpha.swap(0, 1);
    let nb = load_nfa(&swapped)?;
    let none = || Fail::new("no result over equal alphabets".to_string());
    ctx.traces += 1;
    Ok(match op {
        0 => (da.union(&db), None),
        1 => (da.intersection(&db), None),
        2 => (da.symmetric_difference(&db), None),
        3 => {
            let mut d = da.difference(&db).ok_or_else(none)?;
            d.minimize();
            (Some(d), None)
        }
        4 => {
            let mut d = da.clone();
            d.invert();
            (d.intersection(&db), None)
        }
        5 => (Some(na.to_dfa()), None),
        6 => (None, na.union(nb).ok()),
        7 => (None, na.intersection(&nb)),
        8 => (Some(na.intersection(&nb).ok_or_else(none)?.to_dfa()), Some(da.to_nfa())),
        9 => {
            let mut n = na.union(nb).map_err(|_| none())?;
            n.optimize();
            (None, Some(n))
        }
        10 => {
            let mut n = na.intersection(&nb).ok_or_else(none)?;
            n.remove_epsilon_moves();
            (None, Some(n))
        }
        _ => {
            let mut d = da.union(&db).ok_or_else(none)?;
            d.merge_nondistinguishable_states();
            (Some(d), None)
        }
    })
}

/// an automaton with the character as a symbol (a letter may belong to it) on every short word
fn with_char(c: char, dfa: bool, ctx: &mut Ctx) -> R {
    let text = format!("(\\{c}b|a)*\\{c}b");
    let n = parse_regex(&text).map_err(|e| Fail::new(format!("{text:?} is refused: {e}")))?.to_nfa();
    let d = n.to_dfa();
    let a = if dfa { obs_dfa(&d)? } else { obs_nfa(&n)? };
    let set = a.det();
    let mut ls = a.alpha.clone();
    for x in [c.to_string(), format!("{c}b"), c.to_uppercase().to_string(), c.to_lowercase().to_string()] {
        if !ls.contains(&x) {
            ls.push(x);
        }
    }
    ctx.sample(|| text.clone());
    ctx.states += set.n() as u64;
    let len = if dfa { 3 } else { 2 };
    each_word(ls.len(), len, &mut |w| {
        let v: Vec<&str> = w.iter().map(|i| ls[*i].as_str()).collect();
        let t = v.concat();
        let (x, y) = (run_strs(&set, &a, &v).is_some_and(|q| set.acc[q]), run_strs(&set, &a, &clusters(&t)).is_some_and(|q| set.acc[q]));
        let (gx, gy) = if dfa { (d.accepts(&v), d.accepts_graphemes(&t)) } else { (n.accepts(&v), n.accepts_graphemes(&t)) };
        ensure!(gx == x, "{text:?}: accepts({v:?}) is {gx}");
        ensure!(gy == y, "{text:?}: accepts_graphemes({t:?}) is {gy}");
        ctx.transitions += v.len() as u64;
        ctx.traces += 2;
        Ok(())
    })
}

pub fn p01(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for (n, k, len) in [(1, 1, 5), (1, 3, 3), (2, 1, 5), (2, 2, 5), (2, 3, 3), (3, 1, 5), (4, 1, 4)] {
        v.push(family(format!("all DFAs n={n} k={k}, words <= {len}"), dfa_len(n, k), move |i, ctx| {
            check_dfa(&dfa(n as usize, k as usize, i), len, ctx)
        }));
    }
    let len = if th { 6 } else { 3 };
    v.push(family(format!("all DFAs n=3 k=2, words <= {len}"), dfa_len(3, 2), move |i, ctx| {
        check_dfa(&dfa(3, 2, i), len, ctx)
    }));
    let c = confusable().len() as u64 * 6;
    v.push(family("DFAs n=3 k=3, two shapes, with every triple of confusable symbols and names", 2 * c * 6, move |i, ctx| {
        let mut a = dfa_base(["mod", "cycle"][(i % 2) as usize], 3, 3);
        a.alpha = confused(i / 12);
        a.names = confused(i / 2);
        check_dfa(&a, 2, ctx)
    }));
    v.push(family("deviations: N=7 k=2, one edit", dfa_dev_len(7, 2, 1), |i, ctx| {
        check_dfa(&dfa_dev(7, 2, 1, i), 3, ctx)
    }));
    v.push(family("large: N=1..=80 bases k=1..=5, no edit", 80 * 5 * DFA_BASES.len() as u64, |i, ctx| {
        let mut d = Dec(i);
        let (n, k, b) = (d.take(80) + 1, d.take(5) + 1, d.take(DFA_BASES.len() as u64));
        check_dfa(&dfa_base(DFA_BASES[b], n, k), 2, ctx)
    }));
    v.push(family("DFA bases of 8..=258 states around the powers of two, k<=2, four variants", big_dfas_len(), |i, ctx| {
        check_dfa(&big_dfas(i), 1, ctx)
    }));
    v.push(family("DFA bases of 300, 513 and 1025 states, two variants", huge_dfas_len(), |i, ctx| {
        check_dfa(&huge_dfas(i), 1, ctx)
    }));
    v.push(family("n=3 over 4..=258 symbols", WIDE * WIDTHS.len() as u64, |i, ctx| {
        let k = WIDTHS[(i / WIDE) as usize];
        check_dfa(&wide(i % WIDE, k, true), if k <= 40 { 2 } else { 1 }, ctx)
    }));
    v.push(family("long words: every length up to 40 and around powers of two up to 4096, eight patterns", LONG.len() as u64 * 8 * 4, |i, ctx| {
        let mut d = Dec(i);
        let (p, b, l) = (d.take(8), d.take(4), LONG[d.take(LONG.len() as u64)]);
        let a = dfa_base(["cycle", "mod", "twins", "chain"][b], 5, 2);
        long_words(&a, false, l, p, ctx)
    }));
    v.push(family("DFAs of expressions over every pair of 26 symbols that mostly cannot be written in a table", ODD_CASES, |i, ctx| {
        let d = odd(i)?.to_dfa();
        check_this_dfa(&d, &obs_dfa(&d)?, 3, ctx)
    }));
    v.push(family(format!("{} as a symbol", chars_name(th)), chars_len(th), move |i, ctx| {
        with_char(nth_char(th, i), true, ctx)
    }));
    v.push(family("DFAs made by every operation on two bases", MADE * 1600, |i, ctx| {
        if let Some(d) = made(i, ctx)?.0 {
            check_this_dfa(&d, &obs_dfa(&d)?, 2, ctx)?;
        }
        Ok(())
    }));
    v.push(family("wide alphabets: N=2, k=1..=300", 300, |i, ctx| {
        check_dfa(&dfa_base("mod", 2, i as usize + 1), 1, ctx)
    }));
    if th {
        v.push(family("all DFAs n=3 k=3, words <= 3", dfa_len(3, 3), |i, ctx| check_dfa(&dfa(3, 3, i), 3, ctx)));
        v.push(family("all DFAs n=4 k=2, words <= 2", dfa_len(4, 2), |i, ctx| check_dfa(&dfa(4, 2, i), 2, ctx)));
        v.push(family("deviations: N=8 k=2, two edits", dfa_dev_len(8, 2, 2), |i, ctx| {
            check_dfa(&dfa_dev(8, 2, 2, i), 2, ctx)
        }));
    }
    v
}

pub fn p02(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for (n, k, len) in [(1, 0, 2), (2, 0, 2), (3, 0, 1), (1, 1, 4), (1, 2, 4), (2, 1, 5)] {
        v.push(family(format!("all NFAs n={n} k={k} with empty moves, words <= {len}"), nfa_len(n, k, true), move |i, ctx| {
            check_nfa(&nfa(n as usize, k as usize, true, i), len, ctx)
        }));
    }
    let len = if th { 5 } else { 2 };
    v.push(family(format!("all NFAs n=2 k=2 with empty moves, words <= {len}"), nfa_len(2, 2, true), move |i, ctx| {
        check_nfa(&nfa(2, 2, true, i), len, ctx)
    }));
    v.push(family("all NFAs n=3 k=1 without empty moves, words <= 3", nfa_len(3, 1, false), |i, ctx| {
        check_nfa(&nfa(3, 1, false, i), 3, ctx)
    }));
    let c = confusable().len() as u64 * 6;
    v.push(family("NFAs n=3 k=3, two shapes, with every triple of confusable symbols and names", 2 * c * 6, move |i, ctx| {
        let mut a = nfa_base(["nth", "star"][(i % 2) as usize], 3, 3);
        a.alpha = confused(i / 12);
        a.names = confused(i / 2);
        check_nfa(&a, 2, ctx)
    }));
    for e in 0..=if th { 5 } else { 3 } {
        v.push(family(format!("NFAs n=3 k=2 with {e} edges"), nfa_edges_len(3, 2, true, e), move |i, ctx| {
            check_nfa(&nfa_edges(3, 2, true, e, i), 1, ctx)
        }));
    }
    for e in 2..=if th { 4 } else { 3 } {
        v.push(family(format!("NFAs n=4 k=1 with {e} edges"), nfa_edges_len(4, 1, true, e), move |i, ctx| {
            check_nfa(&nfa_edges(4, 1, true, e, i), 1, ctx)
        }));
    }
    for n in [5u64, 6, 7] {
        v.push(family(format!("deviations: N={n} k=2, one edit"), nfa_dev_len(n, 2, 1), move |i, ctx| {
            check_nfa(&nfa_dev(n as usize, 2, 1, i), 2, ctx)
        }));
    }
    v.push(family("large: bases N=1..=11 k=1..=3 and N=60..=70 (empty-move shapes)", (11 * 3 + 11) * NFA_BASES.len() as u64, |i, ctx| {
        let mut d = Dec(i);
        let b = NFA_BASES[d.take(NFA_BASES.len() as u64)];
        let x = d.take(44);
        if x < 33 {
            check_nfa(&nfa_base(b, x / 3 + 1, x % 3 + 1), 2, ctx)
        } else if b != "nth" {
            check_nfa(&nfa_base(b, 60 + x - 33, 1), 1, ctx)
        } else {
            Ok(())
        }
    }));
    v.push(family("NFA shapes of 8..=258 states around the powers of two, k<=2, four variants", big_nfas_len(), |i, ctx| {
        check_nfa(&big_nfas(i), 1, ctx)
    }));
    v.push(family("NFA shapes of 300, 513 and 1025 states, two variants", huge_nfas_len(), |i, ctx| {
        check_nfa(&huge_nfas(i), 1, ctx)
    }));
    v.push(family("n=3 over 4..=258 symbols", WIDE * WIDTHS.len() as u64, |i, ctx| {
        let k = WIDTHS[(i / WIDE) as usize];
        check_nfa(&wide(i % WIDE, k, false), if k <= 40 { 2 } else { 1 }, ctx)
    }));
    v.push(family("NFAs of expressions over every pair of 26 symbols that mostly cannot be written in a table", ODD_CASES, |i, ctx| {
        let d = odd(i)?;
        check_this_nfa(&d, &obs_nfa(&d)?, 3, ctx)
    }));
    v.push(family(format!("{} as a symbol", chars_name(th)), chars_len(th), move |i, ctx| {
        with_char(nth_char(th, i), false, ctx)
    }));
    v.push(family("NFAs made by every operation on two bases", MADE * 1600, |i, ctx| {
        if let Some(d) = made(i, ctx)?.1 {
            check_this_nfa(&d, &obs_nfa(&d)?, 2, ctx)?;
        }
        Ok(())
    }));
    v.push(family("long words: every length up to 40 and around powers of two up to 4096, eight patterns", LONG.len() as u64 * 8 * 4, |i, ctx| {
        let mut d = Dec(i);
        let (p, b, l) = (d.take(8), d.take(4), LONG[d.take(LONG.len() as u64)]);
        let a = nfa_base(["nth", "star", "epscycle", "ladder"][b], 5, 2);
        long_words(&a, true, l, p, ctx)
    }));
    if th {
        v.push(family("all NFAs n=3 k=1 with empty moves, words <= 2", nfa_len(3, 1, true), |i, ctx| {
            check_nfa(&nfa(3, 1, true, i), 2, ctx)
        }));
        v.push(family("deviations: N=6 k=1, two edits", nfa_dev_len(6, 1, 2), |i, ctx| {
            check_nfa(&nfa_dev(6, 1, 2, i), 1, ctx)
        }));
    }
    v
}
