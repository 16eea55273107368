//! P13 - P15: the table format
use super::*;
use crate::table::{self, Defect};
use dandy::dfa::parse::DfaParseError;
use dandy::dfa::Dfa;
use dandy::nfa::parse::NfaParseError;
use dandy::nfa::Nfa;

pub fn round_dfa(d: &Dfa, what: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    for (kind, text) in [("to_table", d.to_table()), ("ascii_table", d.ascii_table())] {
        ctx.traces += 1;
        ctx.transitions += 1;
        match parse_dfa(&text) {
            Ok(e) => {
                if e != *d {
                    fail!("{}{kind} loads as another automaton:\n{text}\noriginal:\n{}loaded:\n{}", what(), obs_dfa(d)?.show(), obs_dfa(&e)?.show());
                }
            }
            Err(e) => fail!("{}{kind} can not be loaded ({e}):\n{text}", what()),
        }
    }
    Ok(())
}

pub fn round_nfa(d: &Nfa, what: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    for (kind, text) in [("to_table", d.to_table()), ("ascii_table", d.ascii_table())] {
        ctx.traces += 1;
        ctx.transitions += 1;
        match parse_nfa(&text) {
            Ok(e) => {
                if e != *d {
                    fail!("{}{kind} loads as another automaton:\n{text}\noriginal:\n{}loaded:\n{}", what(), obs_nfa(d)?.show(), obs_nfa(&e)?.show());
                }
            }
            Err(e) => fail!("{}{kind} can not be loaded ({e}):\n{text}", what()),
        }
    }
    Ok(())
}

/// names that can be written in the format but look special, are long, wide or empty-looking
fn odd_names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let parts = ["-", ">", "*", "ε", "e", "ps", "→", "a", ","];
    for l in 1..=3usize {
        for mut i in 0..parts.len().pow(l as u32) {
            let mut s = String::new();
            for _ in 0..l {
                s.push_str(parts[i % parts.len()]);
                i /= parts.len();
            }
            if !["ε", "eps", "→", "->", "*"].contains(&s.as_str()) && !v.contains(&s) {
                v.push(s);
            }
        }
    }
    for s in [
        "q₀", "日本語", "é", "e\u{301}", "\u{301}", "👩‍👩‍👧", "🇸🇪", "\u{200b}", "\u{feff}x", "\u{0}", "\u{7f}", "|", "\\", "()", "\"", "'",
        "∅", "a|b", "(a,b)", "[]", "ﷺ", "אב", "İ", "ß", "𝔸", "none", "s_new", "0",
    ] {
        v.push(s.to_string());
    }
    for l in [2, 7, 8, 9, 63, 64, 65, 255, 256, 257, 1000] {
        v.push("x".repeat(l));
        v.push("é日".repeat(l));
    }
    v
}

fn named(v: &[String], i: u64) -> (Aut, Aut) {
    // three states, two symbols; the name in question once as a state, once as a symbol
    let mut a = dressed(0, 3, 2);
    let s = &v[(i % v.len() as u64) as usize];
    let t = &v[((i / 7 + 3) % v.len() as u64) as usize];
    let mut names = vec![s.clone()];
    for x in [t.clone(), "a".into(), "b".into(), "zz".into()] {
        if !names.contains(&x) {
            names.push(x);
        }
    }
    names.truncate(3);
    let p = perm(i, 3);
    a.names = p.iter().map(|j| names[*j].clone()).collect();
    a.alpha = perm(i / 2, 2).iter().map(|j| names[*j].clone()).collect();
    a.init = (i % 3) as usize;
    for q in 0..3 {
        a.acc[q] = (i >> q) & 1 == 0;
        for c in 0..2 {
            a.tr[q][c] = vec![(q + c + i as usize) % 3];
        }
    }
    let mut b = a.clone();
    b.tr[0][1] = vec![];
    b.tr[1][0] = vec![2, 0, 1];
    b.eps[2] = vec![1, 0];
    (a, b)
}

/// automata produced by operations
fn produced(a: &Aut, b: &Aut, ctx: &mut Ctx) -> R {
    let w = |op: &'static str| move || format!("{op} of\n{}(and\n{})\n", a.show(), b.show());
    let (x, y) = (load_nfa(a)?, load_nfa(b)?);
    round_nfa(&x, &w("nothing"), ctx)?;
    let u = x.clone().union(y.clone()).map_err(|_| Fail::new("no union".into()))?;
    round_nfa(&u, &w("union"), ctx)?;
    round_nfa(&u.clone().union(u.clone()).map_err(|_| Fail::new("no union".into()))?, &w("union with itself of the union"), ctx)?;
    if let Some(i) = u.intersection(&y) {
        round_nfa(&i, &w("union, then intersection"), ctx)?;
    }
    let mut o = u.clone();
    o.optimize();
    round_nfa(&o, &w("union, then optimize"), ctx)?;
    let mut o = x.clone();
    o.remove_epsilon_moves();
    round_nfa(&o, &w("remove_epsilon_moves"), ctx)?;
    o.remove_unreachable_states();
    round_nfa(&o, &w("remove_epsilon_moves, then trim"), ctx)?;
    if a.k() > 0 {
        let d = u.to_dfa();
        round_dfa(&d, &w("union, then to_dfa"), ctx)?;
        let mut m = d.clone();
        m.minimize();
        round_dfa(&m, &w("union, then to_dfa, then minimize"), ctx)?;
        if let Some(p) = d.symmetric_difference(&x.to_dfa()) {
            round_dfa(&p, &w("union, to_dfa, then symmetric difference"), ctx)?;
            if let Some(p) = p.intersection(&d) {
                round_dfa(&p, &w("... then intersection"), ctx)?;
            }
            round_nfa(&p.to_nfa(), &w("... then to_nfa"), ctx)?;
        }
    }
    ctx.states += 1;
    Ok(())
}

pub fn p13(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let rd: unary::DfaCheck = |a, ctx| {
        ctx.states += 1;
        ctx.sample(|| a.show());
        let d = load_dfa(a)?;
        round_dfa(&d, &|| a.show(), ctx)
    };
    let rn: unary::DfaCheck = |a, ctx| {
        ctx.states += 1;
        ctx.sample(|| a.show());
        let d = load_nfa(a)?;
        round_nfa(&d, &|| a.show(), ctx)
    };
    let mut v: Vec<Family> = unary::over_dfas(tier, rd).into_iter().filter(|f| th || f.len < 60_000).collect();
    v.extend(unary::over_nfas(tier, true, rn).into_iter().filter(|f| th || f.len < 120_000));
    let names = odd_names();
    let l = names.len() as u64;
    v.push(family("odd names and symbols: all strings of <=3 special pieces, long, wide and invisible names", l * 12, move |i, ctx| {
        let (a, b) = named(&names, i);
        ctx.sample(|| b.show());
        let d = load_dfa(&a)?;
        round_dfa(&d, &|| a.show(), ctx)?;
        let n = load_nfa(&b)?;
        round_nfa(&n, &|| b.show(), ctx)?;
        ctx.states += 2;
        let mut m = d.clone();
        m.minimize();
        round_dfa(&m, &|| "minimize\n".into(), ctx)?;
        if let Some(p) = d.union(&m) {
            round_dfa(&p, &|| "union with minimized\n".into(), ctx)?;
        }
        round_nfa(&n.clone().union(n.clone()).map_err(|_| Fail::new("no union".into()))?, &|| "union\n".into(), ctx)
    }));
    // one long name or symbol, of every length, everywhere it can stand
    let lens: Vec<usize> = (1..=130).chain([254, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 4096, 65536]).collect();
    let ll = lens.len() as u64;
    v.push(family("one name or symbol of every length up to 130 and around powers of two, in five places, four scripts", ll * 5 * 4, move |i, ctx| {
        let mut d = Dec(i);
        let (place, script, l) = (d.take(5), d.take(4), lens[d.take(ll)]);
        let long: String = match script {
            0 => "x".repeat(l),
            1 => "é".repeat(l),
            2 => "e\u{301}".repeat(l.div_ceil(2)).chars().take(l).collect(),
            _ => (0..l).map(|j| ['日', '-', '>', '*', 'ε'][j % 5]).collect(),
        };
        let mut a = dressed(0, 3, 2);
        if place < 3 {
            a.names[place] = long;
        } else {
            a.alpha[place - 3] = long;
        }
        a.init = 1;
        a.acc = vec![i % 2 == 0, true, i % 3 == 0];
        for q in 0..3 {
            for c in 0..2 {
                a.tr[q][c] = vec![(q + 2 * c) % 3];
            }
        }
        ctx.states += 2;
        let x = load_dfa(&a)?;
        round_dfa(&x, &|| a.show(), ctx)?;
        // every cell holds another list
        for q in 0..3 {
            a.tr[q][0] = vec![0, 1, 2][q..].to_vec();
            a.tr[q][1] = vec![2, 1, 0][..q].to_vec();
            a.eps[q] = if q == 1 { vec![1, 0, 2] } else { vec![] };
        }
        let y = load_nfa(&a)?;
        round_nfa(&y, &|| a.show(), ctx)?;
        let z = load_nfa(&strip_eps(a.clone()))?;
        round_nfa(&z, &|| a.show(), ctx)
    }));
    let c = chars_len(th);
    v.push(family(format!("{} as a name, as a symbol and in both", chars_name(th)), c, move |i, ctx| {
        let c = nth_char(th, i);
        if c.is_whitespace() || ['#', '{', '}', 'x'].contains(&c) {
            return Ok(());
        }
        let mut a = dressed(0, 3, 2);
        let name = |n: usize| match n {
            0 if ['*', 'ε', '→'].contains(&c) => format!("{c}{c}"),
            0 => c.to_string(),
            1 => format!("x{c}"),
            _ => format!("{c}x"),
        };
        a.names = (0..3).map(|q| name((q + i as usize) % 3)).collect();
        a.alpha = (0..2).map(|q| name((q + i as usize / 3) % 3)).collect();
        a.init = 1;
        a.acc = vec![true, true, false];
        for q in 0..3 {
            for c in 0..2 {
                a.tr[q][c] = vec![(q + 2 * c) % 3];
            }
        }
        ctx.states += 2;
        let x = load_dfa(&a)?;
        round_dfa(&x, &|| a.show(), ctx)?;
        a.tr[1][0] = vec![2, 1, 0];
        a.tr[2][1] = vec![];
        a.eps[0] = vec![1];
        let y = load_nfa(&a)?;
        round_nfa(&y, &|| a.show(), ctx)
    }));
    // targets listed in any order, repeatedly
    v.push(family("every list of <=3 targets of 3 states, with repetitions, in two cells", 40 * 40, |i, ctx| {
        let lists = |mut i: u64| -> Vec<usize> {
            let mut l = 0;
            while i >= 3u64.pow(l) {
                i -= 3u64.pow(l);
                l += 1;
            }
            (0..l).map(|j| (i / 3u64.pow(j) % 3) as usize).collect()
        };
        let mut a = dressed(i % STYLES, 3, 2);
        a.tr[0][0] = lists(i % 40);
        a.eps[1] = lists(i / 40);
        a.tr[2][1] = lists(i / 40);
        a.acc[1] = true;
        ctx.states += 1;
        let d = load_nfa(&a)?;
        round_nfa(&d, &|| a.show(), ctx)
    }));
    let (ln, lm) = (nfa_edges_len(2, 1, true, 2), nfa_edges_len(2, 1, true, 2));
    v.push(family("results of operations on pairs of NFAs n=2 k=1 with 2 edges", ln * lm, move |i, ctx| {
        let mut a = nfa_edges(2, 1, true, 2, i / lm);
        let b = binary::align(&mut a, nfa_edges(2, 1, true, 2, i % lm), 0, i);
        produced(&a, &b, ctx)
    }));
    let nb = NFA_BASES.len() as u64;
    v.push(family("results of operations on pairs of NFA bases N<=4 k<=2", nb * nb * 4 * 4 * 2, move |i, ctx| {
        let mut d = Dec(i);
        let (x, y) = (d.take(nb), d.take(nb));
        let (n, m, k) = (d.take(4) + 1, d.take(4) + 1, d.take(2) + 1);
        let mut a = nfa_base(NFA_BASES[x], n, k);
        let b = binary::align(&mut a, nfa_base(NFA_BASES[y], m, k), i, i / 3);
        produced(&a, &b, ctx)
    }));
    v.push(family("results of operations on pairs of NFAs without symbols, n<=2", nfa_len(2, 0, true) * nfa_len(2, 0, true), |i, ctx| {
        let l = nfa_len(2, 0, true);
        let mut a = nfa(2, 0, true, i / l);
        let b = binary::align(&mut a, nfa(2, 0, true, i % l), 0, i);
        produced(&a, &b, ctx)
    }));
    v.push(family("NFAs of regular expressions: all token strings of length <= 4", tokens_len(4), |i, ctx| {
        let text = token_string(i, &["a", "b", "é", "ε", "∅", "|", "*", "(", ")"]);
        let Ok(r) = parse_regex(&text) else { return Ok(()) };
        ctx.states += 1;
        let n = r.to_nfa();
        round_nfa(&n, &|| format!("regex {text:?}\n"), ctx)?;
        let mut o = n.clone();
        o.optimize();
        round_nfa(&o, &|| format!("regex {text:?} optimized\n"), ctx)?;
        let d = n.to_dfa();
        if !d.alphabet().is_empty() {
            round_dfa(&d, &|| format!("regex {text:?} to_dfa\n"), ctx)?;
        }
        Ok(())
    }));
    v
}

fn tokens_len(max: u32) -> u64 {
    (0..=max).map(|l| 9u64.pow(l)).sum()
}

/// the i-th string over a set of tokens, shorter first
pub fn token_string(mut i: u64, toks: &[&str]) -> String {
    let n = toks.len() as u64;
    let mut l = 0u32;
    while i >= n.pow(l) {
        i -= n.pow(l);
        l += 1;
    }
    (0..l).map(|j| toks[(i / n.pow(j) % n) as usize]).collect()
}

pub fn strings_len(n: u64, max: u32) -> u64 {
    (0..=max).map(|l| n.pow(l)).sum()
}

/// compares loading a text with the reference reader, both ways
fn judge_text(text: &str, ctx: &mut Ctx) -> R {
    for nfa in [false, true] {
        let want = table::read(text, nfa).filter(|t| t.defects().is_empty()).map(|t| t.automaton());
        ctx.states += 1;
        ctx.traces += 1;
        if want.is_some() {
            ctx.transitions += 1;
        }
        let got = if nfa {
            parse_nfa(text).and_then(|n| obs_nfa(&n).map_err(|e| e.msg))
        } else {
            parse_dfa(text).and_then(|d| obs_dfa(&d).map_err(|e| e.msg))
        };
        let kind = if nfa { "NFA" } else { "DFA" };
        match (want, got) {
            (None, Err(_)) => {}
            (Some(w), Ok(g)) => ensure!(
                w == g || norm(&w) == norm(&g),
                "{kind} text {text:?}\n{text}\nis loaded as\n{}instead of\n{}",
                g.show(),
                w.show()
            ),
            (None, Ok(g)) => fail!("{kind} text {text:?}\n{text}\nmust be refused, but is loaded as\n{}", g.show()),
            (Some(w), Err(e)) => fail!("{kind} text {text:?}\n{text}\nis refused ({e}), but means\n{}", w.show()),
        }
    }
    Ok(())
}

const TEXT_TOKENS: &[&str] = &[
    "a", "s", "t", "->", "→", "*", "ε", "eps", "{", "}", " ", "\t", "\n", "\r\n", "#", "#x", "  ", "é", "{}", "-", "\\",
];

/// valid texts that the edits are applied to, as tokens
fn templates() -> Vec<Vec<&'static str>> {
    vec![
        // the smallest of each kind
        vec!["a", "\n", "->", " ", "s", " ", "s"],
        vec!["a", "\n", "->", " ", "s", " ", "{", "}"],
        // two states
        vec![" ", "a", " ", "b", "\n", "->", " ", "*", " ", "s", " ", "s", " ", "t", "\n", "t", " ", "t", " ", "s", "\n"],
        vec![" ", "ε", " ", "a", "\n", "→", " ", "s", " ", "{", "t", "}", " ", "{", "}", "\n", "*", " ", "t", " ", "{", "}", " ", "{", "s", " ", "t", "}"],
        // empty moves last; comments, blank lines, CRLF
        vec!["#", "c", "\n", "a", "\t", "eps", "\r\n", " ", "\r\n", "->", " ", "s", " ", "{", " ", "s", "}", " ", "{", "t", "}", " ", "#", "{", "\r\n", "t", " ", "{", "}", " ", "{", "}", "\r\n"],
        vec!["a", " ", "#", "x", "\n", "\n", "#", "y", "\n", "t", "\t", "t", " ", "\n", "->", "  ", "*", "\t", "s", " ", "t", "#", "z", "\n", "\n", " "],
        // only empty moves
        vec!["eps", "\n", "->", " ", "s", " ", "{", "s", "}"],
    ]
}

fn edit_count(len: u64) -> u64 {
    let t = TEXT_TOKENS.len() as u64;
    // insert at len+1 places, replace or delete len, swap len-1
    (len + 1) * t + len * t + len + len
}

fn edit(v: &mut Vec<&'static str>, e: u64) {
    let t = TEXT_TOKENS.len() as u64;
    let len = v.len() as u64;
    if e < (len + 1) * t {
        v.insert((e / t) as usize, TEXT_TOKENS[(e % t) as usize]);
        return;
    }
    let e = e - (len + 1) * t;
    if e < len * t {
        v[(e / t) as usize] = TEXT_TOKENS[(e % t) as usize];
        return;
    }
    let e = e - len * t;
    if e < len {
        v.remove(e as usize);
        return;
    }
    let e = (e - len) as usize;
    if e + 1 < v.len() {
        v.swap(e, e + 1);
    }
}

/// the ways to write one and the same automaton
fn variants(i: u64, ctx: &mut Ctx) -> R {
    let mut d = Dec(i);
    let which = d.take(6);
    let (gap, eol, fin, arrow, eps) = (d.take(4), d.take(2), d.take(5), d.take(3), d.take(2));
    let (comment, blank, indent, inset) = (d.take(4), d.take(4), d.take(3), d.take(3));
    let gap = [" ", "  ", "\t", " \t "][gap];
    let eol = ["\n", "\r\n"][eol];
    let indent = ["", " ", "\t"][indent];
    let comment = ["", "#", " # -> * { } ε", "\t#a#b"][comment];
    let nfa = which >= 3;
    let mut a = match which {
        0 => dfa_base("mod", 3, 2),
        1 => dfa_base("tree", 4, 3),
        2 => dfa_base("cycle", 1, 1),
        3 => nfa_base("star", 4, 2),
        4 => nfa_base("ladder", 4, 1),
        _ => nfa_base("epscycle", 2, 0),
    };
    a.init = a.n() - 1;
    let mut lines: Vec<String> = vec![];
    // position of the column of empty moves
    let at = [0, a.k(), a.k() / 2][arrow];
    let mut cols: Vec<String> = a.alpha.clone();
    if nfa {
        cols.insert(at, ["ε", "eps"][eps].to_string());
    }
    let pad = |s: String| format!("{indent}{s}{comment}");
    lines.push(pad(cols.join(gap)));
    for q in 0..a.n() {
        let mut p: Vec<String> = vec![];
        if q == a.init {
            p.push(if arrow == 0 { "->" } else { "→" }.into());
        }
        if a.acc[q] {
            p.push("*".into());
        }
        p.push(a.names[q].clone());
        let set = |v: &Vec<usize>| -> String {
            let names: Vec<&str> = v.iter().map(|t| a.names[*t].as_str()).collect();
            let s = ["", " ", "\t "][inset];
            format!("{{{s}{}{s}}}", names.join(gap))
        };
        let mut cells: Vec<String> = a.tr[q].iter().map(|v| if nfa { set(v) } else { a.names[v[0]].clone() }).collect();
        if nfa {
            cells.insert(at, set(&a.eps[q]));
        }
        p.extend(cells);
        lines.push(pad(p.join(gap)));
    }
    let blank_line = match blank {
        0 => None,
        1 => Some(String::new()),
        2 => Some(" \t".to_string()),
        _ => Some(" # comment".to_string()),
    };
    if let Some(b) = blank_line {
        // before, between and after the lines
        let mut v = vec![b.clone()];
        for l in lines {
            v.push(l);
            v.push(b.clone());
            v.push(b.clone());
        }
        lines = v;
    }
    let mut text = lines.join(eol);
    text.push_str(["", eol, &eol.repeat(3), " ", "#end"][fin]);
    ctx.sample(|| text.clone());
    // 'fin' may turn the last line's comment into a longer one, which is fine
    let got = if nfa {
        parse_nfa(&text).and_then(|n| obs_nfa(&n).map_err(|e| e.msg))
    } else {
        parse_dfa(&text).and_then(|d| obs_dfa(&d).map_err(|e| e.msg))
    };
    ctx.states += 1;
    ctx.transitions += 1;
    ctx.traces += 1;
    match got {
        Ok(g) => ensure!(norm(&g) == norm(&a), "{text:?}\n{text}\nis loaded as\n{}instead of\n{}", g.show(), a.show()),
        Err(e) => fail!("{text:?}\n{text}\nis refused ({e}), but means\n{}", a.show()),
    }
    judge_text(&text, ctx)
}

/// places for a character: as a name and inside one, for blanks, in a comment, at either end of a line
const CHAR_TEXTS: [&str; 18] = [
    "@\n-> s s",
    "a@b\n-> s s",
    "@a\n-> s s",
    "a@\n-> s s",
    "a@b\n-> s s s",
    "a\n-> @ @",
    "a\n-> x@y x@y",
    "a\n->@s s",
    "a\n@-> s s",
    "a\n-> *@s s",
    "a\n-> s s@",
    "a\n@\n-> s s\n",
    "a\n-> s s\n@",
    "a #x@y\n-> s s",
    "a\n-> s {s@s}",
    "ε a\n-> s {s}@{s}",
    "a\n-> s {@s@}#",
    "a\n-> @ {@ @}",
];
/// places for a short word
const WORD_TEXTS: [&str; 6] = ["@\n-> s s", "a@b\n-> s s", "a\n-> @ @", "a\n-> s {@}", "a\n-> s s@", "a\n@ s s"];

/// strings over the ASCII characters without CR and NUL
fn ascii_word(mut i: u64) -> String {
    let mut l = 0;
    while i >= 126u64.pow(l) {
        i -= 126u64.pow(l);
        l += 1;
    }
    (0..l)
        .map(|j| {
            let c = (i / 126u64.pow(j) % 126) as u8 + 1;
            (if c >= 13 { c + 1 } else { c }) as char
        })
        .collect()
}

pub fn p14(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for (ti, t) in templates().into_iter().enumerate() {
        let n1 = edit_count(t.len() as u64);
        let t1 = t.clone();
        v.push(family(format!("text {ti} ({} tokens) with single token edits", t.len()), n1 + 1, move |i, ctx| {
            let mut t = t1.clone();
            if i > 0 {
                edit(&mut t, i - 1);
            }
            ctx.sample(|| t.concat());
            judge_text(&t.concat(), ctx)
        }));
        // pairs of edits: the second one on any place of the edited text
        let n2 = edit_count(t.len() as u64 + 1);
        if th || t.len() < 40 {
            v.push(family(format!("text {ti} ({} tokens) with all pairs of token edits", t.len()), n1 * n2, move |i, ctx| {
                let mut u = t.clone();
                edit(&mut u, i % n1);
                let e = i / n1;
                if e < edit_count(u.len() as u64) {
                    edit(&mut u, e);
                }
                judge_text(&u.concat(), ctx)
            }));
        } else {
            // pairs of edits at most three tokens apart
            v.push(family(format!("text {ti} ({} tokens): every window of 2 tokens replaced by every 2 tokens", t.len()), (t.len() as u64 - 1) * 21 * 21, move |i, ctx| {
                let mut u = t.clone();
                let p = (i / 441) as usize;
                u[p] = TEXT_TOKENS[(i % 21) as usize];
                u[p + 1] = TEXT_TOKENS[(i / 21 % 21) as usize];
                judge_text(&u.concat(), ctx)
            }));
        }
    }
    let toks: &[&str] = &["a", "s", "->", "*", "ε", "{", "}", " ", "\n", "#"];
    let l = if th { 7 } else { 6 };
    for (name, pre, post) in [
        ("whole text", "", ""),
        ("head line", "", "\n-> s s"),
        ("head line of an NFA", "", "\n-> s {} {s}"),
        ("row", "a\n", ""),
        ("second row", "a\n-> s t\n", ""),
        ("second row of an NFA", "ε\n-> s {t}\n", ""),
        ("end of text", "a\n-> s s", ""),
        ("inside a set", "a\n-> s {", "}"),
        ("between sets", "ε a\n-> s {}", "{s}"),
    ] {
        v.push(family(format!("{name}: all strings of <= {l} of 10 tokens"), strings_len(10, l), move |i, ctx| {
            let text = format!("{pre}{}{post}", token_string(i, toks));
            ctx.sample(|| text.clone());
            judge_text(&text, ctx)
        }));
    }
    let l2 = if th { 5 } else { 4 };
    v.push(family(format!("row after '-> ': all strings of <= {l2} of {} tokens", TEXT_TOKENS.len()), strings_len(21, l2), |i, ctx| {
        judge_text(&format!("a\n-> s {}", token_string(i, TEXT_TOKENS)), ctx)
    }));
    let lens: Vec<usize> = (0..=40).chain(SIZES.into_iter().filter(|x| *x > 40)).chain([1000, 4096, 65536]).collect();
    let ll = lens.len() as u64;
    let (ts, most) = (templates(), 40u64);
    v.push(family("one token of a text stretched to every length up to 40 and around powers of two", ll * ts.len() as u64 * most * 3, move |i, ctx| {
        let mut d = Dec(i);
        let (what, t, p, l) = (d.take(3), d.take(ts.len() as u64), d.take(most), lens[d.take(ll)]);
        let mut t = ts[t].clone();
        if p >= t.len() {
            return Ok(());
        }
        let old = t[p];
        let new = match (what, old) {
            // more of the same
            (0, _) => old.repeat(l),
            // a long comment, if the line ends here
            (1, "\n" | "\r\n") => format!("#{}{old}", "x# ".repeat(l)),
            // blank lines and comments
            (2, "\n" | "\r\n") => format!("{old}{}", ["\n", " \t\r\n", "#\n"][i as usize % 3].repeat(l)),
            (1, " " | "\t") => " \t".repeat(l),
            (2, " " | "\t") => format!("{}\n", " ".repeat(l)),
            _ => return Ok(()),
        };
        t[p] = &new;
        let text = t.concat();
        judge_text(&text, ctx)
    }));
    const ROWS: [usize; 6] = [1, 2, 3, 300, 513, 1025];
    const CELLS: [usize; 6] = [0, 1, 2, 3, 300, 1025];
    v.push(family("tables of up to 1025 rows of up to 1025 cells of up to 1025 names, seven faults or none", 6 * 6 * 6 * 8 * 2, |i, ctx| {
        let mut d = Dec(i);
        let (n, k, m, fault, nfa) = (ROWS[d.take(6)], CELLS[d.take(6)], CELLS[d.take(6)], d.take(8), d.take(2) == 1);
        if n * k * m.max(1) > 110_000 || !nfa && m != 1 {
            return Ok(());
        }
        let head: Vec<String> = (0..k).map(|c| format!("c{c}")).collect();
        let mut rows: Vec<Vec<String>> = vec![head];
        for q in 0..n {
            let cell = |c: usize| {
                let names: Vec<String> = (0..m).map(|j| format!("q{}", (q + c + j) % n)).collect();
                if nfa { format!("{{{}}}", names.join(" ")) } else { names.concat() }
            };
            let mut row: Vec<String> = (0..k).map(cell).collect();
            row.insert(0, format!("q{q}"));
            if q == n / 2 {
                row.insert(0, "->".into());
            }
            rows.push(row);
        }
        let last = rows[n].len() - 1;
        match fault {
            1 => {
                rows[n].pop();
            }
            2 => rows[n].push("{".into()),
            3 => rows[n / 2 + 1].insert(1, "}".into()),
            4 => rows[n][last].push('{'),
            5 => rows[n].push("# -> {".into()),
            6 => rows[0].push("->".into()),
            7 => rows.insert(n, vec!["# the last".into()]),
            _ => {}
        }
        let lines: Vec<String> = rows.iter().map(|r| r.join(" ")).collect();
        judge_text(&lines.join("\n"), ctx)
    }));
    let c = chars_len(th);
    let m = CHAR_TEXTS.len() as u64;
    v.push(family(format!("{} in {m} places of a text", chars_name(th)), c * m, move |i, ctx| {
        let c = nth_char(th, i / m);
        let t = CHAR_TEXTS[(i % m) as usize];
        if c == '\r' && t.contains('#') {
            return Ok(());
        }
        let text = put(t, c);
        ctx.sample(|| text.clone());
        judge_text(&text, ctx)
    }));
    let (w, m) = (if th { 3 } else { 2 }, WORD_TEXTS.len() as u64);
    v.push(family(format!("all words of <= {w} ASCII characters in {m} places of a text"), strings_len(126, w) * m, move |i, ctx| {
        let word: String = ascii_word(i / m);
        let text = WORD_TEXTS[(i % m) as usize].replace('@', &word);
        judge_text(&text, ctx)
    }));
    v.push(family("ways to write an automaton", 6 * 4 * 2 * 5 * 3 * 2 * 4 * 4 * 3 * 3, variants));
    v
}

fn dfa_error(e: &DfaParseError) -> Defect {
    match e {
        DfaParseError::WrongNumberOfTransitions(s, a, b) => Defect::WrongNumber(s.to_string(), *a, *b),
        DfaParseError::TransitionDoesNotExist(a, b) => Defect::Missing(a.to_string(), b.to_string()),
        DfaParseError::MissingInitialState => Defect::NoInitial,
        DfaParseError::MultipleInitialStates => Defect::ManyInitial,
        DfaParseError::DuplicateAlphabetSymbol(s) => Defect::TwiceInAlphabet(s.to_string()),
        DfaParseError::DuplicateStateDefinition(s) => Defect::TwiceDefined(s.to_string()),
    }
}
fn nfa_error(e: &NfaParseError) -> Defect {
    match e {
        NfaParseError::WrongNumberOfTransitions(s, a, b) => Defect::WrongNumber(s.to_string(), *a, *b),
        NfaParseError::TransitionDoesNotExist(a, b) => Defect::Missing(a.to_string(), b.to_string()),
        NfaParseError::MissingInitialState => Defect::NoInitial,
        NfaParseError::MultipleInitialStates => Defect::ManyInitial,
        NfaParseError::DuplicateAlphabetSymbol(s) => Defect::TwiceInAlphabet(s.to_string()),
        NfaParseError::DuplicateStateDefinition(s) => Defect::TwiceDefined(s.to_string()),
    }
}

/// a well-formed text: loads exactly when consistent, and the reason given is one of the defects it has
fn judge_table(text: &str, nfa: bool, ctx: &mut Ctx) -> R {
    let Some(t) = table::read(text, nfa) else { fail!("harness: {text:?} is not well-formed") };
    let defects = t.defects();
    ctx.states += 1;
    ctx.traces += 1;
    ctx.transitions += defects.len() as u64;
    let shown = |d: &Defect, s: String| -> R {
        let has = |x: &str| s.contains(x);
        let ok = match d {
            Defect::WrongNumber(q, a, b) => has(q) && has(&a.to_string()) && has(&b.to_string()),
            Defect::Missing(a, b) => has(a) && has(b),
            Defect::NoInitial | Defect::ManyInitial => has("initial"),
            Defect::TwiceInAlphabet(x) | Defect::TwiceDefined(x) => has(x),
        };
        ensure!(ok, "{text}\nthe message {s:?} does not tell {d:?}");
        Ok(())
    };
    let (got, message) = if nfa {
        match dandy::parser::nfa(text) {
            Err(e) => fail!("{text}\nis well-formed, but refused as malformed: {e:?}"),
            Ok(p) => match Nfa::try_from(p) {
                Ok(n) => (Ok(obs_nfa(&n)?), String::new()),
                Err(e) => (Err(nfa_error(&e)), e.to_string()),
            },
        }
    } else {
        match dandy::parser::dfa(text) {
            Err(e) => fail!("{text}\nis well-formed, but refused as malformed: {e:?}"),
            Ok(p) => match Dfa::try_from(p) {
                Ok(n) => (Ok(obs_dfa(&n)?), String::new()),
                Err(e) => (Err(dfa_error(&e)), e.to_string()),
            },
        }
    };
    match got {
        Ok(a) => {
            ensure!(defects.is_empty(), "{text}\nis loaded although {defects:?}:\n{}", a.show());
            ensure!(norm(&a) == norm(&t.automaton()), "{text}\nis loaded as\n{}", a.show());
        }
        Err(d) => {
            ensure!(!defects.is_empty(), "{text}\nis consistent, but refused: {d:?}");
            ensure!(defects.contains(&d), "{text}\nis refused because of {d:?}, but its defects are {defects:?}");
            shown(&d, message)?;
        }
    }
    Ok(())
}

/// the i-th list of 1..=max items out of n
fn list(mut i: u64, n: u64, max: u32) -> Vec<u64> {
    let mut l = 1;
    while l < max && i >= n.pow(l) {
        i -= n.pow(l);
        l += 1;
    }
    (0..l).map(|j| i / n.pow(j) % n).collect()
}
fn lists(n: u64, max: u32) -> u64 {
    (1..=max).map(|l| n.pow(l)).sum()
}

fn dfa_rows(i: u64, heads: u64, rows: usize, names: &[&str], marks: u64, targets: &[&str], maxlen: u32) -> String {
    let mut d = Dec(i);
    let h = list(d.take(heads) as u64, 3, 3);
    let mut s: String = h.iter().map(|x| format!(" {}", ["a", "b", "c'"][*x as usize])).collect();
    s.push('\n');
    for _ in 0..rows {
        let m = d.take(marks);
        let name = names[d.take(names.len() as u64)];
        if m & 1 == 1 {
            s.push_str("-> ");
        }
        if m & 2 == 2 {
            s.push_str("* ");
        }
        s.push_str(name);
        for t in list(d.take(lists(targets.len() as u64, maxlen)) as u64, targets.len() as u64, maxlen) {
            s.push(' ');
            s.push_str(targets[t as usize]);
        }
        s.push('\n');
    }
    s
}

fn nfa_rows(i: u64, heads: u64, rows: usize, names: &[&str], targets: &[&str], maxlen: u32) -> String {
    let mut d = Dec(i);
    let h = list(d.take(heads) as u64, 3, 3);
    let mut s: String = h.iter().map(|x| format!(" {}", ["a", "eps", "b"][*x as usize])).collect();
    s.push('\n');
    for _ in 0..rows {
        let m = d.take(2);
        let name = names[d.take(names.len() as u64)];
        if m & 1 == 1 {
            s.push_str("-> ");
        }
        s.push_str(name);
        for t in list(d.take(lists(targets.len() as u64, maxlen)) as u64, targets.len() as u64, maxlen) {
            s.push_str(" {");
            s.push_str(targets[t as usize]);
            s.push('}');
        }
        s.push('\n');
    }
    s
}

pub fn p15(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut dfa_space = |heads: u64, rows: usize, names: &'static [&'static str], marks: u64, targets: &'static [&'static str], maxlen: u32| {
        let per = marks * names.len() as u64 * lists(targets.len() as u64, maxlen);
        v.push(family(
            format!("DFA tables: {heads} heads, {rows} rows named {names:?}, <= {maxlen} entries of {targets:?}, {marks} marks"),
            heads * per.pow(rows as u32),
            move |i, ctx| {
                let text = dfa_rows(i, heads, rows, names, marks, targets, maxlen);
                ctx.sample(|| text.clone());
                judge_table(&text, false, ctx)
            },
        ));
    };
    dfa_space(39, 1, &["s", "t"], 4, &["s", "t", "u"], 4);
    dfa_space(12, 2, &["s", "t"], 2, &["s", "t", "u"], 3);
    dfa_space(39, 2, &["s", "t"], 4, &["s", "u"], 2);
    dfa_space(if th { 12 } else { 3 }, 3, &["s", "t", "u"], 2, &["s", "t", "v"], if th { 2 } else { 1 });
    dfa_space(12, 3, &["s", "t"], 2, &["s", "u"], 2);
    if th {
        dfa_space(39, 2, &["s", "t"], 2, &["s", "t", "u"], 4);
        dfa_space(3, 4, &["s", "t", "u"], 2, &["s", "v"], 2);
    } else {
        dfa_space(3, 4, &["s", "t", "u"], 2, &["s", "v"], 1);
    }
    let mut nfa_space = |heads: u64, rows: usize, names: &'static [&'static str], targets: &'static [&'static str], maxlen: u32| {
        let per = 2 * names.len() as u64 * lists(targets.len() as u64, maxlen);
        v.push(family(
            format!("NFA tables: {heads} heads (empty moves anywhere), {rows} rows named {names:?}, <= {maxlen} entries of {targets:?}"),
            heads * per.pow(rows as u32),
            move |i, ctx| {
                let text = nfa_rows(i, heads, rows, names, targets, maxlen);
                ctx.sample(|| text.clone());
                judge_table(&text, true, ctx)
            },
        ));
    };
    nfa_space(39, 1, &["s", "t"], &["", "s", "t", "s t", "s u"], 4);
    nfa_space(12, 2, &["s", "t"], &["", "s", "u", "t s"], if th { 3 } else { 2 });
    nfa_space(39, 2, &["s", "t"], &["", "u s"], 3);
    nfa_space(if th { 12 } else { 3 }, 3, &["s", "t"], &["", "s", "t u"], if th { 2 } else { 1 });
    nfa_space(12, 3, &["s", "t"], &["", "u"], 2);
    // bigger tables with one or two inconsistencies anywhere
    for (n, k) in if th { vec![(3u64, 2u64), (5, 2), (6, 3)] } else { vec![(3, 2), (4, 2)] } {
        let kinds = n * k * 2 + n * 5 + k;
        v.push(family(format!("tables N={n} k={k} with all pairs of inconsistencies"), 2 * kinds * kinds, move |i, ctx| {
            let nfa = i % 2 == 1;
            let mut head: Vec<String> = (0..k).map(|c| format!("x{c}")).collect();
            if nfa {
                head[0] = "eps".into();
            }
            // (init, acc, name, cells)
            let mut rows: Vec<(bool, bool, String, Vec<String>)> = (0..n)
                .map(|q| (q == 1, q == 2, format!("q{q}"), (0..k).map(|c| format!("q{}", (q + c) % n)).collect()))
                .collect();
            for e in [(i / 2) % kinds, i / 2 / kinds] {
                if e < n * k * 2 {
                    let (q, c) = ((e / 2 / k) as usize, (e / 2 % k) as usize);
                    // an undefined target, or a missing entry
                    if e % 2 == 0 && c < rows[q].3.len() {
                        rows[q].3[c] = format!("nowhere{q}");
                    } else if c < rows[q].3.len() && rows[q].3.len() > 1 {
                        rows[q].3.remove(c);
                    }
                } else if e < n * k * 2 + n * 5 {
                    let e = e - n * k * 2;
                    let q = (e / 5) as usize;
                    match e % 5 {
                        0 => rows[q].3.push("q0".into()),
                        1 => rows[q].2 = "q0".into(),
                        2 => rows[q].2 = format!("other{q}"),
                        3 => rows[q].0 = !rows[q].0,
                        _ => rows[q].1 = !rows[q].1,
                    }
                } else {
                    let c = (e - n * k * 2 - n * 5) as usize;
                    head[c] = head[(c + 1) % k as usize].clone();
                }
            }
            let mut text = format!("{}\n", head.join(" "));
            for (init, acc, name, cells) in rows {
                text.push_str(if init { "-> " } else { "" });
                text.push_str(if acc { "* " } else { "" });
                text.push_str(&name);
                for c in cells {
                    text.push_str(&if nfa { format!(" {{{c}}}") } else { format!(" {c}") });
                }
                text.push('\n');
            }
            ctx.sample(|| text.clone());
            judge_table(&text, nfa, ctx)
        }));
    }
    // names and symbols that are easily confused are still different
    let c = confusable().len() as u64 * 6;
    v.push(family("tables with every triple of confusable names and symbols, six kinds of inconsistencies", c * 2 * 7 * 7, move |i, ctx| {
        let mut d = Dec(i);
        let (nfa, kind, other) = (d.take(2) == 1, d.take(7), d.take(7));
        let names = confused(d.0);
        let (x, y, z) = (&names[0], &names[1], &names[2]);
        let set = |v: &[&String]| {
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            if nfa { format!("{{{}}}", v.join(" ")) } else { v[0].to_string() }
        };
        let mut head = vec![x.clone(), y.clone(), z.clone()];
        let mut rows = vec![(false, x, vec![y, z, x]), (true, y, vec![x, y, z]), (false, z, vec![z, x, y])];
        for k in [kind, other] {
            match k {
                0 => {}
                1 => head[2] = x.clone(),
                2 => head[1] = z.clone(),
                3 => rows.last_mut().unwrap().1 = x,
                4 => rows[1].1 = z,
                // the name left out is still a target
                5 => {
                    rows.truncate(2);
                }
                _ => {
                    rows[0].0 = true;
                }
            }
        }
        let mut text = head.join(" ");
        for (init, name, cells) in rows {
            let cells: Vec<String> = cells.iter().enumerate().map(|(j, c)| set(&[c, [x, y, z][j]])).collect();
            text.push_str(&format!("\n{}{name} {}", if init { "-> " } else { "" }, cells.join(" ")));
        }
        ctx.sample(|| text.clone());
        judge_table(&text, nfa, ctx)
    }));
    // one inconsistency in a table of any size
    let l = SIZES.len() as u64;
    v.push(family("tables of 8..=258 states around the powers of two, one inconsistency in five places", l * 2 * 9 * 5, move |i, ctx| {
        let mut d = Dec(i);
        let (nfa, kind, at, n) = (d.take(2) == 1, d.take(9), d.take(5), SIZES[d.take(l)]);
        let at = [0, 1, n / 2, n - 2, n - 1][at];
        let set = |s: String| if nfa { format!("{{{s}}}") } else { s };
        let mut text = String::from("a b\n");
        for q in 0..n {
            let hit = q == at;
            if (q == n / 2) != (hit && kind == 1) || hit && kind == 2 {
                text.push_str("-> ");
            }
            text.push_str(&match kind {
                3 if hit => "q0".to_string(),
                4 if hit => format!("q{}", n - 1),
                5 if hit => "other".to_string(),
                _ => format!("q{q}"),
            });
            text.push_str(&format!(" {}", set(format!("q{}", (q + 1) % n))));
            if !(hit && kind == 6) {
                text.push_str(&format!(" {}", set(if hit && kind == 7 { format!("q{n}") } else { format!("q{}", q / 2) })));
            }
            if hit && kind == 8 {
                text.push_str(&format!(" {}", set("q1".into())));
            }
            text.push('\n');
        }
        ctx.sample(|| text.clone());
        judge_table(&text, nfa, ctx)
    }));
    let l = WIDTHS.len() as u64;
    v.push(family("tables over 4..=258 symbols, one inconsistency in five places", l * 2 * 7 * 5 * 5, move |i, ctx| {
        let mut d = Dec(i);
        let (nfa, kind, x, y, k) = (d.take(2) == 1, d.take(7), d.take(5), d.take(5), WIDTHS[d.take(l)]);
        let place = |x: usize| [0, 1, k / 2, k - 2, k - 1][x];
        let (x, y) = (place(x), place(y));
        let mut head: Vec<String> = (0..k).map(|c| format!("x{c}")).collect();
        let mut rows: Vec<Vec<String>> = (0..2).map(|q| (0..k).map(|c| format!("q{}", (q + c) % 2)).collect()).collect();
        match kind {
            0 => {}
            // twice in the alphabet, unless x = y
            1 => head[x] = head[y].clone(),
            2 => rows[1][x] = "nowhere".into(),
            3 => {
                rows[0].remove(x);
            }
            4 => rows[1].insert(y, "q1".into()),
            5 => {
                rows[0] = rows[0][..x + 1].to_vec();
            }
            _ => {
                let more: Vec<String> = rows[1][..x + 1].to_vec();
                rows[1].extend(more);
            }
        }
        if nfa && kind != 1 {
            head[y] = "eps".into();
        }
        let mut text = format!("{}\n", head.join(" "));
        for (q, r) in rows.iter().enumerate() {
            let cells: Vec<String> = r.iter().map(|c| if nfa { format!("{{{c}}}") } else { c.clone() }).collect();
            text.push_str(&format!("{}q{q} {}\n", if q == 0 { "-> " } else { "" }, cells.join(" ")));
        }
        ctx.sample(|| text.clone());
        judge_table(&text, nfa, ctx)
    }));
    v
}
