//! P16, P17: regular expressions
use super::text::{strings_len, token_string};
use super::*;
use crate::rx::{self, Rx};

/// the automaton of a text against what the expression denotes
fn denotes(text: &str, e: &Rx, ctx: &mut Ctx) -> R {
    let want = rx::automaton(e);
    ctx.sample(|| text.to_string());
    let r = match parse_regex(text) {
        Ok(r) => r,
        Err(err) => fail!("{text:?} is refused ({err}), but follows the grammar: {e:?}"),
    };
    let n = r.to_nfa();
    let o = obs_nfa(&n).map_err(|x| Fail::new(format!("{text:?}: {}", x.msg)))?;
    ensure!(
        o.alpha == want.alpha,
        "{text:?}: alphabet {:?} instead of {:?}",
        o.alpha,
        want.alpha
    );
    same_language(ctx, &format!("{text:?} read as {e:?}"), &want.alpha, &[&want.det()], &o, |v| v[0])
}

fn judge(text: &str, ctx: &mut Ctx) -> R {
    match rx::read(text) {
        Some(e) => denotes(text, &e, ctx),
        None => {
            ctx.states += 1;
            ctx.traces += 1;
            ensure!(parse_regex(text).is_err(), "{text:?} is accepted, but does not follow the grammar");
            Ok(())
        }
    }
}

/// the printed form of a loadable text against the text
fn reprint(text: &str, ctx: &mut Ctx) -> R {
    let Ok(r) = parse_regex(text) else { return Ok(()) };
    let s = r.to_string();
    ctx.sample(|| format!("{text:?} printed as {s:?}"));
    ctx.traces += 1;
    let fail = |m: String| Err(Fail { key: Some(text.to_string()), msg: m });
    let r2 = match parse_regex(&s) {
        Ok(r) => r,
        Err(e) => return fail(format!("{text:?} is printed as {s:?}, which is refused ({e})")),
    };
    let (a, b) = (rx::automaton(&rx::of_tree(&r.tree)), rx::automaton(&rx::of_tree(&r2.tree)));
    let Some(db) = b.det_as(&a.alpha) else {
        return fail(format!("{text:?} is printed as {s:?}, with symbols {:?} instead of {:?}", b.alpha, a.alpha));
    };
    let d = check_all(&[&a.det(), &db], |v| v[0] == v[1]);
    ctx.states += d.states;
    ctx.transitions += d.transitions;
    if let Some(w) = d.word {
        return fail(format!(
            "{text:?} is printed as {s:?}, which differs on {}",
            word_str(&a.alpha, &w)
        ));
    }
    Ok(())
}

const OPERATORS: &[&str] = &["a", "b", "|", "*", "(", ")", "ε", "∅", "+", "\\"];
/// combining, joining and prepending characters next to operators
const CLUSTERS: &[&str] = &[
    "a", "\u{301}", "🇸", "🇪", "\u{200d}", "👩", "|", "*", "\\", "(", ")", "ε", " ", "\u{600}", "é", "\r", "\n", "+", "∅",
];
const SPACES: &[&str] = &["a", " ", "\t", "\n", "\u{a0}", "|", "(", ")", "\\", "*", "\u{301}"];
/// characters that are white space, and some that are not but may seem so
const MORE_SPACES: &[&str] = &[
    "a", "|", "(", ")", "*", "\\", " ", "\u{feff}", "\u{200b}", "\u{200c}", "\u{200e}", "\u{2060}", "\u{85}", "\u{3000}", "\u{b}",
    "\u{c}", "\u{1c}", "\u{1f}", "\0", "\u{7f}", "\u{1680}", "\u{180e}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{ad}", "\u{2800}",
    "\r", "\n",
];
/// precomposed and decomposed, upper and lower case, ligatures and their letters
const ALIKE: &[&str] = &["e", "\u{301}", "é", "E", "Å", "\u{212b}", "ﬁ", "*", "|"];

fn text_spaces(tier: Tier) -> Vec<(String, &'static [&'static str], u32)> {
    let th = tier == Tier::Thorough;
    vec![
        ("operators".into(), OPERATORS, if th { 8 } else { 7 }),
        ("grouping".into(), &OPERATORS[..6], if th { 9 } else { 8 }),
        ("clusters".into(), CLUSTERS, if th { 5 } else { 4 }),
        ("whitespace".into(), SPACES, if th { 6 } else { 5 }),
        ("more whitespace".into(), MORE_SPACES, if th { 4 } else { 3 }),
        ("what other dialects use".into(), DIALECTS, if th { 5 } else { 4 }),
        ("letters that look alike".into(), ALIKE, if th { 6 } else { 5 }),
    ]
}

/// what other dialects give a meaning to
const DIALECTS: &[&str] = &["a", "b", "?", "{", "}", "2", ",", "[", "]", "^", "-", "$", ".", "\\", "d", "n", "x", "*", "(", ")", "|", ":", "+"];
/// places for a character: alone, escaped, repeated, grouped, beside another, at the ends
const CHAR_TEXTS: [&str; 14] = [
    "@", "\\@", "@*", "\\@+", "a@b", "a\\@b", "(@|a)*", "(a|\\@b)+", "@@", " @ ", "\\@a|@", "a@*|b", "\\\\@", "(@)\\@",
];
const ASCII: &str = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\t\n\r";

/// valid texts with single and double character edits
const TEXTS: &[&str] = &[
    "(ab|c)*d+",
    "0*1(0|ε)",
    "((a|b)(c|∅))+|\\*\\(",
    " a b | c ",
    "(a*b*)*(ba)+|ε",
    "(((a)))",
    "aé\\ε\\∅🇸🇪|(\\|)*",
];

fn over_texts(tier: Tier, f: fn(&str, &mut Ctx) -> R) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for (name, toks, l) in text_spaces(tier) {
        v.push(family(
            format!("{name}: all strings of <= {l} of {} tokens", toks.len()),
            strings_len(toks.len() as u64, l),
            move |i, ctx| f(&token_string(i, toks), ctx),
        ));
    }
    let (c, m) = (chars_len(th), CHAR_TEXTS.len() as u64);
    v.push(family(format!("{} in {m} places of an expression", chars_name(th)), c * m, move |i, ctx| {
        f(&put(CHAR_TEXTS[(i % m) as usize], nth_char(th, i / m)), ctx)
    }));
    v.push(family("all strings of <= 3 of the 98 printable and blank ASCII characters", strings_len(98, 3), move |i, ctx| {
        let t: Vec<String> = ASCII.chars().map(String::from).collect();
        let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        f(&token_string(i, &t), ctx)
    }));
    let ins = ["a", "(", ")", "|", "*", "+", "\\", "ε", "∅", " ", "c", "\u{301}"];
    for (ti, t) in TEXTS.iter().enumerate() {
        let toks: Vec<String> = t.chars().map(|c| c.to_string()).collect();
        let m = ins.len() as u64;
        let one = move |len: u64| (len + 1) * m + len * m + len;
        let apply = move |v: &mut Vec<String>, e: u64| {
            let len = v.len() as u64;
            if e < (len + 1) * m {
                v.insert((e / m) as usize, ins[(e % m) as usize].to_string());
            } else if e < (len + 1) * m + len * m {
                let e = e - (len + 1) * m;
                v[(e / m) as usize] = ins[(e % m) as usize].to_string();
            } else if e < one(len) {
                v.remove((e - (len + 1) * m - len * m) as usize);
            }
        };
        let len = toks.len() as u64;
        let (n1, n2) = (one(len), one(len + 1));
        let n2 = if th || len < 12 { n2 } else { 1 };
        v.push(family(
            format!("text {ti} with {} character edits", if n2 > 1 { "all pairs of" } else { "single" }),
            n1 * n2,
            move |i, ctx| {
                let mut v = toks.clone();
                apply(&mut v, i % n1);
                if n2 > 1 {
                    apply(&mut v, i / n1);
                }
                f(&v.concat(), ctx)
            },
        ));
    }
    v
}

fn leaves() -> Vec<Rx> {
    vec![Rx::Sym("a".into()), Rx::Sym("b".into()), Rx::Eps, Rx::Empty]
}

/// deep and wide expressions, generated along one dimension
fn deep(i: u64) -> (String, Rx) {
    let n = (i / 8) as usize + 1;
    let a = || Rx::Sym("a".into());
    let b = || Rx::Sym("b".into());
    let bx = Box::new;
    match i % 8 {
        0 => (format!("{}a{}", "(".repeat(n), ")".repeat(n)), a()),
        1 => (format!("{}a{}", "(".repeat(n), ")*".repeat(n)), Rx::Star(bx(a()))),
        2 => ("ab".repeat(n), (1..n).fold(Rx::Seq(bx(a()), bx(b())), |e, _| Rx::Seq(bx(Rx::Seq(bx(e), bx(a()))), bx(b())))),
        3 => {
            let t = vec!["aa"; n].join("|");
            (t, Rx::Seq(bx(a()), bx(a())))
        }
        // distinct symbols in order
        4 => {
            let syms: Vec<String> = (0..n).map(|j| char::from_u32(0x4e00 + (j * 37 % n) as u32).unwrap().to_string()).collect();
            let mut it = syms.iter().map(|s| Rx::Sym(s.clone()));
            let f = it.next().unwrap();
            (syms.join("|"), it.fold(f, |e, s| Rx::Alt(bx(e), bx(s))))
        }
        // all words of length at most n
        5 => ("(a|b|ε)".repeat(n), {
            let e = || Rx::Alt(bx(Rx::Alt(bx(a()), bx(b()))), bx(Rx::Eps));
            (1..n).fold(e(), |x, _| Rx::Seq(bx(x), bx(e())))
        }),
        6 => (format!("{}b{}", "(a".repeat(n), "|ε)".repeat(n)), (0..n).fold(b(), |e, _| Rx::Alt(bx(Rx::Seq(bx(a()), bx(e))), bx(Rx::Eps)))),
        _ => (format!("{}b{}", "(a".repeat(n), ")+".repeat(n)), (0..n).fold(b(), |e, _| Rx::Plus(bx(Rx::Seq(bx(a()), bx(e)))))),
    }
}

const LONG_TAILS: [&str; 8] = ["(b|ε)c*", "|b", "|ε", "∅|a", "*", "b+", "\\|(a|b)", "(\\ε|b)*"];

fn long_text(i: u64) -> String {
    let l = LONG_TAILS.len() as u64;
    let n = (i / l) as usize + 1;
    let run: String = match n % 3 {
        0 => "a".repeat(n),
        1 => "ab".repeat(n.div_ceil(2)).chars().take(n).collect(),
        _ => "é".repeat(n),
    };
    format!("{run}{}", LONG_TAILS[(i % l) as usize])
}

/// an expression given as a tree
fn hand_built(t: dandy::regex::RegexTree, ctx: &mut Ctx) -> R {
    let want = rx::automaton(&rx::of_tree(&t));
    ctx.sample(|| format!("{t:?}"));
    let n = dandy::regex::Regex { tree: t.clone() }.to_nfa();
    let o = obs_nfa(&n).map_err(|x| Fail::new(format!("{t:?}: {}", x.msg)))?;
    ensure!(o.alpha == want.alpha, "{t:?}: alphabet {:?} instead of {:?}", o.alpha, want.alpha);
    same_language(ctx, &format!("{t:?}"), &want.alpha, &[&want.det()], &o, |v| v[0])
}

pub fn p16(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = over_texts(tier, judge);
    for m in 0..=if th { 5 } else { 4 } {
        let l = leaves();
        v.push(family(format!("all expressions with {m} operators over a, b, ε, ∅"), rx::count(m, 4), move |i, ctx| {
            let e = rx::nth(i, m, &l);
            denotes(&rx::print(&e, false), &e, ctx)?;
            if i % 16 == 0 {
                denotes(&format!("\n {} \t", rx::print(&e, true)), &e, ctx)?;
            }
            Ok(())
        }));
    }
    let l3: Vec<Rx> = ["a", "(", "ε"].iter().map(|s| Rx::Sym(s.to_string())).collect();
    v.push(family("all expressions with 3 operators over a and the escaped symbols ( and ε", rx::count(3, 3), move |i, ctx| {
        let e = rx::nth(i, 3, &l3);
        denotes(&rx::print(&e, false), &e, ctx)
    }));
    // nested + doubles the tree each time: keep that one short
    v.push(family("deep and wide expressions", 8 * 12, |i, ctx| {
        let (t, e) = deep(i);
        denotes(&t, &e, ctx)
    }));
    for size in 1..=if th { 6 } else { 5 } {
        let trees = rx::Trees::new(size);
        v.push(family(format!("all trees of {size} nodes built by hand over a, b, ε, ∅, lists of any length"), trees.count(size), move |i, ctx| {
            hand_built(trees.nth(i, size), ctx)
        }));
    }
    v.push(family("long expressions: a run of n symbols, n <= 300, followed by something else", 300 * LONG_TAILS.len() as u64, |i, ctx| {
        let t = long_text(i);
        let Some(e) = rx::read(&t) else { fail!("harness: {t}") };
        denotes(&t, &e, ctx)
    }));
    v.push(family("very deep and wide expressions without +", 8 * 40, |i, ctx| {
        if i % 8 == 7 || i % 8 == 5 && i > 80 {
            return Ok(());
        }
        let (t, e) = deep(i * 2 - i % 8);
        denotes(&t, &e, ctx)
    }));
    v
}

pub fn p17(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = over_texts(tier, reprint);
    for m in 0..=if th { 5 } else { 4 } {
        let l = leaves();
        v.push(family(format!("all expressions with {m} operators over a, b, ε, ∅"), rx::count(m, 4), move |i, ctx| {
            reprint(&rx::print(&rx::nth(i, m, &l), false), ctx)
        }));
    }
    // symbols that need care, in every position of every small expression
    let odd = ["*", "+", "(", ")", "|", "\\", "ε", "∅", " ", "\n", "\u{301}", "e\u{301}", "🇸", "🇸🇪", "\u{200d}", "👩", "ε\u{301}", "*\u{301}", "\u{600}", "\u{600}a", "\t", "가", "\u{11a8}", "\u{1100}"];
    let chunks: Vec<Vec<Rx>> = (0..odd.len())
        .flat_map(|i| (0..odd.len()).map(move |j| (i, j)))
        .map(|(i, j)| vec![Rx::Sym(odd[i].into()), Rx::Sym(odd[j].into()), Rx::Sym("a".into())])
        .collect();
    for m in 0..=if th { 3 } else { 2 } {
        let c = chunks.clone();
        let per = rx::count(m, 3);
        v.push(family(
            format!("all expressions with {m} operators over a and every pair of {} special symbols, escaped", odd.len()),
            per * c.len() as u64,
            move |i, ctx| {
                let e = rx::nth(i / c.len() as u64, m, &c[i as usize % c.len()]);
                reprint(&escaped(&e), ctx)
            },
        ));
    }
    v.push(family("deep and wide expressions", 8 * 12, |i, ctx| reprint(&deep(i).0, ctx)));
    v.push(family("long expressions: a run of n symbols, n <= 300, followed by something else", 300 * LONG_TAILS.len() as u64, |i, ctx| {
        reprint(&long_text(i), ctx)
    }));
    v
}

/// text with every symbol escaped and everything else in parentheses
fn escaped(e: &Rx) -> String {
    match e {
        Rx::Sym(s) => format!("(\\{s})"),
        Rx::Eps => "ε".into(),
        Rx::Empty => "∅".into(),
        Rx::Seq(a, b) => format!("{}{}", strip(a), strip(b)),
        Rx::Alt(a, b) => format!("({}|{})", strip(a), strip(b)),
        Rx::Star(a) => format!("({})*", strip(a)),
        Rx::Plus(a) => format!("({})+", strip(a)),
    }
}
fn strip(e: &Rx) -> String {
    match e {
        Rx::Sym(s) => format!("\\{s}"),
        e => escaped(e),
    }
}
