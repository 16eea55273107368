//! P26, P27: hostile texts, and independence of hash seeds
use super::*;
use super::text::{strings_len, token_string};
use crate::env;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use dandy::regex::Regex;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

/// characters that mean something to some part of the system, or that text handling commonly gets wrong
const HOSTILE: &[&str] = &[
    "a", "0", " ", "\n", "\t", "\r", "#", "{", "}", "-", ">", "→", "*", "ε", "\\", "∅", "(", ")", "|", "+", "\0", "\u{7f}",
    "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{200d}", "\u{301}",
    "\u{1f1f8}", "\u{1f468}", "\u{ac00}", "\u{1100}", "\u{600}", "\u{10ffff}", "é",
];
/// longer pieces for edits
const PIECES: &[&str] = &["eps", "->", "* ", " {} ", "{a", "a}", "{{}}", "\r\n", "\n\n", "# \n", "\n-> z", " -> ", "→*", "()", "||", "e\u{301}", "(a)+"];
/// the few pieces for combined edits
const FEW: &[&str] = &["\n", " ", "#", "{", "}", "->", "*", "ε", "\u{301}", "\r", "\u{a0}"];

const TEXTS: &[&str] = &[
    " a b\n-> * s s t\n t t s\n",
    "   a  b\n→ x x y\n * y y y # c\n",
    "\n\n a\n -> a a\n",
    "-> * é é\n",
    " ε a\n-> s {t} {s t}\n * t {} {}\n",
    " a eps\n * t {} {s}\n-> s { t s } {}\n",
    " å 日\n→*q₀ {q₀} {}\n",
    "a\n->*s{s}\n",
    "eps\n->{s}{}\n",
    "a(b|c)*",
    " (a+|ε)*∅\\* ",
    "\\(é\\é|\u{1f1f8}\u{1f1ea})+",
    "((a|b)+c)+",
];

fn use_dfa(d: &Dfa, ctx: &mut Ctx) -> R {
    let a = obs_dfa(d)?;
    let _ = (d.to_table(), d.ascii_table(), d.graphemes_only(), d.has_reachable_accepting_state());
    ensure!(d.equivalent_to(d), "not equivalent to itself");
    for w in words_for(&a) {
        let _ = d.accepts_graphemes(&w);
        let _ = d.accepts(&[&w, ""]);
    }
    let syms: Vec<&str> = a.alpha.iter().map(|s| s.as_str()).collect();
    let _ = d.accepts(&syms);
    let mut m = d.clone();
    m.minimize();
    obs_dfa(&m)?;
    let mut t = d.clone();
    t.remove_unreachable_states();
    obs_dfa(&t)?;
    let mut c = d.clone();
    c.merge_nondistinguishable_states();
    obs_dfa(&c)?;
    let n = d.clone().to_nfa();
    let back = n.to_dfa();
    ensure!(back.equivalent_to(d), "not equivalent to itself converted to an NFA and back");
    let mut i = d.clone();
    i.invert();
    obs_dfa(&i)?;
    for r in [d.union(&m), d.intersection(&i), d.difference(&m), i.symmetric_difference(d)].into_iter().flatten() {
        obs_dfa(&r)?;
    }
    let ev = d.evaluator();
    for e in ev.step_all() {
        let _ = (e.is_accepting(), e.current_state_idx());
    }
    ctx.transitions += 12;
    Ok(())
}

fn use_nfa(n: &Nfa, ctx: &mut Ctx) -> R {
    let a = obs_nfa(n)?;
    let _ = (n.to_table(), n.ascii_table(), n.graphemes_only(), n.has_reachable_accepting_state());
    // (products and minimization of many states and symbols take too long)
    let few = a.n() * a.k().max(1) <= 100;
    ensure!(!few || n.equivalent_to(n), "not equivalent to itself");
    for w in words_for(&a) {
        let _ = n.accepts_graphemes(&w);
        let _ = n.accepts(&[&w, ""]);
    }
    let syms: Vec<&str> = a.alpha.iter().map(|s| s.as_str()).collect();
    let _ = n.accepts(&syms);
    if few {
        let mut d = n.to_dfa();
        obs_dfa(&d)?;
        d.minimize();
        obs_dfa(&d)?;
    }
    let mut t = n.clone();
    t.remove_unreachable_states();
    obs_nfa(&t)?;
    let mut e = n.clone();
    e.remove_epsilon_moves();
    obs_nfa(&e)?;
    if few {
        let _: Vec<String> = e.words().take(2).collect();
        let _: Vec<_> = e.word_components().take(1).map(|w| w.concat()).collect();
    }
    let mut o = n.clone();
    o.optimize();
    obs_nfa(&o)?;
    ensure!(!few || o.equivalent_to(n), "not equivalent to itself optimized");
    ctx.transitions += 9;
    Ok(())
}

fn use_regex(r: &Regex, text: &str, ctx: &mut Ctx) -> R {
    let _ = r.to_string();
    ctx.transitions += 1;
    // tables are expressions too, with many more states than they have as tables
    let len = text.chars().count();
    if text.contains('\n') && len > 6 || len > 140 {
        let n = r.clone().to_nfa();
        obs_nfa(&n)?;
        let _ = n.accepts_graphemes(text);
        return Ok(());
    }
    use_nfa(&r.clone().to_nfa(), ctx)
}

/// words over and outside of the alphabet
fn words_for(a: &Aut) -> Vec<String> {
    let mut v = vec![String::new(), "\u{301}a\0".into(), a.alpha.concat()];
    if let Some(s) = a.alpha.first() {
        v.push(s.repeat(3));
        v.push(format!("{s}\n{s}"));
    }
    v
}

fn shown<T: std::fmt::Debug, E: std::fmt::Display>(r: &Result<T, E>) -> String {
    match r {
        Ok(t) => format!("{t:?}"),
        Err(e) => format!("error: {e}"),
    }
}

thread_local! {
    static USED: std::cell::RefCell<FxSet<String>> = Default::default();
}

/// true the first time (on this thread) that an object is seen: using it once is enough
fn first_time(kind: char, object: &str) -> bool {
    USED.with(|u| u.borrow_mut().insert(format!("{kind}{object}")))
}

/// one text, loaded as everything, twice, through the library and the browser bindings, and used
fn judge(text: &str, ctx: &mut Ctx) -> R {
    let at = |e: Fail, kind: &str| Fail::new(format!("text {text:?} loaded as {kind}: {}", e.msg));
    ctx.states += 1;
    ctx.traces += 3;
    let r = guarded(|| {
        let d = parse_dfa(text);
        ensure!(shown(&d) == shown(&parse_dfa(text)), "loading it again gives something else");
        let h = dandy_wasm::load_dfa(text);
        ensure!(d.is_ok() == h.is_ok(), "the browser bindings say {h:?}, the library {}", shown(&d));
        if let Ok(h) = h {
            ensure!(dandy_wasm::dfa_to_table(h) == d.as_ref().ok().map(|d| d.to_table()), "another table in the browser bindings");
            ensure!(dandy_wasm::minimize_dfa(h) && dandy_wasm::delete_dfa(h), "the handle is dead");
        }
        match d {
            Ok(d) if first_time('D', &format!("{d:?}")) => use_dfa(&d, ctx),
            _ => Ok(()),
        }
    });
    r.map_err(|e| at(e, "a DFA"))?;
    let r = guarded(|| {
        let n = parse_nfa(text);
        ensure!(shown(&n) == shown(&parse_nfa(text)), "loading it again gives something else");
        let h = dandy_wasm::load_nfa(text);
        ensure!(n.is_ok() == h.is_ok(), "the browser bindings say {h:?}, the library {}", shown(&n));
        if let Ok(h) = h {
            ensure!(dandy_wasm::nfa_to_table(h) == n.as_ref().ok().map(|n| n.to_table()), "another table in the browser bindings");
            let c = dandy_wasm::nfa_to_dfa(h);
            ensure!(c.is_some_and(dandy_wasm::delete_dfa) && dandy_wasm::delete_nfa(h), "the handle is dead");
        }
        match n {
            Ok(n) if first_time('N', &format!("{n:?}")) => use_nfa(&n, ctx),
            _ => Ok(()),
        }
    });
    r.map_err(|e| at(e, "an NFA"))?;
    let r = guarded(|| {
        let x = parse_regex(text);
        ensure!(shown(&x) == shown(&parse_regex(text)), "loading it again gives something else");
        let h = dandy_wasm::load_regex(text);
        ensure!(x.is_ok() == h.is_ok(), "the browser bindings say {h:?}, the library {}", shown(&x));
        if let Ok(h) = h {
            let c = dandy_wasm::regex_to_nfa(h);
            ensure!(c.is_some_and(dandy_wasm::delete_nfa), "the handle is dead");
        }
        match x {
            Ok(x) if first_time('R', &format!("{x:?}")) => use_regex(&x, text, ctx),
            _ => Ok(()),
        }
    });
    r.map_err(|e| at(e, "an expression"))?;
    ctx.sample(|| format!("{text:?}"));
    Ok(())
}

/// positions x (insertions, replacements, and deletion, doubling, swap)
fn edits(text: &str, pieces: usize) -> u64 {
    (text.chars().count() as u64 + 1) * (2 * pieces as u64 + 3)
}

fn edit(text: &str, pieces: &[&str], i: u64) -> String {
    let chars: Vec<char> = text.chars().collect();
    let mut d = Dec(i);
    let pos = d.take(chars.len() as u64 + 1);
    let e = d.take(2 * pieces.len() as u64 + 3);
    let mut s: String = chars[..pos].iter().collect();
    let rest = |from: usize| -> String { chars.get(from..).unwrap_or_default().iter().collect() };
    if e < pieces.len() {
        s.push_str(pieces[e]);
        s.push_str(&rest(pos));
    } else if e < 2 * pieces.len() {
        s.push_str(pieces[e - pieces.len()]);
        s.push_str(&rest(pos + 1));
    } else {
        match e - 2 * pieces.len() {
            0 => s.push_str(&rest(pos + 1)),
            1 => {
                s.extend(chars.get(pos));
                s.push_str(&rest(pos));
            }
            _ => {
                s.extend(chars.get(pos + 1));
                s.extend(chars.get(pos));
                s.push_str(&rest(pos + 2));
            }
        }
    }
    s
}

const SHAPES: &[(&str, fn(usize) -> String)] = &[
    ("((a))", |n| "(".repeat(n) + "a" + &")".repeat(n)),
    ("((a)*)*", |n| "(".repeat(n) + "a" + &")*".repeat(n)),
    ("((a|b)|b)", |n| "(".repeat(n) + "a" + &"|b)".repeat(n)),
    ("(a(a(a", |n| "(a".repeat(n)),
    ("a))", |n| "a".to_string() + &")".repeat(n)),
    ("aaa", |n| "a".repeat(n)),
    ("a|a|a", |n| "a".to_string() + &"|a".repeat(n)),
    ("a\u{301}\u{301}", |n| "a".to_string() + &"\u{301}".repeat(n)),
    ("\\\\\\", |n| "\\".repeat(n)),
    ("{{{", |n| "a\n->s".to_string() + &"{".repeat(n)),
    ("long row", |n| " a\n->s ".to_string() + &"s ".repeat(n)),
    ("long set", |n| " a\n->s {".to_string() + &"s ".repeat(n) + "}"),
    ("many rows", |n| " a\n->".to_string() + &(0..n).map(|i| format!("{i} 0\n")).collect::<String>()),
    ("many rows of an NFA", |n| " a\n->".to_string() + &(0..n).map(|i| format!("{i} {{0}}\n")).collect::<String>()),
    ("many symbols", |n| (0..n).map(|i| format!(" x{i}")).collect::<String>() + "\n->s" + &" s".repeat(n)),
    ("blank lines", |n| "\n".repeat(n) + " a\n->s s"),
    ("a comment", |n| "#".repeat(n) + "\n a\n->s s"),
];
const BIG: &[usize] = &[10, 100, 1000, 20000];
/// texts with a place to put many of something, some of them erroneous there or nearby
const STRETCH: &[&str] = &[
    "@", " @\n-> s s", " @ b\n-> s s s", " a\n-> @ @", " a\n->*@ {@}", " a\n-> s t@", " a\n-> s {t @}", " a\n-> s s@#", "#@\n a\n-> s s", " a #@\n-> s s#@",
    "@a@\n@->@s@s@", " a\n-> s @{", " a\n}@", " ε @\n-> s {} {s}", "(@)", "@*", "\\@", "(a|@)+b", "a@)b",
];
const FILL: &[&str] = &["a", "é", "ε", "日", "\u{1f600}", "\u{301}", "a\u{301}", " ", "\n", "\r\n", "\u{a0}", "()", "a ", "{", "\u{1f1f8}", "\u{200d}"];
/// every + doubles what is under it
const PLUS: (&str, fn(usize) -> String) = ("((a)+)+", |n| "(".repeat(n) + "a" + &")+".repeat(n));

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn big_text(shape: usize, size: usize) -> (String, String) {
    let (name, f) = SHAPES.get(shape).unwrap_or(&PLUS);
    (format!("{name} x {size}"), f(size))
}

/// in a process of its own: load one big text as everything, print and convert it
pub fn load_big(shape: usize, size: usize) -> ! {
    unsafe {
        let lim = [1u64 << 30, 1u64 << 30];
        setrlimit(9, &lim);
        setrlimit(4, &[0, 0]);
    }
    let (_, text) = big_text(shape, size);
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let _ = shown(&dandy::parser::dfa(&text).map(|p| shown(&Dfa::try_from(p))));
        let _ = shown(&dandy::parser::nfa(&text).map(|p| shown(&Nfa::try_from(p))));
        let _ = (dandy_wasm::load_dfa(&text), dandy_wasm::load_nfa(&text), dandy_wasm::load_regex(&text));
        match dandy::parser::regex(&text) {
            Ok(r) => {
                let _ = r.to_string();
                let n = r.to_nfa();
                let _ = (n.states().len(), n.accepts_graphemes("aa"));
            }
            Err(e) => drop(e.to_string()),
        }
    });
    std::process::exit(match t.expect("thread").join() {
        Ok(()) => 0,
        Err(_) => 101,
    });
}

fn big(shape: usize, size: usize, ctx: &mut Ctx) -> R {
    let (name, _) = big_text(shape, size);
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg0("mc").args(["--load-big", &shape.to_string(), &size.to_string()]);
    c.env_remove("MC_CHILD").env_remove("MC_ONLY").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let st = c.status().expect("process");
    ctx.states += 1;
    ctx.traces += 1;
    ctx.sample(|| format!("{name}: {st}"));
    if !st.success() {
        return Err(Fail {
            key: Some(name.clone()),
            msg: format!("loading, printing and converting the text {name} ended with {st} (8 MB stack, 1 GB of memory)"),
        });
    }
    Ok(())
}

pub fn p26(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let n = HOSTILE.len() as u64;
    let max = if th { 4 } else { 3 };
    v.push(
        family(format!("all texts of up to {max} of {n} hostile characters"), strings_len(n, max), |i, c| {
            judge(&token_string(i, HOSTILE), c)
        })
        .chunked(4000),
    );
    const RX: &[&str] = &["a", "(", ")", "|", "*", "+", "\\", "ε", "∅", "\u{301}", " ", "\u{1f1f8}", "\u{600}"];
    let max = if th { 6 } else { 5 };
    v.push(
        family(format!("all expression texts of up to {max} of {} characters", RX.len()), strings_len(RX.len() as u64, max), |i, c| {
            judge(&token_string(i, RX), c)
        })
        .chunked(4000),
    );
    const TAB: &[&str] = &["a", "eps", "ε", "->", "→", "*", "{", "}", "\n", " ", "#"];
    let max = if th { 6 } else { 4 };
    v.push(
        family(format!("all table texts of up to {max} of {} tokens", TAB.len()), strings_len(TAB.len() as u64, max), |i, c| {
            judge(&token_string(i, TAB), c)
        })
        .chunked(4000),
    );
    // a table always starts like this, so this reaches further
    let max = if th { 6 } else { 5 };
    for head in [" a\n->", " ε a\n->s{}", " a\n->s s\n"] {
        v.push(
            family(format!("all texts {head:?} + up to {max} of {} tokens", TAB.len()), strings_len(TAB.len() as u64, max), move |i, c| {
                judge(&format!("{head}{}", token_string(i, TAB)), c)
            })
            .chunked(4000),
        );
    }
    let all: &'static [&'static str] = Box::leak(HOSTILE.iter().chain(PIECES).copied().collect::<Vec<_>>().into_boxed_slice());
    for (t, text) in TEXTS.iter().enumerate() {
        v.push(family(format!("text {t}, every single edit at every place"), edits(text, all.len()), move |i, c| {
            judge(&edit(text, all, i), c)
        }).chunked(1000));
        let few = if th { FEW } else { &FEW[..5] };
        // a second edit works on the text the first one left: up to two characters longer
        let second = (text.chars().count() as u64 + 3) * (2 * few.len() as u64 + 3);
        v.push(family(format!("text {t}, every two edits of a smaller set"), edits(text, few.len()) * second, move |i, c| {
            let mut d = Dec(i);
            let e = d.take(edits(text, few.len())) as u64;
            let once = edit(text, few, e);
            let e2 = d.take(second) as u64;
            if e2 >= edits(&once, few.len()) {
                return Ok(());
            }
            judge(&edit(&once, few, e2), c)
        }).chunked(8000));
    }
    // whole lines: every sequence of up to 4 lines out of these
    const LINES: &[&str] = &[" a b\n", " ε a\n", "-> s s t\n", "* t t t\n", " -> * t {s} {s t}\n", " s {} {t}\n", "\n", "# x\n", "s\n", " * s s s #"];
    let max = if th { 5 } else { 4 };
    v.push(family(format!("every sequence of up to {max} of {} lines", LINES.len()), strings_len(LINES.len() as u64, max), |i, c| {
        judge(&token_string(i, LINES), c)
    }));
    v.push(
        family("big texts: shapes x sizes 10, 100, 1000, 20000, each in its own process", (SHAPES.len() * BIG.len()) as u64, |i, c| {
            big(i as usize / BIG.len(), BIG[i as usize % BIG.len()], c)
        })
        .chunked(1),
    );
    // sizes
    let lens: &'static [usize] = Box::leak((1..=if th { 300 } else { 66usize }).chain([127, 128, 129, 255, 256, 257, 513, 1025, 4097]).collect::<Vec<_>>().into_boxed_slice());
    let ll = lens.len() as u64;
    v.push(family(
        format!("{} texts with one piece stretched to {ll} lengths up to 4097, {} kinds of piece", STRETCH.len(), FILL.len()),
        ll * (STRETCH.len() * FILL.len()) as u64,
        move |i, c| {
            let mut d = Dec(i);
            let (f, t, l) = (FILL[d.take(FILL.len() as u64)], STRETCH[d.take(STRETCH.len() as u64)], lens[d.take(ll)]);
            judge(&t.replace('@', &f.repeat(l)), c)
        },
    ).chunked(50));
    let small = (1..=70usize).chain([127, 128, 129, 255, 256, 257, 258]).collect::<Vec<_>>();
    v.push(family(
        format!("the shapes of big texts in {} sizes up to 258, used like small ones", small.len()),
        (SHAPES.len() * small.len()) as u64,
        move |i, c| judge(&SHAPES[i as usize % SHAPES.len()].1(small[i as usize / SHAPES.len()]), c),
    ).chunked(10));
    v.push(family("DFA bases of 8..=258 states around the powers of two, k<=2, four variants", big_dfas_len(), |i, c| judge(&dfa_text(&big_dfas(i)), c)).chunked(30));
    let (kinds, ns) = (BIG_NFA.len() as u64, SIZES.len() as u64);
    let vs = if th { 4 } else { 1 };
    v.push(family(format!("NFA shapes of 8..=258 states around the powers of two, k<=2, {vs} of four variants"), kinds * 2 * ns * vs, move |i, c| {
        let mut d = Dec(i);
        let (b, k, n, x) = (d.take(kinds), d.take(2) + 1, SIZES[d.take(ns)], d.take(vs));
        let a = big_variant(big_nfa(BIG_NFA[b], n, k), (b + k + n + x) % 4);
        judge(&nfa_text(&a), c)
    }).chunked(10));
    v.push(family("DFAs and NFAs n=3 over 4..=258 symbols", WIDE * WIDTHS.len() as u64 * 2, |i, c| {
        let mut d = Dec(i);
        let (det, k, w) = (d.take(2) == 0, d.take(WIDE) as u64, WIDTHS[d.take(WIDTHS.len() as u64)]);
        let a = wide(k, w, det);
        judge(&if det { dfa_text(&a) } else { nfa_text(&a) }, c)
    }).chunked(30));
    v.push(family("NFA bases N=3 k=1, every initial state, every 3 names from a list of likely new names", NFA_BASES.len() as u64 * 3 * fresh_len(3, 12), |i, c| {
        let mut d = Dec(i);
        let (b, q) = (d.take(NFA_BASES.len() as u64), d.take(3));
        let mut a = nfa_base(NFA_BASES[b], 3, 1);
        a.init = q;
        a.names = fresh(3, 12, d.take(fresh_len(3, 12)) as u64);
        judge(&nfa_text(&a), c)
    }).chunked(500));
    v.push(family("((a)+)+ x 1..=15, x 40, each in its own process", 16, |i, c| big(SHAPES.len(), if i == 15 { 40 } else { i as usize + 1 }, c)).chunked(1));
    v
}

// ---------------------------------------------------------------------------------------------------------------

/// the reachable part of a DFA, in an order that does not depend on names or numbering
fn canonical(a: &Aut) -> String {
    let mut num = vec![usize::MAX; a.n()];
    let mut queue = vec![a.init];
    num[a.init] = 0;
    let mut s = format!("{:?}", a.alpha);
    let mut i = 0;
    while i < queue.len() {
        let q = queue[i];
        i += 1;
        s.push_str(if a.acc[q] { " *" } else { " -" });
        for t in &a.tr[q] {
            if num[t[0]] == usize::MAX {
                num[t[0]] = queue.len();
                queue.push(t[0]);
            }
            s.push_str(&format!(".{}", num[t[0]]));
        }
    }
    format!("{} states: {s}", a.n())
}

/// what can be said of an NFA regardless of names and numbering: its size and language
fn shape(n: &Nfa) -> R<String> {
    let a = obs_nfa(n)?;
    let mut deg: Vec<_> = (0..a.n())
        .map(|q| (q == a.init, a.acc[q], a.eps[q].len(), a.tr[q].iter().map(|t| t.len()).collect::<Vec<_>>()))
        .collect();
    deg.sort();
    let mut d = n.to_dfa();
    let det = canonical(&obs_dfa(&d)?);
    d.minimize();
    Ok(format!("{deg:?} / {det} / {}", canonical(&obs_dfa(&d)?)))
}

fn exact(a: &Aut) -> String {
    format!("{:?}", norm(a))
}

type Log = Vec<(&'static str, String)>;

fn sorted(mut v: Vec<usize>) -> String {
    v.sort();
    format!("{v:?}")
}

fn outcome_dfa(a: &Aut, b: &Aut) -> R<Log> {
    let mut l: Log = vec![];
    let (d, e) = match (parse_dfa(&dfa_text(a)), parse_dfa(&dfa_text(b))) {
        (Ok(d), Ok(e)) => (d, e),
        r => return Ok(vec![("load", format!("{r:?}"))]),
    };
    l.push(("load", format!("{:?}", obs_dfa(&d)?)));
    l.push(("to_table", d.to_table()));
    l.push(("reachable", sorted(d.reachable_state_idx().into_iter().collect())));
    l.push(("unreachable", sorted(d.unreachable_state_idx().into_iter().collect())));
    l.push(("has_reachable_accepting_state", d.has_reachable_accepting_state().to_string()));
    let mut cls: Vec<Vec<usize>> = d
        .state_equivalence_classes_idx()
        .into_iter()
        .map(|c| {
            let mut c: Vec<usize> = c.into_iter().collect();
            c.sort();
            c
        })
        .collect();
    cls.sort();
    l.push(("state_equivalence_classes_idx", format!("{cls:?}")));
    let op = |f: &dyn Fn(&mut Dfa)| -> R<Aut> {
        let mut x = d.clone();
        f(&mut x);
        obs_dfa(&x)
    };
    l.push(("remove_unreachable_states", exact(&op(&|x| x.remove_unreachable_states())?)));
    for w in words_for(&a) {
        l.push(("accepts", format!("{} {}", d.accepts_graphemes(&w), d.accepts(&[&w]))));
    }
    let mut ev = d.evaluator();
    for i in 0..4 {
        l.push(("evaluator", format!("{} {}", ev.is_accepting(), ev.current_state_idx())));
        l.push(("step_all", format!("{:?}", ev.step_all().iter().map(|e| e.current_state_idx()).collect::<Vec<_>>())));
        if a.k() == 0 {
            break;
        }
        ev.step(&a.alpha[i % a.k()]);
    }
    l.push(("invert", exact(&op(&|x| x.invert())?)));
    l.push(("minimize", canonical(&op(&|x| x.minimize())?)));
    l.push(("merge_nondistinguishable_states", canonical(&op(&|x| x.merge_nondistinguishable_states())?)));
    l.push(("to_nfa", exact(&obs_nfa(&d.clone().to_nfa())?)));
    l.push(("to_nfa().to_dfa()", canonical(&obs_dfa(&d.clone().to_nfa().to_dfa())?)));
    l.push(("equivalent_to", format!("{} {} {}", d.equivalent_to(&e), e.equivalent_to(&d), d.equivalent_to(&d))));
    for (what, r) in [
        ("union", d.union(&e)),
        ("intersection", d.intersection(&e)),
        ("difference", e.difference(&d)),
        ("symmetric_difference", d.symmetric_difference(&e)),
    ] {
        l.push((
            what,
            match r {
                Some(r) => canonical(&obs_dfa(&r)?),
                None => "none".into(),
            },
        ));
    }
    Ok(l)
}

fn outcome_nfa(n: &Nfa, m: &Nfa) -> R<Log> {
    let a = obs_nfa(n)?;
    let mut l: Log = vec![];
    l.push(("load", exact(&a)));
    l.push(("to_table", n.to_table()));
    l.push(("reachable", sorted(n.reachable_state_idx().into_iter().collect())));
    l.push(("has_reachable_accepting_state", n.has_reachable_accepting_state().to_string()));
    for w in words_for(&a) {
        l.push(("accepts", format!("{} {}", n.accepts_graphemes(&w), n.accepts(&[&w]))));
    }
    for q in 0..a.n() {
        l.push(("closure", sorted(n.closure(q).into_iter().flatten().collect())));
    }
    let op = |f: &dyn Fn(&mut Nfa)| {
        let mut x = n.clone();
        f(&mut x);
        x
    };
    let free = op(&|x| x.remove_epsilon_moves());
    l.push(("remove_epsilon_moves", exact(&obs_nfa(&free)?)));
    l.push(("remove_unreachable_states", exact(&obs_nfa(&op(&|x| x.remove_unreachable_states()))?)));
    l.push(("optimize", exact(&obs_nfa(&op(&|x| x.optimize()))?)));
    // (listing the words of many states takes long)
    let few = if a.n() <= 12 { 8 } else { 2 };
    l.push(("words", format!("{:?}", free.words().take(few).collect::<Vec<_>>())));
    l.push(("word_component_indices", format!("{:?}", free.word_component_indices().take(few).collect::<Vec<_>>())));
    let mut d = n.to_dfa();
    l.push(("to_dfa", canonical(&obs_dfa(&d)?)));
    d.minimize();
    l.push(("to_dfa, minimize", canonical(&obs_dfa(&d)?)));
    l.push(("equivalent_to", format!("{} {} {}", n.equivalent_to(m), m.equivalent_to(n), n.equivalent_to(n))));
    l.push((
        "union",
        match n.clone().union(m.clone()) {
            Ok(u) => exact(&obs_nfa(&u)?),
            Err(_) => "none".into(),
        },
    ));
    l.push((
        "intersection",
        match n.intersection(m) {
            Some(x) => shape(&x)?,
            None => "none".into(),
        },
    ));
    let mut ev = n.evaluator();
    for i in 0..4 {
        l.push(("evaluator", format!("{} {}", ev.is_accepting(), sorted(ev.current_states_idx().iter().copied().collect()))));
        let steps = ev.step_all();
        l.push(("step_all", format!("{:?}", steps.iter().map(|e| sorted(e.current_states_idx().iter().copied().collect())).collect::<Vec<_>>())));
        if a.k() == 0 {
            break;
        }
        ev.step(&a.alpha[i % a.k()]);
    }
    Ok(l)
}

fn outcome_nfa_text(a: &Aut, b: &Aut) -> R<Log> {
    match (parse_nfa(&nfa_text(a)), parse_nfa(&nfa_text(b))) {
        (Ok(d), Ok(e)) => outcome_nfa(&d, &e),
        r => Ok(vec![("load", format!("{r:?}"))]),
    }
}

fn outcome_text(text: &str) -> R<Log> {
    Ok(vec![
        ("load as a DFA", shown(&parse_dfa(text))),
        ("load as an NFA", shown(&parse_nfa(text))),
        ("load as an expression", shown(&parse_regex(text))),
    ])
}

fn outcome_regex(text: &str) -> R<Log> {
    let r = match parse_regex(text) {
        Ok(r) => r,
        Err(e) => return Ok(vec![("load", e)]),
    };
    let mut l = vec![("to_string", r.to_string())];
    let n = r.to_nfa();
    l.push(("to_nfa", exact(&obs_nfa(&n)?)));
    let partner = parse_regex("(a|b)*").map_err(Fail::new)?.to_nfa();
    l.extend(outcome_nfa(&n, &partner)?);
    Ok(l)
}

/// the same on a fresh thread for every seed
fn seeds(count: u64, at: u64, what: &dyn Fn() -> String, ctx: &mut Ctx, f: impl Fn() -> R<Log> + Sync) -> R {
    let mut first: Option<Log> = None;
    for s in 0..count {
        let l = std::thread::scope(|sc| {
            sc.spawn(|| {
                env::set_seed((at << 20).wrapping_mul(0x9E37_79B9) ^ s.wrapping_mul(0xD134_2543_DE82_EF95));
                guarded(&f)
            })
            .join()
            .expect("joined")
        })
        .map_err(|e| Fail::new(format!("{}\n{}", what(), e.msg)))?;
        ctx.states += 1;
        ctx.traces += l.len() as u64;
        match &first {
            None => first = Some(l),
            Some(f) => {
                for (x, y) in f.iter().zip(&l) {
                    ctx.transitions += 1;
                    ensure!(
                        x == y,
                        "{}\nunder hash seed 0, {} is\n{}\nbut under hash seed {s} it is\n{}",
                        what(),
                        x.0,
                        x.1,
                        y.1
                    );
                }
                ensure!(f.len() == l.len(), "{}\ndifferent outcomes under hash seeds 0 and {s}", what());
            }
        }
    }
    ctx.sample(|| format!("{}{count} seeds, {} outcomes each", what(), first.map_or(0, |f| f.len())));
    Ok(())
}

/// the partner: the same automaton with another symbol order and one more edit, or something else
fn dfa_pair(a: Aut, i: u64) -> (Aut, Aut) {
    let mut b = a.clone();
    if i % 3 > 0 {
        let c = dfa_edit_count(b.n() as u64, b.k() as u64);
        dfa_edit(&mut b, (i / 3).wrapping_mul(7919) % c);
    }
    if i % 2 == 0 && b.k() > 1 {
        let order: Vec<usize> = (0..b.k()).rev().collect();
        b = reorder(&b, &order);
    }
    (a, b)
}

fn nfa_pair(a: Aut, i: u64) -> (Aut, Aut) {
    let mut b = a.clone();
    if i % 3 > 0 {
        let c = nfa_edit_count(b.n() as u64, b.k() as u64);
        nfa_edit(&mut b, (i / 3).wrapping_mul(7919) % c);
    }
    if i % 2 == 0 && b.k() > 1 {
        let order: Vec<usize> = (0..b.k()).rev().collect();
        b = reorder(&b, &order);
    }
    (a, b)
}

/// a table of n states with three defects of each of two kinds
fn defective(n: usize, x: usize, y: usize, nfa: bool) -> String {
    let is = |kind: usize, q: usize, at: [usize; 3]| (x == kind || y == kind) && at.contains(&q);
    let (at, bt) = ([2, n / 2, n - 2], [1, n / 3, n - 3]);
    let mut t = String::from(if x == 4 || y == 4 { "a b c b a c\n" } else { "a b\n" });
    for q in 0..n {
        let name = if is(0, q, at) { format!("q{}", q - 1) } else { format!("q{q}") };
        let mark = if q == 0 || is(1, q, bt) { "-> " } else { "" };
        let target = if is(2, q, bt) { format!("x{q}") } else { format!("q{}", (q * 3 + 1) % n) };
        let target = if nfa { format!("{{{target}}}") } else { target };
        let entries = if x == 4 || y == 4 { 6 } else { 2 } - is(3, q, at) as usize;
        t.push_str(&format!("{mark}{name}{}\n", format!(" {target}").repeat(entries)));
    }
    t
}

pub fn p27(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let s: u64 = if th { 32 } else { 6 };
    let mut v = vec![];
    let mut all = vec![(1, 1), (2, 1), (2, 2), (3, 1)];
    if th {
        all.extend([(2, 3), (3, 2), (4, 1)]);
    }
    for (n, k) in all {
        v.push(family(format!("all DFAs n={n} k={k}, a partner each, {s} hash seeds"), dfa_len(n, k), move |i, c| {
            let (a, b) = dfa_pair(dfa(n as usize, k as usize, i), i);
            seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_dfa(&a, &b))
        }));
    }
    let mut dev = vec![(4, 2, 1), (6, 2, 1), (8, 2, 1), (12, 2, 1)];
    if th {
        dev.extend([(4, 2, 2), (20, 2, 1), (7, 3, 1)]);
    }
    for (n, k, e) in dev {
        v.push(family(
            format!("DFA bases N={n} k={k}, all combinations of {e} edits, {s} hash seeds"),
            dfa_dev_len(n, k, e),
            move |i, c| {
                let (a, b) = dfa_pair(dfa_dev(n as usize, k as usize, e, i), i);
                seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_dfa(&a, &b))
            },
        ));
    }
    let mut all = vec![(1, 1), (2, 0), (2, 1)];
    if th {
        all.extend([(1, 2), (3, 0)]);
    }
    for (n, k) in all {
        v.push(family(format!("all NFAs n={n} k={k}, a partner each, {s} hash seeds"), nfa_len(n, k, true), move |i, c| {
            let (a, b) = nfa_pair(nfa(n as usize, k as usize, true, i), i);
            seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_nfa_text(&a, &b))
        }));
    }
    let mut dev = vec![(3, 2, 1), (5, 1, 1), (6, 2, 1)];
    if th {
        dev.extend([(4, 2, 1), (4, 1, 2), (8, 2, 1), (7, 3, 1)]);
    }
    for (n, k, e) in dev {
        v.push(family(
            format!("NFA bases N={n} k={k}, all combinations of {e} edits, {s} hash seeds"),
            nfa_dev_len(n, k, e),
            move |i, c| {
                let (a, b) = nfa_pair(nfa_dev(n as usize, k as usize, e, i), i);
                // (the product is made deterministic)
                if a.det().n() * b.det().n() > 1000 {
                    return Ok(());
                }
                seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_nfa_text(&a, &b))
            },
        ));
    }
    const RX: &[&str] = &["a", "b", "c", "(", ")", "|", "*", "+", "ε"];
    let max = if th { 5 } else { 4 };
    v.push(family(
        format!("all expression texts of up to {max} of {} characters, {s} hash seeds", RX.len()),
        strings_len(RX.len() as u64, max),
        move |i, c| {
            let text = token_string(i, RX);
            seeds(s, i, &|| format!("{text:?}"), c, || outcome_regex(&text))
        },
    ));
    for (t, text) in TEXTS.iter().enumerate() {
        v.push(family(
            format!("text {t}, every single edit at every place, {s} hash seeds"),
            edits(text, FEW.len()),
            move |i, c| {
                let text = edit(text, FEW, i);
                seeds(s, i, &|| format!("{text:?}"), c, || outcome_text(&text))
            },
        ));
    }
    v.push(family(format!("DFAs and NFAs n=3 over 4..=40 symbols, {s} hash seeds"), WIDE * 24 * 2, move |i, c| {
        let mut d = Dec(i);
        let (det, k, w) = (d.take(2) == 0, d.take(WIDE) as u64, WIDTHS[d.take(24)]);
        let (a, b) = if det { dfa_pair(wide(k, w, true), i / 2) } else { nfa_pair(wide(k, w, false), i / 2) };
        seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || if det { outcome_dfa(&a, &b) } else { outcome_nfa_text(&a, &b) })
    }));
    v.push(family(format!("DFA bases of 9..=66 states, four variants, {s} hash seeds"), DFA_BASES.len() as u64 * 6 * 4, move |i, c| {
        let mut d = Dec(i);
        let (b, n, x) = (d.take(DFA_BASES.len() as u64), [9, 17, 33, 40, 65, 66][d.take(6)], d.take(4));
        let (a, b) = dfa_pair(big_variant(dfa_base(DFA_BASES[b], n, 2), x), i);
        seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_dfa(&a, &b))
    }));
    v.push(family(format!("NFA shapes of 9..=17 states, four variants, {s} hash seeds"), BIG_NFA.len() as u64 * 3 * 4, move |i, c| {
        let mut d = Dec(i);
        let (b, n, x) = (d.take(BIG_NFA.len() as u64), [9, 12, 17][d.take(3)], d.take(4));
        let a = big_variant(big_nfa(BIG_NFA[b], n, 2), x);
        let (a, b) = nfa_pair(a, i);
        // (the product is made deterministic)
        if a.det().n() * b.det().n() > 400 {
            return Ok(());
        }
        seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_nfa_text(&a, &b))
    }));
    let forms = 6u64;
    v.push(family(format!("expressions over 4..=130 symbols, {forms} forms x 3 orders, {s} hash seeds"), forms * 3 * WIDTHS.len().min(28) as u64, move |i, c| {
        let mut d = Dec(i);
        let (form, o, k) = (d.take(forms), d.take(3), WIDTHS[d.take(WIDTHS.len() as u64)]);
        let all: Vec<String> = order([0, 4, 11][o], k).into_iter().map(|c| char::from_u32(0x4e00 + c as u32).unwrap().to_string()).collect();
        let text = match form {
            0 => all.concat(),
            1 => all.join("|"),
            2 => format!("({})*", all.join("|")),
            3 => all.iter().map(|s| format!("({s}|ε)")).collect(),
            4 => all.iter().map(|s| format!("{s}*")).collect(),
            _ => format!("{}{}", all.concat(), all.iter().rev().map(|s| format!("{s}+")).collect::<String>()),
        };
        seeds(s, i, &|| format!("{text:?}"), c, || outcome_regex(&text))
    }));
    let names = if th { 9 } else { 6 };
    let l = fresh_len(3, names);
    v.push(family(format!("NFA bases N=3 k=1, every initial state, every 3 names from a list of likely new names, {s} hash seeds"), NFA_BASES.len() as u64 * 3 * l, move |i, c| {
        let mut d = Dec(i);
        let (b, q) = (d.take(NFA_BASES.len() as u64), d.take(3));
        let mut a = nfa_base(NFA_BASES[b], 3, 1);
        a.init = q;
        a.names = fresh(3, names as usize, d.take(l) as u64);
        let (a, b) = nfa_pair(a, i);
        seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_nfa_text(&a, &b))
    }));
    v.push(family(format!("DFA bases N=3 k=2, every initial state, every 3 names from a list of likely new names, {s} hash seeds"), DFA_BASES.len() as u64 * 3 * l, move |i, c| {
        let mut d = Dec(i);
        let (b, q) = (d.take(DFA_BASES.len() as u64), d.take(3));
        let mut a = dfa_base(DFA_BASES[b], 3, 2);
        a.init = q;
        a.names = fresh(3, names as usize, d.take(l) as u64);
        let (a, b) = dfa_pair(a, i);
        seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_dfa(&a, &b))
    }));
    // (the union names states anew when names of the two clash: some, all or one of them)
    let own: &'static [&'static str] = &["q0", "q1", "q2", "q3", "q01", "q4", "1", "2", "r", "s"];
    let l = pow(own.len() as u64, 3);
    v.push(family(format!("pairs of NFA shapes of 4 and 3 states, every 3 names of {}, {s} hash seeds", own.len()), l * if th { 4 } else { 1 }, move |i, c| {
        let mut d = Dec(i);
        let mut b = nfa_base(NFA_BASES[2], 3, 1);
        b.names = (0..3).map(|_| own[d.take(own.len() as u64)].to_string()).collect();
        b.init = d.take(4) % 3;
        if (1..3).any(|j| b.names[..j].contains(&b.names[j])) {
            return Ok(());
        }
        let a = nfa_base(NFA_BASES[1], 4, 1);
        let (a, b) = if i % 2 == 0 { (a, b) } else { (b, a) };
        seeds(s, i, &|| format!("{}and\n{}", a.show(), b.show()), c, || outcome_nfa_text(&a, &b))
    }));
    v.push(family(format!("defective tables of 9..=65 states, three defects of two kinds each, {s} hash seeds"), 4 * 5 * 5 * 2, move |i, c| {
        let mut d = Dec(i);
        let (n, x, y, nfa) = ([9, 17, 33, 65][d.take(4)], d.take(5), d.take(5), d.take(2) == 1);
        let text = defective(n, x, y, nfa);
        seeds(s, i, &|| text.clone(), c, || outcome_text(&text))
    }));
    v.extend(cli::seeded_commands(tier));
    // defective tables, where several reasons compete for being reported
    const LINES: &[&str] = &[" a b\n", " a a\n", " b a b a\n", "-> s s t\n", "* t t t\n", "-> s x y\n", " s {t z} {y}\n", " s s\n", "* t {t} {s t}\n"];
    let max = if th { 5 } else { 4 };
    v.push(family(
        format!("every sequence of up to {max} of {} lines, {s} hash seeds", LINES.len()),
        strings_len(LINES.len() as u64, max),
        move |i, c| {
            let text = token_string(i, LINES);
            seeds(s, i, &|| format!("{text:?}"), c, || outcome_text(&text))
        },
    ));
    v
}
