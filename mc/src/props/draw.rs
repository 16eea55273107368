//! P24, P25: drawings, read back
use super::*;
use crate::env;
use dandy_draw::pos2::Pos2;
use dandy_draw::{DrawOptions, Drawer};
use std::collections::{BTreeMap, BTreeSet};

/// (from, to) -> symbols, over all transitions including empty moves
type Edges = BTreeMap<(usize, usize), Vec<String>>;

fn edges(a: &Aut) -> Edges {
    let mut m = Edges::new();
    for q in 0..a.n() {
        for (c, t) in a.tr[q].iter().enumerate() {
            for &r in t {
                m.entry((q, r)).or_default().push(a.alpha[c].clone());
            }
        }
        for &r in &a.eps[q] {
            m.entry((q, r)).or_default().push("ε".into());
        }
    }
    for v in m.values_mut() {
        v.sort();
    }
    m
}

/// the symbols of a label; None if a symbol itself has a comma
fn same_label(text: &str, want: &[String]) -> bool {
    if want.iter().any(|s| s.contains(',')) {
        return text.chars().count() == want.join(", ").chars().count();
    }
    let mut got: Vec<&str> = text.split(", ").collect();
    got.sort();
    got == want
}

enum Thing {
    D(dandy::dfa::Dfa),
    N(dandy::nfa::Nfa),
}

impl Thing {
    fn new(a: &Aut, dfa: bool) -> R<Thing> {
        Ok(if dfa { Thing::D(load_dfa(a)?) } else { Thing::N(load_nfa(a)?) })
    }
    fn art(&self) -> String {
        match self {
            Thing::D(d) => dandy_draw::dfa_ascii_art(d),
            Thing::N(d) => dandy_draw::nfa_ascii_art(d),
        }
    }
    #[cfg(feature = "egui")]
    /// draws on the library's egui surface: the calls that would show the same
    fn draw_egui(&self, context: &egui::Context, opts: Option<DrawOptions>) -> Vec<Call> {
        on_egui(context, |d| match (self, opts) {
            (Thing::D(x), Some(o)) => dandy_draw::draw_dfa_with_opts(x, d, o),
            (Thing::N(x), Some(o)) => dandy_draw::draw_nfa_with_opts(x, d, o),
            (Thing::D(x), None) => dandy_draw::draw_dfa(x, d),
            (Thing::N(x), None) => dandy_draw::draw_nfa(x, d),
        })
    }
    fn draw(&self, opts: Option<DrawOptions>) -> Vec<Call> {
        #[cfg(feature = "egui")]
        if let Some(c) = EGUI.with(|e| e.borrow().clone()) {
            return self.draw_egui(&c, opts);
        }
        #[cfg(feature = "web")]
        if let Some(w) = WEB.with(|w| w.get()) {
            return on_web(w, |d| match (self, opts) {
                (Thing::D(x), Some(o)) => dandy_draw::draw_dfa_with_opts(x, d, o),
                (Thing::N(x), Some(o)) => dandy_draw::draw_nfa_with_opts(x, d, o),
                (Thing::D(x), None) => dandy_draw::draw_dfa(x, d),
                (Thing::N(x), None) => dandy_draw::draw_nfa(x, d),
            });
        }
        let mut r = Rec(vec![], [0; 3]);
        match (self, opts) {
            (Thing::D(d), Some(o)) => dandy_draw::draw_dfa_with_opts(d, &mut r, o),
            (Thing::N(d), Some(o)) => dandy_draw::draw_nfa_with_opts(d, &mut r, o),
            (Thing::D(d), None) => dandy_draw::draw_dfa(d, &mut r),
            (Thing::N(d), None) => dandy_draw::draw_nfa(d, &mut r),
        }
        r.0
    }
}

// ---------------------------------------------------------------------------------------------------------------
// P24

fn read_art(a: &Aut, art: &str, ctx: &mut Ctx) -> R {
    let how = || format!("drawing of\n{}is\n{art}\n", a.show());
    let all: Vec<Vec<char>> = art.split('\n').map(|l| l.chars().collect()).collect();
    let (last, rest) = all.split_last().unwrap();
    let w = a.names.iter().map(|s| s.chars().count()).max().unwrap();
    let (mut at, mut left, mut right) = (0, vec![], vec![]);
    for q in 0..a.n() {
        // what is left of a state: blanks and, at the initial state, the entry arrow
        let lead: String = last[at..].iter().take_while(|c| " ->".contains(**c)).collect();
        at += lead.chars().count();
        ensure!(lead.trim() == if q == a.init { "->" } else { "" }, "{}{lead:?} to the left of state {q}", how());
        left.push(at + 2);
        right.push(at + 3 + w);
        let pad = " ".repeat(w - a.names[q].chars().count());
        let (o, c) = if a.acc[q] { ("((", "))") } else { ("( ", " )") };
        let cell = format!("{o} {}{pad} {c}", a.names[q]);
        let end = last.len().min(at + cell.chars().count());
        ensure!(last[at..end].iter().collect::<String>() == cell, "{}state {q} should look like {cell:?}", how());
        at = end;
    }
    ensure!(last[at..].iter().all(|c| *c == ' '), "{}something right of the last state", how());
    ensure!(rest.len() % 2 == 0, "{}an odd number of lines above the states", how());
    let want = edges(a);
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    // the columns that lead down from the ends of the arrows above
    let mut legs: BTreeSet<usize> = BTreeSet::new();
    for (level, pair) in rest.chunks(2).enumerate() {
        ctx.transitions += 1;
        let mut spans: Vec<(usize, usize)> = vec![];
        let (top, bot) = (&pair[0], &pair[1]);
        let n = a.n();
        // regions a top line passes: over a state (left..=right), between states (right+1..left)
        let region = |x: usize| -> (usize, bool) {
            let q = (0..n).rev().find(|q| left[*q] <= x).unwrap_or(0);
            (q, x <= right[q])
        };
        for &x in &legs {
            ensure!(pair[0].get(x).is_some_and(|c| "|-<>".contains(*c)), "{}line {level}: an arrow above does not lead down at {x}", how());
        }
        for (x, c) in pair[0].iter().enumerate() {
            ensure!(*c != '|' || legs.contains(&x), "{}line {level}: a line at {x} leads up to no arrow", how());
        }
        let mut labels: Vec<(usize, usize)> = vec![];
        let mut x = 0;
        // a label that is too long may run into what is right of it
        let mut spilt = false;
        while x < top.len() {
            if !"-<>".contains(top[x]) {
                ensure!(top[x] == ' ' || top[x] == '|', "{}line {level}: {:?} at {x}", how(), top[x]);
                x += 1;
                continue;
            }
            let start = x;
            while x < top.len() && "-<>".contains(top[x]) {
                x += 1;
            }
            let end = x - 1;
            // an arrow may be followed by a loop on its right end; they share that column
            let heads: Vec<usize> = (start..=end).filter(|x| top[*x] != '-').collect();
            ensure!((1..=2).contains(&heads.len()), "{}line {level}: arrows overlap or have no head at {start}..={end}", how());
            let (mut s, mut loops) = (heads.clone(), None);
            if let Some(i) = s.iter().position(|x| region(*x).1) {
                loops = Some(region(s.remove(i)).0);
            }
            ensure!(s.len() + loops.is_some() as usize == heads.len() && s.len() <= 1, "{}line {level}: arrows overlap at {start}..={end}", how());
            let stop = match loops {
                Some(q) => {
                    ensure!(right[q] == end, "{}line {level}: the loop at {} does not end on its state", how(), end);
                    *seen.entry((q, q)).or_default() += 1;
                    left[q]
                }
                None => end,
            };
            spans.extend([(start, stop), (stop, end)]);
            let Some(h) = s.first() else {
                ensure!(start == stop, "{}line {level}: the loop at {start} does not begin on its state", how());
                continue;
            };
            let (Some(l), Some(r)) = ((0..n).find(|q| right[*q] == start), (0..n).find(|q| left[*q] == stop)) else {
                fail!("{}line {level}: the arrow {start}..={stop} does not join two states", how())
            };
            let (from, to) = if top[*h] == '>' { (l, r) } else { (r, l) };
            ensure!(l < r, "{}line {level}: the arrow {start}..={stop} joins no two states", how());
            *seen.entry((from, to)).or_default() += 1;
            if let Some(sy) = want.get(&(from, to)) {
                let len = sy.join(", ").chars().count();
                let room = stop - start - 1;
                if len > room || sy.iter().any(|s| s.contains('\n')) {
                    spilt = true;
                } else if !spilt {
                    ctx.traces += 1;
                    labels.push((start + 1, start + len));
                    let text: String = bot[start + 1..start + 1 + len].iter().collect();
                    ensure!(same_label(&text, sy), "{}the arrow {from} to {to} is labelled {text:?} instead of {sy:?}", how());
                    ensure!(
                        bot[start + 1 + len..stop].iter().all(|c| *c == ' ' || *c == '|'),
                        "{}something after the label of the arrow {from} to {to}",
                        how()
                    );
                    ensure!(bot[start] == '|' && bot[stop] == '|', "{}no ends under the arrow {from} to {to}", how());
                }
            }
        }
        for &x in legs.iter().filter(|_| !spilt) {
            // labels are written over what leads down through them
            let labelled = labels.iter().any(|(s, e)| *s <= x && x <= *e);
            ensure!(labelled || bot.get(x) == Some(&'|'), "{}line {level}: an arrow above does not lead down at {x}", how());
        }
        for x in spans.iter().flat_map(|(s, e)| [*s, *e]) {
            ensure!(spilt || bot.get(x) == Some(&'|'), "{}line {level}: nothing leads down from the end of the arrow at {x}", how());
            legs.insert(x);
        }
        for (x, c) in bot.iter().enumerate().filter(|_| !spilt) {
            let known = *c == ' ' || *c == '|' && legs.contains(&x) || labels.iter().any(|(s, e)| *s <= x && x <= *e);
            ensure!(known, "{}line {level}: {c:?} at {x} belongs to no arrow", how());
        }
    }
    for k in want.keys() {
        let n = seen.get(k).copied().unwrap_or(0);
        ensure!(n == 1, "{}{n} arrows from state {} to state {}", how(), k.0, k.1);
    }
    for k in seen.keys() {
        ensure!(want.contains_key(k), "{}an arrow from state {} to state {} without a transition", how(), k.0, k.1);
    }
    ctx.states += 1;
    Ok(())
}

fn check_art(a: &Aut, dfa: bool, ctx: &mut Ctx) -> R {
    let t = Thing::new(a, dfa)?;
    let art = t.art();
    ctx.sample(|| format!("\n{art}"));
    ctx.traces += 1;
    read_art(a, &art, ctx)
}

const SYMS: &[[&str; 4]] = &[
    ["a", "b", "c", "d"],
    ["a_long_symbol", "b", "another", "d"],
    ["日本", "語", "ε'", "é"],
    ["e\u{301}", "👨\u{200d}👩\u{200d}👧", "क्षि", "b"],
    ["|", "-", "<", ">"],
    ["a_symbol_longer_than_the_whole_drawing_can_be_even_with_several_states_in_it_and_more_text_to_be_sure_of_it_", "(", ")", ","],
];
const NAMED: &[[&str; 6]] = &[
    ["s", "t", "u", "v", "w", "x"],
    ["s0", "s10", "s", "long_state_name", "y", "z"],
    ["日本", "é", "e\u{301}\u{302}", "q₀", "ε'", "ß"],
    ["((", "))", "|", "-", ">", "<"],
    ["(0,1)", "(10,2)", "s_new", "3", "none", "(,)"],
];
const DRESSES: u64 = (SYMS.len() * NAMED.len()) as u64;

fn dress(a: &mut Aut, i: u64) {
    let (s, n) = (&SYMS[(i % SYMS.len() as u64) as usize], &NAMED[(i / SYMS.len() as u64 % NAMED.len() as u64) as usize]);
    let k = a.k();
    a.alpha = (0..k).map(|c| s.get(c).map(|x| x.to_string()).unwrap_or(format!("x{c}"))).collect();
    a.names = (0..a.n()).map(|q| n.get(q).map(|x| x.to_string()).unwrap_or(format!("z{q}"))).collect();
}

type Check = fn(&Aut, bool, &mut Ctx) -> R;

/// automata, each dressed in `per` of the name and symbol styles (all of them if 0)
fn drawn(th: bool, f: Check) -> Vec<Family> {
    let mut v = vec![];
    let mut add = |name: String, len: u64, per: u64, dfa: bool, get: Box<dyn Fn(u64) -> Aut + Send + Sync>| {
        let per = if per == 0 { DRESSES } else { per };
        v.push(family(format!("{name} x {per} styles of names and symbols"), len * per, move |i, ctx| {
            let mut a = get(i / per);
            dress(&mut a, if per == DRESSES { i % per } else { i / per * 7 + i % per });
            f(&a, dfa, ctx)
        }));
    };
    for (n, k, per) in [(1, 1, 0), (2, 1, 0), (1, 3, 0), (2, 2, 0), (3, 1, 0), (1, 4, 0)] {
        add(format!("all DFAs n={n} k={k}"), dfa_len(n, k), per, true, Box::new(move |i| dfa(n as usize, k as usize, i)));
    }
    if th {
        add("all DFAs n=3 k=2".into(), dfa_len(3, 2), 2, true, Box::new(|i| dfa(3, 2, i)));
        add("all DFAs n=4 k=1".into(), dfa_len(4, 1), 3, true, Box::new(|i| dfa(4, 1, i)));
        add("all DFAs n=5 k=1".into(), dfa_len(5, 1), 1, true, Box::new(|i| dfa(5, 1, i)));
    } else {
        add("all DFAs n=3 k=2".into(), dfa_len(3, 2), 1, true, Box::new(|i| dfa(3, 2, i)));
        add("all DFAs n=4 k=1".into(), dfa_len(4, 1), 1, true, Box::new(|i| dfa(4, 1, i)));
    }
    let ne = if th {
        vec![(1u64, 0u64, 1u64, 0u64), (2, 0, 2, 0), (2, 1, 2, 0), (2, 1, 3, 0), (2, 2, 3, 0), (3, 0, 4, 0), (3, 1, 3, 6), (3, 1, 4, 2), (4, 0, 4, 1), (4, 1, 3, 1), (5, 0, 3, 3), (5, 0, 4, 1)]
    } else {
        vec![(1, 0, 1, 0), (2, 0, 2, 0), (2, 1, 2, 0), (2, 1, 3, 2), (2, 2, 2, 3), (3, 0, 3, 2), (3, 1, 2, 3), (4, 0, 3, 1), (5, 0, 2, 1)]
    };
    for (n, k, e, per) in ne {
        add(
            format!("all NFAs n={n} k={k} with exactly {e} edges"),
            nfa_edges_len(n, k, true, e),
            per,
            false,
            Box::new(move |i| nfa_edges(n as usize, k as usize, true, e, i)),
        );
    }
    // every set of arrows: all graphs
    let graphs = |n: usize| move |i: u64| {
        let mut d = Dec(i);
        let mut a = dressed(0, n, 1);
        a.init = d.take(n as u64);
        for q in 0..n {
            a.acc[q] = (q + a.init) % 2 == 0;
            for r in 0..n {
                if d.bits(1) == 1 {
                    a.tr[q][0].push(r);
                }
            }
        }
        a
    };
    for (n, per) in [(2usize, 0u64), (3, if th { 0 } else { 3 })] {
        add(format!("all graphs of {n} states"), n as u64 * (1 << (n * n)), per, false, Box::new(graphs(n)));
    }
    add(
        "all graphs of 4 states".into(),
        if th { 4 << 16 } else { 1 << 16 },
        1,
        false,
        Box::new(move |i| graphs(4)(if th { i } else { i * 4 + i % 4 })),
    );
    let nb = NFA_BASES.len() as u64;
    let edits = if th { 2 } else { 1 };
    for n in [6u64, 9] {
        let per = nfa_dev_len(n, 2, edits) / nb;
        let _ = per;
        add(
            format!("NFA bases n={n} k=2 with <= {edits} edits"),
            nfa_dev_len(n, 2, edits).min(if th { u64::MAX } else { 60_000 }),
            1,
            false,
            Box::new(move |i| nfa_dev(n as usize, 2, edits, i)),
        );
    }
    let nb = DFA_BASES.len() as u64;
    add(
        "DFA bases with up to 14 states and 6 symbols from every initial state".into(),
        nb * 14 * 6 * 14,
        1,
        true,
        Box::new(move |i| {
            let mut d = Dec(i);
            let (b, n, k, q) = (d.take(nb), d.take(14) + 1, d.take(6) + 1, d.take(14));
            let mut a = dfa_base(DFA_BASES[b], n, k);
            a.init = q % n;
            a
        }),
    );
    // larger ones
    let few = [15usize, 16, 17, 31, 33, 64, 65, 127, 129, 256, 257, 300, 513];
    let top = if th { 13 } else { 12 };
    add(
        format!("DFA bases of 15..={} states around the powers of two, k<=2, four variants", few[top - 1]),
        nb * top as u64 * 2 * 4,
        1,
        true,
        Box::new(move |i| {
            let mut d = Dec(i);
            let (b, x, k, n) = (d.take(nb), d.take(4), d.take(2) + 1, few[d.take(top as u64)]);
            big_variant(dfa_base(DFA_BASES[b], n, k), x)
        }),
    );
    let nn = BIG_NFA.len() as u64;
    let top = if th { 12 } else { 9 };
    add(
        format!("NFA shapes of 15..={} states around the powers of two, k<=2, four variants", few[top - 1]),
        nn * top as u64 * 2 * 4,
        1,
        false,
        Box::new(move |i| {
            let mut d = Dec(i);
            let (b, x, k, n) = (d.take(nn), d.take(4), d.take(2) + 1, few[d.take(top as u64)]);
            // arrows between all states need too much room
            let n = if BIG_NFA[b] == "full" { n.min(17) } else { n };
            big_variant(big_nfa(BIG_NFA[b], n, k), x)
        }),
    );
    add(
        "n=3 over 4..=258 symbols".into(),
        WIDE * WIDTHS.len() as u64,
        1,
        true,
        Box::new(|i| wide(i % WIDE, WIDTHS[(i / WIDE) as usize], true)),
    );
    add(
        "NFAs n=3 over 4..=258 symbols".into(),
        WIDE * WIDTHS.len() as u64,
        1,
        false,
        Box::new(|i| wide(i % WIDE, WIDTHS[(i / WIDE) as usize], false)),
    );
    v.push(family(format!("{} in a name and in a symbol", chars_name(th)), chars_len(th), move |i, ctx| {
        let c = nth_char(th, i);
        if c.is_whitespace() || ['#', '{', '}'].contains(&c) {
            return Ok(());
        }
        let mut a = dfa_base("cycle", 3, 2);
        a.tr[1][1] = vec![0];
        a.names = vec![format!("x{c}"), "longer".into(), format!("{c}é")];
        a.alpha = vec![format!("{c}y"), "b".into()];
        f(&a, true, ctx)
    }));
    // one long name or symbol
    let lengths = if th { 700 } else { 300 };
    v.push(family(
        format!("four states, one name or symbol of every length up to {lengths}, in three scripts"),
        lengths * 8 * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let (w, c, l) = (d.take(8), ["x", "日", "é"][d.take(3)], d.take(lengths) + 1);
            let mut a = nfa_base("chain", 4, 3);
            a.tr[0][2] = vec![3];
            a.tr[3][2] = vec![1];
            a.tr[2][0].push(2);
            a.tr[2][0].sort();
            a.tr[2][0].dedup();
            a.alpha = ["a", "b", "c"].map(String::from).to_vec();
            a.names = ["s", "t", "u", "v"].map(String::from).to_vec();
            let long = c.repeat(l);
            match w {
                0..=3 => a.names[w] = long,
                4..=6 => a.alpha[w - 4] = long,
                _ => {
                    a.names[1] = "n".repeat(l / 3 + 1);
                    a.alpha[1] = long;
                }
            }
            f(&a, false, ctx)
        },
    ));
    v
}

pub fn p24(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = drawn(th, check_art);
    // symbols only an expression can have: drawing must succeed
    let texts = ["a\nb", "\\*", "( |\t)+x", "ε", "∅", "\\ε|\\∅", "\u{200b}a", "a\r\nb*"];
    v.push(family("expressions with symbols no table has", texts.len() as u64, move |i, ctx| {
        let n = parse_regex(texts[i as usize]).map_err(Fail::new)?.to_nfa();
        let a = obs_nfa(&n)?;
        ctx.traces += 2;
        let art = dandy_draw::nfa_ascii_art(&n);
        if !a.alpha.iter().any(|s| s.contains('\n')) {
            read_art(&a, &art, ctx)?;
        }
        let d = n.to_dfa();
        let b = obs_dfa(&d)?;
        let art = dandy_draw::dfa_ascii_art(&d);
        if !b.alpha.iter().any(|s| s.contains('\n')) {
            read_art(&b, &art, ctx)?;
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P25

#[derive(Clone, Debug)]
pub(super) enum Call {
    Start,
    Finish,
    Circle((f32, f32), f32, f32, [u8; 3]),
    Text((f32, f32), String, [u8; 3]),
    Rect((f32, f32), (f32, f32)),
    Line((f32, f32), (f32, f32), f32, [u8; 3]),
    #[cfg(any(feature = "egui", feature = "web"))]
    Other(String),
}
/// whether two calls show the same: a line looks the same from either end
impl PartialEq for Call {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Call::Start, Call::Start) | (Call::Finish, Call::Finish) => true,
            (Call::Circle(p, r, w, c), Call::Circle(q, s, x, d)) => (p, r, w, c) == (q, s, x, d),
            (Call::Text(p, t, c), Call::Text(q, u, d)) => (p, t, c) == (q, u, d),
            (Call::Rect(p, s), Call::Rect(q, t)) => (p, s) == (q, t),
            (Call::Line(p, q, w, c), Call::Line(r, s, x, d)) => (w, c) == (x, d) && ((p, q) == (r, s) || (p, q) == (s, r)),
            #[cfg(any(feature = "egui", feature = "web"))]
            (Call::Other(a), Call::Other(b)) => a == b,
            _ => false,
        }
    }
}

/// records what is drawn, each with the colour it is drawn in
struct Rec(Vec<Call>, [u8; 3]);

#[cfg(feature = "egui")]
thread_local! {
    /// if set, drawings are made on the egui surface
    static EGUI: std::cell::RefCell<Option<egui::Context>> = const { std::cell::RefCell::new(None) };
    static CONTEXT: egui::Context = egui::Context::default();
}

/// the same family, drawing on the egui surface
#[cfg(feature = "egui")]
fn surface(f: Family) -> Family {
    let run = f.run;
    family(format!("on the egui surface: {}", f.name), f.len, move |i, ctx| {
        EGUI.with(|e| *e.borrow_mut() = Some(CONTEXT.with(|c| c.clone())));
        let r = run(i, ctx);
        EGUI.with(|e| *e.borrow_mut() = None);
        r
    })
}

/// how the drawing surface of a web canvas is made
#[cfg(feature = "web")]
#[derive(Clone, Copy, Debug, PartialEq)]
enum Web {
    Context,
    Canvas,
}

#[cfg(feature = "web")]
thread_local! {
    /// if set, drawings are made on a web canvas
    static WEB: std::cell::Cell<Option<Web>> = const { std::cell::Cell::new(None) };
}

/// the same family, drawing on a web canvas
#[cfg(feature = "web")]
fn web(w: Web, f: Family) -> Family {
    let run = f.run;
    let name = match w {
        Web::Context => "on the context of a web canvas",
        Web::Canvas => "on a web canvas",
    };
    family(format!("{name}: {}", f.name), f.len, move |i, ctx| {
        WEB.with(|e| e.set(Some(w)));
        let r = run(i, ctx);
        WEB.with(|e| e.set(None));
        r
    })
}

fn xy(p: Pos2) -> (f32, f32) {
    (p.x, p.y)
}

impl Drawer for Rec {
    fn start_drawing(&mut self) {
        self.0.push(Call::Start);
    }
    fn finish_drawing(&mut self) {
        self.0.push(Call::Finish);
    }
    fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
        self.0.push(Call::Circle(xy(pos), radius, thickness, self.1));
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        self.0.push(Call::Text(xy(pos), text.to_string(), self.1));
    }
    fn draw_rect(&mut self, upper_left: Pos2, size: Pos2) {
        self.0.push(Call::Rect(xy(upper_left), xy(size)));
    }
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32) {
        self.0.push(Call::Line(xy(from), xy(to), thickness, self.1));
    }
    fn set_color(&mut self, rgb: [u8; 3]) {
        self.1 = rgb;
    }
}

/// the numbers of the options, as the model needs them
#[derive(Clone, Debug)]
pub(super) struct Opt {
    /// in the order of OPTIONS
    v: [f32; NOPT],
    end: bool,
    middle: bool,
    scale: (f32, f32),
    offset: (f32, f32),
    colors: bool,
}

const NOPT: usize = 15;
const VALS: usize = 3;
/// name, default, other values: smaller and larger than the default, and than the options it is compared with
const OPTIONS: [(&str, f32, [f32; VALS]); NOPT] = [
    ("center_line_padding", 20.0, [44.0, 9.0, 110.0]),
    ("circle_radius", 30.0, [27.5, 20.0, 61.0]),
    ("circle_width", 2.0, [7.0, 0.5, 0.0]),
    ("accepting_circle_radius", 25.0, [11.0, 41.0, 30.0]),
    ("accepting_circle_width", 2.0, [4.5, 0.5, 0.0]),
    ("init_arrow_length", 50.0, [31.0, 3.0, 140.0]),
    ("init_arrow_arms_length", 15.0, [9.0, 37.0, 2.0]),
    ("init_arrow_width", 3.0, [1.0, 11.0, 0.0]),
    ("trans_arrow_arms_length", 5.0, [3.0, 12.25, 1.0]),
    ("trans_line_width", 3.0, [8.0, 0.25, 0.0]),
    ("from_line_offset", 15.0, [8.0, 22.0, 34.0]),
    ("to_line_offset", 15.0, [22.0, 8.0, 11.0]),
    ("floor_height", 25.0, [60.0, 9.5, 200.0]),
    ("text_margin", 15.0, [6.0, 0.0, 40.0]),
    ("line_circle_margin", 10.0, [33.0, 2.0, 100.0]),
];

impl Opt {
    pub(super) fn default() -> Opt {
        let mut v = [0.0; NOPT];
        for (i, o) in OPTIONS.iter().enumerate() {
            v[i] = o.1;
        }
        Opt { v, end: true, middle: true, scale: (1.0, 1.0), offset: (0.0, 0.0), colors: false }
    }
    fn real(&self) -> DrawOptions {
        let v = &self.v;
        let o = DrawOptions::default()
            .with_x_scale(self.scale.0)
            .with_y_scale(self.scale.1)
            .with_x_offset(self.offset.0)
            .with_y_offset(self.offset.1)
            .with_center_line_padding(v[0])
            .with_circle_radius(v[1])
            .with_circle_width(v[2])
            .with_accepting_circle_radius(v[3])
            .with_accepting_circle_width(v[4])
            .with_init_arrow_length(v[5])
            .with_init_arrow_arms_length(v[6])
            .with_init_arrow_width(v[7])
            .with_trans_arrow_arms_length(v[8])
            .with_trans_line_width(v[9])
            .with_from_line_offset(v[10])
            .with_to_line_offset(v[11])
            .with_floor_height(v[12])
            .with_text_margin(v[13])
            .with_line_circle_margin(v[14])
            .with_end_arrow(self.end)
            .with_middle_arrow(self.middle);
        if self.colors {
            let [t, c, l] = self.rgb();
            o.with_text_color(t).with_circle_color(c).with_line_color(l)
        } else {
            o
        }
    }
    /// of texts, circles and lines
    fn rgb(&self) -> [[u8; 3]; 3] {
        if self.colors {
            [[1, 2, 3], [4, 5, 6], [7, 8, 9]]
        } else {
            [[255, 255, 255], [150, 255, 255], [0, 255, 255]]
        }
    }
}

fn near(a: f32, b: f32) -> bool {
    (a - b).abs() <= 0.01 + 1e-5 * (a.abs() + b.abs())
}
fn at(p: (f32, f32), q: (f32, f32)) -> bool {
    near(p.0, q.0) && near(p.1, q.1)
}

/// reads the calls of a drawing without offset and scale
pub(super) fn read_calls(a: &Aut, calls: &[Call], o: &Opt, ctx: &mut Ctx) -> R {
    let how = || format!("drawing of\n{}under {o:?} is\n{}\n", a.show(), calls.iter().map(|c| format!("{c:?}\n")).collect::<String>());
    ensure!(
        calls.first() == Some(&Call::Start)
            && calls.last() == Some(&Call::Finish)
            && calls.iter().filter(|c| matches!(c, Call::Start | Call::Finish)).count() == 2,
        "{}not started or not finished",
        how()
    );
    let n = a.n();
    // states
    let mut centers: Vec<((f32, f32), Vec<(f32, f32)>)> = vec![];
    let [text_color, circle_color, line_color] = o.rgb();
    let mut widths: Vec<f32> = vec![];
    let mut texts: Vec<((f32, f32), &str)> = vec![];
    let mut lines: Vec<((f32, f32), (f32, f32))> = vec![];
    for c in calls {
        match c {
            Call::Circle(p, r, w, c) => {
                ensure!(*c == circle_color, "{}a circle in colour {c:?}", how());
                match centers.iter_mut().find(|x| at(x.0, *p)) {
                    Some(x) => x.1.push((*r, *w)),
                    None => centers.push((*p, vec![(*r, *w)])),
                }
            }
            Call::Text(p, t, c) => {
                ensure!(*c == text_color, "{}{t:?} is written in colour {c:?}", how());
                texts.push((*p, t));
            }
            Call::Line(p, q, w, c) => {
                ensure!(*c == line_color, "{}a line in colour {c:?}", how());
                lines.push((*p, *q));
                widths.push(*w);
            }
            Call::Rect(..) => fail!("{}a rectangle", how()),
            _ => {}
        }
    }
    ensure!(centers.len() == n, "{}{} states are drawn", how(), centers.len());
    let cy = centers[0].0 .1;
    for q in 0..n {
        let (p, r) = &centers[q];
        ensure!(near(p.1, cy), "{}state {q} is not on the line of the states", how());
        let want = if a.acc[q] { 2 } else { 1 };
        ensure!(r.len() == want, "{}{} circles for state {q}, which is {}accepting", how(), r.len(), if a.acc[q] { "" } else { "not " });
        let (outer, inner) = ((o.v[1], o.v[2]), (o.v[3], o.v[4]));
        ensure!(
            if want == 1 { at(r[0], outer) } else { (at(r[0], outer) && at(r[1], inner)) || (at(r[0], inner) && at(r[1], outer)) },
            "{}the circles of state {q} have radiuses and widths {r:?}",
            how()
        );
        if q > 0 {
            let d = p.0 - centers[q - 1].0 .0;
            ensure!(near(d, 2.0 * o.v[1] + o.v[0]), "{}states are not in order and evenly spaced", how());
        }
        let i = texts.iter().position(|t| at(t.0, *p));
        let Some(i) = i else { fail!("{}no name on state {q}", how()) };
        ensure!(texts[i].1 == a.names[q], "{}{:?} on state {q}", how(), texts[i].1);
        texts.remove(i);
    }
    let cx: Vec<f32> = centers.iter().map(|c| c.0 .0).collect();
    // the states a line leads from and to, by where its two ends are
    let from = |x: f32| (0..n).find(|q| near(cx[*q] + o.v[10], x));
    let to = |x: f32| (0..n).find(|q| near(cx[*q] - o.v[11], x));
    let arms = |(dx, dy): (f32, f32), len: f32| near(dx.abs(), len) && near(dy.abs(), len);
    let vertical = |l: &((f32, f32), (f32, f32))| near(l.0 .0, l.1 .0) && !near(l.0 .1, l.1 .1);
    let level = |l: &((f32, f32), (f32, f32))| near(l.0 .1, l.1 .1) && !near(l.0 .0, l.1 .0);
    let slanted = |l: &((f32, f32), (f32, f32))| !near(l.0 .1, l.1 .1) && !near(l.0 .0, l.1 .0);
    let mut used = vec![false; lines.len()];
    // the entry arrow from below
    let below: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].0 .1 > cy + 0.01 && lines[*i].1 .1 > cy + 0.01).collect();
    // those that belong to the arrow from the left are at the height of the states, left of all
    let edge = cx[0] - o.v[1];
    let entry = |l: &((f32, f32), (f32, f32))| l.0 .0 < edge + 0.01 && l.1 .0 < edge + 0.01;
    let below: Vec<usize> = below.into_iter().filter(|i| !entry(&lines[*i]) || (a.init == 0 && near(lines[*i].0 .0, cx[0]))).collect();
    let shaft: Vec<usize> = below.iter().copied().filter(|i| vertical(&lines[*i])).collect();
    ensure!(shaft.len() == 1, "{}{} entry arrows", how(), shaft.len());
    let s = lines[shaft[0]];
    let tip = if s.0 .1 < s.1 .1 { s.0 } else { s.1 };
    ensure!(near((s.0 .1 - s.1 .1).abs(), o.v[5]), "{}the entry arrow does not have the length asked for", how());
    ensure!(near(tip.0, cx[a.init]) && tip.1 >= cy + o.v[1] - 0.01, "{}the entry arrow is not below state {}", how(), a.init);
    let heads: Vec<usize> = below.iter().copied().filter(|i| slanted(&lines[*i]) && (at(lines[*i].0, tip) || at(lines[*i].1, tip))).collect();
    ensure!(heads.len() == 2 && below.len() == 3, "{}the entry arrow has {} head lines", how(), heads.len());
    for i in &heads {
        let arm = if at(lines[*i].0, tip) { lines[*i].1 } else { lines[*i].0 };
        ensure!(arms((arm.0 - tip.0, arm.1 - tip.1), o.v[6]) && arm.1 > tip.1, "{}the head of the entry arrow has a line to {arm:?}", how());
    }
    for i in below {
        ensure!(near(widths[i], o.v[7]), "{}the entry arrow has width {}", how(), widths[i]);
        used[i] = true;
    }
    // transitions
    let want = edges(a);
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut heights: Vec<(f32, f32, f32)> = vec![];
    let (mut in_foot, mut out_foot): (Vec<Option<(f32, f32)>>, Vec<Option<(f32, f32)>>) = (vec![None; n], vec![None; n]);
    let bars: Vec<usize> = (0..lines.len()).filter(|i| level(&lines[*i]) && lines[*i].0 .1 < cy - 0.01).collect();
    ensure!(bars.len() == want.len(), "{}{} connecting lines for {} pairs of states", how(), bars.len(), want.len());
    let other = |i: usize, p: (f32, f32)| {
        if at(lines[i].0, p) {
            Some(lines[i].1)
        } else if at(lines[i].1, p) {
            Some(lines[i].0)
        } else {
            None
        }
    };
    for b in bars {
        used[b] = true;
        ensure!(near(widths[b], o.v[9]), "{}a connecting line has width {}", how(), widths[b]);
        let (p, q) = if lines[b].0 .0 < lines[b].1 .0 { lines[b] } else { (lines[b].1, lines[b].0) };
        let ends = match (from(p.0), to(q.0), to(p.0), from(q.0)) {
            (Some(l), Some(r), ..) if l < r => Some((l, r)),
            (.., Some(l), Some(r)) if l == r => Some((l, r)),
            _ => None,
        };
        let Some((l, r)) = ends else {
            fail!("{}the connecting line from {} to {} does not run between the offsets of two states", how(), p.0, q.0)
        };
        let y = p.1;
        for (l, r, h) in &heights {
            ensure!(!near(*h, y) || q.0 <= *l + 0.01 || p.0 >= *r - 0.01, "{}two connecting lines overlap at height {y}", how());
        }
        heights.push((p.0, q.0, y));
        // down to the states
        let mut foot = vec![];
        for end in [p, q] {
            let i = (0..lines.len()).find(|i| !used[*i] && vertical(&lines[*i]) && other(*i, end).is_some());
            let Some(i) = i else { fail!("{}the connecting line at height {y} does not come down at {}", how(), end.0) };
            used[i] = true;
            ensure!(near(widths[i], o.v[9]), "{}a connecting line has width {}", how(), widths[i]);
            let f = other(i, end).unwrap();
            ensure!(near(cy - o.v[1] - f.1, o.v[14]), "{}a line ends {} above the circles", how(), cy - o.v[1] - f.1);
            let floors = (f.1 - y) / o.v[12];
            ensure!(near(floors, floors.round()) && floors > 0.5, "{}a connecting line is {floors} floors up", how());
            ensure!(f.1 > y && f.1 < cy - o.v[1] + 0.01, "{}the connecting line at {} does not end above the states", how(), end.0);
            foot.push(f);
        }
        let label = ((p.0 + q.0) / 2.0, y - o.v[13]);
        let mut mid = vec![];
        for i in 0..lines.len() {
            if used[i] || !slanted(&lines[i]) {
                continue;
            }
            // in the middle of the line: the tip lies on it
            for (tip, arm) in [(lines[i].0, lines[i].1), (lines[i].1, lines[i].0)] {
                if !used[i]
                    && near(tip.1, y)
                    && (tip.0 - label.0).abs() <= o.v[8] + 0.01
                    && tip.0 > p.0 - 0.01
                    && tip.0 < q.0 + 0.01
                {
                    used[i] = true;
                    ensure!(
                        arms((arm.0 - tip.0, arm.1 - tip.1), o.v[8]) && near(widths[i], o.v[9]),
                        "{}the middle head at {tip:?} has a line to {arm:?} of width {}",
                        how(),
                        widths[i]
                    );
                    mid.push((arm.0 - tip.0, arm.1 - tip.1));
                }
            }
        }
        for (s, f) in [(l, foot[0]), (r, foot[1])] {
            // loops go from one side of a state to its other
            let side = if f.0 > cx[s] { &mut out_foot[s] } else { &mut in_foot[s] };
            ensure!(side.is_none_or(|g| at(g, f)), "{}lines end at different points of one side of state {s}", how());
            *side = Some(f);
        }
        let i = texts.iter().position(|t| at(t.0, label));
        let Some(i) = i else { fail!("{}no label at {label:?}", how()) };
        let t = texts.remove(i);
        let fits = |k: &(usize, usize)| want.get(k).is_some_and(|w| same_label(t.1, w));
        let key = if o.middle {
            ensure!(
                mid.len() == 2 && mid[0].0 * mid[1].0 > 0.0 && mid[0].1 * mid[1].1 < 0.0,
                "{}no middle arrow head on the line at {:?}",
                how(),
                p
            );
            if mid[0].0 < 0.0 {
                (l, r)
            } else {
                (r, l)
            }
        } else {
            ensure!(mid.is_empty(), "{}a middle arrow head on the line at {:?}", how(), p);
            // only the label tells them apart
            if fits(&(l, r)) && !seen.contains_key(&(l, r)) {
                (l, r)
            } else {
                (r, l)
            }
        };
        *seen.entry(key).or_default() += 1;
        ctx.transitions += 1;
        ensure!(
            fits(&key),
            "{}{:?} on the line from state {} to state {} instead of {:?}",
            how(),
            t.1,
            key.0,
            key.1,
            want.get(&key)
        );
    }
    for k in want.keys() {
        let c = seen.get(k).copied().unwrap_or(0);
        ensure!(c == 1, "{}{c} lines from state {} to state {}", how(), k.0, k.1);
    }
    // heads where lines end: on the right side of the target for lines from the right
    for q in 0..n {
        let mut heads = |f: Option<(f32, f32)>| -> usize {
            let Some(f) = f else { return 0 };
            let v: Vec<usize> = (0..lines.len())
                .filter(|i| {
                    !used[*i]
                        && near(widths[*i], o.v[9])
                        && other(*i, f).is_some_and(|t| t.1 < f.1 && arms((t.0 - f.0, t.1 - f.1), o.v[8]))
                })
                .collect();
            for i in &v {
                used[*i] = true;
            }
            v.len()
        };
        let (i, u) = (heads(in_foot[q]), heads(out_foot[q]));
        let from_left = want.keys().filter(|k| k.1 == q && k.0 < q).count() * 2;
        let from_right = want.keys().filter(|k| k.1 == q && k.0 > q).count() * 2;
        let lp = if want.contains_key(&(q, q)) { 2 } else { 0 };
        let ok = if o.end {
            (i == from_left && u == from_right + lp) || (i == from_left + lp && u == from_right)
        } else {
            i + u == 0
        };
        ensure!(ok, "{}{i} and {u} head lines on the left and on the right of state {q}", how());
    }
    ensure!(texts.is_empty(), "{}texts that belong to nothing: {texts:?}", how());
    for (i, l) in lines.iter().enumerate() {
        ensure!(used[i] || entry(l), "{}a line that belongs to nothing: {l:?}", how());
    }
    ctx.states += 1;
    Ok(())
}

/// what the egui surface shows after drawing on it, as calls
#[cfg(feature = "egui")]
fn on_egui(context: &egui::Context, draw: impl FnOnce(&mut dandy_draw::egui::EguiDrawer)) -> Vec<Call> {
    use egui::{LayerId, Painter, Rect, Shape};
    let mut draw = Some(draw);
    let shown = context.run(egui::RawInput::default(), |c| {
        let painter = Painter::new(c.clone(), LayerId::background(), Rect::EVERYTHING);
        (draw.take().expect("one frame"))(&mut dandy_draw::egui::EguiDrawer::new(&painter));
    });
    let xy = |p: egui::Pos2| (p.x, p.y);
    let rgb = |c: egui::Color32| [c.r(), c.g(), c.b()];
    let mut calls = vec![Call::Start];
    let mut shapes: Vec<Shape> = shown.shapes.into_iter().rev().map(|s| s.shape).collect();
    while let Some(s) = shapes.pop() {
        match s {
            Shape::Vec(v) => shapes.extend(v.into_iter().rev()),
            Shape::Circle(c) => calls.push(Call::Circle(xy(c.center), c.radius, c.stroke.width, rgb(c.stroke.color))),
            Shape::LineSegment { points: [p, q], stroke } => calls.push(Call::Line(xy(p), xy(q), stroke.width, rgb(stroke.color))),
            Shape::Path(s) if s.points.len() == 2 => calls.push(Call::Line(xy(s.points[0]), xy(s.points[1]), s.stroke.width, rgb(s.stroke.color))),
            Shape::Text(t) => {
                let own = t.galley.job.sections.first().map_or(egui::Color32::PLACEHOLDER, |s| s.format.color);
                let own = if own == egui::Color32::PLACEHOLDER { t.fallback_color } else { own };
                let color = t.override_text_color.unwrap_or(own);
                calls.push(Call::Text(xy(t.pos + t.galley.size() / 2.0), t.galley.text().to_string(), rgb(color)))
            }
            Shape::Noop => {}
            other => calls.push(Call::Other(format!("{other:?}"))),
        }
    }
    calls.push(Call::Finish);
    calls
}

/// what a web canvas shows, as calls
#[cfg(feature = "web")]
fn painted(c: &web_sys::CanvasRenderingContext2d) -> Vec<Call> {
    use web_sys::Painted::*;
    let p = |p: (f64, f64)| (p.0 as f32, p.1 as f32);
    let mut calls = vec![Call::Start];
    calls.extend(c.take().into_iter().map(|x| match x {
        Line { from, to, width, color } => Call::Line(p(from), p(to), width as f32, color),
        Circle { center, radius, width, color } => Call::Circle(p(center), radius as f32, width as f32, color),
        Text { at, text, color, align, baseline } if align == "center" && baseline == "middle" => Call::Text(p(at), text, color),
        x => Call::Other(format!("{x:?}")),
    }));
    calls.push(Call::Finish);
    calls
}

/// what a web canvas shows after drawing on it, which is not the first time
#[cfg(feature = "web")]
fn on_web(w: Web, draw: impl FnOnce(&mut dandy_draw::canvas::CanvasDrawer)) -> Vec<Call> {
    use dandy_draw::canvas::CanvasDrawer;
    let canvas = web_sys::HtmlCanvasElement::fresh();
    let context = canvas.context();
    let mut d = match w {
        Web::Context => CanvasDrawer::new(context.clone()),
        Web::Canvas => CanvasDrawer::from_element(canvas).expect("a canvas"),
    };
    d.start_drawing();
    d.set_color([1, 2, 3]);
    d.draw_line(dandy_draw::pos2::pos2(3.0, 4.0), dandy_draw::pos2::pos2(5.0, 6.0), 7.0);
    d.finish_drawing();
    context.take();
    draw(&mut d);
    painted(&context)
}

/// where some lines have no width: a canvas shows the others
#[cfg(feature = "web")]
fn check_widths(a: &Aut, dfa: bool, o: &Opt, ctx: &mut Ctx) -> R {
    let shown = draw_on(a, dfa, o.real())?;
    let on = WEB.with(|w| w.take());
    let calls = draw_on(a, dfa, o.real());
    WEB.with(|w| w.set(on));
    let want: Vec<Call> = calls?.into_iter().filter(|c| !matches!(c, Call::Circle(_, _, w, _) | Call::Line(_, _, w, _) if *w == 0.0)).collect();
    ctx.traces += 2;
    ensure!(shown == want, "a canvas shows\n{shown:?}\ninstead of\n{want:?}\nunder {o:?} for\n{}", a.show());
    Ok(())
}

/// through the browser bindings, on the canvases of a page
#[cfg(feature = "web")]
fn check_page(a: &Aut, dfa: bool, ctx: &mut Ctx) -> R {
    use web_sys::{put, Element, HtmlCanvasElement};
    let (one, two) = (HtmlCanvasElement::fresh(), HtmlCanvasElement::fresh());
    put("one", Element::Canvas(one.clone()));
    put("two", Element::Canvas(two.clone()));
    put("text", Element::Other);
    let kind = if dfa { "dfa" } else { "nfa" };
    let handle = if dfa { dandy_wasm::load_dfa(&dfa_text(a)) } else { dandy_wasm::load_nfa(&nfa_text(a)) };
    let handle = handle.map_err(|e| Fail::new(format!("{kind} refused: {e}\n{}", a.show())))?;
    let draw = |h: usize, id: &str| if dfa { dandy_wasm::draw_dfa(h, id) } else { dandy_wasm::draw_nfa(h, id) };
    for (h, id) in [(handle, "three"), (handle, "text"), (handle, ""), (handle + 1, "one"), (handle.wrapping_sub(1), "one")] {
        ensure!(!draw(h, id), "draw_{kind} drew handle {h} (loaded: {handle}) on {id:?} (canvases: one, two) for\n{}", a.show());
    }
    let other = if dfa { dandy_wasm::draw_nfa(handle, "one") } else { dandy_wasm::draw_dfa(handle, "one") };
    ensure!(!other, "drew a {kind} as the other kind for\n{}", a.show());
    ensure!(painted(&one.context()).len() == 2 && painted(&two.context()).len() == 2, "drew in spite of returning false for\n{}", a.show());
    // the first one is drawn on twice
    for (id, to, not) in [("one", &one, &two), ("two", &two, &one), ("one", &one, &two)] {
        ensure!(draw(handle, id), "draw_{kind} did not draw on {id:?} for\n{}", a.show());
        ctx.traces += 1;
        ensure!(painted(&not.context()).len() == 2, "drew on another canvas than {id:?} for\n{}", a.show());
        read_calls(a, &painted(&to.context()), &Opt::default(), ctx)?;
    }
    let gone = if dfa { dandy_wasm::delete_dfa(handle) } else { dandy_wasm::delete_nfa(handle) };
    ensure!(gone && !draw(handle, "one"), "drew a deleted {kind} for\n{}", a.show());
    ensure!(painted(&one.context()).len() == 2, "drew a deleted {kind} for\n{}", a.show());
    Ok(())
}

/// what the page does, one after another
#[cfg(feature = "web")]
const PAGE_OPS: u64 = 14;

/// a history of drawings, changes and replaced canvases: every drawing shows what the handle stands for now, where it should
#[cfg(feature = "web")]
fn check_history(mut code: u64, len: usize, ctx: &mut Ctx) -> R {
    use web_sys::{put, Element, HtmlCanvasElement};
    let (d1, d2) = (dfa_base("twins", 4, 2), dfa_base("chain", 3, 2));
    let (n1, n2) = (d1.clone(), d2.clone());
    let load = |a: &Aut, dfa: bool| {
        let h = if dfa { dandy_wasm::load_dfa(&dfa_text(a)) } else { dandy_wasm::load_nfa(&nfa_text(a)) };
        h.map_err(|e| Fail::new(format!("refused: {e}\n{}", a.show())))
    };
    let mut all = vec![(load(&d1, true)?, true, Some(d1)), (load(&d2, true)?, true, Some(d2)), (load(&n1, false)?, false, Some(n1)), (load(&n2, false)?, false, Some(n2))];
    let ids = ["one", "two"];
    let mut canvases = ids.map(|id| {
        let c = HtmlCanvasElement::fresh();
        put(id, Element::Canvas(c.clone()));
        c
    });
    let mut log = vec![];
    for _ in 0..len {
        let op = (code % PAGE_OPS) as usize;
        code /= PAGE_OPS;
        match op {
            0..=7 => {
                let (h, dfa, ref what) = all[op / 2];
                let id = ids[op % 2];
                log.push(format!("draw {h} on {id}"));
                let drew = if dfa { dandy_wasm::draw_dfa(h, id) } else { dandy_wasm::draw_nfa(h, id) };
                ctx.traces += 1;
                ensure!(drew == what.is_some(), "{log:?}: answers {drew}");
                let shown = painted(&canvases[op % 2].context());
                match what {
                    Some(a) => read_calls(a, &shown, &Opt::default(), ctx).map_err(|e| Fail::new(format!("after {log:?}: {}", e.msg)))?,
                    None => ensure!(shown.len() == 2, "{log:?}: shows {shown:?}"),
                }
            }
            8 => {
                let (h, _, what) = &mut all[0];
                log.push(format!("minimize {h}"));
                let done = dandy_wasm::minimize_dfa(*h);
                ensure!(done == what.is_some(), "{log:?}: answers {done}");
                if let Some(a) = what {
                    let Some(t) = dandy_wasm::dfa_to_table(*h) else { fail!("{log:?}: no table") };
                    let d = parse_dfa(&t).map_err(|e| Fail::new(format!("{log:?}: {e}")))?;
                    *a = obs_dfa(&d)?;
                }
            }
            9 | 10 => {
                let (h, dfa, what) = &mut all[(op - 9) * 2];
                log.push(format!("delete {h}"));
                let done = if *dfa { dandy_wasm::delete_dfa(*h) } else { dandy_wasm::delete_nfa(*h) };
                ensure!(done == what.take().is_some(), "{log:?}: answers {done}");
            }
            11 => {
                log.push("another element one".into());
                canvases[0] = HtmlCanvasElement::fresh();
                put("one", Element::Canvas(canvases[0].clone()));
            }
            12 => {
                log.push("exchange one and two".into());
                canvases.reverse();
                for i in 0..2 {
                    put(ids[i], Element::Canvas(canvases[i].clone()));
                }
            }
            _ => {
                let a = dfa_base("chain", 2, 1);
                let h = load(&a, true)?;
                log.push(format!("load {h}"));
                ensure!(all.iter().all(|x| x.0 != h), "{log:?}: a handle twice");
                all[1] = (h, true, Some(a));
            }
        }
        for c in &canvases {
            ensure!(painted(&c.context()).len() == 2, "{log:?}: drew on another canvas too");
        }
    }
    for (h, dfa, _) in all {
        if dfa { dandy_wasm::delete_dfa(h) } else { dandy_wasm::delete_nfa(h) };
    }
    Ok(())
}

/// draws on a fresh thread whose hash seed is fixed, so that two drawings can be compared call by call
fn draw_on(a: &Aut, dfa: bool, o: DrawOptions) -> R<Vec<Call>> {
    #[cfg(feature = "egui")]
    let on = EGUI.with(|e| e.borrow().clone());
    #[cfg(feature = "web")]
    let web = WEB.with(|w| w.get());
    std::thread::scope(|s| {
        s.spawn(|| {
            env::set_seed(77);
            #[cfg(feature = "egui")]
            EGUI.with(|e| *e.borrow_mut() = on);
            #[cfg(feature = "web")]
            WEB.with(|w| w.set(web));
            guarded(|| Ok(Thing::new(a, dfa)?.draw(Some(o))))
        })
        .join()
        .expect("joined")
    })
}

fn check_canvas(a: &Aut, dfa: bool, ctx: &mut Ctx) -> R {
    let t = Thing::new(a, dfa)?;
    let calls = t.draw(None);
    ctx.traces += 1;
    ctx.sample(|| format!("{} calls for\n{}", calls.len(), a.show()));
    read_calls(a, &calls, &Opt::default(), ctx)
}

fn check_opts(a: &Aut, dfa: bool, o: &Opt, ctx: &mut Ctx) -> R {
    let plain = Opt { scale: (1.0, 1.0), offset: (0.0, 0.0), ..o.clone() };
    let base = draw_on(a, dfa, plain.real())?;
    ctx.traces += 1;
    read_calls(a, &base, &plain, ctx)?;
    if o.scale == (1.0, 1.0) && o.offset == (0.0, 0.0) {
        return Ok(());
    }
    #[cfg(feature = "egui")]
    if let Some(context) = EGUI.with(|e| e.borrow_mut().take()) {
        // the same calls again, so that hash seeds do not matter
        let moved: Vec<Call> = draw_on(a, dfa, o.real())?;
        let pos = |p: &(f32, f32)| dandy_draw::pos2::pos2(p.0, p.1);
        let shown = on_egui(&context, |d| {
            for c in &moved {
                match c {
                    Call::Circle(_, _, _, c) | Call::Text(_, _, c) | Call::Line(_, _, _, c) => d.set_color(*c),
                    _ => {}
                }
                match c {
                    Call::Circle(p, r, w, _) => d.draw_circle(pos(p), *r, *w),
                    Call::Text(p, t, _) => d.draw_centered_text(pos(p), t),
                    Call::Line(p, q, w, _) => d.draw_line(pos(p), pos(q), *w),
                    _ => {}
                }
            }
        });
        ctx.traces += 1;
        let same = |m: &Call, s: &Call| match (m, s) {
            (Call::Circle(p, r, w, c), Call::Circle(q, s, x, d)) => c == d && at(*p, *q) && near(*r, *s) && w == x,
            (Call::Text(p, t, c), Call::Text(q, u, d)) => c == d && at(*p, *q) && t == u,
            (Call::Line(p, q, w, c), Call::Line(r, s, x, d)) => c == d && (at(*p, *r) && at(*q, *s) || at(*p, *s) && at(*q, *r)) && w == x,
            _ => m == s,
        };
        ensure!(
            moved.len() == shown.len() && moved.iter().zip(&shown).all(|(m, s)| same(m, s)),
            "egui shows\n{shown:?}\ninstead of\n{moved:?}\nunder {o:?} for\n{}",
            a.show()
        );
        return Ok(());
    }
    let moved = draw_on(a, dfa, o.real())?;
    ctx.traces += 1;
    let f = |p: (f32, f32)| ((p.0 + o.offset.0) * o.scale.0, (p.1 + o.offset.1) * o.scale.1);
    ensure!(base.len() == moved.len(), "{} calls instead of {} under {o:?} for\n{}", moved.len(), base.len(), a.show());
    for (b, m) in base.iter().zip(&moved) {
        let ok = match (b, m) {
            (Call::Circle(p, r, w, c), Call::Circle(q, s, x, d)) => c == d && at(f(*p), *q) && near(r * o.scale.0, *s) && w == x,
            (Call::Text(p, t, c), Call::Text(q, u, d)) => c == d && at(f(*p), *q) && t == u,
            (Call::Line(p, q, w, c), Call::Line(r, s, x, d)) => c == d && (at(f(*p), *r) && at(f(*q), *s) || at(f(*p), *s) && at(f(*q), *r)) && w == x,
            _ => b == m,
        };
        ensure!(ok, "{b:?} became {m:?} under {o:?} for\n{}", a.show());
    }
    Ok(())
}

const SCALES: [(f32, f32); 6] = [(1.0, 1.0), (2.0, 2.0), (0.5, 1.5), (1.0, 3.0), (-1.0, 1.0), (12.0, 0.125)];
const OFFSETS: [(f32, f32); 5] = [(0.0, 0.0), (13.0, 0.0), (0.0, 7.0), (-20.0, 31.0), (700.0, -900.0)];
fn options(i: u64, pairs: bool, places: u64) -> Opt {
    let mut o = Opt::default();
    let mut d = Dec(i);
    let flags = d.take(4);
    o.end = flags & 1 == 0;
    o.middle = flags & 2 == 0;
    let place = if pairs { i / 4 % 30 } else { d.take(places) as u64 };
    (o.scale, o.offset) = (SCALES[(place % 6) as usize], OFFSETS[(place % 5) as usize]);
    let x = d.take(NOPT as u64);
    o.v[x] = OPTIONS[x].2[d.take(VALS as u64)];
    if pairs {
        let y = d.take(NOPT as u64);
        o.v[y] = OPTIONS[y].2[d.take(VALS as u64)];
        o.colors = x == y;
    } else {
        o.colors = x % 2 == 1;
    }
    o
}

pub fn p25(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = drawn(th, check_canvas);
    let places = if th { 30 } else { 6 };
    let twos = 4 * (NOPT * VALS * NOPT * VALS) as u64;
    let mut opts = |name: String, len: u64, dfa: bool, pairs: bool, get: Box<dyn Fn(u64) -> Aut + Send + Sync>| {
        let m = if pairs { twos } else { 4 * places * (NOPT * VALS) as u64 };
        v.push(family(
            format!(
                "{name}: all flags x {}",
                if pairs { "every pair of options changed to each of 3 values".to_string() } else { format!("{places} of 6 scales x 5 offsets x every option changed to each of 3 values") }
            ),
            len * m,
            move |i, ctx| {
                let mut a = get(i / m);
                dress(&mut a, i / m);
                check_opts(&a, dfa, &options(i % m, pairs, places), ctx)
            },
        ));
    };
    opts("all DFAs n=2 k=1".into(), dfa_len(2, 1), true, false, Box::new(|i| dfa(2, 1, i)));
    opts("NFA bases n=4 k=2".into(), NFA_BASES.len() as u64, false, false, Box::new(|i| nfa_base(NFA_BASES[i as usize], 4, 2)));
    opts("DFA bases n=6 k=2".into(), DFA_BASES.len() as u64, true, false, Box::new(|i| dfa_base(DFA_BASES[i as usize], 6, 2)));
    opts("two DFA bases n=3 k=2".into(), 2, true, true, Box::new(|i| dfa_base(["twins", "chain"][i as usize], 3, 2)));
    if th {
        opts("all DFAs n=2 k=2".into(), dfa_len(2, 2), true, false, Box::new(|i| dfa(2, 2, i)));
        opts("all DFAs n=2 k=1".into(), dfa_len(2, 1), true, true, Box::new(|i| dfa(2, 1, i)));
        opts("NFA bases n=5 k=2".into(), NFA_BASES.len() as u64, false, true, Box::new(|i| nfa_base(NFA_BASES[i as usize], 5, 2)));
    }
    #[cfg(feature = "egui")]
    {
        v.extend(drawn(th, check_canvas).into_iter().filter(|f| f.len <= if th { 50_000 } else { 4000 }).map(surface));
        let m = 4 * places * (NOPT * VALS) as u64;
        v.push(surface(family(
            format!("DFA bases n=6 k=2: all flags x {places} of 6 scales x 5 offsets x every option changed to each of 3 values"),
            DFA_BASES.len() as u64 * m,
            move |i, ctx| {
                let mut a = dfa_base(DFA_BASES[(i / m) as usize], 6, 2);
                dress(&mut a, i / m);
                check_opts(&a, true, &options(i % m, false, places), ctx)
            },
        )));
    }
    #[cfg(feature = "web")]
    {
        for (w, most) in [(Web::Context, if th { 50_000 } else { 4000 }), (Web::Canvas, 800)] {
            v.extend(drawn(th, check_canvas).into_iter().filter(|f| f.len <= most).map(|f| web(w, f)));
        }
        let m = 4 * places * (NOPT * VALS) as u64;
        v.push(web(
            Web::Context,
            family(
                format!("DFA bases n=6 k=2: all flags x {places} of 6 scales x 5 offsets x every option changed to each of 3 values"),
                DFA_BASES.len() as u64 * m,
                move |i, ctx| {
                    let mut a = dfa_base(DFA_BASES[(i / m) as usize], 6, 2);
                    dress(&mut a, i / m);
                    let mut o = options(i % m, false, places);
                    // a canvas has no circles of negative size
                    o.scale.0 = o.scale.0.abs();
                    if (0..NOPT).any(|x| o.v[x] == 0.0 && OPTIONS[x].0.ends_with("width")) {
                        return check_widths(&a, true, &o, ctx);
                    }
                    check_opts(&a, true, &o, ctx)
                },
            ),
        ));
        v.extend(drawn(th, check_page).into_iter().filter(|f| f.len <= if th { 50_000 } else { 4000 }).map(|f| Family { name: format!("by handle and canvas id: {}", f.name), ..f }));
        let depth = if th { 5 } else { 4 };
        v.push(family(
            format!("page histories: all sequences of {depth} out of {PAGE_OPS} operations (draw 2 DFAs and 2 NFAs on 2 canvases, minimize, delete, load, replace and exchange canvases)"),
            PAGE_OPS.pow(depth),
            move |i, ctx| check_history(i, depth as usize, ctx),
        ));
    }
    v
}
