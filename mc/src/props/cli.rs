//! P20-P23: the built command line program, run as a process on files in a scratch directory
use super::*;
use crate::{rx, table};
use std::collections::HashMap as Map;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex, OnceLock};

// ---------------------------------------------------------------------------------------------------------------
// running the program

extern "C" {
    fn prlimit(pid: i32, resource: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
}

pub struct Run {
    pub out: String,
    pub err: String,
}

fn scratch() -> &'static PathBuf {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| PathBuf::from(std::env::var("MC_SCRATCH").expect("MC_SCRATCH")))
}

fn program() -> &'static PathBuf {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| std::env::current_exe().expect("exe").with_file_name("dandy-cli"))
}

fn shim() -> &'static Option<PathBuf> {
    static S: OnceLock<Option<PathBuf>> = OnceLock::new();
    S.get_or_init(|| {
        let p = std::env::current_exe().expect("exe").with_file_name("seed.so");
        p.exists().then_some(p)
    })
}

/// runs the program in the directory of the pool files
fn cli(args: &[String], seed: u64) -> R<Run> {
    let Some((logs, old)) = SINK.with(|s| s.get()) else { return cli_plain(args, seed) };
    let file = scratch().join(format!("sink-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    match old {
        Some(t) => fs::write(&file, t).expect("write"),
        None => drop(fs::remove_file(&file)),
    }
    let mut all = vec!["--out".to_string(), file.display().to_string()];
    all.extend(args.iter().filter(|a| !logs || *a != "--less-logs").cloned());
    let r = cli_plain(&all, seed)?;
    let text = fs::read(&file).unwrap_or_default();
    let _ = fs::remove_file(&file);
    let Ok(out) = String::from_utf8(text) else { fail!("{}: the output file is not UTF-8", show(&all)) };
    Ok(Run { out, err: r.err })
}

thread_local! {
    /// if set, results are taken from an output file: (with logging, earlier content of the file)
    static SINK: std::cell::Cell<Option<(bool, Option<&'static str>)>> = const { std::cell::Cell::new(None) };
}

/// the check, which can be told that there are log lines, on what is in the output file. It is not a matter of the
/// file if the same check fails on standard output.
fn in_file(logs: bool, old: Option<&'static str>, ctx: &mut Ctx, check: impl Fn(bool, &mut Ctx) -> R) -> R {
    SINK.with(|s| s.set(Some((logs, old))));
    let r = check(false, ctx);
    SINK.with(|s| s.set(None));
    let Err(e) = r else { return Ok(()) };
    match check(logs, &mut Ctx::default()) {
        Ok(()) => Err(Fail::new(format!("in the output file (logging {}reduced), though not on standard output: {}", if logs { "not " } else { "" }, e.msg))),
        Err(_) => Ok(()),
    }
}

/// stands for the byte 0xff, so that there are names that are not UTF-8
const BYTE: char = '\u{10ff00}';
fn bytes(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for c in s.chars() {
        if c == BYTE {
            v.push(0xff);
        } else {
            v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    std::ffi::OsString::from_vec(v)
}
fn shown(s: &str) -> String {
    s.replace(BYTE, "\u{fffd}")
}

fn cli_plain(args: &[String], seed: u64) -> R<Run> {
    let mut c = Command::new(program());
    c.args(args.iter().map(|a| bytes(a)))
        .env_clear()
        .env("MC_SEED", seed.to_string())
        .current_dir(pool_dir())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if let Some(s) = shim() {
        c.env("LD_PRELOAD", s);
    }
    let child = c.spawn().expect("the program starts");
    unsafe {
        // 15 s of processor time, 4 GB of address space
        prlimit(child.id() as i32, 0, &[15, 15], std::ptr::null_mut());
        prlimit(child.id() as i32, 9, &[4 << 30, 4 << 30], std::ptr::null_mut());
    }
    let o = child.wait_with_output().expect("output");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let how = || show(args);
    match o.status.code() {
        None => fail!("{}: the program died: {}\n{err}", how(), o.status),
        Some(101) => fail!("{}: panic: {err}", how()),
        _ => {}
    }
    ensure!(!err.contains("panicked at"), "{}: {err}", how());
    let Ok(out) = String::from_utf8(o.stdout) else { fail!("{}: output is not UTF-8", how()) };
    Ok(Run { out, err })
}

fn show(args: &[String]) -> String {
    format!("dandy-cli {}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "))
}

macro_rules! args {
    ($($x:expr),* $(,)?) => { vec![$($x.to_string()),*] };
}

// ---------------------------------------------------------------------------------------------------------------
// the pool of input files and what the model makes of them

#[derive(Clone, Debug)]
enum Content {
    Text(String),
    Bytes(Vec<u8>),
    Missing,
    Dir,
}

#[derive(Clone, Debug)]
enum Outcome {
    Good(Arc<Good>),
    Unreadable,
    Syntax,
    Invalid,
}

#[derive(Debug)]
struct Good {
    a: Aut,
    det: Det,
}

fn good(a: Aut) -> Outcome {
    let det = a.det();
    Outcome::Good(Arc::new(Good { a, det }))
}

const KINDS: [&str; 3] = ["dfa", "nfa", "regex"];

fn outcome_text(t: &str, kind: usize) -> Outcome {
    if kind == 2 {
        return match rx::read(t) {
            Some(e) => good(rx::automaton(&e)),
            None => Outcome::Syntax,
        };
    }
    match table::read(t, kind == 1) {
        None => Outcome::Syntax,
        Some(t) if !t.defects().is_empty() => Outcome::Invalid,
        Some(t) => good(t.automaton()),
    }
}

struct Item {
    file: String,
    lazy: [OnceLock<Outcome>; 3],
    text: Option<String>,
}

impl Item {
    /// what it is when loaded as the given kind
    fn out(&self, kind: usize) -> &Outcome {
        self.lazy[kind].get_or_init(|| match &self.text {
            Some(t) => outcome_text(t, kind),
            None => Outcome::Unreadable,
        })
    }
}

fn item(file: impl Into<String>, c: Content) -> Item {
    let file = file.into();
    let path = scratch().join("pool").join(bytes(&file));
    let _ = fs::create_dir_all(path.parent().unwrap());
    match &c {
        Content::Text(t) => fs::write(path, t).expect("write"),
        Content::Bytes(t) => fs::write(path, t).expect("write"),
        Content::Dir => fs::create_dir_all(path).expect("mkdir"),
        Content::Missing => {}
    }
    match c {
        Content::Text(t) => Item { file, lazy: Default::default(), text: Some(t) },
        _ => Item { file, lazy: Default::default(), text: None },
    }
}

const TEXTS: &[(&str, &str)] = &[
    ("a_min", " a b\n-> s t s\n * t t s\n"),
    ("a_twins", " a b\n-> s t r\n * t t r\n   r t s\n"),
    ("a_unreach", " a b\n * x x t\n-> s t s\n * t t s"),
    ("a_reorder", "# ends in a\r\n b a\r\n\r\n * 1 0 1 # one\r\n → 0 0 1\r\n"),
    ("not_a", " a b\n-> * s t s\n   t t s\n"),
    ("aa", " a b\n-> s t s\n   t u s\n * u u s\n"),
    ("only_a", " a\n-> s t\n * t t\n"),
    ("abc", " c a b\n-> s s t s\n * t s t s\n"),
    ("all", " a b\n-> * s s s\n"),
    ("none", " b a\n-> s s s\n"),
    ("none2", " a b\n-> s t s\n t s t\n"),
    ("finite", " a b\n -> s t u\n * t x u\n * u x x\n x x x\n"),
    ("multi", " ab a é\n-> * s t s x\n * t t t s\n x x x t\n"),
    ("abc_a", " a b c\n-> s t s s\n * t t s s\n"),
    ("no_init", " a b\n s t s\n * t t s\n"),
    ("missing_state", " a b\n-> s t s\n * t t v\n"),
    ("short_row", " a b\n-> s t s\n * t t\n"),
    ("two_init", " a b\n-> s t s\n -> t t s\n"),
    ("garbage", " a b\n-> s t s\n * t t s }\n"),
    ("empty", ""),
    ("comment", "# nothing\n\n"),
    ("n_eps", " eps a b\n-> s {t} {s} {s}\n t {} {u} {}\n * u {} {} {}\n"),
    ("n_plain", " a b\n-> s {s t} {s}\n * t {} {}\n"),
    ("n_unreach", " b ε a\n-> s {s} {} {t s}\n * t {} {} {}\n x {x t} {s} {}\n"),
    ("n_cycle", " a eps b\n-> s {s} {t} {}\n * t {} {s} {t}\n"),
    ("n_dead", " a b\n-> s {} {t}\n * t {} {}\n"),
    ("n_a", " a\n-> s {s t}\n * t {}\n"),
    ("n_empty_alpha", " eps\n-> s {t}\n * t {}\n"),
    ("n_missing_state", " a b\n-> s {s t} {s}\n * t {w} {}\n"),
    ("n_dup", " a a\n-> s {s t} {s}\n * t {} {}\n"),
    ("r_a", "(a|b)*a"),
    ("r_a2", " (b|a)*a\n"),
    ("r_a3", "∅|(a*b*)*a\r\n"),
    ("r_all", "(b+|a*)*"),
    ("r_only_a", "a+"),
    ("r_ab", "ab|ba|ε\n"),
    ("r_abc", "(a|b|c)*a"),
    ("r_star", "\\*a*"),
    ("r_eps", "ε"),
    ("r_none", "∅"),
    ("r_space", "a b"),
    ("r_blank", "(\\ |\t)*(x|\\ )"),
    ("r_unclosed", "(a|b"),
    ("r_double", "a**"),
];

fn pool() -> &'static Vec<Item> {
    static P: OnceLock<Vec<Item>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<Item> = TEXTS.iter().map(|(f, t)| item(*f, Content::Text(t.to_string()))).collect();
        v.push(item("absent", Content::Missing));
        v.push(item("folder", Content::Dir));
        v.push(item("latin1", Content::Bytes(b" a b\n-> s t s\n * t t \xe9\n".to_vec())));
        v
    })
}

fn pool_dir() -> PathBuf {
    pool();
    scratch().join("pool")
}

fn pool_len() -> u64 {
    TEXTS.len() as u64 + 3
}

/// pool items by name
fn named(names: &[&str]) -> Vec<usize> {
    names.iter().map(|n| TEXTS.iter().position(|t| t.0 == *n).unwrap_or_else(|| panic!("{n}"))).collect()
}

/// a directory with one file per member of an enumerated space
fn space(dir: &str, len: u64, text: impl Fn(u64) -> String) -> Arc<Vec<Item>> {
    static D: OnceLock<Mutex<Map<String, Arc<Vec<Item>>>>> = OnceLock::new();
    pool();
    let mut m = D.get_or_init(Default::default).lock().unwrap();
    m.entry(dir.to_string())
        .or_insert_with(|| Arc::new((0..len).map(|i| item(format!("{dir}/{i}"), Content::Text(text(i)))).collect()))
        .clone()
}

#[derive(Clone, Copy)]
struct Space {
    name: &'static str,
    kind: usize,
    len: u64,
    get: fn(u64) -> String,
}
impl Space {
    fn items(&self) -> Arc<Vec<Item>> {
        space(self.name, self.len, self.get)
    }
}

fn spaces() -> Vec<Space> {
    vec![
        Space { name: "dfa-1-1", kind: 0, len: dfa_len(1, 1), get: |i| dfa_text(&dfa(1, 1, i)) },
        Space { name: "dfa-2-1", kind: 0, len: dfa_len(2, 1), get: |i| dfa_text(&dfa(2, 1, i)) },
        Space { name: "nfa-2-1-2e", kind: 1, len: nfa_edges_len(2, 1, true, 2), get: |i| nfa_text(&nfa_edges(2, 1, true, 2, i)) },
        Space { name: "dfa-2-2", kind: 0, len: dfa_len(2, 2), get: |i| dfa_text(&dfa(2, 2, i)) },
        Space { name: "nfa-2-2-1e", kind: 1, len: nfa_edges_len(2, 2, true, 1), get: |i| nfa_text(&nfa_edges(2, 2, true, 1, i)) },
        Space { name: "regex-3", kind: 2, len: RX_TOKS.pow(3), get: |i| rx_text(3, i) },
        Space { name: "dfa-3-1", kind: 0, len: dfa_len(3, 1), get: |i| dfa_text(&dfa(3, 1, i)) },
        Space { name: "nfa-2-2-2e", kind: 1, len: nfa_edges_len(2, 2, true, 2), get: |i| nfa_text(&nfa_edges(2, 2, true, 2, i)) },
    ]
}

const RX_TOKS: u64 = 8;
fn rx_text(len: usize, i: u64) -> String {
    let mut d = Dec(i);
    (0..len).map(|_| ["a", "b", "(", ")", "|", "*", "+", "ε"][d.take(RX_TOKS)]).collect()
}

/// states, of the larger inputs
const NUMBERS: [usize; 6] = [9, 17, 33, 65, 129, 257];

/// automata and expressions of many sizes; neighbours in the list are easily confused
fn big_text(kind: usize, i: u64) -> String {
    let mut d = Dec(i);
    match kind {
        0 => {
            let v = d.take(4);
            let n = NUMBERS[d.take(6)];
            let b = DFA_BASES[d.take(DFA_BASES.len() as u64)];
            dfa_text(&big_variant(dfa_base(b, n, 2), v))
        }
        1 => {
            let v = d.take(4);
            let n = NUMBERS[d.take(5)];
            let b = BIG_NFA[d.take(BIG_NFA.len() as u64)];
            nfa_text(&big_variant(big_nfa(b, n, 2), v))
        }
        2 => {
            let v = d.take(4);
            let n = NUMBERS[d.take(5)];
            let one = |i: usize| -> &str {
                match v {
                    0 => "a",
                    1 => if i + 1 == n { "b" } else { "a" },
                    2 => if i == n / 2 { "b" } else { "a" },
                    _ => if i == 0 { "b" } else { "a" },
                }
            };
            let all: Vec<&str> = (0..n).map(one).collect();
            match d.take(5) {
                0 => format!("(a|b)|{}", all.concat()),
                1 => all.iter().map(|s| format!("({s}|ε)")).collect(),
                2 => all.iter().map(|s| format!("{s}*")).collect(),
                3 => format!("({})*", all.join("|")),
                _ => format!("{}{}b", "(".repeat(n), all.iter().map(|s| format!("{s})")).collect::<String>()),
            }
        }
        // wide alphabets
        3 | 4 => {
            let o = d.take(4);
            let k = WIDTHS[d.take(WIDTHS.len() as u64)];
            let w = wide(d.take(WIDE) as u64, k, kind == 3);
            let w = reorder(&w, &order([0, 4, 5, 11][o], k));
            if kind == 3 { dfa_text(&w) } else { nfa_text(&w) }
        }
        _ => {
            let o = d.take(4);
            let k = WIDTHS[d.take(36)];
            let all: Vec<String> = order([0, 4, 5, 11][o], k).into_iter().map(|c| char::from_u32(0x4e00 + c as u32).unwrap().to_string()).collect();
            match d.take(2) {
                0 => format!("({})*", all.join("|")),
                _ => all.iter().map(|s| format!("({s}|ε)")).collect(),
            }
        }
    }
}

fn big_spaces() -> Vec<Space> {
    let w = WIDTHS.len() as u64;
    vec![
        Space { name: "big-dfa", kind: 0, len: 24 * DFA_BASES.len() as u64, get: |i| big_text(0, i) },
        Space { name: "big-nfa", kind: 1, len: 20 * BIG_NFA.len() as u64, get: |i| big_text(1, i) },
        Space { name: "big-regex", kind: 2, len: 20 * 5, get: |i| big_text(2, i) },
        Space { name: "wide-dfa", kind: 0, len: 4 * w * WIDE, get: |i| big_text(3, i) },
        Space { name: "wide-nfa", kind: 1, len: 4 * w * WIDE, get: |i| big_text(4, i) },
        Space { name: "wide-regex", kind: 2, len: 4 * 36 * 2, get: |i| big_text(5, i) },
    ]
}

/// automata with symbols that look alike when put together: different words may be printed alike
const GLUED: [[&str; 2]; 8] = [["a", "aa"], ["aa", "a"], ["a", "ab"], ["ab", "abab"], ["-", ">-"], ["a", "a\u{301}"], ["1", "11"], ["(empty", "word)"]];
fn glued_spaces(edges: u32) -> [Space; 2] {
    [
        Space { name: "glued-dfa", kind: 0, len: 8 * dfa_len(2, 2), get: |i| dfa_text(&glue(dfa(2, 2, i / 8), i % 8)) },
        match edges {
            2 => Space { name: "glued-nfa with 2 edges", kind: 1, len: 8 * nfa_edges_len(2, 2, true, 2), get: |i| nfa_text(&glue(nfa_edges(2, 2, true, 2, i / 8), i % 8)) },
            _ => Space { name: "glued-nfa", kind: 1, len: 8 * nfa_edges_len(2, 2, true, 3), get: |i| nfa_text(&glue(nfa_edges(2, 2, true, 3, i / 8), i % 8)) },
        },
    ]
}
fn glue(mut a: Aut, g: u64) -> Aut {
    a.alpha = GLUED[g as usize].iter().map(|s| s.to_string()).collect();
    a
}

/// files whose names are alike, in several directories
const TREE_DIRS: [&str; 4] = ["d", "e", "d/d", "d e"];
const TREE_NAMES: [&str; 3] = ["t", "t.dfa", "T"];
fn tree() -> &'static Vec<Item> {
    static T: OnceLock<Vec<Item>> = OnceLock::new();
    T.get_or_init(|| {
        pool();
        let text = |n: &str| TEXTS.iter().find(|t| t.0 == n).unwrap().1.to_string();
        let contents = ["a_min", "not_a", "aa", "no_init", "a_twins", "finite", "garbage", "a_reorder"];
        let mut v = vec![];
        for (i, d) in TREE_DIRS.iter().enumerate() {
            for (j, n) in TREE_NAMES.iter().enumerate() {
                v.push(item(format!("tree/{d}/{n}"), Content::Text(text(contents[(i * 3 + j * 5) % 8]))));
            }
        }
        // the same files by other paths
        for (p, of) in [("./tree/d/t", 0), ("tree/e/../d/t", 0), ("tree//e/t", 3), ("tree/./d e/T", 11)] {
            let text = v[of].text.clone();
            v.push(Item { file: p.into(), lazy: Default::default(), text });
        }
        v
    })
}
fn tree_len() -> u64 {
    (TREE_DIRS.len() * TREE_NAMES.len()) as u64 + 4
}

/// files whose names differ by little or look like something else, and different ways to say which is meant
const SPELLED: [&str; 43] = [
    "t\u{10ff00}", "\u{10ff00}", "d\u{10ff00}/t",
    "t", "t.dfa", "d/t", "d/d/t", "T", "~", "*", "t*", "?", "[t]", "$HOME", "%74", "é", "e\u{301}", "-", " t", "t ", " ", "t.", ".t", "d\\t", "t,t", "t:t", "=t",
    "t=d", "@t", "日本", "'t'", "\"t\"", "#t", "a|b", "t.gz", "t.json", "x.dfa", "d/t.txt", "{t}", "t!", "(a)", "stdin", "t;t",
];
/// path, and whether it leads to one of those or to nothing that can be read
const ALIASES: [(&str, Option<&str>); 22] = [
    ("sp/d/../t", Some("t")), ("sp/link/../t", Some("d/t")), ("sp/link/t", Some("d/d/t")), ("sp/s", Some("d/t")), ("../pool/sp/t", Some("t")), ("./sp/t", Some("t")),
    ("sp/./t", Some("t")), ("sp//t", Some("t")), ("sp/d/d/../../T", Some("T")), ("sp/link/../../t.", Some("t.")), ("sp/d/d/../t.txt", Some("d/t.txt")),
    ("sp/ghost/../t", None), ("sp/t/", None), ("sp/t/.", None), ("sp/t/../t", None), ("sp/d", None), ("sp/link", None), ("sp/x", None), ("sp/D/t", None), ("sp/t.txt", None),
    ("sp/dangling", None), ("sp/t.dfa.dfa", None),
];
const TOP: [&str; 3] = ["-", "~", "*"];
fn spelled() -> &'static Vec<Item> {
    static T: OnceLock<Vec<Item>> = OnceLock::new();
    T.get_or_init(|| {
        pool();
        let text = |n: &str| TEXTS.iter().find(|t| t.0 == n).unwrap().1.to_string();
        let contents = ["a_min", "not_a", "aa", "no_init", "a_twins", "finite", "garbage", "a_reorder", "none2", "a_unreach", "all"];
        let mut v = vec![];
        for (i, n) in SPELLED.iter().enumerate() {
            v.push(item(format!("sp/{n}"), Content::Text(text(contents[i % 11]))));
        }
        for (i, n) in TOP.iter().enumerate() {
            v.push(item(*n, Content::Text(text(contents[i + 4]))));
        }
        let dir = scratch().join("pool/sp");
        for (to, name) in [("d/d", "link"), ("d/t", "s"), ("nowhere", "dangling")] {
            std::os::unix::fs::symlink(to, dir.join(name)).expect("symlink");
        }
        for (p, of) in ALIASES {
            let text = of.and_then(|o| v[SPELLED.iter().position(|n| *n == o).unwrap()].text.clone());
            v.push(Item { file: p.into(), lazy: Default::default(), text });
        }
        let text = v[3].text.clone();
        v.push(Item { file: dir.join("t").display().to_string(), lazy: Default::default(), text });
        v
    })
}
fn spelled_len() -> u64 {
    (SPELLED.len() + TOP.len() + ALIASES.len() + 1) as u64
}

/// sizes of files around those of buffers
const BYTES: [usize; 12] = [255, 257, 1023, 1025, 4095, 4097, 8191, 8192, 8193, 65535, 65537, 262145];
const PADDED: [(&str, usize); 8] = [
    ("a_min", 0), ("a_reorder", 0), ("not_a", 0), ("no_init", 0), ("garbage", 0), ("n_eps", 1), ("n_missing_state", 1), ("r_a", 2),
];

/// texts of the pool made longer without changing what they say, or by one thing at the very end
fn padded(i: u64) -> (usize, String) {
    let mut d = Dec(i);
    let (name, kind) = PADDED[d.take(PADDED.len() as u64)];
    let len = BYTES[d.take(BYTES.len() as u64)];
    let t = TEXTS.iter().find(|t| t.0 == name).unwrap().1.trim_end();
    let n = len.saturating_sub(t.len() + 2);
    let how = d.take(6);
    if kind == 2 {
        let t = t.trim();
        let s = match how {
            0 => format!("{}{t}", " ".repeat(n)),
            1 => format!("{t}{}\n", " ".repeat(n)),
            2 => format!("{}{t}\n", "\r\n".repeat(n / 2)),
            3 => format!("{t}{})", " ".repeat(n.min(8200))),
            4 => format!("{}|{t}", vec!["a"; n / 400].join("|")),
            _ => format!("{t}{}", "\n".repeat(n)),
        };
        return (kind, s);
    }
    let s = match how {
        0 => format!("# {}\n{t}", "é".repeat(n / 2)),
        1 => format!("{t}\n{}", "\n".repeat(n)),
        2 => format!("{}{t}\n", "#\r\n".repeat(n / 3)),
        3 => format!("{t} # {}", "x y".repeat(n / 3)),
        4 => format!("{}{t}", " \t".repeat(n / 2)),
        // something wrong at the very end
        _ => format!("{t}\n#{}\n}}", "-".repeat(n)),
    };
    (kind, s)
}

fn padded_len() -> u64 {
    PADDED.len() as u64 * BYTES.len() as u64 * 6
}

fn padded_items() -> &'static Vec<(usize, Item)> {
    static P: OnceLock<Vec<(usize, Item)>> = OnceLock::new();
    P.get_or_init(|| {
        pool();
        (0..padded_len())
            .map(|i| {
                let (k, t) = padded(i);
                (k, item(format!("padded/{i}"), Content::Text(t)))
            })
            .collect()
    })
}

fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P20

struct Eq<'x> {
    in_type: Option<usize>,
    kind: usize,
    min: bool,
    bools: bool,
    path: Option<usize>,
    logs: bool,
    reference: &'x Item,
}

fn shorten(p: &str, n: Option<usize>) -> Option<String> {
    let Some(n) = n else { return Some(p.to_string()) };
    if n == 0 {
        return None;
    }
    // the root counts as a component
    let mut parts: Vec<&str> = p.split('/').filter(|x| !x.is_empty()).collect();
    let root = p.starts_with('/');
    if n < parts.len() + root as usize {
        parts.drain(..parts.len().saturating_sub(n));
        Some(parts.join("/"))
    } else {
        Some(format!("{}{}", if root { "/" } else { "" }, parts.join("/")))
    }
}

impl Eq<'_> {
    fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if !self.logs {
            v.push("--less-logs".to_string());
        }
        v.push("equivalence".into());
        if let Some(i) = self.in_type {
            v.extend(args!["--in-type", KINDS[i]]);
        }
        v.extend(args!["--type", KINDS[self.kind]]);
        if self.min {
            v.push("--minimized".into());
        }
        if self.bools {
            v.push("--bool".into());
        }
        if let Some(p) = self.path {
            v.extend(args!["--path-length", p]);
        }
        v.push(self.reference.file.clone());
        v
    }

    fn check(&self, files: &[(&str, &Outcome)], seed: u64, ctx: &mut Ctx) -> R {
        let mut args = self.args();
        args.extend(files.iter().map(|f| f.0.to_string()));
        ctx.transitions += 1;
        let r = cli(&args, seed)?;
        ctx.sample(|| show(&args));
        let how = || format!("{}\nstandard output:\n{}\nstandard error:\n{}", show(&args), r.out, r.err);
        let got = lines(&r.out);
        let reference = match self.reference.out(self.in_type.unwrap_or(self.kind)) {
            Outcome::Good(g) if !self.min || self.kind == 0 => g,
            _ => {
                ensure!(!r.err.is_empty(), "no error although the reference or the options are unusable\n{}", how());
                ensure!(
                    !r.out.contains("quivalent") && (self.logs || r.out.is_empty()) && !got.iter().any(|l| *l == "true" || l.ends_with(": true")),
                    "a result although the reference or the options are unusable\n{}",
                    how()
                );
                return Ok(());
            }
        };
        let got = if self.logs {
            let Some((last, rest)) = got.split_last() else { fail!("no output\n{}", how()) };
            let passed = files.iter().filter(|f| self.verdict(reference, f.1, ctx) == "Equivalent").count();
            ensure!(
                last.starts_with(&format!("{passed}/{} ", files.len())),
                "the count should be {passed}/{}\n{}",
                files.len(),
                how()
            );
            rest
        } else {
            &got[..]
        };
        // an error message may continue on further lines
        let mut got = got.iter().peekable();
        let mut open = self.logs;
        for (file, o) in files {
            ctx.traces += 1;
            let v = self.verdict(reference, o, ctx);
            let prefix = match shorten(file, self.path) {
                Some(p) => format!("{}: ", shown(&p)),
                None => String::new(),
            };
            let want = if self.bools { (v == "Equivalent").to_string() } else { v.to_string() };
            let fits = |line: &str| match line.strip_prefix(&prefix) {
                Some(l) if v.starts_with("Failed") && !self.bools => l.starts_with(&want),
                Some(l) => l == want,
                None => false,
            };
            while open && got.peek().is_some_and(|l| !fits(l)) {
                got.next();
            }
            let line = got.next();
            ensure!(line.is_some_and(|l| fits(l)), "{line:?} instead of {prefix}{want}\n{}", how());
            open = v.starts_with("Failed") && !self.bools;
        }
        ensure!(got.peek().is_none() || open, "lines after the last result\n{}", how());
        Ok(())
    }

    fn verdict(&self, r: &Good, o: &Outcome, ctx: &mut Ctx) -> &'static str {
        match o {
            Outcome::Unreadable => "Failed to read",
            Outcome::Syntax => "Failed to parse",
            Outcome::Invalid => "Failed to validate",
            Outcome::Good(g) => {
                let Some(d) = g.a.det_as(&r.a.alpha) else { return "Not Equivalent" };
                let x = check_all(&[&r.det, &d], |v| v[0] == v[1]);
                ctx.states += x.states;
                if x.word.is_some() {
                    "Not Equivalent"
                } else if self.min && g.a.n() != r.det.minimal_size() {
                    "Equivalent but not minimized"
                } else {
                    "Equivalent"
                }
            }
        }
    }
}

const PATHS: &[&str] = &["a_min", "s/t", "s/t/u.dfa", "/", "/t", "/s/t", "/s/t/u.dfa", "s t/日.x", "../pool/a_min", "/s/../t/u"];

/// a file of every kind, to which characters are added at both ends
const EDGED: [&str; 3] = ["  a b\n-> s s t\n * t t s", "  a ε\n-> s {s} {t}\n * t {} {}", "x"];
fn edged(kind: usize, some: &[Option<char>], i: u64) -> String {
    let n = some.len() as u64;
    let mut t: String = some[(i % n) as usize].iter().collect();
    t.push_str(EDGED[kind]);
    t.extend(some[(i / n) as usize]);
    t
}
/// printable and blank ASCII characters, or none; without `all` the signs among them and one letter
fn edges(all: bool) -> &'static [Option<char>] {
    let ok = |c: &char| all || !c.is_ascii_alphanumeric() || *c == 'a';
    let mut v = vec![None];
    v.extend((' '..='~').chain(['\t', '\n', '\r']).filter(ok).map(Some));
    Box::leak(v.into_boxed_slice())
}
fn edged_item(dir: &str, kind: usize, text: String) -> Item {
    let file = format!("{dir}-{kind}");
    fs::write(scratch().join("pool").join(&file), &text).expect("write");
    Item { file, lazy: Default::default(), text: Some(text) }
}

pub fn p20(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let n = pool_len();
    let mut v = vec![];
    let radices: [u64; 7] = [4, 3, 2, 2, if th { 5 } else { 2 }, 2, n];
    v.push(family(
        "all options x all kinds x every reference in the pool, against all pool files",
        radices.iter().product(),
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let t: Vec<usize> = radices.iter().map(|r| d.take(*r)).collect();
            let e = Eq {
                in_type: t[0].checked_sub(1),
                kind: t[1],
                min: t[2] == 1,
                bools: t[3] == 1,
                path: [None, Some(0), Some(1), Some(2), Some(9)][t[4]],
                logs: t[5] == 1,
                reference: &p[t[6]],
            };
            let files: Vec<_> = p.iter().map(|x| (x.file.as_str(), x.out(e.kind))).collect();
            e.check(&files, i, ctx)
        },
    ));
    let len = if th { 3 } else { 2 };
    for l in 0..=len {
        let some: &'static [usize] = Box::leak(
            named(&["a_min", "a_twins", "a_reorder", "not_a", "only_a", "no_init", "garbage", "n_eps", "r_a"]).into_boxed_slice(),
        );
        let s = some.len() as u64;
        v.push(family(
            format!("all lists of {l} files (of 9) x kinds x minimized x bool"),
            pow(s, l) * 3 * 2 * 2,
            move |i, ctx| {
                let mut d = Dec(i);
                let p = pool();
                let (kind, min, bools) = (d.take(3), d.take(2) == 1, d.take(2) == 1);
                let e = Eq { in_type: Some(0), kind, min, bools, path: None, logs: true, reference: &p[0] };
                let files: Vec<_> = (0..l).map(|_| &p[some[d.take(s)]]).map(|x| (x.file.as_str(), x.out(kind))).collect();
                e.check(&files, i, ctx)
            },
        ));
    }
    v.push(family(
        format!("path shortening: {} paths x lengths 0..=6 and none", PATHS.len()),
        PATHS.len() as u64 * 8 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let (f, n, bools) = (PATHS[d.take(PATHS.len() as u64)], d.take(8).checked_sub(1), d.take(2) == 1);
            let e = Eq { in_type: None, kind: 0, min: false, bools, path: n, logs: false, reference: &p[0] };
            let o = if f.ends_with("a_min") { p[0].out(0) } else { &Outcome::Unreadable };
            e.check(&[(f, o)], i, ctx)
        },
    ));
    let (e, per) = (edges(true), 256u64);
    let groups = ((e.len() * e.len()) as u64).div_ceil(per);
    v.push(family(format!("{} characters or none at either end of a file, {per} files a run, x kinds", e.len() - 1), groups * 3, move |i, ctx| {
        let (kind, g) = ((i % 3) as usize, i / 3);
        let xs: Vec<Item> = (g * per..((g + 1) * per).min((e.len() * e.len()) as u64)).map(|j| edged_item(&format!("edge{i}-{j}"), kind, edged(kind, e, j))).collect();
        let base = edged_item(&format!("edge{i}"), kind, EDGED[kind].into());
        let files: Vec<_> = xs.iter().map(|x| (x.file.as_str(), x.out(kind))).collect();
        let eq = Eq { in_type: None, kind, min: false, bools: i % 2 == 1, path: None, logs: false, reference: &base };
        let r = eq.check(&files, i, ctx);
        for x in xs.iter().chain([&base]) {
            let _ = fs::remove_file(scratch().join("pool").join(&x.file));
        }
        r
    }));
    let e = edges(th);
    v.push(family(format!("{} characters or none at either end of a reference x kinds", e.len() - 1), (e.len() * e.len()) as u64 * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let x = edged_item(&format!("ref{i}"), kind, edged(kind, e, i / 3));
        let base = edged_item(&format!("refb{i}"), kind, EDGED[kind].into());
        let eq = Eq { in_type: None, kind, min: false, bools: i % 2 == 1, path: None, logs: false, reference: &x };
        let r = eq.check(&[(base.file.as_str(), base.out(kind))], i, ctx);
        for x in [&x, &base] {
            let _ = fs::remove_file(scratch().join("pool").join(&x.file));
        }
        r
    }));
    let all = spaces();
    let mut cross = |x: Space, y: Space| {
        v.push(family(
            format!("every reference in {} against all files in {} (x minimized, in both roles)", x.name, y.name),
            x.len * 2,
            move |i, ctx| {
                let (min, j) = (i % 2 == 1, i / 2);
                let (xs, ys) = (x.items(), y.items());
                let e = Eq { in_type: Some(x.kind), kind: y.kind, min, bools: i % 4 > 1, path: Some(1), logs: i % 8 > 3, reference: &xs[j as usize] };
                let files: Vec<_> = ys.iter().map(|x| (x.file.as_str(), x.out(e.kind))).collect();
                for c in files.chunks(600) {
                    e.check(c, i, ctx)?;
                }
                Ok(())
            },
        ));
    };
    let by = |n: &str| *all.iter().find(|s| s.name == n).unwrap();
    for (x, y) in [
        ("dfa-1-1", "dfa-2-1"),
        ("dfa-2-1", "dfa-1-1"),
        ("dfa-2-1", "dfa-2-1"),
        ("dfa-2-1", "nfa-2-1-2e"),
        ("nfa-2-1-2e", "dfa-2-1"),
        ("nfa-2-1-2e", "nfa-2-1-2e"),
        ("dfa-2-1", "regex-3"),
        ("dfa-2-2", "dfa-2-2"),
    ] {
        cross(by(x), by(y));
    }
    if th {
        for (x, y) in [
            ("regex-3", "regex-3"),
            ("regex-3", "dfa-2-2"),
            ("regex-3", "nfa-2-2-1e"),
            ("nfa-2-2-1e", "nfa-2-2-1e"),
            ("nfa-2-2-2e", "nfa-2-2-2e"),
            ("nfa-2-2-2e", "dfa-2-2"),
            ("dfa-2-2", "nfa-2-2-2e"),
            ("dfa-3-1", "dfa-3-1"),
        ] {
            cross(by(x), by(y));
        }
    }
    for s in big_spaces() {
        // the group of those alike
        let group = if s.name.starts_with("wide") { 4 } else if s.kind == 0 { 24 } else { 20 };
        v.push(family(
            format!("every reference in {} against the {group} like it (x minimized)", s.name),
            s.len * 2,
            move |i, ctx| {
                let (min, j) = (i % 2 == 1 && s.kind == 0, i / 2);
                if i % 2 == 1 && s.kind > 0 {
                    return Ok(());
                }
                let xs = s.items();
                let e = Eq { in_type: None, kind: s.kind, min, bools: false, path: None, logs: i % 4 > 1, reference: &xs[j as usize] };
                let from = j / group * group;
                let files: Vec<_> = xs[from as usize..(from + group) as usize].iter().map(|x| (x.file.as_str(), x.out(e.kind))).collect();
                e.check(&files, i, ctx)
            },
        ));
    }
    v.push(family(
        format!("{} long files: as reference, and as tested files", padded_len()),
        padded_len(),
        move |i, ctx| {
            let xs = padded_items();
            let p = pool();
            let (k, x) = &xs[i as usize];
            let small = &p[named(&[["a_min", "n_eps", "r_a"][*k]])[0]];
            let e = Eq { in_type: None, kind: *k, min: false, bools: i % 2 == 1, path: None, logs: false, reference: x };
            e.check(&[(small.file.as_str(), small.out(*k))], i, ctx)?;
            let e = Eq { in_type: None, kind: *k, min: false, bools: i % 2 == 0, path: Some(1), logs: i % 4 > 1, reference: small };
            e.check(&[(x.file.as_str(), x.out(*k)), (small.file.as_str(), small.out(*k))], i, ctx)
        },
    ));
    let t = tree_len();
    v.push(family(format!("all lists of 3 of {t} paths in a tree of directories with files of the same names"), t * t * t, move |i, ctx| {
        let mut d = Dec(i);
        let (p, xs) = (pool(), tree());
        let files: Vec<_> = (0..3).map(|_| &xs[d.take(t)]).map(|x| (x.file.as_str(), x.out(0))).collect();
        let e = Eq { in_type: None, kind: 0, min: i % 4 == 1, bools: i % 3 == 1, path: None, logs: i % 5 == 1, reference: if i % 2 == 0 { &p[0] } else { &xs[(i / t) as usize % 12] } };
        e.check(&files, i, ctx)
    }));
    let t = spelled_len();
    v.push(family(format!("all lists of 2 of {t} paths: odd names, names that differ by little, links, and paths with .."), t * t, move |i, ctx| {
        let mut d = Dec(i);
        let (p, xs) = (pool(), spelled());
        let files: Vec<_> = (0..2).map(|_| &xs[d.take(t)]).map(|x| (x.file.as_str(), x.out(0))).collect();
        let e = Eq { in_type: None, kind: 0, min: i % 4 == 1, bools: i % 3 == 1, path: None, logs: i % 5 == 1, reference: &p[0] };
        e.check(&files, i, ctx)
    }));
    v.push(family(format!("each of those {t} paths as the reference, against all of them"), t * 2, move |i, ctx| {
        let xs = spelled();
        let files: Vec<_> = xs.iter().map(|x| (x.file.as_str(), x.out(0))).collect();
        let e = Eq { in_type: None, kind: 0, min: i % 4 > 1, bools: i % 2 == 1, path: None, logs: i % 5 == 1, reference: &xs[(i / 2) as usize] };
        e.check(&files, i, ctx)
    }));
    let many = [255u64, 256, 257, 1000, 1023, 1025, 4097];
    v.push(family("long lists of files: 255 to 4097, the good one everywhere but at one end", many.len() as u64 * 4, move |i, ctx| {
        let p = pool();
        let (n, w) = (many[(i / 4) as usize], i % 4);
        let (yes, no) = (&p[named(&["a_min"])[0]], &p[named(&["not_a"])[0]]);
        let e = Eq { in_type: None, kind: 0, min: false, bools: w == 3, path: Some(1), logs: true, reference: yes };
        let files: Vec<_> = (0..n)
            .map(|j| match w {
                0 => if j + 1 == n { no } else { yes },
                1 => if j == 0 { no } else { yes },
                2 => if j + 1 == n { yes } else { no },
                _ => if j % 3 == 1 { no } else { yes },
            })
            .map(|x| (x.file.as_str(), x.out(0)))
            .collect();
        e.check(&files, i, ctx)
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P21

const OPS: [(&str, &str, fn(bool, bool) -> bool); 4] = [
    ("union", "union", |p, q| p || q),
    ("intersection", "intersection", |p, q| p && q),
    ("difference", "difference", |p, q| p && !q),
    ("symmetric-difference", "symmetric difference", |p, q| p != q),
];

struct Bin<'x> {
    op: usize,
    kinds: (usize, Option<usize>),
    min: bool,
    enumerate: Option<usize>,
    first: &'x Item,
    second: &'x Item,
    third: Option<(usize, &'x Item)>,
    logs: bool,
}

fn product(x: &Det, y: &Det, f: impl Fn(bool, bool) -> bool) -> Det {
    let m = y.n();
    Det::from_fn(x.k, x.n() * m, |q| f(x.acc[q / m], y.acc[q % m]), |q, c| x.step(q / m, c) * m + y.step(q % m, c))
}

/// number of states of the smallest automaton for the language (all states of a product need not be reachable)
fn smallest(d: &Det, alpha: &[String]) -> usize {
    det_aut(d, alpha).det().minimal_size()
}

fn det_aut(d: &Det, alpha: &[String]) -> Aut {
    Aut {
        alpha: alpha.to_vec(),
        names: (0..d.n()).map(|q| format!("q{q}")).collect(),
        init: 0,
        acc: d.acc.clone(),
        eps: vec![vec![]; d.n()],
        tr: (0..d.n()).map(|q| (0..d.k).map(|c| vec![d.step(q, c)]).collect()).collect(),
    }
}

fn word_lines(d: &Det, alpha: &[String], n: usize) -> (Vec<String>, bool) {
    let (w, _) = d.words(n);
    let less = w.len() < n;
    let v = w
        .iter()
        .map(|w| if w.is_empty() { "(empty word)".to_string() } else { w.iter().map(|c| alpha[*c].as_str()).collect() })
        .collect();
    (v, less)
}

impl Bin<'_> {
    fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if !self.logs {
            v.push("--less-logs".to_string());
        }
        v.extend(args![OPS[self.op].0, "--type", KINDS[self.kinds.0]]);
        if let Some(s) = self.kinds.1 {
            v.extend(args!["--second-type", KINDS[s]]);
        }
        if self.min {
            v.push("--minimized".into());
        }
        if let Some(n) = self.enumerate {
            v.extend(args!["--enumerate", n]);
        }
        if let Some((k, _)) = self.third {
            v.extend(args!["--compared-type", KINDS[k]]);
        }
        v.extend(args![self.first.file, self.second.file]);
        if let Some((_, t)) = self.third {
            v.push(t.file.clone());
        }
        v
    }

    fn check(&self, seed: u64, ctx: &mut Ctx) -> R {
        let args = self.args();
        ctx.transitions += 1;
        let r = cli(&args, seed)?;
        ctx.sample(|| show(&args));
        let how = || format!("{}\nstandard output:\n{}\nstandard error:\n{}", show(&args), r.out, r.err);
        ctx.traces += 1;
        let (o1, o2) = (self.first.out(self.kinds.0), self.second.out(self.kinds.1.unwrap_or(self.kinds.0)));
        let dets = match (o1, o2) {
            (Outcome::Good(x), Outcome::Good(y)) => y.a.det_as(&x.a.alpha).map(|d| (&x.a.alpha, &x.det, d)),
            _ => None,
        };
        let Some((alpha, x, y)) = dets else {
            ensure!(!r.err.trim().is_empty(), "no error although there is no result\n{}", how());
            let text = if self.logs { String::new() } else { r.out.clone() };
            ensure!(text.trim().is_empty(), "output although there is no result\n{}", how());
            ensure!(!r.out.contains("First ") && !r.out.contains("EQUIVALENT"), "results although there is no automaton\n{}", how());
            return Ok(());
        };
        let want = product(x, &y, OPS[self.op].2);
        let mut got = lines(&r.out);
        // from the end: the comparison, the words, the table
        if let Some((k, t)) = self.third {
            let is_line = |l: &&str| l.contains("EQUIVALENT");
            match t.out(k) {
                Outcome::Good(g) => {
                    let Some(last) = got.pop() else { fail!("no comparison\n{}", how()) };
                    let same = g
                        .a
                        .det_as(alpha)
                        .is_some_and(|d| check_all(&[x, &y, &d], |v| OPS[self.op].2(v[0], v[1]) == v[2]).word.is_none());
                    ensure!(is_line(&last), "the last line is not the comparison\n{}", how());
                    ensure!(
                        last.contains("NOT EQUIVALENT") != same,
                        "the comparison is wrong: they are {}equivalent\n{}",
                        if same { "" } else { "not " },
                        how()
                    );
                    // the third automaton alone must say so
                    ensure!(!got.iter().any(is_line), "two comparisons\n{}", how());
                }
                _ => {
                    ensure!(!r.err.trim().is_empty(), "no error although the third input can not be loaded\n{}", how());
                    ensure!(!got.iter().any(is_line), "a comparison with an input that can not be loaded\n{}", how());
                }
            }
        }
        if let Some(n) = self.enumerate {
            let head = format!("First {n} words in the language of the {}:", OPS[self.op].1);
            let Some(i) = got.iter().position(|l| *l == head) else { fail!("no line {head:?}\n{}", how()) };
            let mut words = got.split_off(i);
            words.remove(0);
            let (w, less) = word_lines(&want, alpha, n);
            if less {
                let note = words.pop().unwrap_or("");
                ensure!(
                    note.starts_with('(') && note.contains(&format!(" {} ", w.len())),
                    "no note that there are only {} words\n{}",
                    w.len(),
                    how()
                );
            }
            // a symbol may be a line end
            let w: Vec<&str> = w.iter().flat_map(|w| w.split('\n')).collect();
            ensure!(words == w, "the words should be {w:?}\n{}", how());
        } else {
            ensure!(!got.iter().any(|l| l.starts_with("First ")), "words nobody asked for\n{}", how());
        }
        let writable = |s: &String| !s.contains(|c: char| c.is_whitespace() || "{}#".contains(c)) && !["*", "->", "→", "ε", "eps"].contains(&s.as_str());
        if alpha.is_empty() || !alpha.iter().all(writable) {
            // a DFA without symbols, or with such symbols, has no text that can be loaded
            return Ok(());
        }
        // the log lines before the table
        let skip = if self.logs { got.iter().rposition(|l| l.ends_with(':')).map(|i| i + 1).unwrap_or(0) } else { 0 };
        let text = got[skip..].join("\n");
        let Outcome::Good(g) = outcome_text(&text, 0) else { fail!("the table can not be loaded:\n{text}\n{}", how()) };
        match parse_dfa(&text) {
            Ok(d) => ensure!(obs_dfa(&d)?.alpha == g.a.alpha, "the table is loaded differently\n{}", how()),
            Err(e) => fail!("the table can not be loaded: {e}\n{}", how()),
        }
        same_language(ctx, &how(), alpha, &[x, &y], &g.a, |v| OPS[self.op].2(v[0], v[1]))?;
        if self.min {
            let s = smallest(&want, alpha);
            ensure!(g.a.n() == s, "{} states, but {s} are enough\n{}", g.a.n(), how());
        }
        Ok(())
    }
}

pub fn p21(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let some: &'static [usize] = Box::leak(
        if th {
            (0..TEXTS.len() + 3).collect()
        } else {
            named(&["a_twins", "a_reorder", "aa", "finite", "none2", "only_a", "no_init", "n_eps", "n_unreach", "n_a", "r_a3", "r_ab", "r_only_a", "r_eps"])
        }
        .into_boxed_slice(),
    );
    let s = some.len() as u64;
    let radices = [4u64, 3, 4, 2, s, s];
    v.push(family(
        format!("all operations x kinds x minimized x all pairs of {s} inputs"),
        radices.iter().product(),
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let t: Vec<usize> = radices.iter().map(|r| d.take(*r)).collect();
            Bin {
                op: t[0],
                kinds: (t[1], t[2].checked_sub(1)),
                min: t[3] == 1,
                enumerate: [None, Some(7), Some(0), Some(2)][(i as usize / 7) % 4],
                first: &p[some[t[4]]],
                second: &p[some[t[5]]],
                third: None,
                logs: (i / 3) % 2 == 1,
            }
            .check(i, ctx)
        },
    ));
    let pairs: &[(&str, usize, &str, usize)] =
        &[("a_twins", 0, "finite", 0), ("n_eps", 1, "r_all", 2), ("r_ab", 2, "a_reorder", 0), ("all", 0, "n_plain", 1), ("r_only_a", 2, "n_a", 1)];
    let n = pool_len();
    v.push(family(
        format!("all operations x {} pairs x minimized x every third input under every kind", pairs.len()),
        4 * pairs.len() as u64 * 2 * n * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let (op, pr, min, t, k) = (d.take(4), pairs[d.take(pairs.len() as u64)], d.take(2) == 1, d.take(n), d.take(3));
            Bin {
                op,
                kinds: (pr.1, Some(pr.3)),
                min,
                enumerate: if i % 3 == 1 { Some(3) } else { None },
                first: &p[named(&[pr.0])[0]],
                second: &p[named(&[pr.2])[0]],
                third: Some((k, &p[t])),
                logs: i % 5 == 1,
            }
            .check(i, ctx)
        },
    ));
    v.push(family(
        format!("all operations x {} pairs x minimized x 0..=12 words x logs", pairs.len()),
        4 * pairs.len() as u64 * 2 * 13 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let (op, pr, min, n, logs) = (d.take(4), pairs[d.take(pairs.len() as u64)], d.take(2) == 1, d.take(13), d.take(2) == 1);
            Bin {
                op,
                kinds: (pr.1, Some(pr.3)),
                min,
                enumerate: Some(n),
                first: &p[named(&[pr.0])[0]],
                second: &p[named(&[pr.2])[0]],
                third: None,
                logs,
            }
            .check(i, ctx)
        },
    ));
    let all = spaces();
    let mut cross = |x: Space, y: Space| {
        v.push(family(
            format!("all operations x every pair from {} and {} (minimized, words and comparison with the first varying)", x.name, y.name),
            4 * x.len * y.len,
            move |i, ctx| {
                let mut d = Dec(i);
                let (xs, ys) = (x.items(), y.items());
                let (op, a, b) = (d.take(4), d.take(x.len), d.take(y.len));
                Bin {
                    op,
                    kinds: (x.kind, Some(y.kind)),
                    min: (a + b + op) % 2 == 1,
                    enumerate: [None, Some(5)][(a + b / 2) % 2],
                    first: &xs[a],
                    second: &ys[b],
                    third: if (a + b) % 3 == 0 { Some((x.kind, &xs[a])) } else { None },
                    logs: false,
                }
                .check(i, ctx)
            },
        ));
    };
    let by = |n: &str| *all.iter().find(|s| s.name == n).unwrap();
    cross(by("dfa-2-1"), by("dfa-2-1"));
    if th {
        cross(by("dfa-2-1"), by("nfa-2-1-2e"));
        cross(by("nfa-2-1-2e"), by("nfa-2-1-2e"));
        cross(by("dfa-2-2"), by("dfa-2-2"));
        cross(by("dfa-2-2"), by("nfa-2-2-1e"));
    }
    let am = AMOUNTS_BIG.len() as u64;
    v.push(family(
        format!("all operations x {} pairs x minimized x {am} larger numbers of words", pairs.len()),
        4 * pairs.len() as u64 * 2 * am,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let (op, pr, min, n) = (d.take(4), pairs[d.take(pairs.len() as u64)], d.take(2) == 1, AMOUNTS_BIG[d.take(am)]);
            Bin {
                op,
                kinds: (pr.1, Some(pr.3)),
                min,
                enumerate: Some(n),
                first: &p[named(&[pr.0])[0]],
                second: &p[named(&[pr.2])[0]],
                third: None,
                logs: i % 2 == 1,
            }
            .check(i, ctx)
        },
    ));
    let am = AMOUNTS_HUGE.len() as u64;
    v.push(family(format!("all operations x 3 pairs x minimized x {am} huge numbers of words"), 4 * 3 * 2 * am, move |i, ctx| {
        let mut d = Dec(i);
        let p = pool();
        let (op, pr, min, n) = (d.take(4), d.take(3), d.take(2) == 1, AMOUNTS_HUGE[d.take(am)]);
        let (f, k, g, l) = [("a_twins", 0, "finite", 0), ("n_eps", 1, "r_all", 2), ("all", 0, "n_plain", 1)][pr];
        Bin {
            op,
            kinds: (k, Some(l)),
            min,
            enumerate: Some(n),
            first: &p[named(&[f])[0]],
            second: &p[named(&[g])[0]],
            third: None,
            logs: i % 2 == 1,
        }
        .check(i, ctx)
    }));
    for s in glued_spaces(if th { 3 } else { 2 }) {
        v.push(family(format!("all operations on neighbours in {} x minimized, 12 words", s.name), s.len * 8, move |i, ctx| {
            let mut d = Dec(i);
            let (op, min) = (d.take(4), d.take(2) == 1);
            let xs = s.items();
            Bin {
                op,
                kinds: (s.kind, None),
                min,
                enumerate: Some(12),
                first: &xs[d.0 as usize],
                second: &xs[((d.0 + 8 * (1 + d.0 % 5)) % s.len) as usize],
                third: None,
                logs: i % 3 == 1,
            }
            .check(i, ctx)
        }));
    }
    for s in big_spaces() {
        let small = ["dfa-2-2", "nfa-2-2-1e"];
        let wide = s.name.starts_with("wide");
        v.push(family(
            format!("all operations x every input of {} with {} (minimized, words and comparison varying)", s.name, if wide { "the same in other orders" } else { "two small ones" }),
            s.len * 4 * 2,
            move |i, ctx| {
                let mut d = Dec(i);
                let xs = s.items();
                let (op, m, j) = (d.take(4), d.take(2), d.take(s.len));
                let (first, other, k);
                let ys;
                first = &xs[j];
                if wide {
                    other = &xs[j / 4 * 4 + (j + 1 + m) % 4];
                    k = s.kind;
                } else {
                    let y = spaces().into_iter().find(|x| x.name == small[m]).unwrap();
                    ys = y.items();
                    other = &ys[(j * 37 + op) % ys.len()];
                    k = y.kind;
                }
                let swap = j % 2 == 1;
                let (x, y, kx, ky) = if swap { (other, first, k, s.kind) } else { (first, other, s.kind, k) };
                Bin {
                    op,
                    kinds: (kx, Some(ky)),
                    min: (i / 3) % 2 == 0,
                    enumerate: if i % 5 == 0 { Some(3) } else { None },
                    first: x,
                    second: y,
                    third: if i % 7 == 0 { Some((kx, x)) } else { None },
                    logs: false,
                }
                .check(i, ctx)
            },
        ));
    }
    v.push(family(format!("all operations x {} long files", padded_len()), padded_len() * 4, move |i, ctx| {
        let xs = padded_items();
        let p = pool();
        let (op, j) = ((i % 4) as usize, (i / 4) as usize);
        let (k, x) = &xs[j];
        let small = &p[named(&["aa"])[0]];
        let (first, second, kinds) = if j % 2 == 0 { (x, small, (*k, Some(0))) } else { (small, x, (0, Some(*k))) };
        Bin { op, kinds, min: true, enumerate: None, first, second, third: None, logs: false }.check(i, ctx)
    }));
    let t = tree_len();
    v.push(family(format!("all operations x all pairs of {t} paths in a tree of directories with files of the same names"), t * t * 4, move |i, ctx| {
        let mut d = Dec(i);
        let xs = tree();
        let (op, first, second) = (d.take(4), &xs[d.take(t)], &xs[d.take(t)]);
        let third = (i % 3 == 0).then_some((0, &xs[(i / 3 % 12) as usize]));
        Bin { op, kinds: (0, None), min: i % 2 == 0, enumerate: None, first, second, third, logs: false }.check(i, ctx)
    }));
    let t = spelled_len();
    v.push(family(format!("all operations x {t} odd paths in each of the three places"), t * 4 * 3, move |i, ctx| {
        let mut d = Dec(i);
        let (xs, p) = (spelled(), pool());
        let (op, at, x) = (d.take(4), d.take(3), &xs[d.take(t)]);
        let y = &p[named(&[["aa", "a_reorder"][i as usize % 2]])[0]];
        let (first, second, third) = match at {
            0 => (x, y, None),
            1 => (y, x, None),
            _ => (y, y, Some((0, x))),
        };
        Bin { op, kinds: (0, None), min: i % 2 == 0, enumerate: None, first, second, third, logs: false }.check(i, ctx)
    }));
    v
}

/// numbers of words around those of counters
const AMOUNTS_BIG: [usize; 9] = [13, 63, 64, 65, 127, 128, 255, 256, 257];
const AMOUNTS_HUGE: [usize; 5] = [500, 1001, 1025, 2049, 5000];

// ---------------------------------------------------------------------------------------------------------------
// P22

/// long enumeration of a large automaton (a table read as an expression) takes long
fn few_states(o: &Outcome) -> bool {
    !matches!(o, Outcome::Good(g) if g.a.n() > 16)
}

fn check_enumeration(args: Vec<String>, o: &Outcome, n: usize, logs: bool, seed: u64, ctx: &mut Ctx) -> R {
    ctx.transitions += 1;
    ctx.traces += 1;
    let r = cli(&args, seed)?;
    ctx.sample(|| show(&args));
    let how = || format!("{}\nstandard output:\n{}\nstandard error:\n{}", show(&args), r.out, r.err);
    let Outcome::Good(g) = o else {
        ensure!(!r.err.trim().is_empty(), "no error although the input can not be loaded\n{}", how());
        ensure!(r.out.trim().is_empty(), "output although the input can not be loaded\n{}", how());
        return Ok(());
    };
    let (w, less) = word_lines(&g.det, &g.a.alpha, n);
    ctx.states += g.det.n() as u64;
    let want: String = w.iter().map(|w| format!("{w}\n")).collect();
    if !logs {
        ensure!(r.out == want, "the output should be {want:?}\n{}", how());
        return Ok(());
    }
    let Some((_, rest)) = r.out.split_once('\n') else { fail!("no lines\n{}", how()) };
    let Some(note) = rest.strip_prefix(&want) else { fail!("the words should be {want:?}\n{}", how()) };
    if less {
        ensure!(
            note.starts_with('(') && note.contains(&format!(" {} ", w.len())) && lines(note).len() == 1,
            "no note that there are only {} words\n{}",
            w.len(),
            how()
        );
    } else {
        ensure!(note.is_empty(), "more than the words\n{}", how());
    }
    Ok(())
}

const LINE_FILES: &[&str] = &[
    "",
    "\n",
    "a",
    "a\n",
    "a\n\n",
    "\na\n",
    "b\na\nba\n",
    "a\r\nba\r\naa",
    "a\nb\na\n",
    "ab\nba\n\n",
    "a a\n a\na \n",
    "aba\nc\nabc\na\n",
    "e\u{301}\né\nab\n*aa\na*\n",
    "a\n\tb\na\u{301}\naaaaaaaaaa\n",
];

fn word_of(g: &Good, line: &str) -> bool {
    let mut w = vec![];
    for c in clusters(line) {
        match g.a.alpha.iter().position(|s| s == c) {
            Some(i) => w.push(i),
            None => return false,
        }
    }
    g.det.accepts(&w)
}

fn line_files() -> &'static Vec<(String, String)> {
    static L: OnceLock<Vec<(String, String)>> = OnceLock::new();
    L.get_or_init(|| {
        pool();
        LINE_FILES
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let f = format!("lines{i}.txt");
                fs::write(scratch().join("pool").join(&f), t).expect("write");
                (f, t.to_string())
            })
            .collect()
    })
}

/// all words over a, b, c up to length 4 as lines, and each line alone in a file
fn all_words() -> &'static (String, String) {
    static L: OnceLock<(String, String)> = OnceLock::new();
    L.get_or_init(|| {
        pool();
        let mut t = String::new();
        for len in 0..=4u32 {
            for i in 0..pow(3, len) {
                let mut d = Dec(i);
                t.extend((0..len).map(|_| ['a', 'b', 'c'][d.take(3)]));
                t.push('\n');
            }
        }
        let f = "all_words.txt".to_string();
        fs::write(scratch().join("pool").join(&f), &t).expect("write");
        (f, t)
    })
}

fn check_test_file(kind: usize, x: &Item, whole: Option<bool>, files: &[&(String, String)], logs: bool, seed: u64, ctx: &mut Ctx) -> R {
    let mut args = vec![];
    if !logs {
        args.push("--less-logs".to_string());
    }
    args.extend(args!["test-file", "--type", KINDS[kind]]);
    if let Some(w) = whole {
        args.extend(args!["--test-type", if w { "files" } else { "lines" }]);
    }
    args.push(x.file.clone());
    args.extend(files.iter().map(|f| f.0.clone()));
    ctx.transitions += 1;
    let r = cli(&args, seed)?;
    ctx.sample(|| show(&args));
    let how = || format!("{}\nstandard output:\n{}\nstandard error:\n{}", show(&args), r.out, r.err);
    let Outcome::Good(g) = x.out(kind) else {
        ensure!(!r.err.trim().is_empty(), "no error although the input can not be loaded\n{}", how());
        ensure!(r.out.trim().is_empty(), "output although the input can not be loaded\n{}", how());
        return Ok(());
    };
    let mut want = vec![];
    for (f, t) in files {
        let ls: Vec<&str> = t.lines().collect();
        let f = shown(f);
        ctx.traces += ls.len() as u64;
        ctx.states += 1;
        let ok: Vec<bool> = ls.iter().map(|l| word_of(g, l)).collect();
        if whole == Some(true) {
            match ok.iter().position(|x| !x) {
                None => want.push(format!("[ OK ] {f}")),
                Some(i) => want.push(format!("[FAIL] {f} failed on {}", ls[i])),
            }
        } else {
            want.push(format!("Testing file {f}:"));
            for (l, ok) in ls.iter().zip(&ok) {
                want.push(format!("{} {l}", if *ok { "[ OK ]" } else { "[FAIL]" }));
            }
            want.push(format!("{}/{} lines passed in file {f}:", ok.iter().filter(|x| **x).count(), ls.len()));
        }
    }
    let got = lines(&r.out);
    ensure!(got.len() >= want.len(), "{} lines expected\n{}", want.len(), how());
    let skip = if logs { got.len() - want.len() } else { 0 };
    ensure!(got.len() - skip == want.len(), "{} lines expected\n{}", want.len(), how());
    for (g, w) in got[skip..].iter().zip(&want) {
        ensure!(g == w, "{g:?} instead of {w:?}\n{}", how());
    }
    Ok(())
}

/// lines with a character
const CHAR_ENDS: [&str; 5] = ["@", "@a\na\n", "@\na\n", "a\na@", "a\n@"];
const CHAR_LINES: [&str; 6] = ["@", "a@", "@a", "a@b", " @", "@\t"];
const CHAR_WORDS: [&str; 4] = ["@", "\\@", "(a|@)*b", "\\@+"];

pub fn p22(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let n = pool_len();
    const AMOUNTS: &[Option<usize>] = &[None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(11), Some(40)];
    let am = AMOUNTS.len() as u64;
    v.push(family(
        format!("enumerate: every pool file x kinds x {am} amounts x logs"),
        n * 3 * am * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let (x, k, a, logs) = (&p[d.take(n)], d.take(3), AMOUNTS[d.take(am)], d.take(2) == 1);
            let mut args = if logs { vec![] } else { args!["--less-logs"] };
            args.extend(args!["enumerate", "--type", KINDS[k]]);
            if let Some(a) = a {
                args.extend(args!["--amount", a]);
            }
            args.push(x.file.clone());
            check_enumeration(args, x.out(k), a.unwrap_or(30), logs, i, ctx)
        },
    ));
    v.push(family("enumerate-regex: every pool text x amounts x logs", TEXTS.len() as u64 * am * 2, move |i, ctx| {
        let mut d = Dec(i);
        let p = pool();
        let (x, a, logs) = (&p[d.take(TEXTS.len() as u64)], AMOUNTS[d.take(am)], d.take(2) == 1);
        let mut args = if logs { vec![] } else { args!["--less-logs"] };
        args.extend(args!["enumerate-regex"]);
        if let Some(a) = a {
            args.extend(args!["-n", a]);
        }
        args.extend(args!["--", x.text.as_ref().unwrap()]);
        check_enumeration(args, x.out(2), a.unwrap_or(20), logs, i, ctx)
    }));
    for len in 1..=if th { 5 } else { 4 } {
        v.push(family(
            format!("enumerate-regex: all texts of {len} of {RX_TOKS} tokens, 6 words"),
            pow(RX_TOKS, len),
            move |i, ctx| {
                let t = rx_text(len as usize, i);
                let o = outcome_text(&t, 2);
                check_enumeration(args!["--less-logs", "enumerate-regex", "-n", 6, "--", t], &o, 6, false, i, ctx)
            },
        ));
    }
    for s in spaces() {
        if !th && s.len > 600 {
            continue;
        }
        v.push(family(format!("enumerate: every file in {}, 5 words", s.name), s.len, move |i, ctx| {
            let x = &s.items()[i as usize];
            let args = args!["--less-logs", "enumerate", "--type", KINDS[s.kind], "-a", 5, x.file];
            check_enumeration(args, x.out(s.kind), 5, false, i, ctx)
        }));
        v.push(family(
            format!("test-file: every automaton in {} on all words over 3 symbols up to length 4, by lines and whole", s.name),
            s.len * 2,
            move |i, ctx| {
                let x = &s.items()[i as usize / 2];
                check_test_file(s.kind, x, Some(i % 2 == 1), &[all_words()], false, i, ctx)
            },
        ));
    }
    let l = LINE_FILES.len() as u64;
    v.push(family(
        format!("test-file: every pool file x kinds x modes x each of {l} line files x logs"),
        n * 3 * 3 * l * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let (x, k, w, f, logs) = (&p[d.take(n)], d.take(3), [None, Some(false), Some(true)][d.take(3)], &line_files()[d.take(l)], d.take(2) == 1);
            check_test_file(k, x, w, &[f], logs, i, ctx)
        },
    ));
    let a: &'static [usize] = Box::leak(named(&["a_min", "n_eps", "r_a", "r_ab"]).into_boxed_slice());
    v.push(family(
        "test-file: all pairs of line files x modes x 4 automata x logs",
        4 * 2 * l * l * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let m = d.take(4);
            let (x, k, w) = (&p[a[m]], [0, 1, 2, 2][m], Some(d.take(2) == 1));
            let (f, g) = (&line_files()[d.take(l)], &line_files()[d.take(l)]);
            check_test_file(k, x, w, &[f, g], d.take(2) == 1, i, ctx)
        },
    ));
    let am = AMOUNTS_BIG.len() as u64;
    v.push(family(format!("enumerate: every pool file x kinds x {am} larger amounts"), n * 3 * am, move |i, ctx| {
        let mut d = Dec(i);
        let p = pool();
        let (x, k, a) = (&p[d.take(n)], d.take(3), AMOUNTS_BIG[d.take(am)]);
        let logs = i % 2 == 1;
        if !few_states(x.out(k)) {
            return Ok(());
        }
        let mut args = if logs { vec![] } else { args!["--less-logs"] };
        args.extend(args!["enumerate", "--type", KINDS[k], "--amount", a, x.file]);
        check_enumeration(args, x.out(k), a, logs, i, ctx)
    }));
    let per = 256u64;
    let m = CHAR_LINES.len() as u64;
    v.push(family(
        format!("test-file: {} in {m} kinds of lines, {per} files' worth a run, x 3 automata x modes", chars_name(th)),
        chars_len(th).div_ceil(per) * 3 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, whole) = (d.take(3), d.take(2) == 1);
            let from = d.0 * per;
            let cs: Vec<char> = (from..(from + per).min(chars_len(th))).map(|j| nth_char(th, j)).filter(|c| *c != '\n').collect();
            let name = format!("chars{i}.txt");
            let mut files = vec![];
            // whole files are judged by their first failing line: one file for each kind of line
            for (k, t) in CHAR_LINES.iter().enumerate() {
                let text: String = cs.iter().map(|c| put(t, *c) + "\n").collect();
                let name = format!("{k}{name}");
                fs::write(scratch().join("pool").join(&name), &text).expect("write");
                files.push((name, text));
            }
            let (f, k) = [("a_min", 0), ("n_eps", 1), ("r_all", 2)][a];
            let fs_: Vec<&(String, String)> = files.iter().collect();
            let r = check_test_file(k, &pool()[named(&[f])[0]], Some(whole), &fs_, false, i, ctx);
            for f in &files {
                let _ = fs::remove_file(scratch().join("pool").join(&f.0));
            }
            r
        },
    ));
    // the first and the last character of a file: many files a run
    let ends: &'static [char] = Box::leak((0..chars_len(th)).map(|j| nth_char(th, j)).filter(|c| (*c as u32) < 0x3400 || (0xfe00..0x10000).contains(&(*c as u32)) || *c as u32 % 256 == 0).collect());
    let (m, na) = (CHAR_ENDS.len() as u64, if th { 3 } else { 1 });
    v.push(family(
        format!("test-file: {} characters at the start or the end of a file in {m} ways, {per} files a run, x {na} of 3 automata x modes", ends.len()),
        (ends.len() as u64).div_ceil(per) * na * 2 * m,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, whole, t) = (d.take(na), d.take(2) == 1, CHAR_ENDS[d.take(m)]);
            // fewer than all: a different one for every way, mode and group of files
            let a = (a + if na < 3 { i as usize } else { 0 }) % 3;
            let dir = format!("ends{i}");
            fs::create_dir_all(scratch().join("pool").join(&dir)).expect("mkdir");
            let files: Vec<(String, String)> = ends
                .iter()
                .skip(d.0 as usize * per as usize)
                .take(per as usize)
                .enumerate()
                .map(|(j, c)| {
                    let (f, text) = (format!("{dir}/{j}"), put(t, *c));
                    fs::write(scratch().join("pool").join(&f), &text).expect("write");
                    (f, text)
                })
                .collect();
            let (f, k) = [("a_min", 0), ("n_eps", 1), ("r_all", 2)][a];
            let r = check_test_file(k, &pool()[named(&[f])[0]], Some(whole), &files.iter().collect::<Vec<_>>(), false, i, ctx);
            let _ = fs::remove_dir_all(scratch().join("pool").join(&dir));
            r
        },
    ));
    let some: &'static [(u32, u32)] = if th { &[(1, 0x3400), (0xfe00, 0x10000)] } else { &[(1, 0x180), (0x300, 0x310), (0x2000, 0x2070), (0xfe00, 0xfe10), (0xfeff, 0xff01)] };
    let chosen: Vec<char> = some.iter().flat_map(|(a, b)| (*a..*b).filter_map(char::from_u32)).collect();
    let m = CHAR_WORDS.len() as u64;
    v.push(family(format!("enumerate-regex: {} characters in {m} places of an expression, 4 words", chosen.len()), chosen.len() as u64 * m, move |i, ctx| {
        let t = put(CHAR_WORDS[(i % m) as usize], chosen[(i / m) as usize]);
        let o = outcome_text(&t, 2);
        check_enumeration(args!["--less-logs", "enumerate-regex", "-n", 4, "--", t], &o, 4, false, i, ctx)
    }));
    let e = edges(th);
    v.push(family(format!("enumerate: {} characters or none at either end of a file x kinds, 4 words", e.len() - 1), (e.len() * e.len()) as u64 * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let x = edged_item(&format!("edge{i}"), kind, edged(kind, e, i / 3));
        let r = check_enumeration(args!["--less-logs", "enumerate", "--type", KINDS[kind], "-a", 4, x.file], x.out(kind), 4, false, i, ctx);
        let _ = fs::remove_file(scratch().join("pool").join(&x.file));
        r
    }));
    let e = edges(true);
    v.push(family(format!("enumerate-regex: {} characters or none at either end of an expression, 4 words", e.len() - 1), (e.len() * e.len()) as u64, move |i, ctx| {
        let t = edged(2, e, i);
        let o = outcome_text(&t, 2);
        check_enumeration(args!["--less-logs", "enumerate-regex", "-n", 4, "--", t], &o, 4, false, i, ctx)
    }));
    v.push(family("enumerate: 1000, 4096, 4097 and 20000 words of four languages", 4 * 4, move |i, ctx| {
        let p = pool();
        let a = [1000, 4096, 4097, 20000][(i % 4) as usize];
        let (f, k) = [("a_min", 0), ("abc", 0), ("n_eps", 1), ("r_all", 2)][(i / 4) as usize];
        let x = &p[named(&[f])[0]];
        let args = args!["--less-logs", "enumerate", "--type", KINDS[k], "-a", a, x.file];
        check_enumeration(args, x.out(k), a, false, i, ctx)
    }));
    for s in big_spaces() {
        v.push(family(format!("enumerate: every file in {}, 4 words", s.name), s.len, move |i, ctx| {
            let x = &s.items()[i as usize];
            // enumeration of large dense automata takes long
            if let Outcome::Good(g) = x.out(s.kind) {
                if g.a.n() > 70 || g.a.tr.iter().flatten().map(|t| t.len()).sum::<usize>() > 1000 {
                    return Ok(());
                }
            }
            let args = args!["--less-logs", "enumerate", "--type", KINDS[s.kind], "-a", 4, x.file];
            check_enumeration(args, x.out(s.kind), 4, false, i, ctx)
        }));
        v.push(family(format!("test-file: every automaton in {} on all words over 3 symbols up to length 4", s.name), s.len, move |i, ctx| {
            let x = &s.items()[i as usize];
            check_test_file(s.kind, x, Some(i % 2 == 1), &[all_words()], false, i, ctx)
        }));
    }
    for s in glued_spaces(3) {
        v.push(family(format!("enumerate: every file in {}, 5 and 12 words", s.name), s.len * 2, move |i, ctx| {
            let (x, a) = (&s.items()[i as usize / 2], [5, 12][i as usize % 2]);
            let args = args!["--less-logs", "enumerate", "--type", KINDS[s.kind], "-a", a, x.file];
            check_enumeration(args, x.out(s.kind), a, false, i, ctx)
        }));
        v.push(family(format!("test-file: every automaton in {} on all words over 3 symbols up to length 4", s.name), s.len, move |i, ctx| {
            let x = &s.items()[i as usize];
            check_test_file(s.kind, x, Some(i % 2 == 1), &[all_words()], false, i, ctx)
        }));
    }
    v.push(family(format!("enumerate and test-file: {} long files", padded_len()), padded_len() * 2, move |i, ctx| {
        let (k, x) = &padded_items()[i as usize / 2];
        if i % 2 == 0 {
            let args = args!["--less-logs", "enumerate", "--type", KINDS[*k], "-a", 5, x.file];
            return check_enumeration(args, x.out(*k), 5, false, i, ctx);
        }
        check_test_file(*k, x, Some(i % 4 == 1), &[&line_files()[6]], false, i, ctx)
    }));
    v.push(family("test-file: all pairs of 8 paths to files of lines with the same names", 2 * 64, move |i, ctx| {
        let mut d = Dec(i);
        let (w, x, y) = (d.take(2) == 1, d.take(8), d.take(8));
        let fs = line_tree();
        check_test_file(0, &pool()[0], Some(w), &[&fs[x], &fs[y]], false, i, ctx)
    }));
    let toks = ["a", " ", "\\ ", "\t", "\\\n", "(", ")", "|", "*", "+", "ε", "\\ε", "\\*", "\\\\", "é", "\u{301}", "#", "-", "\u{3000}"];
    let nt = toks.len() as u64;
    for len in 1..=if th { 4 } else { 3 } {
        v.push(family(format!("enumerate-regex: all texts of {len} of {nt} hostile tokens, 5 words"), pow(nt, len), move |i, ctx| {
            let mut d = Dec(i);
            let t: String = (0..len).map(|_| toks[d.take(nt)]).collect();
            let o = outcome_text(&t, 2);
            check_enumeration(args!["--less-logs", "enumerate-regex", "-n", 5, "--", t], &o, 5, false, i, ctx)
        }));
    }
    for len in 0..=if th { 6 } else { 5 } {
        // many files in one run
        let (per, all) = (200u64, pow(6, len));
        v.push(family(
            format!("test-file: all texts of {len} of 6 characters (letters, blanks, line ends), {per} files a run, x 5 automata x modes"),
            all.div_ceil(per) * 10,
            move |i, ctx| {
                let p = pool();
                let m = (i % 5) as usize;
                let (x, k) = (&p[named(&[["a_min", "n_eps", "r_ab", "r_blank", "r_only_a"][m]])[0]], [0, 1, 2, 2, 2][m]);
                let from = i / 10 * per;
                let dir = format!("texts{len}-{i}");
                fs::create_dir_all(scratch().join("pool").join(&dir)).expect("mkdir");
                let files: Vec<(String, String)> = (from..(from + per).min(all))
                    .map(|j| {
                        let mut d = Dec(j);
                        let t: String = (0..len).map(|_| ["a", "b", " ", "\t", "\n", "\r"][d.take(6)]).collect();
                        let f = format!("{dir}/{j}");
                        fs::write(scratch().join("pool").join(&f), &t).expect("write");
                        (f, t)
                    })
                    .collect();
                let r = check_test_file(k, x, Some(i / 5 % 2 == 1), &files.iter().collect::<Vec<_>>(), false, i, ctx);
                let _ = fs::remove_dir_all(scratch().join("pool").join(&dir));
                r
            },
        ).chunked(4));
    }
    let t = spelled_len();
    v.push(family(format!("enumerate and test-file: {t} odd paths, as automaton and as tested file"), t * 4, move |i, ctx| {
        let mut d = Dec(i);
        let (how, x) = (d.take(4), &spelled()[d.take(t)]);
        if how == 0 {
            return check_enumeration(args!["--less-logs", "enumerate", "--type", "dfa", "--amount", 5, x.file], x.out(0), 5, false, i, ctx);
        }
        if how == 1 {
            let f = line_files();
            return check_test_file(0, x, Some(i / 4 % 2 == 1), &[&f[6], &f[11]], false, i, ctx);
        }
        let Some(t) = &x.text else { return Ok(()) };
        let f = (x.file.clone(), t.clone());
        check_test_file(2, &pool()[named(&["r_space"])[0]], Some(how == 2), &[&f, &line_files()[6], &f], false, i, ctx)
    }));
    let lf = long_lines_len();
    v.push(family(
        format!("test-file: {lf} files with long lines or many lines x 4 automata x modes"),
        lf * 4 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = pool();
            let m = d.take(4);
            let (x, k) = (&p[a[m]], [0, 1, 2, 2][m]);
            let w = d.take(2) == 1;
            check_test_file(k, x, Some(w), &[&long_lines()[d.take(lf)]], false, i, ctx)
        },
    ));
    v
}

fn line_tree() -> &'static Vec<(String, String)> {
    static L: OnceLock<Vec<(String, String)>> = OnceLock::new();
    L.get_or_init(|| {
        pool();
        ["lt/d/w", "lt/e/w", "lt/d/w.txt", "lt/e/w.txt", "lt/d/d/w", "lt/d e/w", "lt/d/W", "lt/w"]
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let path = scratch().join("pool").join(f);
                fs::create_dir_all(path.parent().unwrap()).expect("mkdir");
                let t = ["a\nb\n", "ba\n", "b\n", "a\na\na\n", "", "ab\n", "aa\n", "a\n\n"][i];
                fs::write(path, t).expect("write");
                (f.to_string(), t.to_string())
            })
            .collect()
    })
}

const COUNTS: [usize; 9] = [63, 64, 65, 255, 256, 257, 4096, 4097, 65537];
fn long_lines_len() -> u64 {
    COUNTS.len() as u64 * 8
}
/// files with one long line, or with many lines
fn long_lines() -> &'static Vec<(String, String)> {
    static L: OnceLock<Vec<(String, String)>> = OnceLock::new();
    L.get_or_init(|| {
        pool();
        (0..long_lines_len())
            .map(|i| {
                let (n, how) = (COUNTS[(i / 8) as usize], i % 8);
                let t = match how {
                    0 => format!("{}a\n", "b".repeat(n - 1)),
                    1 => format!("{}b", "a".repeat(n - 1)),
                    2 => format!("a\n{}x{}a\na\n", "a".repeat(n / 2), "ba".repeat(n / 4)),
                    3 => format!("{}a", "b\u{301}".repeat(n / 2)),
                    4 => "a\n".repeat(n),
                    5 => format!("{}b\n", "ba\n".repeat(n - 1)),
                    6 => format!("{}a", "\r\n".repeat(n - 1)),
                    _ => (0..n).map(|j| if j % 3 == 0 { "a\n" } else { "aab\n" }).collect(),
                };
                let f = format!("long{i}.txt");
                fs::write(scratch().join("pool").join(&f), &t).expect("write");
                (f, t)
            })
            .collect()
    })
}

// ---------------------------------------------------------------------------------------------------------------
// P23

/// table printed first by an operation, which hash seeds may vary in names and order of states; and the rest
fn split_table(out: &str) -> (String, Vec<String>) {
    let all = lines(out);
    let end = all.iter().position(|l| l.starts_with("First ") || l.contains("EQUIVALENT")).unwrap_or(all.len());
    (all[..end].join("\n"), all[end..].iter().map(|s| s.to_string()).collect())
}

fn same_results(x: &str, y: &str, op: bool, ctx: &mut Ctx) -> R<bool> {
    if x == y || !op {
        return Ok(x == y);
    }
    let ((t, r), (u, s)) = (split_table(x), split_table(y));
    let (Outcome::Good(g), Outcome::Good(h)) = (outcome_text(&t, 0), outcome_text(&u, 0)) else { return Ok(false) };
    Ok(r == s && g.a.n() == h.a.n() && same_language(ctx, "", &g.a.alpha, &[&g.det], &h.a, |v| v[0]).is_ok())
}

fn check_sinks(cmd: &[String], olds: &[Option<&str>], seed: u64, ctx: &mut Ctx) -> R {
    let plain = cli(cmd, seed)?;
    let lean = cli(&[&["--less-logs".to_string()], cmd].concat(), seed)?;
    ctx.transitions += 2;
    ctx.traces += 2;
    ensure!(plain.err.is_empty() == lean.err.is_empty(), "{}: errors depend on logging:\n{}\n{}", show(cmd), plain.err, lean.err);
    for old in olds {
        check_sink(cmd, &plain, &lean, *old, seed, ctx)?;
    }
    Ok(())
}

fn check_sink(cmd: &[String], plain: &Run, lean: &Run, old: Option<&str>, seed: u64, ctx: &mut Ctx) -> R {
    let file = scratch().join(format!("out-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let op = OPS.iter().any(|o| cmd[0] == o.0);
    let put = || match old {
        Some(t) => fs::write(&file, t).expect("write"),
        None => drop(fs::remove_file(&file)),
    };
    let get = |how: &str| -> R<String> {
        let t = fs::read(&file).map_err(|e| Fail::new(format!("{how}: no output file: {e}")))?;
        String::from_utf8(t).map_err(|_| Fail::new(format!("{how}: the output file is not UTF-8")))
    };
    let out = ["--out".to_string(), file.display().to_string()];
    let quiet = ["--less-logs".to_string()];
    let with = |parts: &[&[String]]| parts.concat();
    ctx.transitions += 2;
    ctx.traces += 2;
    ctx.states += 1;
    put();
    let a = with(&[&quiet, &out, cmd]);
    ctx.sample(|| show(&a));
    let both = cli(&a, seed)?;
    let text = get(&show(&a))?;
    ensure!(text == both.out, "{}: the file holds\n{text:?}, standard output is\n{:?}", show(&a), both.out);
    ensure!(same_results(&lean.out, &both.out, op, ctx)?, "{}: standard output is\n{:?}, without the file it is\n{:?}", show(&a), both.out, lean.out);
    put();
    let b = with(&[&out, cmd]);
    let logged = cli(&b, seed)?;
    let text2 = get(&show(&b))?;
    ensure!(
        same_results(&lean.out, &text2, op, ctx)?,
        "{}: the file holds\n{text2:?}, with reduced logging standard output is\n{:?}",
        show(&b),
        lean.out
    );
    // the result lines appear among the log lines, in order
    for (o, t) in [(&logged.out, &text2), (&plain.out, if op { &text2 } else { &lean.out })] {
        let mut it = lines(o).into_iter();
        if op && o != &logged.out {
            // another run: the tables may differ
            continue;
        }
        for l in lines(t) {
            ensure!(it.any(|x| x == l), "{}: the result line {l:?} is not on standard output in its place:\n{o}", show(&b));
        }
    }
    let _ = fs::remove_file(&file);
    Ok(())
}

/// every command on representative inputs
fn commands(th: bool) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let p = pool();
    let files: Vec<&str> = p.iter().map(|x| x.file.as_str()).collect();
    for kind in KINDS {
        for r in ["a_min", "n_eps", "r_a", "no_init", "absent"] {
            for ik in KINDS {
                for opts in 0..8 {
                    let mut c = args!["equivalence", "-t", kind, "-i", ik];
                    if opts & 1 > 0 {
                        c.push("-m".into());
                    }
                    if opts & 2 > 0 {
                        c.push("-b".into());
                    }
                    if opts & 4 > 0 {
                        c.extend(args!["-p", 1]);
                    }
                    c.push(r.into());
                    let k = if th { 4 } else { 2 };
                    for l in [0, 1, k, files.len()] {
                        let mut c = c.clone();
                        c.extend(files[..l].iter().map(|s| s.to_string()));
                        v.push(c);
                    }
                }
            }
        }
    }
    for op in OPS {
        for (f, fk, s, sk) in [
            ("a_twins", "dfa", "finite", "dfa"),
            ("n_eps", "nfa", "r_all", "regex"),
            ("r_ab", "regex", "a_reorder", "dfa"),
            ("a_min", "dfa", "only_a", "dfa"),
            ("absent", "dfa", "a_min", "dfa"),
        ] {
            for opts in 0..2 {
                for e in [None, Some(0), Some(4)] {
                    for third in [None, Some("all"), Some("a_min"), Some("absent")] {
                        let mut c = args![op.0, "-t", fk, "-s", sk];
                        if opts & 1 > 0 {
                            c.push("-m".into());
                        }
                        if let Some(e) = e {
                            c.extend(args!["-e", e]);
                        }
                        c.extend(args![f, s]);
                        c.extend(third.map(|t| t.to_string()));
                        v.push(c);
                    }
                }
            }
        }
    }
    for (f, k) in [("a_min", "dfa"), ("finite", "dfa"), ("n_eps", "nfa"), ("n_empty_alpha", "nfa"), ("r_ab", "regex"), ("none", "dfa"), ("garbage", "dfa")] {
        for n in 0..6 {
            v.push(args!["enumerate", "--type", k, "-a", n, f]);
        }
    }
    for t in ["a", "ε", "∅", "ab|ba|ε", "(a|b)*", "(", "a\nb|c"] {
        for n in 0..6 {
            v.push(args!["enumerate-regex", "-n", n, "--", t]);
        }
    }
    let l = line_files();
    for (f, k) in [("a_min", "dfa"), ("n_eps", "nfa"), ("r_ab", "regex"), ("garbage", "dfa")] {
        for m in ["lines", "files"] {
            let c = args!["test-file", "--type", k, "-t", m, f];
            v.push(c.clone());
            for (i, x) in l.iter().enumerate() {
                for y in std::iter::once(None).chain(l[..if th { l.len() } else { (i + 1).min(3) }].iter().map(Some)) {
                    let mut c = c.clone();
                    c.push(x.0.clone());
                    c.extend(y.map(|y| y.0.clone()));
                    v.push(c);
                }
            }
            let mut c = c.clone();
            c.extend(args![l[2].0, "absent", l[3].0]);
            v.push(c);
        }
    }
    // results larger than buffers
    for n in [257, 1025, 9000] {
        v.push(args!["enumerate", "--type", "dfa", "-a", n, "abc"]);
        v.push(args!["enumerate-regex", "-n", n, "--", "(aaaaaaaaa|b)*"]);
    }
    v.push(args!["enumerate-regex", "-n", 257, "--", "a*"]);
    for f in long_lines().iter().filter(|f| f.1.len() < 10_000) {
        v.push(args!["test-file", "-t", "lines", "a_min", f.0]);
        v.push(args!["test-file", "-t", "files", "a_min", f.0]);
    }
    for s in big_spaces() {
        let xs = s.items();
        for (i, x) in xs.iter().enumerate().step_by(xs.len() / 8) {
            v.push(args!["equivalence", "-t", KINDS[s.kind], x.file, x.file, xs[(i + 1) % xs.len()].file, "absent"]);
            v.push(args!["union", "-t", KINDS[s.kind], x.file, x.file]);
        }
    }
    v
}

pub fn p23(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    static C: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    let cmds = C.get_or_init(|| commands(th));
    let long: &'static str = Box::leak("[ OK ] much longer than the results\n".repeat(40_000).into_boxed_str());
    let old: [Option<&'static str>; 4] =
        [None, Some(""), Some("something that was here before\n\n[ OK ] and is much longer than\nmost results of the commands\n"), Some(long)];
    let mut v = vec![family(
        format!("{} command lines x {} earlier contents of the output file, each with and without file and logging", cmds.len(), if th { 4 } else { 2 }),
        cmds.len() as u64,
        move |i, ctx| {
            // in the shorter run the contents take turns
            let turns = [old[i as usize / 2 % 2], old[2 + i as usize % 2]];
            check_sinks(&cmds[i as usize], if th { &old } else { &turns }, i, ctx)
        },
    )];
    // what the properties of the commands say about their results, on the content of the file
    let m = pool_len();
    let radices = [3u64, 2, 2, 2, m];
    v.push(family(format!("equivalence, all kinds and options x every reference, against all pool files: results in the file"), radices.iter().product(), move |i, ctx| {
        let mut d = Dec(i);
        let p = pool();
        let t: Vec<usize> = radices.iter().map(|r| d.take(*r)).collect();
        in_file(t[1] == 1, old[i as usize % 3], ctx, |logs, ctx| {
            let e = Eq { in_type: None, kind: t[0], min: t[2] == 1, bools: t[3] == 1, path: [None, Some(1)][i as usize / 5 % 2], logs, reference: &p[t[4]] };
            let files: Vec<_> = p.iter().map(|x| (x.file.as_str(), x.out(e.kind))).collect();
            e.check(&files, i, ctx)
        })
    }));
    let some: &'static [usize] = Box::leak(
        named(&["a_twins", "a_reorder", "finite", "none2", "only_a", "no_init", "n_eps", "n_a", "r_ab", "r_only_a", "r_eps", "r_blank"]).into_boxed_slice(),
    );
    let s = some.len() as u64;
    let radices = [4u64, 3, 3, 2, 2, 4, s, s];
    v.push(family(format!("all operations x kinds x minimized x words x all pairs of {s} inputs: results in the file"), radices.iter().product::<u64>() / if th { 1 } else { 4 }, move |i, ctx| {
        let i = if th { i } else { i * 4 + i / 24 % 4 };
        let mut d = Dec(i);
        let p = pool();
        let t: Vec<usize> = radices.iter().map(|r| d.take(*r)).collect();
        in_file(t[3] == 1, old[i as usize % 3], ctx, |logs, ctx| {
            Bin {
                op: t[0],
                kinds: (t[1], Some(t[2])),
                min: t[4] == 1,
                enumerate: [None, Some(7), Some(0), Some(2)][t[5]],
                first: &p[some[t[6]]],
                second: &p[some[t[7]]],
                third: (i % 3 == 0).then_some((0, &p[some[t[6]]])),
                logs,
            }
            .check(i, ctx)
        })
    }));
    v.push(family("enumerate: every pool file x kinds x 8 amounts x logs: results in the file", m * 3 * 8 * 2, move |i, ctx| {
        let mut d = Dec(i);
        let p = pool();
        let (x, k, a, lg) = (&p[d.take(m)], d.take(3), [0, 1, 2, 3, 5, 11, 40, 300][d.take(8)], d.take(2) == 1);
        if a == 300 && !few_states(x.out(k)) {
            return Ok(());
        }
        in_file(lg, old[i as usize % 3], ctx, |logs, ctx| {
            let mut args = if logs { vec![] } else { args!["--less-logs"] };
            args.extend(args!["enumerate", "--type", KINDS[k], "--amount", a, x.file]);
            check_enumeration(args, x.out(k), a, logs, i, ctx)
        })
    }));
    let l = LINE_FILES.len() as u64;
    v.push(family(format!("test-file: every pool file x kinds x modes x each of {l} line files x logs: results in the file"), m * 3 * 2 * l * 2, move |i, ctx| {
        let mut d = Dec(i);
        let p = pool();
        let (x, k, w, f, lg) = (&p[d.take(m)], d.take(3), d.take(2) == 1, &line_files()[d.take(l)], d.take(2) == 1);
        in_file(lg, old[i as usize % 3], ctx, |logs, ctx| check_test_file(k, x, Some(w), &[f], logs, i, ctx))
    }));
    v.push(family(format!("the output file by {} paths: odd names, links, and paths with .., with or without earlier content: nothing else changes", OUT_PATHS.len()), OUT_PATHS.len() as u64 * 3 * 4, move |i, ctx| {
        let mut d = Dec(i);
        out_path(d.take(OUT_PATHS.len() as u64), d.take(3), d.take(4), i, ctx)
    }));
    v
}

/// the output file as given, and the file that it is
const OUT_PATHS: [(&str, &str); 25] = [
    ("\u{10ff00}t", "\u{10ff00}t"),
    ("t", "t"), ("t.txt", "t.txt"), ("d/t", "d/t"), ("d/../t", "t"), ("link/../t", "d/t"), ("link/t", "d/d/t"), ("s", "d/t"), ("./t", "t"), ("d//t", "d/t"),
    ("T", "T"), ("~", "~"), ("*", "*"), ("$HOME", "$HOME"), ("%74", "%74"), ("é", "é"), ("e\u{301}", "e\u{301}"), ("-", "-"), (" t", " t"), ("t ", "t "), ("t.", "t."),
    ("d\\t", "d\\t"), ("=t", "=t"), ("@t", "@t"), ("d/d/../../d e/t,u", "d e/t,u"),
];
fn snapshot(dir: &std::path::Path, at: &str, v: &mut std::collections::BTreeMap<String, Vec<u8>>) {
    for e in fs::read_dir(dir).expect("directory") {
        let e = e.expect("entry");
        use std::os::unix::ffi::OsStringExt;
        let name: String = e.file_name().into_vec().utf8_chunks().map(|c| format!("{}{}", c.valid(), c.invalid().iter().map(|_| BYTE).collect::<String>())).collect();
        let name = format!("{at}{name}");
        let ty = e.file_type().expect("type");
        if ty.is_dir() {
            snapshot(&e.path(), &format!("{name}/"), v);
        } else if ty.is_symlink() {
            v.insert(name, b"link".to_vec());
        } else {
            v.insert(name, fs::read(e.path()).expect("file"));
        }
    }
}
fn out_path(x: usize, old: usize, cmd: usize, seed: u64, ctx: &mut Ctx) -> R {
    let (given, real) = OUT_PATHS[x];
    pool();
    let dir = scratch().join(format!("outs-{seed}"));
    fs::create_dir_all(dir.join("d/d")).expect("mkdir");
    fs::create_dir_all(dir.join("d e")).expect("mkdir");
    for (to, name) in [("d/d", "link"), ("d/t", "s")] {
        std::os::unix::fs::symlink(to, dir.join(name)).expect("symlink");
    }
    for (j, (g, r)) in OUT_PATHS.iter().enumerate() {
        // the file itself is there or not; all the others are
        if g == r && (*r != real || old > 0) {
            fs::write(dir.join(bytes(r)), format!("{j}\n{}", "earlier\n".repeat(if old == 2 { 4000 } else { 1 }))).expect("write");
        }
    }
    let cmd = [
        args!["enumerate", "--type", "dfa", "--amount", 4, "a_min"],
        args!["equivalence", "--bool", "--type", "dfa", "a_min", "a_twins", "aa", "a_min"],
        args!["test-file", "--type", "dfa", "a_min", "a_min"],
        args!["enumerate-regex", "-n", 3, "a*"],
    ][cmd]
        .clone();
    let lean = cli_plain(&[&args!["--less-logs"][..], &cmd].concat(), seed)?;
    let mut want = Default::default();
    snapshot(&dir, "", &mut want);
    want.insert(real.to_string(), lean.out.clone().into_bytes());
    let all = [&args!["--out", format!("../outs-{seed}/{given}")][..], &cmd].concat();
    let r = cli_plain(&all, seed)?;
    ctx.transitions += 2;
    ctx.traces += 1;
    ctx.states += 1;
    ctx.sample(|| show(&all));
    let mut got = Default::default();
    snapshot(&dir, "", &mut got);
    fs::remove_dir_all(&dir).expect("remove");
    for (f, t) in &want {
        ensure!(got.contains_key(f), "{}: there is no {f:?}\n{}", show(&all), r.err);
        ensure!(got[f] == *t, "{}: {f:?} holds {:?} instead of {:?}\n{}", show(&all), String::from_utf8_lossy(&got[f]), String::from_utf8_lossy(t), r.err);
    }
    for f in got.keys() {
        ensure!(want.contains_key(f), "{}: {f:?} was made", show(&all));
    }
    Ok(())
}

/// P27: every command under several hash seeds of the program
pub fn seeded_commands(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let seeds = if th { 12u64 } else { 4 };
    static C: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    let cmds = C.get_or_init(|| commands(th));
    vec![family(format!("{} command lines of the command line program, {seeds} hash seeds", cmds.len()), cmds.len() as u64, move |i, ctx| {
        let cmd = &cmds[i as usize];
        let op = OPS.iter().any(|o| cmd[0] == o.0);
        let all = [&["--less-logs".to_string()], &cmd[..]].concat();
        ctx.sample(|| show(&all));
        let first = cli_plain(&all, 1000 * i)?;
        for s in 1..seeds {
            ctx.transitions += 1;
            ctx.traces += 1;
            let r = cli_plain(&all, 1000 * i + s)?;
            ensure!(
                first.err == r.err && same_results(&first.out, &r.out, op, ctx)?,
                "{}: with another hash seed the results are\n{}{}\ninstead of\n{}{}",
                show(&all),
                r.out,
                r.err,
                first.out,
                first.err
            );
        }
        ctx.states += 1;
        Ok(())
    })]
}
