//! P28: the graphical viewer, run as a process in a window without a screen whose user follows a script
use super::draw::{read_calls, Call, Opt};
use super::*;
use crate::table;
use serde_json::Value;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq)]
enum Act {
    Text(String),
    Add(String),
    Click,
    Wait,
}

/// what is shown at first and after each action
fn viewer(acts: &[Act], seed: u64) -> R<Vec<Vec<Value>>> {
    let dir = std::env::current_exe().expect("exe");
    let mut c = Command::new(dir.with_file_name("dandy-egui"));
    c.env_clear().env("MC_SEED", seed.to_string()).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped());
    let shim = dir.with_file_name("seed.so");
    if shim.exists() {
        c.env("LD_PRELOAD", shim);
    }
    let mut child = c.spawn().expect("the viewer starts");
    let script: String = acts
        .iter()
        .map(|a| match a {
            Act::Text(t) => format!("text {}\n", serde_json::json!(t)),
            Act::Add(t) => format!("add {}\n", serde_json::json!(t)),
            Act::Click => "click \"Render\"\n".into(),
            Act::Wait => "wait\n".into(),
        })
        .collect();
    // (it may have ended already)
    let _ = child.stdin.take().expect("stdin").write_all(script.as_bytes());
    let o = child.wait_with_output().expect("output");
    let err = String::from_utf8_lossy(&o.stderr);
    ensure!(o.status.success(), "the viewer ended with {:?} (signal {:?}) after {acts:?}: {}", o.status.code(), o.status.signal(), err.lines().filter(|l| !l.starts_with('{')).collect::<Vec<_>>().join("\n"));
    let mut all = vec![];
    for l in err.lines().filter(|l| l.starts_with('{')) {
        let Ok(v) = serde_json::from_str::<Value>(l) else { fail!("harness: {l}") };
        ensure!(v["missing"].is_null(), "there is no button {} after {acts:?}", v["missing"]);
        all.push(v["shown"].as_array().cloned().unwrap_or_default());
    }
    ensure!(all.len() == acts.len() + 1, "{} pictures after {acts:?}", all.len());
    Ok(all)
}

fn check_picture(shown: &[Value], text: &str, drawn: &Option<Aut>, how: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    let xy = |v: &Value| (v[0].as_f64().unwrap_or(f64::NAN) as f32 - 20.0, v[1].as_f64().unwrap_or(f64::NAN) as f32 - 150.0);
    let rgb = |v: &Value| [0, 1, 2].map(|i| v[i].as_u64().unwrap_or(0) as u8);
    let num = |v: &Value| v.as_f64().unwrap_or(f64::NAN) as f32;
    let mut calls = vec![Call::Start];
    let (mut boxes, mut buttons) = (0, 0);
    for s in shown {
        let color = rgb(&s["color"]);
        let call = if s["circle"].is_array() {
            Call::Circle(xy(&s["circle"]), num(&s["radius"]), num(&s["width"]), color)
        } else if s["line"].is_array() {
            // the cursor
            if color == [192, 222, 255] {
                continue;
            }
            Call::Line(xy(&s["line"]), xy(&s["to"]), num(&s["width"]), color)
        } else if let Some(t) = s["text"].as_str() {
            if color != [255, 255, 255] && t == text {
                boxes += 1;
                continue;
            }
            if color != [255, 255, 255] && t == "Render" {
                buttons += 1;
                continue;
            }
            Call::Text(xy(&s["at"]), t.into(), color)
        } else if s["rect"].is_number() {
            continue;
        } else {
            fail!("{}: the viewer shows {s}", how())
        };
        ensure!(s["whole"] == true, "{}: {call:?} is cut off", how());
        calls.push(call);
    }
    ensure!(boxes == 1 && buttons == 1, "{}: {boxes} boxes with {text:?} and {buttons} buttons in {}", how(), serde_json::json!(shown));
    calls.push(Call::Finish);
    ctx.traces += 1;
    match drawn {
        Some(a) => read_calls(a, &calls, &Opt::default(), ctx).map_err(|e| Fail::new(format!("{}: {}", how(), e.msg))),
        None => {
            ensure!(calls.len() == 2, "{}: shows {calls:?} though there is no automaton", how());
            Ok(())
        }
    }
}

fn meant(text: &str) -> Option<Aut> {
    table::read(text, false).filter(|t| t.defects().is_empty()).map(|t| t.automaton())
}

fn check_acts(acts: &[Act], seed: u64, ctx: &mut Ctx) -> R {
    let pictures = viewer(acts, seed)?;
    // it begins with an example
    let first = pictures[0].iter().find_map(|s| s["text"].as_str().filter(|t| t.contains('\n')));
    let Some(mut text) = first.map(String::from) else { fail!("no text box at first: {:?}", pictures[0]) };
    let mut drawn = meant(&text);
    ensure!(drawn.is_some(), "the viewer does not begin with an automaton but with {text:?}");
    for i in 0..pictures.len() {
        if i > 0 {
            match &acts[i - 1] {
                Act::Text(t) => text = t.clone(),
                Act::Add(t) => text += t,
                Act::Click => drawn = meant(&text),
                Act::Wait => {}
            }
        }
        ctx.states += 1;
        ctx.transitions += 1;
        check_picture(&pictures[i], &text, &drawn, &|| format!("after {:?}", &acts[..i]), ctx)?;
    }
    Ok(())
}

const ACTS: u64 = 8;
fn act(i: u64) -> Act {
    match i {
        0 => Act::Text("   a\n-> s s\n".into()),
        1 => Act::Text("  0 1\n-> * e e o\n o o e\n".into()),
        2 => Act::Text("  a b\n-> s s t\n".into()),
        3 => Act::Text("".into()),
        4 => Act::Add(" x".into()),
        5 => Act::Add("\n".into()),
        6 => Act::Click,
        _ => Act::Wait,
    }
}

const TOKENS: [&str; 9] = ["a", "s", " ", "\n", "->", "*", "→", "#", "ε"];

pub fn p28(tier: Tier) -> Vec<Family> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for depth in 0..=if th { 5 } else { 4 } {
        v.push(family(format!("all sequences of {depth} out of {ACTS} actions (texts, typing at the end, Render, waiting)"), ACTS.pow(depth), move |mut i, ctx| {
            let mut acts = vec![];
            for _ in 0..depth {
                acts.push(act(i % ACTS));
                i /= ACTS;
            }
            check_acts(&acts, i, ctx)
        }));
    }
    // what was edited, and how it is shown, never depends on what was shown before
    let tables = |name: &str, len: u64, get: fn(u64) -> Aut| {
        family(format!("{name} x (the table as it is, typed in two parts, after another one)"), len * 3, move |i, ctx| {
            let (a, how) = (get(i / 3), i % 3);
            let text = dfa_text(&a);
            let acts = match how {
                0 => vec![Act::Text(text), Act::Click],
                1 => {
                    let lines: Vec<&str> = text.split_inclusive('\n').collect();
                    let (last, rest) = lines.split_last().expect("a line");
                    let mut acts = vec![Act::Text(rest.concat()), Act::Click, Act::Add(last.trim_end_matches('\n').into()), Act::Wait, Act::Click];
                    if last.ends_with('\n') {
                        acts.extend([Act::Add("\n".into()), Act::Click]);
                    }
                    acts
                }
                _ => vec![act(1), Act::Click, Act::Text(text), Act::Wait, Act::Click],
            };
            check_acts(&acts, i, ctx)
        })
    };
    v.push(tables("all DFAs n=1 k=1", dfa_len(1, 1), |i| dfa(1, 1, i)));
    v.push(tables("all DFAs n=1 k=2", dfa_len(1, 2), |i| dfa(1, 2, i)));
    v.push(tables("all DFAs n=2 k=1", dfa_len(2, 1), |i| dfa(2, 1, i)));
    v.push(tables("all DFAs n=2 k=2", dfa_len(2, 2), |i| dfa(2, 2, i)));
    v.push(tables("DFA bases of 1..=30 states, k=1..=3", DFA_BASES.len() as u64 * 90, |i| {
        let mut d = Dec(i);
        let (n, k) = (d.take(30) + 1, d.take(3) + 1);
        dfa_base(DFA_BASES[d.take(DFA_BASES.len() as u64)], n, k)
    }));
    if th {
        v.push(tables("all DFAs n=3 k=1", dfa_len(3, 1), |i| dfa(3, 1, i)));
        v.push(tables("all DFAs n=3 k=2", dfa_len(3, 2), |i| dfa(3, 2, i)));
    }
    let most = if th { 4 } else { 3 };
    v.push(family(format!("all texts of up to {most} of {} tokens", TOKENS.len()), super::text::strings_len(TOKENS.len() as u64, most), |i, ctx| {
        check_acts(&[Act::Text(super::text::token_string(i, &TOKENS)), Act::Click], i, ctx)
    }));
    let row = TOKENS.len() as u64;
    v.push(family(format!("a table of one state with up to {most} of {row} tokens after it"), super::text::strings_len(row, most), |i, ctx| {
        check_acts(&[Act::Text(format!(" a\n-> s s{}", super::text::token_string(i, &TOKENS))), Act::Click], i, ctx)
    }));
    v
}
