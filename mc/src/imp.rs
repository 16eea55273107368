//! The bridge to the real code: building automata through the table format, observing them, comparing them.
use crate::ensure;
use crate::fail;
use crate::model::*;
use crate::run::*;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use dandy::regex::Regex;

/// A plain table for the automaton (see P14 for the format itself)
pub fn dfa_text(a: &Aut) -> String {
    let mut s = String::with_capacity(64);
    for c in &a.alpha {
        s.push(' ');
        s.push_str(c);
    }
    s.push('\n');
    for q in 0..a.n() {
        if q == a.init {
            s.push_str("-> ");
        }
        if a.acc[q] {
            s.push_str("* ");
        }
        s.push_str(&a.names[q]);
        for t in &a.tr[q] {
            s.push(' ');
            s.push_str(&a.names[t[0]]);
        }
        s.push('\n');
    }
    s
}

pub fn nfa_text(a: &Aut) -> String {
    let mut s = String::with_capacity(96);
    let eps = a.has_eps() || a.k() == 0;
    if eps {
        s.push_str(" eps");
    }
    for c in &a.alpha {
        s.push(' ');
        s.push_str(c);
    }
    s.push('\n');
    for q in 0..a.n() {
        if q == a.init {
            s.push_str("-> ");
        }
        if a.acc[q] {
            s.push_str("* ");
        }
        s.push_str(&a.names[q]);
        let mut set = |v: &[usize]| {
            s.push_str(" {");
            for (i, t) in v.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                s.push_str(&a.names[*t]);
            }
            s.push('}');
        };
        if eps {
            set(&a.eps[q]);
        }
        for t in &a.tr[q] {
            set(t);
        }
        s.push('\n');
    }
    s
}

pub fn parse_dfa(text: &str) -> Result<Dfa, String> {
    let p = dandy::parser::dfa(text).map_err(|e| format!("parse: {e:?}"))?;
    Dfa::try_from(p).map_err(|e| format!("validate: {e}"))
}

pub fn parse_nfa(text: &str) -> Result<Nfa, String> {
    let p = dandy::parser::nfa(text).map_err(|e| format!("parse: {e:?}"))?;
    Nfa::try_from(p).map_err(|e| format!("validate: {e}"))
}

pub fn parse_regex(text: &str) -> Result<Regex, String> {
    dandy::parser::regex(text).map_err(|e| format!("parse: {e:?}"))
}

/// Loads the DFA; what was loaded must be what was written
pub fn load_dfa(a: &Aut) -> R<Dfa> {
    let text = dfa_text(a);
    let d = match parse_dfa(&text) {
        Ok(d) => d,
        Err(e) => fail!("a valid DFA table is refused ({e}):\n{text}"),
    };
    let o = obs_dfa(&d)?;
    ensure!(o == *a, "the loaded DFA is not the one written:\n{text}\nloaded:\n{}", o.show());
    Ok(d)
}

pub fn load_nfa(a: &Aut) -> R<Nfa> {
    let text = nfa_text(a);
    let d = match parse_nfa(&text) {
        Ok(d) => d,
        Err(e) => fail!("a valid NFA table is refused ({e}):\n{text}"),
    };
    let o = obs_nfa(&d)?;
    ensure!(
        o == *a || norm(&o) == norm(a),
        "the loaded NFA is not the one written:\n{text}\nloaded:\n{}",
        o.show()
    );
    Ok(d)
}

/// transition lists as sets
pub fn norm(a: &Aut) -> Aut {
    let mut a = a.clone();
    for s in a.eps.iter_mut().chain(a.tr.iter_mut().flatten()) {
        s.sort();
        s.dedup();
    }
    a
}

/// Reads a DFA through its accessors and checks that it is well-formed
pub fn obs_dfa(d: &Dfa) -> R<Aut> {
    let st = d.states();
    let a = Aut {
        alpha: d.alphabet().iter().map(|s| s.to_string()).collect(),
        names: st.iter().map(|s| s.name().to_string()).collect(),
        init: d.initial_state_index(),
        acc: st.iter().map(|s| s.is_accepting()).collect(),
        eps: vec![vec![]; st.len()],
        tr: st
            .iter()
            .map(|s| s.transitions().iter().map(|t| vec![*t]).collect())
            .collect(),
    };
    let flags: Vec<bool> = st.iter().map(|s| s.is_initial()).collect();
    wf(&a, &flags)?;
    ensure!(
        d.initial_state() == &st[a.init],
        "initial_state() is not the state at initial_state_index()\n{}",
        a.show()
    );
    Ok(a)
}

pub fn obs_nfa(d: &Nfa) -> R<Aut> {
    let st = d.states();
    let a = Aut {
        alpha: d.alphabet().iter().map(|s| s.to_string()).collect(),
        names: st.iter().map(|s| s.name().to_string()).collect(),
        init: d.initial_state_index(),
        acc: st.iter().map(|s| s.is_accepting()).collect(),
        eps: st.iter().map(|s| s.epsilon_transitions().to_vec()).collect(),
        tr: st.iter().map(|s| s.transitions().to_vec()).collect(),
    };
    let flags: Vec<bool> = st.iter().map(|s| s.is_initial()).collect();
    wf(&a, &flags)?;
    ensure!(
        d.initial_state() == &st[a.init],
        "initial_state() is not the state at initial_state_index()\n{}",
        a.show()
    );
    Ok(a)
}

fn dup(v: &[String]) -> Option<&String> {
    if v.len() <= 8 {
        for i in 1..v.len() {
            if v[..i].contains(&v[i]) {
                return Some(&v[i]);
            }
        }
        return None;
    }
    let mut seen: FxSet<&str> = FxSet::default();
    v.iter().find(|s| !seen.insert(s))
}

/// structural validity; `flags` are the initial marks of the states
pub fn wf(a: &Aut, flags: &[bool]) -> R {
    let n = a.n();
    ensure!(n > 0, "not well-formed: no states");
    if let Some(s) = dup(&a.alpha) {
        fail!("not well-formed: symbol {s:?} twice in the alphabet {:?}", a.alpha);
    }
    if let Some(s) = dup(&a.names) {
        fail!("not well-formed: two states named {s:?}: {:?}", a.names);
    }
    ensure!(a.init < n, "not well-formed: initial state index {} of {n} states", a.init);
    for q in 0..n {
        ensure!(
            flags[q] == (q == a.init),
            "not well-formed: runs start from state #{} but state #{q} is{} marked initial\n",
            a.init,
            if flags[q] { "" } else { " not" }
        );
        ensure!(
            a.tr[q].len() == a.k(),
            "not well-formed: state #{q} has {} transition entries for {} symbols",
            a.tr[q].len(),
            a.k()
        );
        for t in a.eps[q].iter().chain(a.tr[q].iter().flatten()) {
            ensure!(*t < n, "not well-formed: transition from #{q} to #{t}, of {n} states");
        }
    }
    Ok(())
}

pub fn word_str(alpha: &[String], w: &[usize]) -> String {
    let v: Vec<&str> = w.iter().map(|c| alpha[*c].as_str()).collect();
    format!("{v:?}")
}

/// `result` must accept exactly the words for which `want` says so of the operands (all over the same symbols)
pub fn same_language(
    ctx: &mut Ctx,
    what: &str,
    alpha: &[String],
    operands: &[&Det],
    result: &Aut,
    want: impl Fn(&[bool]) -> bool,
) -> R {
    let Some(rd) = result.det_as(alpha) else {
        fail!("{what}: alphabet {:?} instead of {:?}", result.alpha, alpha);
    };
    let mut v: Vec<&Det> = vec![&rd];
    v.extend(operands);
    let d = check_all(&v, |b| b[0] == want(&b[1..]));
    ctx.states += d.states;
    ctx.transitions += d.transitions;
    ctx.traces += 1;
    if let Some(w) = d.word {
        let ops: Vec<bool> = operands.iter().map(|o| o.accepts(&w)).collect();
        fail!(
            "{what}: the word {} is {} (operands: {ops:?})\nresult:\n{}",
            word_str(alpha, &w),
            if rd.accepts(&w) { "accepted" } else { "rejected" },
            result.show()
        );
    }
    Ok(())
}

pub fn clusters(s: &str) -> Vec<&str> {
    use unicode_segmentation::UnicodeSegmentation;
    s.graphemes(true).collect()
}
