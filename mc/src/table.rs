//! Reference reader for the table format, written from the documentation: lines, comments, whitespace-separated tokens.
use crate::model::Aut;

#[derive(Debug, Clone, PartialEq)]
pub struct Row {
    pub init: bool,
    pub acc: bool,
    pub name: String,
    /// one entry per column; a DFA entry is a set of one
    pub cells: Vec<Vec<String>>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Table {
    /// None: the column of empty moves
    pub head: Vec<Option<String>>,
    pub rows: Vec<Row>,
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Word(String),
    Open,
    Close,
    Gap,
    /// white space that separates nothing and belongs to no name
    Bad,
}

const RESERVED: [&str; 5] = ["ε", "eps", "→", "->", "*"];

fn lex(line: &str) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    let mut word = false;
    for c in line.chars() {
        match c {
            '#' => break,
            ' ' | '\t' => {
                if out.last() != Some(&Tok::Gap) {
                    out.push(Tok::Gap);
                }
                word = false;
            }
            '{' => {
                out.push(Tok::Open);
                word = false;
            }
            '}' => {
                out.push(Tok::Close);
                word = false;
            }
            c if c.is_whitespace() => {
                out.push(Tok::Bad);
                word = false;
            }
            c => {
                if !word {
                    out.push(Tok::Word(String::new()));
                    word = true;
                }
                if let Some(Tok::Word(w)) = out.last_mut() {
                    w.push(c);
                }
            }
        }
    }
    if out.first() == Some(&Tok::Gap) {
        out.remove(0);
    }
    if out.last() == Some(&Tok::Gap) {
        out.pop();
    }
    out
}

/// None: not a text of the format. Only for texts without CR in comments, other than in CRLF.
pub fn read(text: &str, nfa: bool) -> Option<Table> {
    let mut lines = text
        .split_inclusive('\n')
        .map(|l| l.strip_suffix("\r\n").or(l.strip_suffix('\n')).unwrap_or(l))
        .map(lex)
        .filter(|l| !l.is_empty());
    let mut head = vec![];
    let mut first = lines.next()?.into_iter().peekable();
    loop {
        match first.next()? {
            Tok::Word(w) if nfa && (w == "ε" || w == "eps") => head.push(None),
            Tok::Word(w) if !RESERVED.contains(&w.as_str()) => head.push(Some(w)),
            _ => return None,
        }
        match first.next() {
            None => break,
            Some(Tok::Gap) => {}
            _ => return None,
        }
    }
    let mut rows = vec![];
    for l in lines {
        let mut v: &[Tok] = &l;
        let mut row = Row { init: false, acc: false, name: String::new(), cells: vec![] };
        if let [Tok::Word(w), Tok::Gap, rest @ ..] = v {
            if w == "->" || w == "→" {
                row.init = true;
                v = rest;
            }
        }
        if let [Tok::Word(w), Tok::Gap, rest @ ..] = v {
            if w == "*" {
                row.acc = true;
                v = rest;
            }
        }
        match v {
            [Tok::Word(w), rest @ ..] if !RESERVED.contains(&w.as_str()) => {
                row.name = w.clone();
                v = rest;
            }
            _ => return None,
        }
        while !v.is_empty() {
            let [Tok::Gap, rest @ ..] = v else { return None };
            v = rest;
            if nfa {
                let [Tok::Open, rest @ ..] = v else { return None };
                v = rest;
                let mut set = vec![];
                let mut apart = true;
                loop {
                    match v {
                        [Tok::Close, rest @ ..] => {
                            v = rest;
                            break;
                        }
                        [Tok::Gap, rest @ ..] => {
                            apart = true;
                            v = rest;
                        }
                        [Tok::Word(w), rest @ ..] if apart && !RESERVED.contains(&w.as_str()) => {
                            set.push(w.clone());
                            apart = false;
                            v = rest;
                        }
                        _ => return None,
                    }
                }
                row.cells.push(set);
            } else {
                let [Tok::Word(w), rest @ ..] = v else { return None };
                if RESERVED.contains(&w.as_str()) {
                    return None;
                }
                row.cells.push(vec![w.clone()]);
                v = rest;
            }
        }
        // a state without any entry can not be written
        if row.cells.is_empty() {
            return None;
        }
        rows.push(row);
    }
    (!rows.is_empty()).then_some(Table { head, rows })
}

#[derive(Debug, Clone, PartialEq)]
pub enum Defect {
    WrongNumber(String, usize, usize),
    Missing(String, String),
    NoInitial,
    ManyInitial,
    TwiceInAlphabet(String),
    TwiceDefined(String),
}

impl Table {
    /// everything wrong with the table
    pub fn defects(&self) -> Vec<Defect> {
        let mut d = vec![];
        let mut push = |x: Defect| {
            if !d.contains(&x) {
                d.push(x);
            }
        };
        for (i, s) in self.head.iter().enumerate() {
            if self.head[..i].contains(s) {
                push(Defect::TwiceInAlphabet(s.clone().unwrap_or("ε".into())));
            }
        }
        for (i, r) in self.rows.iter().enumerate() {
            if self.rows[..i].iter().any(|x| x.name == r.name) {
                push(Defect::TwiceDefined(r.name.clone()));
            }
            if r.cells.len() != self.head.len() {
                push(Defect::WrongNumber(r.name.clone(), r.cells.len(), self.head.len()));
            }
            for t in r.cells.iter().flatten() {
                if self.rows.iter().all(|x| x.name != *t) {
                    push(Defect::Missing(r.name.clone(), t.clone()));
                }
            }
        }
        match self.rows.iter().filter(|r| r.init).count() {
            0 => push(Defect::NoInitial),
            1 => {}
            _ => push(Defect::ManyInitial),
        }
        d
    }

    /// the automaton, if there are no defects
    pub fn automaton(&self) -> Aut {
        let names: Vec<String> = self.rows.iter().map(|r| r.name.clone()).collect();
        let set = |v: &Vec<String>| -> Vec<usize> {
            v.iter().map(|t| names.iter().position(|n| n == t).unwrap()).collect()
        };
        let e = self.head.iter().position(|h| h.is_none());
        Aut {
            alpha: self.head.iter().flatten().cloned().collect(),
            init: self.rows.iter().position(|r| r.init).unwrap(),
            acc: self.rows.iter().map(|r| r.acc).collect(),
            eps: self.rows.iter().map(|r| e.map(|e| set(&r.cells[e])).unwrap_or_default()).collect(),
            tr: self
                .rows
                .iter()
                .map(|r| {
                    r.cells
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| Some(*i) != e)
                        .map(|(_, v)| set(v))
                        .collect()
                })
                .collect(),
            names,
        }
    }
}
