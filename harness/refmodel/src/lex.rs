//! Reference lexer: works on the whole text at once (table of operators, longest first).
use crate::tree::{K, Pos, Tok, OPS};

fn name_start(c: char) -> bool { c == '_' || c.is_alphabetic() }
fn name_char(c: char) -> bool { c.is_ascii_digit() || name_start(c) }
fn blank(c: char) -> bool { c.is_whitespace() && c != '\n' }
fn special(c: char) -> bool { c.is_whitespace() || "!~#*?%-=+:@^/,\\'\"`;&|(){}[]$<>".contains(c) }

fn op_at(s: &str) -> Option<Tok> {
    let mut best: Option<(K, &'static str)> = None;
    for &(k, t) in OPS {
        if s.starts_with(t) && best.map_or(true, |b| b.1.len() < t.len()) { best = Some((k, t)) }
    }
    best.map(|(k, _)| Tok::op(k))
}

pub fn lex(src: &str) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::new();
    let mut i = 0;
    let mut after_escape = false;
    while i < src.len() {
        let rest = &src[i..];
        let c = rest.chars().next().unwrap();
        let tok = if after_escape {
            // exactly one character, which never joins its neighbours
            one(c)
        } else if let Some((_, d)) = dollar_digit(rest) {
            Tok::new(K::Positional, format!("${}", d))
        } else if let Some(t) = op_at(rest) {
            t
        } else if blank(c) {
            let n: String = rest.chars().take_while(|&c| blank(c)).collect();
            Tok::new(K::Whitespace, n)
        } else if name_start(c) {
            let n: String = rest.chars().take_while(|&c| name_char(c)).collect();
            Tok::new(K::Name, n)
        } else {
            let n: String = rest.chars().take_while(|&c| !special(c)).collect();
            Tok::new(K::Literal, n)
        };
        after_escape = !after_escape && tok.k == K::Backslash;
        i += tok.t.len();
        out.push(tok);
    }
    out
}
fn dollar_digit(s: &str) -> Option<(char, char)> {
    let mut c = s.chars();
    match (c.next(), c.next()) {
        (Some('$'), Some(d)) if d.is_ascii_digit() => Some(('$', d)),
        _ => None,
    }
}
fn one(c: char) -> Tok {
    let s = c.to_string();
    if let Some(&(k, _)) = OPS.iter().find(|o| o.1 == s) {
        Tok::op(k)
    } else if c.is_whitespace() {
        Tok::new(K::Whitespace, s)
    } else if name_start(c) {
        Tok::new(K::Name, s)
    } else {
        Tok::new(K::Literal, s)
    }
}
pub fn with_pos(toks: Vec<Tok>) -> (Vec<(Tok, Pos)>, Pos) {
    let mut p = Pos::start();
    let mut v = Vec::with_capacity(toks.len());
    for t in toks {
        let n = p.after(&t.t);
        v.push((t, p));
        p = n;
    }
    (v, p)
}
