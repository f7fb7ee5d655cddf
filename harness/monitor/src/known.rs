//! The committed list of findings: defects which were confirmed against the real code and not repaired.
use conch_parser::lexer::Lexer;
use conch_parser::parse::DefaultParser;
use std::path::Path;

#[derive(Debug, Clone)]
pub enum Expect { SameAs(String), Accept(bool) }
#[derive(Debug, Clone)]
pub struct Known { pub property: String, pub input: String, pub expect: Expect, pub what: String }

fn quoted(s: &str) -> Option<(String, &str)> {
    let mut it = s.strip_prefix('"')?.char_indices();
    let mut out = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((out, &s[i + 2..])),
            '\\' => out.push(match it.next()?.1 { 'n' => '\n', 't' => '\t', c => c }),
            c => out.push(c),
        }
    }
    None
}
fn line(l: &str) -> Option<Known> {
    let l = l.strip_prefix("known: property=")?;
    let (property, l) = l.split_once(' ')?;
    let (input, l) = quoted(l.strip_prefix("input=")?)?;
    let l = l.trim_start();
    let (expect, l) = if let Some(l) = l.strip_prefix("same_as=") {
        let (s, l) = quoted(l)?;
        (Expect::SameAs(s), l)
    } else {
        let (b, l) = l.strip_prefix("accept=")?.split_once(' ')?;
        (Expect::Accept(b.parse().ok()?), l)
    };
    Some(Known { property: property.into(), input, expect, what: l.trim().into() })
}
/// Err: a line could not be read
pub fn load(root: &Path, id: &str) -> Result<Vec<Known>, String> {
    let dir = std::env::var_os("VERIF_KNOWN").map_or_else(|| root.join("known_findings.txt"), Into::into);
    let text = std::fs::read_to_string(dir).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines().filter(|l| l.starts_with("known:")) { v.push(line(l).ok_or_else(|| format!("cannot read {:?}", l))?) }
    v.retain(|k| k.property == id);
    Ok(v)
}
fn outcome(s: &str) -> (String, bool) {
    let mut out = String::new();
    let mut ok = true;
    for c in DefaultParser::new(Lexer::new(s.chars())) {
        match c { Ok(c) => out.push_str(&format!("{:?}\n", c)), Err(_) => ok = false }
    }
    (out, ok)
}
/// is the finding still there?
pub fn present(k: &Known) -> bool {
    match &k.expect {
        Expect::Accept(b) => crate::run::guard(|| outcome(&k.input).1 != *b).unwrap_or(true),
        Expect::SameAs(s) => crate::run::guard(|| { let (a, b) = (outcome(&k.input), outcome(s)); a.1 != b.1 || b.1 && a.0 != b.0 }).unwrap_or(true),
    }
}
