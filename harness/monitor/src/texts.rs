//! Workloads over source texts: exhaustive short sequences, random longer ones, generated programs, mutants.
use crate::astconv::{Canon, Conv};
use crate::drive::*;
use crate::run::*;
use conch_parser::ast::builder::{EmptyBuilder, StringBuilder};
use conch_parser::parse::Parser;
use refmodel::gen::*;
use refmodel::rng::Rng;
use refmodel::tree::*;

pub type Voc = &'static [&'static str];

// ---- judging -----------------------------------------------------------------------------------------
/// What one property looks at in the outcome of a parse.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum View { Tree, Full, Accept, Diagnosis, Positions }

fn cmds_of(v: &Run, view: View) -> Vec<Cmd> {
    match view {
        View::Full => v.cmds.clone(),
        View::Accept | View::Diagnosis | View::Positions => vec![],
        View::Tree => viewed(v.cmds.clone(), &mut NoComments),
    }
}
/// the difference between an observed and an expected outcome, if any
pub fn judge(r: &Run, want: &Run, view: View) -> Option<String> {
    match view {
        View::Positions => {
            for (i, (a, b)) in r.pos.iter().zip(want.pos.iter()).enumerate() {
                if a != b { return Some(format!("position after command {} is {:?}, expected {:?}", i + 1, a, b)) }
            }
            match (&r.end, &want.end) {
                (Err(a), Err(b)) => {
                    if a.kind() == b.kind() && positions(a) != positions(b) { return Some(format!("positions of the error {:?}, expected {:?}", a, b)) }
                }
                (Ok(_), Ok(_)) => {
                    if r.end_pos != want.end_pos { return Some(format!("final position {:?}, expected {:?}", r.end_pos, want.end_pos)) }
                }
                _ => {}
            }
            return None;
        }
        View::Diagnosis => {
            return match (&r.end, &want.end) {
                (Err(a), Err(b)) if a != b => Some(format!("diagnosed as {:?}, expected {:?}", a, b)),
                (Ok(_), Err(b)) => Some(format!("accepted, expected {:?}", b)),
                _ => None,
            }
        }
        _ => {}
    }
    if view != View::Accept {
        let (a, b) = (cmds_of(r, view), cmds_of(want, view));
        if a != b {
            let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len()));
            return Some(match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) => format!("command {}: {}", i + 1, diff(&show(x), &show(y))),
                (Some(x), None) => format!("command {} is {:?}, expected {:?}", i + 1, x, want.end),
                (None, Some(y)) => format!("{:?} instead of command {} {:?}", r.end, i + 1, y),
                (None, None) => String::new(),
            });
        }
    }
    match (&r.end, &want.end) {
        (Ok(a), Ok(b)) => {
            if view == View::Full && a != b { return Some(format!("trailing comments {:?}, expected {:?}", a, b)) }
            None
        }
        (Ok(_), Err(e)) => Some(format!("accepted, expected {:?}", e)),
        (Err(e), Ok(_)) => Some(format!("rejected with {:?}, expected to be accepted", e)),
        (Err(_), Err(_)) => None,
    }
}
pub fn positions(e: &PErr) -> Vec<Pos> {
    match e {
        PErr::BadFd(a, b) | PErr::Incomplete(_, a, _, b) => vec![*a, *b],
        PErr::BadIdent(_, p) | PErr::BadSubst(_, p) | PErr::Unmatched(_, p) | PErr::Unexpected(_, p) => vec![*p],
        PErr::Eof | PErr::Custom(_) => vec![],
    }
}
pub fn tree_oracle(s: &str) -> Option<String> { oracle(s, View::Tree) }
pub fn full_oracle(s: &str) -> Option<String> { oracle(s, View::Full) }
pub fn accept_oracle(s: &str) -> Option<String> {
    let want = reference(s);
    if want.ok() { return None }
    match real_text(s) { Err(m) => Some(m), Ok(r) => if r.ok() { Some(format!("accepted, expected {:?}", want.end)) } else { accepts_quietly(s).map(|n| format!("accepted by {}, expected {:?}", n, want.end)) } }
}
/// whether the usual ways of parsing a whole text accept it
pub fn accepts_quietly(s: &str) -> Option<&'static str> {
    match guard(|| {
        if Parser::<_, StringBuilder>::new(lexed(s)).into_iter().all(|r| r.is_ok()) { return Some("iterating over the default parser") }
        let mut p = Parser::<_, EmptyBuilder>::new(lexed(s));
        for _ in 0..s.len() + 2 { match p.complete_command() { Ok(Some(_)) => {} Ok(None) => return Some("a parser with the no-op builder"), Err(_) => return None } }
        None
    }) { Ok(x) => x, Err(_) => Some("a parser which panics") }
}
pub fn diag_oracle(s: &str) -> Option<String> { oracle(s, View::Diagnosis) }
pub fn pos_oracle(s: &str) -> Option<String> {
    let r = match real_text(s) { Err(m) => return Some(m), Ok(r) => r };
    pos_consistent(s, &r).or_else(|| judge(&r, &reference(s), View::Positions))
}
/// line and column belong to the byte offset
pub fn pos_consistent(s: &str, r: &Run) -> Option<String> {
    let mut all: Vec<Pos> = r.pos.clone();
    if r.ok() { all.push(r.end_pos) }
    // counted from the position before, which was right
    let mut last = Pos::start();
    for p in all {
        let from = if p.byte < last.byte { Pos::start() } else { last };
        if p.byte > s.len() || !s.is_char_boundary(p.byte) || from.after(&s[from.byte..p.byte]) != p { return Some(format!("{:?} is not a position of the source", p)) }
        last = p;
    }
    None
}
pub fn oracle(s: &str, view: View) -> Option<String> {
    let want = reference(s);
    match real_text(s) { Err(m) => Some(m), Ok(r) => judge(&r, &want, view) }.or_else(|| if view == View::Tree { default_judge(s, &want) } else { None })
}
/// The same text through the default builder: the AST must have the structure expected, and the outcome must be the same.
pub fn default_judge(s: &str, want: &Run) -> Option<String> {
    let got = guard(|| {
        let mut canon = Canon::default();
        let mut p = Parser::<_, StringBuilder>::new(lexed(s));
        let mut v = vec![];
        loop {
            match p.complete_command() {
                Ok(Some(c)) => v.push(c.conv(&mut canon)),
                Ok(None) => return (v, None),
                Err(e) => return (v, Some(e.to_string())),
            }
            if v.len() > s.len() { return (v, Some("no end".into())) }
        }
    });
    let (cmds, err) = match got { Ok(x) => x, Err(m) => return Some(m) };
    // adjacent pieces of the same kind are merged on both sides: whether the builder merges them is not the question here
    let (a, b) = (viewed(cmds, &mut AstView), viewed(want.cmds.clone(), &mut AstView));
    if a != b { return Some(format!("in the default AST: {}", diff(&show(&a), &show(&b)))) }
    match (&err, &want.end) {
        (None, Err(e)) => Some(format!("accepted with the default builder, expected {:?}", e)),
        (Some(e), Ok(_)) => Some(format!("rejected with the default builder: {}", e)),
        _ => None,
    }
}
/// Judges one text by the oracle of the check and counts what was seen.
pub fn see(ctx: &mut Ctx, s: &str, or: Oracle, nontrivial: fn(&str, &Run) -> bool) -> Result<(), Fail> {
    ctx.about(s);
    let want = reference(s);
    if let Some(m) = or(s) { return fail(s, m) }
    match &want.end {
        Ok(_) => ctx.count("accepted", 1),
        Err(e) => ctx.count(match e {
            PErr::BadFd(..) => "rejected: BadFd", PErr::BadIdent(..) => "rejected: BadIdent", PErr::BadSubst(..) => "rejected: BadSubst",
            PErr::Unmatched(..) => "rejected: Unmatched", PErr::Incomplete(..) => "rejected: Incomplete",
            PErr::Unexpected(..) => "rejected: Unexpected", _ => "rejected: end of input",
        }, 1),
    }
    ctx.count("commands", want.cmds.len() as u64);
    ctx.case(s, nontrivial(s, &want));
    Ok(())
}
pub fn accepted(_: &str, w: &Run) -> bool { !w.cmds.is_empty() }
pub fn rejected(_: &str, w: &Run) -> bool { !w.ok() }
pub fn any(s: &str, _: &Run) -> bool { !s.is_empty() }

// ---- exhaustive sequences ------------------------------------------------------------------------------
pub fn seq_count(v: usize, len: usize) -> u64 { (1..=len as u32).map(|l| (v as u64).pow(l)).sum() }
pub fn seq_at(voc: Voc, len: usize, mut i: u64) -> Vec<&'static str> {
    let v = voc.len() as u64;
    for l in 1..=len as u32 {
        let n = v.pow(l);
        if i < n {
            let mut out = Vec::with_capacity(l as usize);
            for _ in 0..l {
                out.push(voc[(i % v) as usize]);
                i /= v;
            }
            return out;
        }
        i -= n;
    }
    vec![]
}
#[derive(Clone, Copy)]
pub struct Seqs { pub name: &'static str, pub voc: Voc, pub len: usize, pub join: Voc, pub wraps: &'static [(&'static str, &'static str)] }
/// Every sequence of up to `len` elements, under every joiner, in every context.
pub fn seqs(q: Seqs, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    let n = seq_count(q.voc.len(), q.len);
    let (j, w) = (q.join.len() as u64, q.wraps.len() as u64);
    Stream {
        name: q.name, n: n * j * w, exhaustive: true,
        f: Box::new(move |ctx, i| {
            let (k, rest) = (i % (j * w), i / (j * w));
            let (pre, post) = q.wraps[(k / j) as usize];
            let mut s = String::from(pre);
            s.push_str(&seq_at(q.voc, q.len, rest).join(q.join[(k % j) as usize]));
            s.push_str(post);
            see(ctx, &s, or, nt)
        }),
    }
}
pub const BARE: &[(&str, &str)] = &[("", "")];

// ---- random longer sequences ---------------------------------------------------------------------------
pub fn soup(r: &mut Rng, voc: Voc, lo: usize, hi: usize, blank: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(lo, hi) {
        s.push_str(*r.pick(voc));
        if r.pct(blank) { s.push(' ') }
    }
    s
}
#[allow(clippy::too_many_arguments)]
pub fn soups(name: &'static str, tag: u64, n: u64, voc: Voc, lo: usize, hi: usize, wraps: &'static [(&'static str, &'static str)], or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n, exhaustive: false,
        f: Box::new(move |ctx, i| {
            let mut r = Rng::of(&[ctx.seed, tag, i]);
            let blank = *r.pick(&[0, 10, 50, 90, 100]);
            let w = *r.pick(wraps);
            let s = format!("{}{}{}", w.0, soup(&mut r, voc, lo, hi, blank), w.1);
            see(ctx, &s, or, nt)
        }),
    }
}

// ---- generated programs ----------------------------------------------------------------------------------
/// Generated programs: what they must parse to is known independently of the reference parser.
pub fn trees(name: &'static str, tag: u64, n: u64, prof: fn(&mut Rng) -> Prof, or: Oracle) -> Stream {
    Stream {
        name, n, exhaustive: false,
        f: Box::new(move |ctx, i| {
            let mut r = Rng::of(&[ctx.seed, tag, i]);
            let p = prof(&mut r);
            let c = case(&mut r, &p);
            let want = reference(&c.text);
            let truth = viewed(normed(c.cmds), &mut NoComments);
            if viewed(want.cmds, &mut NoComments) == truth && want.end == Ok(c.trail) {
                ctx.count("generated programs judged by construction", 1);
            } else {
                ctx.count("generated programs judged by the reference only", 1);
            }
            see(ctx, &c.text, or, accepted)
        }),
    }
}
pub const POOL: Voc = &[
    "\n", "(", ")", "{", "}", "[", "]", "!", "~", "#", "*", "?", "\\", "%", "-", "=", "+", ":", "@", "^", "/", ",", "'", "\"", "`", ";", "&", "|", "&&", "||", ";;",
    "<", ">", "<<", ">>", ">&", "<&", "<<-", ">|", "<>", "$", "$1", "$0", "$x", "${", "$(", "$((", "))", " ", "\t", "a", "x", "1", "2", "if ", "then ", "fi", "else ", "elif ", "do ",
    "done", "case ", "in ", "esac", "for ", "while ", "until ", "function ", "x=", "\\\n", "EOF", "é", " # c\n", "\u{1}", "<<EOF\n", "\nEOF\n", "()", "''", "\"\"", "${x}", " ;", "foo",
];
/// Applies random edits, at the level of tokens.
pub fn mutate(r: &mut Rng, s: &str, edits: usize) -> String {
    let mut t: Vec<String> = refmodel::lex::lex(s).into_iter().map(|t| t.t.to_string()).collect();
    for _ in 0..edits {
        if t.is_empty() { t.push(r.pick(POOL).to_string()) }
        let i = r.below(t.len());
        match r.below(9) {
            0 | 1 => { t.remove(i); }
            2 => { let x = t[i].clone(); t.insert(i, x) }
            3 => { let j = r.below(t.len()); t.swap(i, j) }
            4 => t[i] = r.pick(POOL).to_string(),
            5 | 6 => t.insert(i, r.pick(POOL).to_string()),
            7 => if r.pct(30) { t.truncate(i) } else { t[i].push_str("\\\n") },
            _ => { let j = r.below(t.len()); let x = t[j].clone(); t.insert(i, x) }
        }
    }
    t.concat()
}
pub fn mutants(name: &'static str, tag: u64, n: u64, prof: fn(&mut Rng) -> Prof, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n, exhaustive: false,
        f: Box::new(move |ctx, i| {
            let mut r = Rng::of(&[ctx.seed, tag, i]);
            let p = prof(&mut r);
            let c = case(&mut r, &p);
            let k = r.range(1, 3);
            let s = mutate(&mut r, &c.text, k);
            see(ctx, &s, or, nt)
        }),
    }
}
/// A generated program with one snippet put at every boundary of its tokens in turn.
pub fn insertions(name: &'static str, tag: u64, n: u64, prof: fn(&mut Rng) -> Prof, voc: Voc, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n, exhaustive: false,
        f: Box::new(move |ctx, i| {
            let mut r = Rng::of(&[ctx.seed, tag, i]);
            let mut p = prof(&mut r);
            p.budget = p.budget.min(8);
            let c = case(&mut r, &p);
            let toks = refmodel::lex::lex(&c.text);
            if toks.len() > 120 { return Ok(()) }
            let ins = *r.pick(voc);
            let mut at = 0;
            for k in 0..=toks.len() {
                let s = format!("{}{}{}", &c.text[..at], ins, &c.text[at..]);
                see(ctx, &s, or, nt)?;
                if k < toks.len() { at += toks[k].t.len() }
            }
            Ok(())
        }),
    }
}

// ---- long pieces -------------------------------------------------------------------------------------------
/// sizes at and next to which limits tend to lie
pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(5) {
        0 | 1 => r.range(2, 40),
        2 => *r.pick(&[10, 20, 50, 99, 100, 200, 256, 500, 1000, 2000, 5000, 10_000]),
        3 => 1 << r.range(2, 9),
        _ => 1 << r.range(2, 16),
    };
    (n + r.below(3)).saturating_sub(1).min(max).max(1)
}
/// Makes a part of a text long: a single token, or a run of tokens which is repeated.
pub fn stretch(r: &mut Rng, s: &str, max: usize) -> String {
    let mut t: Vec<String> = refmodel::lex::lex(s).into_iter().map(|t| t.t.to_string()).collect();
    for _ in 0..r.range(1, 2) {
        if t.is_empty() { t.push("a".into()) }
        let i = r.below(t.len());
        let n = size(r, max / t[i].len().max(1));
        let c = t[i].chars().next().unwrap_or('a');
        if c == ' ' || c == '\t' {
            t[i] = match r.below(4) { 0 => " ".repeat(n), 1 => "\t".repeat(n), 2 => t[i].repeat(n), _ => format!("{} \\\n{}", " ".repeat(n), "\t".repeat(n % 7)) };
            continue;
        }
        if (c.is_alphanumeric() || c == '_' || !c.is_ascii()) && r.pct(60) {
            t[i] = match r.below(4) { 0 => t[i].repeat(n), 1 => format!("{}{}", t[i], "0".repeat(n)), 2 => format!("{}{}", t[i], "\u{e9}".repeat(n / 2)), _ => format!("{}{}", t[i], "x_1".repeat(n / 3)) };
            continue;
        }
        let m = r.range(1, 12).min(t.len() - i);
        let run = t[i..i + m].concat();
        let n = size(r, max / run.len().max(1));
        // brackets and the like nest: keep them within what any stack holds
        let n = if run.contains(|c| "({$`\"!".contains(c)) || run.chars().any(char::is_alphabetic) { n.min(400) } else { n };
        // each heredoc on a line goes through the rest of the line once more
        let n = if run.contains('<') { n.min(60) } else { n };
        t[i] = run.repeat(n);
        t.drain(i + 1..i + m);
    }
    t.concat()
}
/// One long piece which does not nest: a comment, quotes, a heredoc, a word, many words, many commands.
pub fn flat(r: &mut Rng, max: usize) -> String {
    const BITS: &[&str] = &["a", "x-", "foo ", "1", " ", "-", "=", "%", "\u{e9}", "ab\t", "@", "#", "*", "\u{4e2d} ", ":", "/", ",", "]", "+x", "^"];
    let n = size(r, max);
    let few = r.range(1, 4);
    let bits: Vec<&str> = (0..few).map(|_| *r.pick(BITS)).collect();
    let mut t = String::new();
    while t.len() < n { t.push_str(&r.pick(&bits[..])) }
    match r.below(12) {
        0 => format!("# {}\n", t),
        1 => format!("a # {}\nb\n", t),
        2 => format!("echo '{}' b\n", t),
        3 => format!("echo \"{}\" b\n", t),
        4 => format!("cat <<E b\n{}\nE\nc\n", t.replace(' ', "\n")),
        5 => format!("cat <<'E' b\n{}\nE\nc\n", t.replace("foo ", "foo\n")),
        6 => format!("cat <<-E b\n\t{}\n\tE\nc\n", t.replace(' ', "\n\t")),
        7 => format!("echo {}\nb\n", t),
        8 => format!("a {}\n", t.replace(' ', "\nb ")),
        9 => format!("a `echo '{}'` b\n", t.replace('\u{e9}', "\\$")),
        10 => format!("a ${{x:-{}}} b\n", t),
        _ => format!("a $(# {}\nb) c\n", t),
    }
}
pub fn stretched(name: &'static str, tag: u64, n: u64, prof: fn(&mut Rng) -> Prof, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n, exhaustive: false,
        f: Box::new(move |ctx, i| {
            let mut r = Rng::of(&[ctx.seed, tag, i]);
            let mut p = prof(&mut r);
            p.budget = p.budget.min(10);
            let c = case(&mut r, &p);
            let max = if r.pct(3) { 70_000 } else { 3000 };
            let mut s = stretch(&mut r, &c.text, max);
            if r.pct(2) { s = if r.pct(50) { format!("{}\n{}", flat(&mut r, 70_000), s) } else { format!("{}\n{}", s, flat(&mut r, 70_000)) } }
            ctx.count("characters in stretched programs", s.len() as u64);
            see(ctx, &s, or, nt)
        }),
    }
}

/// Long lists of every kind: what comes before, an item (`%`: its number), what comes after.
const LONG: &[(char, &str, &str, &str)] = &[
    ('l', "", "a% ; ", "z"), ('l', "", "a% & ", ""), ('l', "", "a%\n", ""), ('l', "a", " && b%", ""), ('l', "a", " || b% && c", "\n"), ('l', "a", " | b%", "; z"), ('l', "! a", " |\nb%", " && c"), ('l', "", "a% && b | c\n", ""),
    ('l', "( ", "a%; ", ")"), ('l', "$( ", "a%; ", ")"), ('l', "`", "a%; ", "`"), ('l', "\"$(", "a%\n", ")\""),
    ('c', "{ ", "a%; ", "}"), ('c', "{\n", "a% &\n", "} >o"), ('c', "( ", "a%\n", ")"), ('c', "if ", "a%; ", "then b; fi"), ('c', "if a; then ", "b%; ", "else c; fi"), ('c', "if a; then b; else ", "c%\n", "fi"), ('c', "if a; then b; ", "elif c%; then d%; ", "else e; fi"),
    ('c', "while ", "a%; ", "do b; done"), ('c', "until a; do ", "b%; ", "done"), ('c', "for x in", " w%", "; do a; done"), ('c', "for x in w; do ", "a%; ", "done"), ('c', "case w in ", "p%) a%;; ", "esac"), ('c', "case w in ", "(p% | q%)\na%\n;;\n", "esac"),
    ('c', "case w in p", " | q%", ") a;; esac"), ('c', "case w in (p", "|q%", ") a;; (r) b; esac"), ('c', "case w in p) ", "a%; ", ";; esac"), ('c', "f() { ", "a%; ", "}"), ('c', "", "f%() { a; }\n", ""), ('c', "{ a; }", " >o%", ""), ('c', "case w in p) a;; esac", " %>&1", "; b"), ('c', "", "if a; then b%; fi; ", ""),
    ('w', "a", " w%", ""), ('w', "a", " 'w%'", ""), ('w', "a", " \"w% $x\"", ""), ('w', "a ", "'w%'v", ""), ('w', "a ", "\\b\"%\"", " c"), ('w', "a ", "*%", ""), ('w', "", "x%=v ", "a"), ('w', "", "x%=v ", ""), ('w', "a \"", "w% ", "\""), ('w', "a '", "w% ", "'"), ('w', "x=", "~:%", " a"), ('w', "a \"", "\\\\%", "\""), ('w', "a \"", "\\\"w%", "\" b"), ('w', "a", " \\\n w%", ""), ('w', "a", " w%\\ v", ""), ('w', "a", " w%=v", ""),
    ('p', "a", " $x%", ""), ('p', "a ", "$x%-", ""), ('p', "a ", "${x%}", ""), ('p', "a", " ${x%:-w%}", ""), ('p', "a ${x:-", "$y% w ", "}"), ('p', "a \"${x#", "w%", "}\""), ('p', "a \"", "$x% ${y%} ", "\""), ('p', "a", " ${#x%}", ""), ('p', "a", " ${1%}", ""), ('p', "a", " $1$%", ""), ('p', "a ${x:?", "$(b %)", "}"), ('p', "c <<E\n", "$x% ${y%%w} $1\n", "E\n"), ('p', "a ${x", "x%", "}"),
    ('a', "a $((1", " + x%", "))"), ('a', "a $((1", " - %", "))"), ('a', "a", " $((x% = 1))", ""), ('a', "a $((1", " * $x%", "))"), ('a', "a $((x", ", y%", "))"), ('a', "a $((", "x% && ", "y))"), ('a', "a $((1", " << %", "))"), ('a', "a $((1", "\n|\n%", "))"), ('a', "a \"", "$((x%))", "\""), ('a', "c <<E\n", "$((% + 1))\n", "E\n"), ('a', "a $((1", " < % == 0", "))"),
    ('r', "a", " >o%", ""), ('r', "", "%>o ", ""), ('r', "", ">o% ", "a"), ('r', "a", " <&%", ""), ('r', "a", " b% 2>>o%", ""), ('r', "{ a; }", " <>i%", ""), ('r', "", ">|o%\n", ""), ('r', "", "x%=1 <i% ", "a"), ('r', "f() ( a )", " 3>&- >o%", ""), ('r', "(a)", " 2>&1 >\"$x%\"", " | b"),
    ('h', "c <<E\n", "w%\n", "E\n"), ('h', "c <<'E'\n", "w%\n", "E\nd\n"), ('h', "c <<-E\n", "\t\tw%\n", "\tE\nd\n"), ('h', "c <<E\n", "$x% `b` \\$\n", "E\n"), ('h', "", "c <<E%\nw\nE%\n", ""), ('h', "c <<E\n", "E %\n", "E\n"), ('h', "c <<E", " w%", "\nb\nE\nd\n"), ('h', "c <<E; ", "a%; ", "\nb\nE\nd\n"), ('h', "(c <<E\n", "w%\n", "E\n)"), ('h', "`c <<E\n", "w%\n", "E\n`"), ('h', "c <<E\n", "\\\nw%", "\nE\n"),
    ('k', "a", " if then%", ""), ('k', "", "a in do done esac; ", ""), ('k', "for x in", " in% do% done", "; do a; done"), ('k', "case in in ", "(if|then%) fi%;; ", "esac"), ('k', "if a; then ", "for x in do; do b%; done; ", "fi"), ('k', "", "x%=if ", "then%"), ('k', "", "\\if >then%\n", ""), ('k', "", "while a% do; do done%; b; done\n", ""),
    ('n', "", "# c%\n", ""), ('n', "a", " # c%\n", ""), ('n', "", "\n", "a"), ('n', "a &&", " # c%\n", " b"), ('n', "a |", "\n# c%\n", " b"), ('n', "{ # b\n", "# c%\n\n", "a; }"), ('n', "{ a\n", "# c%\n", "}"), ('n', "if a; then b # c\n", "# c%\n", "fi"), ('n', "case w # a\n", "# c%\n", "in # b\np) a;; esac"), ('n', "case w in\n", "# c%\n", "p) a;; esac"), ('n', "case w in\n", "# b%\np) # c%\n", "a;; esac"),
    ('n', "case w in p)", " # c%\n", "a ;; # d\nesac"), ('n', "for x", " # c%\n", "in a; do b; done"), ('n', "for x in a # c\n", "# c%\n", "do b; done"), ('n', "f()\n", "# c%\n", "{ a; }"), ('n', "", "a% # c%\n", ""), ('n', "", "a% & # c%\n\n", ""), ('n', "(", "# c%\n", "a)"), ('n', "$(", "\n# c%\n", "a)"), ('n', "while a; do b;", " # c%\n", "done"), ('n', "a", "\\\n ", "b"), ('n', "a ", "\\\n", "b"), ('n', "case w in p) a;;", "# c%\n", "esac"), ('n', "# ", "c% ", "\na"),
];
/// Numbers of items at and next to which limits tend to lie.
pub fn counts(thorough: bool) -> Vec<usize> {
    let mut v = vec![9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193];
    if thorough { v.extend([10_000, 16_383, 16_384, 16_385, 20_000, 30_000, 32_767, 32_768, 32_769, 50_000, 65_534, 65_535, 65_536, 65_537, 100_000, 131_072, 140_000]) }
    v.push(70_000);
    v
}
/// The `i`th of the lists of the given kinds (`*`: all) at these numbers of items, with what it ends with.
fn long_list(kinds: &str, ns: &[usize], i: u64) -> Option<(String, &'static str, usize)> {
    let fam: Vec<usize> = (0..LONG.len()).filter(|k| kinds.contains('*') || kinds.contains(LONG[*k].0)).collect();
    let i = i as usize;
    // the longest first: they should not be left for the end
    let n = *ns.iter().rev().nth(i / fam.len())?;
    let (_, pre, item, post) = LONG[fam[i % fam.len()]];
    let mut s = String::from(pre);
    for k in 0..n { s.push_str(&item.replace('%', &k.to_string())) }
    Some((s, post, n))
}
pub fn long_with(name: &'static str, kinds: &'static str, ns: Vec<usize>, f: impl Fn(&mut Ctx, &mut Rng, String, &'static str) -> Result<(), Fail> + Send + Sync + 'static) -> Stream {
    let fam = LONG.iter().filter(|l| kinds.contains('*') || kinds.contains(l.0)).count();
    Stream {
        name, n: (fam * ns.len()) as u64, exhaustive: true,
        f: Box::new(move |ctx, i| {
            let (s, post, n) = long_list(kinds, &ns, i).expect("a list");
            ctx.count("items of long lists", n as u64);
            f(ctx, &mut Rng::of(&[ctx.seed, 0x10, i]), s, post)
        }),
    }
}
pub fn long_lists(kinds: &'static str, thorough: bool, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    long_with("long lists", kinds, counts(thorough), move |ctx, _, s, post| see(ctx, &(s + post), or, nt))
}
/// A few numbers of items, for checks which take longer per item.
pub fn some_counts(thorough: bool) -> Vec<usize> { if thorough { vec![33, 100, 257, 1025, 4097, 8193, 16_385, 70_000] } else { vec![33, 257, 1025, 8193] } }

/// Nests of every kind: what a level opens with, what is inside, what a level closes with (`%`: the number of the level).
const NESTS: &[(char, &str, &str, &str)] = &[
    ('l', "( a%; ", "b", " )"), ('l', "( ", "b", "; c% ) && d%"), ('l', "{ a% && ", "b", "; }"), ('l', "{ a% | ", "b", " & }"), ('l', "! { ", "b", "; } || a%"), ('l', "x% $( a% | ", "b", " && c% )"), ('l', "(\n", "b", "\na% &\n)"),
    ('c', "{ a%; ", "b", "; }"), ('c', "if a%; then ", "b", "; fi"), ('c', "if ", "b", "; then a%; fi"), ('c', "if a; then b%; elif c; then ", "d", "; else e%; fi"), ('c', "if a; then b; else ", "c", "\nfi >o%"), ('c', "while ", "a", "; do b%; done"), ('c', "until a%; do ", "b", "; done"), ('c', "for x% in w; do ", "a", "; done"), ('c', "for x% do\n", "a", "\ndone"),
    ('c', "case w% in p%) ", "a", ";; esac"), ('c', "case w% in (p|q%) ", "a", "\nesac"), ('c', "case w in p) a;; q%) ", "b", ";; r%) c;; esac"), ('c', "f%() { ", "a", "; }"), ('c', "function f% ( ", "a", " )"), ('c', "f%() ", "{ a; }", " >o%"), ('c', "( ", "a", " ) <i%"), ('c', "case $( ", "a", " ) in p%) b;; esac"), ('c', "for x in $( ", "a", " ) w%; do b; done"),
    ('w', "a% \"$( ", "b 'c' d", " )\""), ('w', "a \"w%$( ", "b", " )'v%'\""), ('w', "x%=$( ", "b", " )"), ('w', "a%'q'$( ", "b", " )\\e"), ('w', "a \"${x%:-", "w", "}\""), ('w', "a% `", "b", "`"),
    ('p', "a% ${x%:-", "w", "}"), ('p', "${x%:-", "w", "}"), ('p', "w%${x##", "$y", "}v%"), ('p', "\"${x%=", "w", "}\""), ('p', "${x%:+$( a ", "${y}", " )}"), ('p', "$( a% ", "$x", " )"), ('p', "${x%?\"", "$y", "\"}"), ('p', "${x%-$(( ", "y", " ))}"),
    ('a', "$(( 1 + ", "x", " ))"), ('a', "a $(( ", "(x)", " + % ))"), ('a', "", "", ""),
    ('r', "{ a >o%; ", "b", "; } 2>&1 >p%"), ('r', "( a <i% ", "b", " ) >\"p%\""), ('r', "a >$( ", "b", " )"), ('r', "if a >o%; then ", "b", "; fi <i%"), ('r', "a <&$( b% ", "c", " ) d%"), ('r', "f%() ", "( a )", " >o%"),
    ('h', "c <<E%\n$( ", "b", " )\nE%\n"), ('h', "{ c%; ", "d <<E\nw\nE\n", " } <<F\nv%\nF\n"), ('h', "$( ", "c <<E\nw\nE\n", " )"), ('h', "c <<E%; ( ", "d", " )\nw\nE%\n"), ('h', "c <<E \"$( ", "d", " )\" e%\nw\nE\n"), ('h', "if c <<E%\nw\nE%\nthen ", "d", "; fi"), ('h', "c <<-E%\n\t${x:-", "d", "}\n\tE%\n"),
    ('k', "if in; then ", "do", "; fi"), ('k', "while do%; done; do ", "in", "; done"), ('k', "for in in do; do ", "if\\", "; done"), ('k', "case in in in) ", "fi%", ";; esac"), ('k', "function if ", "{ then; }", ""), ('k', "{ { ", "a", "; }; }"),
    ('n', "( # c%\n", "a", " # d%\n)"), ('n', "{ # c%\n", "a", " # d%\n}"), ('n', "if # c%\na; then # d%\n", "b", " # e%\nfi"), ('n', "while a # c%\n# d%\ndo\n", "b", "\n# e%\ndone"), ('n', "for x # c%\nin w # d%\ndo # e%\n", "a", " # f%\ndone"), ('n', "case w # c%\nin # d%\np) # e%\n", "a", " # f%\n;; # g%\nesac"), ('n', "f() # c%\n# d%\n{ # e%\n", "a", "\n}"), ('n', "a && # c%\n( ", "b", " )"), ('n', "$( # c%\n", "a", "\n)"), ('n', "a |\n# c%\n{ ", "b", "\n}"),
];
/// All nests of the given kinds (`*`: all) at many depths.
pub fn deep_nests(kinds: &'static str, thorough: bool, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    let fam: Vec<usize> = (0..NESTS.len()).filter(|k| (kinds.contains('*') || kinds.contains(NESTS[*k].0)) && !NESTS[*k].1.is_empty()).collect();
    let mut ns = vec![2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300];
    if thorough { ns.extend([400, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]) }
    Stream {
        name: "deep nests", n: (fam.len() * ns.len()) as u64, exhaustive: true,
        f: Box::new(move |ctx, i| {
            let n = ns[ns.len() - 1 - i as usize / fam.len()];
            let (_, open, mid, close) = NESTS[fam[i as usize % fam.len()]];
            // nested backticks double their backslashes
            if open.contains('`') && n > 1 { return Ok(()) }
            let mut s = String::new();
            for k in 0..n { s.push_str(&open.replace('%', &k.to_string())) }
            s.push_str(&mid.replace('%', "m"));
            for k in (0..n).rev() { s.push_str(&close.replace('%', &k.to_string())) }
            ctx.count("levels of deep nests", n as u64);
            see(ctx, &s, or, nt)?;
            // and one level too few, or too many, closed
            if i % 3 == 0 { see(ctx, &s[..s.len() - close.len().min(s.len())], or, nt)?; see(ctx, &format!("{}{}", s, close.replace('%', "0")), or, nt)? }
            Ok(())
        }),
    }
}
/// Every character there is, in contexts of a kind.
pub fn every_char(name: &'static str, contexts: &'static [&'static str], together: usize, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n: 0x1100 * contexts.len() as u64, exhaustive: true,
        f: Box::new(move |ctx, i| {
            let (c, b) = (contexts[i as usize % contexts.len()], (i as usize / contexts.len() * 256) as u32);
            let all: Vec<char> = (b..b + 256).filter_map(std::char::from_u32).collect();
            for cs in all.chunks(together) {
                // several characters are put on a line each; the ones of ASCII always stand alone, as they may break it
                if cs[0].is_ascii() { for c1 in cs { see(ctx, &c.replace('@', &c1.to_string()), or, nt)? } }
                else { see(ctx, &cs.iter().map(|c1| c.replace('@', &c1.to_string())).collect::<Vec<_>>().join("\n"), or, nt)? }
                ctx.count("characters in context", cs.len() as u64);
            }
            Ok(())
        }),
    }
}

// ---- numbers ----------------------------------------------------------------------------------------------
/// Numbers where a representation of them could end, their neighbours, with leading zeros, and in other bases.
pub fn number_texts() -> Vec<String> {
    let mut ns: std::collections::BTreeSet<u128> = (0..=1100).collect();
    for k in 0..=70 { for d in 0..=4u128 { ns.insert(((1u128 << k) + d).saturating_sub(2)); } }
    for k in 0..=25 { for m in [1u128, 2, 5, 9] { for d in 0..=2 { ns.insert((m * 10u128.pow(k) + d).saturating_sub(1)); } } }
    let mut v: Vec<String> = vec![];
    for n in ns {
        v.push(n.to_string());
        if n > 1000 || n % 37 < 2 {
            for z in [1, 2, 5, 20, 40] { v.push(format!("{}{}", "0".repeat(z), n)) }
            v.extend([format!("0x{:x}", n), format!("0X{:X}", n), format!("0x00{:X}", n), format!("0{:o}", n), format!("00{:o}", n), format!("0x{}", n), format!("{}x", n), format!("{:x}", n)]);
        }
    }
    for z in [100, 1000, 10_000, 70_000] { for d in ["0", "1", "7", "9"] { v.push(d.repeat(z)); v.push(format!("{}{}", "0".repeat(z), d)); v.push(format!("0x{}{}", "0".repeat(z), d)) } }
    v.extend(["0x", "0X", "0xx", "0x0x1", "0x_1", "0x1_000", "1_000", "1e3", "1E3", "1.5", "0b1", "0o7", "08", "09", "0x1p3", "1u", "1L", "16#ff", "1'000", "0xé", "0é", "1é", "٣", "0٣", "0x٣", "１", "²", "1²", "0x8000000000000000", "-0", "+1", "--1", "0-0"].map(String::from));
    v.sort();
    v.dedup();
    v
}
pub fn numbers(contexts: &'static [&'static str], or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    let v = number_texts();
    Stream {
        name: "numbers at the ends of their ranges", n: v.len() as u64, exhaustive: true,
        f: Box::new(move |ctx, i| {
            for c in contexts { see(ctx, &c.replace('@', &v[i as usize]), or, nt)? }
            ctx.count("numbers in context", contexts.len() as u64);
            Ok(())
        }),
    }
}
/// all strings up to a length over an alphabet, in contexts
pub fn spelled(name: &'static str, letters: Voc, max: usize, contexts: &'static [&'static str], or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n: seq_count(letters.len(), max), exhaustive: true,
        f: Box::new(move |ctx, i| {
            let w = seq_at(letters, max, i).concat();
            for c in contexts { see(ctx, &c.replace('@', &w), or, nt)? }
            Ok(())
        }),
    }
}

// ---- all single edits -------------------------------------------------------------------------------------
/// Small programs which together use every construct.
pub const SKELETONS: Voc = &[
    "if a; then b; fi", "if a; then b; elif c; then d; else e; fi >o", "if a\nthen b\nelif c\nthen d\nelif e\nthen f\nfi", "if ! a | b && c; then { d; } fi", "if (a) then (b) else (c) fi",
    "while a; do b; done", "until a\ndo b\ndone <i", "while a; b; do c & d; done | e", "until while a; do b; done; do c; done",
    "for x; do a; done", "for x do a; done", "for x\ndo a\ndone", "for x in a b; do c; done >o", "for x in\ndo a; done", "for x # c\nin a # d\ndo b; done", "for x in a; do for y in b; do c; done; done",
    "case w in a) b;; esac", "case w in (a|b) c;; (d) e; esac", "case w\nin\n# c\na) b # d\n;;\nesac", "case w in esac", "case w in a) ;; b) esac >o", "case $x in *) if a; then b; fi;; esac", "case w in a) case v in b) c;; esac;; esac",
    "{ a; }", "{ a; b & } >o 2>&1", "( a )", "(a; (b))", "{ { a; }\n}", "(a) && { b; } | (c) &",
    "f() { a; }", "f() (a) >o", "function f { a; }", "function f() {\na\n}", "function f (a)", "f()\n# c\nif a; then b; fi", "f() while a; do b; done",
    "a && b || c; d | e & ! f", "a |\nb &&\n\nc", "! a | b; ! { c; }", "a; # c\nb & # d\n# e\n",
    "x=1 a b >o", "x= y=$z <i a 2>>o b >|c", "a <>b >&2 <&- 3<c", ">o", "x=a:~/b", "a=b c=d e=f",
    "cat <<E; a\nb\nE\nc", "cat <<-'E' <<F | d\n\ta\n\tE\n$x\nF\n", "{ cat <<E\na\nE\n}", "$(cat <<E\na\nE\n)", "if cat <<E; then a; fi\nb\nE\n",
    "a \"b $x\" 'c d' \\e", "a $x ${y} $1 ${10} $@ \"$*\"", "a ${x:-b} ${y##*/} ${z%c}", "a ${#x} ${#} ${x=$(b)} ${y:+\"c\"}",
    "a $(b; c) `d | e` \"$(f)\" \"`g`\"", "a `b \\`c\\` d`", "a $((x + 1)) $(( (y = 2) ? -z : w++ , 3 ))", "a $((x ** 2 << 1 == 3 && !y)) $((z += 0x1f))",
    "if a; then for x in b; do case c in d) { e; };; esac; done; fi", "f() { while a; do (b | c) && d; done; } >o", "$(if a; then b; fi) `for x; do c; done`", "a; if b; then c; fi; d", "while a; do if b; then c; elif d; then e; fi; done",
];
/// Everything one edit (of a token) away from the skeletons: tokens dropped, doubled, swapped, replaced and inserted.
pub fn neighbours(name: &'static str, voc: Voc, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    let toks: Vec<Vec<String>> = SKELETONS.iter().map(|s| refmodel::lex::lex(s).into_iter().map(|t| t.t.to_string()).collect()).collect();
    let per = 3 + 2 * voc.len();
    // where the edits of each skeleton start
    let mut starts = vec![0u64];
    for t in &toks { let n = starts[starts.len() - 1] + ((t.len() + 1) * per) as u64; starts.push(n) }
    let total = starts[starts.len() - 1];
    Stream {
        name, n: total, exhaustive: true,
        f: Box::new(move |ctx, i| {
            let k = match starts.binary_search(&i) { Ok(k) => k, Err(k) => k - 1 };
            let rest = (i - starts[k]) as usize;
            let (at, e) = (rest / per, rest % per);
            let mut t = toks[k].clone();
            if at == t.len() && !(e >= 3 + voc.len()) { return Ok(()) }
            match e {
                0 => { t.remove(at); }
                1 => { let x = t[at].clone(); t.insert(at, x) }
                2 => { if at + 1 < t.len() { t.swap(at, at + 1) } }
                e if e < 3 + voc.len() => t[at] = voc[e - 3].to_string(),
                e => t.insert(at, voc[e - 3 - voc.len()].to_string()),
            }
            see(ctx, &t.concat(), or, nt)
        }),
    }
}
/// A small program with a few edits.
pub fn small_edited(r: &mut Rng) -> String {
    let s = *r.pick(SKELETONS);
    let k = r.range(1, 3);
    let mut s = swap_words(r, s);
    if r.pct(60) { s = mutate(r, &s, k) }
    if r.pct(30) { let w = *r.pick(&[("{ ", "\n}"), ("(", ")"), ("$(", "\n)"), ("if ", "\nthen a; fi"), ("f() {\n", "\n}"), ("while a\ndo ", "\ndone"), ("case a in b) ", "\nesac"), ("a | ", ""), ("\"$(", ")\"")]); s = format!("{}{}{}", w.0, s, w.1) }
    s
}
/// The same with a few edits.
pub fn neighbours2(name: &'static str, tag: u64, n: u64, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream {
        name, n, exhaustive: false,
        f: Box::new(move |ctx, i| {
            let mut r = Rng::of(&[ctx.seed, tag, i]);
            let s = small_edited(&mut r);
            see(ctx, &s, or, nt)
        }),
    }
}
const PLACES: Voc = &["if", "then", "elif", "else", "fi", "do", "done", "case", "esac", "for", "while", "until", "function", "in", "{", "}", "!", "a", ";", ";;", "&", "|", "&&", "||", "\n", "(", ")", ">", "<", "<<", "x=", "$x", "b"];
/// Replaces some words and operators by others.
fn swap_words(r: &mut Rng, s: &str) -> String {
    let mut t: Vec<String> = refmodel::lex::lex(s).into_iter().map(|t| t.t.to_string()).collect();
    let at: Vec<usize> = (0..t.len()).filter(|i| !t[*i].starts_with(|c: char| c == ' ' || c == '\t')).collect();
    for _ in 0..r.range(1, 2) { let i = *r.pick(&at); t[i] = r.pick(PLACES).to_string() }
    t.concat()
}
