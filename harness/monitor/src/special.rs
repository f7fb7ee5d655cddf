//! Checks of the properties which are not about what a text parses to.
use crate::astconv::{Canon, Conv};
use crate::drive::*;
use crate::glue::*;
use crate::grammar;
use crate::run::*;
use crate::texts::*;
use conch_parser::ast;
use conch_parser::ast::builder::{self as b, ArcBuilder, Builder, EmptyBuilder, RcBuilder, StringBuilder};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use conch_parser::token::{Positional, Token};
use refmodel::gen::*;
use refmodel::parse::P;
use refmodel::rng::Rng;
use refmodel::tree::*;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

type Gen = fn(&mut Rng) -> String;
/// any kind of text
pub fn anything(r: &mut Rng) -> String {
    match r.below(40) {
        38 | 39 => return { let p = grammar::any_prof(r); let t = case(r, &p).text; stretch(r, &t, 2000) },
        37 if r.pct(12) => return flat(r, 50_000),
        33 => return r.pick(SKELETONS).to_string(),
        34 | 35 | 36 => return small_edited(r),
        _ => {}
    }
    match r.below(10) {
        0 | 1 | 2 => { let p = grammar::any_prof(r); case(r, &p).text }
        3 | 4 => { let p = grammar::any_prof(r); let t = case(r, &p).text; let k = r.range(1, 3); mutate(r, &t, k) }
        5 => { let (w, lo, hi) = (*r.pick(&[0, 50, 90]), 2, 20); soup(r, POOL, lo, hi, w) }
        6 => { let v = grammar::any_voc(r); let w = *r.pick(&[0, 50, 90, 100]); soup(r, v, 3, 20, w) }
        7 => grammar::hd_soup(r),
        8 => { let v = grammar::any_voc(r); let w = *r.pick(&[0, 50, 90, 100]); let s = soup(r, v, 1, 6, w); let c = *r.pick(CONTEXTS); format!("{}{}{}", c.0, s, c.1) }
        _ => { let p = grammar::any_prof(r); let n = r.range(1, 3); let c = case(r, &p); let mut t = c.text; for _ in 1..n { t.push('\n'); t.push_str(&case(r, &p).text) } t }
    }
}
/// a program which is accepted most of the time
pub fn program(r: &mut Rng) -> String {
    let p = grammar::any_prof(r);
    case(r, &p).text
}
const CONTEXTS: &[(&str, &str)] = &[("", ""), ("{ ", "; }"), ("( ", ")"), ("$( ", ")"), ("\"$( ", ")\""), ("`", "`"), ("\"`", "`\""), ("if ", "; then a; fi"), ("if a; then ", "; fi"), ("if a; then b; elif ", "; then c; fi"), ("if a; then b; else ", "; fi"),
    ("while ", "; do a; done"), ("until a; do ", "; done"), ("for x in a; do ", "; done"), ("case a in b) ", ";; esac"), ("case a in b) c;; d) ", "\nesac"), ("f() { ", "; }"), ("a && ", ""), ("a | ", ""), ("! ", ""), ("a <<E\n$( ", ")\nE\n"), ("${x:-$( ", ")}"), ("a; ", ""), ("a >$( ", ")"),
    ("x=$( ", ") a"), ("a $( ", ") >o"), ("{ ( ", ") ; }"), ("a\n\n# c\n", "\n"), ("f() ( ", " )"), ("case $( ", ") in a) b;; esac"), ("for x in $( ", "); do a; done"), ("a & ", " &")];

fn each(name: &'static str, tag: u64, n: u64, f: impl Fn(&mut Ctx, &mut Rng) -> Result<(), Fail> + Send + Sync + 'static) -> Stream {
    Stream { name, n, exhaustive: false, f: Box::new(move |ctx, i| { let mut r = Rng::of(&[ctx.seed, tag, i]); f(ctx, &mut r) }) }
}
fn over(name: &'static str, tag: u64, n: u64, gen: Gen, f: fn(&mut Ctx, &mut Rng, &str) -> Result<(), Fail>) -> Stream {
    each(name, tag, n, move |ctx, r| { let s = gen(r); f(ctx, r, &s) })
}
/// runs code under test; a panic counts against it
fn no_panic<T>(s: &str, f: impl FnOnce() -> T) -> Result<T, Fail> { guard(f).or_else(|m| fail(s, m)) }
fn real_ok(s: &str) -> Result<Run, Fail> { real_text(s).or_else(|m| fail(s, m)) }

// ---- C02, C03: lexing ----------------------------------------------------------------------------------
fn lossless(s: &str) -> Option<String> {
    let toks = match guard(|| Lexer::new(s.chars()).collect::<Vec<_>>()) { Ok(t) => t, Err(m) => return Some(m) };
    let mut at = 0;
    for t in &toks {
        let x = tok(t).t;
        if x.is_empty() { return Some(format!("empty token {:?} at byte {}", t, at)) }
        if !s[at..].starts_with(&*x) { return Some(format!("token {:?} at byte {} is not what the source has there", t, at)) }
        at += x.len();
    }
    if at != s.len() { return Some(format!("tokens end at byte {} of {}: {:?}", at, s.len(), toks)) }
    if toks.len() > s.chars().count() { return Some(format!("{} tokens for {} characters", toks.len(), s.chars().count())) }
    None
}
fn kinds(s: &str) -> Option<String> {
    let got = match guard(|| Lexer::new(s.chars()).map(|t| tok(&t)).collect::<Vec<_>>()) { Ok(t) => t, Err(m) => return Some(m) };
    let want = refmodel::lex::lex(s);
    if got == want { return None }
    let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(want.len()));
    Some(format!("token {}: {:?}, expected {:?}", i, got.get(i), want.get(i)))
}
const CHARS: Voc = &["\n", "(", ")", "{", "}", "[", "]", "!", "~", "#", "*", "?", "\\", "%", "-", "=", "+", ":", "@", "^", "/", ",", "'", "\"", "`", ";", "&", "|", "<", ">", "$", "1", "a", " ", "_", "é", ".", "\t"];
const FEW: Voc = &["\\", "<", ">", "-", "&", "|", ";", "$", "1", "a", " ", "\n", "_"];
const UNI: &[char] = &['a', 'Z', '_', '0', '9', 'é', 'ß', '日', 'ﬁ', '٣', '²', '½', 'Ⅷ', '\u{301}', '\u{200d}', '\u{a0}', '\u{3000}', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '\r', '\0', '\u{7f}', '\u{1F600}', 'ª', 'ǅ', 'ʰ', '〇', '\u{10FFFF}', '\u{e000}', ' ', '\t', '\n', '\\', '$', '-', '=', '<', '>', '&', '|', ';', '.', '\'', '"'];
fn unicode(r: &mut Rng) -> String {
    let n = r.range(1, 14);
    let few = r.pct(40);
    (0..n).map(|_| if few { *r.pick(UNI) } else if r.pct(60) { (b' ' + r.below(95) as u8) as char } else { std::char::from_u32(match r.below(4) { 0 => r.below(0x300), 1 => r.below(0x3000), 2 => r.below(0x10000), _ => r.below(0x110000) } as u32).unwrap_or('\u{fffd}') }).collect()
}
fn lex_see(ctx: &mut Ctx, s: &str, f: Oracle) -> Result<(), Fail> {
    if let Some(m) = f(s) { return fail(s, m) }
    ctx.count("characters", s.chars().count() as u64);
    ctx.count("tokens", refmodel::lex::lex(s).len() as u64);
    ctx.case(s, s.chars().count() > 1);
    Ok(())
}
fn lexing(t: bool, k: u64, f: Oracle) -> Vec<Stream> {
    let seqs = |name, voc: Voc, len: usize| Stream { name, n: seq_count(voc.len(), len), exhaustive: true, f: Box::new(move |ctx, i| lex_see(ctx, &seq_at(voc, len, i).concat(), f)) };
    vec![
        seqs("all short character sequences", CHARS, if t { 5 } else { 4 }),
        seqs("all longer sequences of few characters", FEW, if t { 7 } else { 5 }),
        each("random characters", 21, 150_000 * k, move |ctx, r| { let s = unicode(r); lex_see(ctx, &s, f) }),
        Stream { name: "every character on its own and next to others", n: 0x1100, exhaustive: true, f: Box::new(move |ctx, i| {
            let b = i as u32 * 256;
            for c in (b..b + 256).filter_map(std::char::from_u32) { for s in &[format!("{}", c), format!("a{}b", c), format!("{}1", c), format!("${}", c), format!("\\{}{}", c, c), format!(" {} ", c)] { lex_see(ctx, s, f)? } }
            Ok(())
        }) },
        each("texts of all kinds", 23, 60_000 * k, move |ctx, r| { let s = anything(r); lex_see(ctx, &s, f) }),
        each("long tokens", 24, 6_000 * k, move |ctx, r| {
            let s = match r.below(3) { 0 => unicode(r), 1 => soup(r, POOL, 1, 8, 30), _ => anything(r) };
            let max = if r.pct(10) { 140_000 } else { 5000 };
            let s = stretch(r, &s, max);
            ctx.count("characters of texts with long tokens", s.len() as u64);
            lex_see(ctx, &s, f)
        }),
    ]
}

// ---- C04 -------------------------------------------------------------------------------------------------
fn iterator(ctx: &mut Ctx, r: &mut Rng, s: &str) -> Result<(), Fail> {
    let want = refmodel::lex::lex(s);
    let ends: Vec<usize> = want.iter().scan(0, |a, t| { *a += t.t.len(); Some(*a) }).collect();
    let hint = *r.pick(&[Hint::Exact, Hint::Loose, Hint::None, Hint::Huge]);
    let src = Chars::hinting(s, hint);
    let m = src.m.clone();
    let mut lx = Lexer::new(src);
    let total = no_panic(s, || Lexer::new(s.chars()).count())?;
    let clone_at = r.below(want.len() + 2);
    let clone_every = r.pct(20);
    let mut seen = vec![];
    if m.calls.get() != 0 { return fail(s, "the source was read before the first token was asked for") }
    loop {
        let left = total - seen.len().min(total);
        let (lo, hi) = no_panic(s, || lx.size_hint())?;
        if lo > left || hi.map_or(false, |h| h < left) { return fail(s, format!("size bounds ({}, {:?}) with {} tokens to come after {:?} (source hint {:?})", lo, hi, left, seen.last(), hint)) }
        ctx.count("size bounds judged", 1);
        if clone_every || seen.len() == clone_at {
            let (b0, c0) = (m.bytes.get(), m.calls.get());
            let mut c = lx.clone();
            let (lo, hi) = c.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) { return fail(s, format!("a clone's size bounds ({}, {:?}) with {} tokens to come", lo, hi, left)) }
            if r.pct(30) { let _ = no_panic(s, || c.next())?; } // an abandoned clone
            let rest: Vec<Token> = no_panic(s, || lx.clone().collect())?;
            if rest.len() != left { return fail(s, format!("a clone yields {} tokens, {} were to come", rest.len(), left)) }
            let w: Vec<Tok> = rest.iter().map(tok).collect();
            if left <= want.len() && total == want.len() && w[..] != want[want.len() - left..] { return fail(s, format!("a clone yields {:?}", w)) }
            if (m.bytes.get(), m.calls.get()) != (b0, c0) { return fail(s, "using a clone read from the original's source") }
            ctx.count("clones compared", 1);
        }
        match no_panic(s, || lx.next())? {
            None => break,
            Some(t) => {
                let i = seen.len();
                seen.push(tok(&t));
                let bound = ends.get(i + 1).map_or(s.len(), |&e| e + s[e..].chars().next().map_or(0, char::len_utf8));
                if m.bytes.get() > bound && total == want.len() { return fail(s, format!("token {} was returned after reading {} bytes, more than a character past the following token ({})", i + 1, m.bytes.get(), bound)) }
                ctx.count("read-ahead judged", 1);
            }
        }
        if seen.len() > total { return fail(s, "more tokens than the first time") }
    }
    if seen.len() != total { return fail(s, format!("{} tokens, {} when counted", seen.len(), total)) }
    let calls = m.calls.get();
    for _ in 0..3 {
        if let Some(t) = no_panic(s, || lx.next())? { return fail(s, format!("{:?} after the end", t)) }
        if lx.size_hint().0 > 0 { return fail(s, format!("size bounds {:?} after the end", lx.size_hint())) }
        if no_panic(s, || lx.clone().next())?.is_some() { return fail(s, "a clone yields tokens after the end") }
    }
    if m.after_end.get() > 0 || m.calls.get() != calls { return fail(s, format!("the source was polled {} times after it ended", m.after_end.get())) }
    // the stream of commands
    let src = Chars::hinting(s, hint);
    let m = src.m.clone();
    let mut it = Parser::<_, StringBuilder>::new(Lexer::new(src)).into_iter();
    let n = no_panic(s, || Parser::<_, StringBuilder>::new(Lexer::new(s.chars())).into_iter().take(want.len() + 2).count())?;
    let mut got = 0;
    let mut ended = 0;
    for _ in 0..want.len() + 6 {
        let (lo, hi) = it.size_hint();
        let left = n - got.min(n);
        if lo > left || hi.map_or(false, |h| h < left) { return fail(s, format!("the command stream's size bounds ({}, {:?}) with {} items to come", lo, hi, left)) }
        let before = m.calls.get();
        match no_panic(s, || it.next())? {
            Some(_) if ended > 0 => return fail(s, "a command after the end of the stream"),
            Some(_) => got += 1,
            None => {
                ended += 1;
                if ended > 1 && m.calls.get() != before { return fail(s, "the source was polled after the stream of commands ended") }
                if ended > 3 { break }
            }
        }
    }
    if ended == 0 || got != n { return fail(s, format!("{} items, {} when counted", got, n)) }
    if m.after_end.get() > 0 { return fail(s, format!("the source was polled {} times after it ended, through a parser", m.after_end.get())) }
    ctx.count("command streams", 1);
    ctx.case(s, want.len() > 1);
    Ok(())
}

// ---- C13 -------------------------------------------------------------------------------------------------
/// one sequence of tokens under several layouts
const LAYOUT_VOC: Voc = &["a", "b", "|", "&&", "!", ";", "&", "\n", "(", ")", "{", "}", "if", "then", "fi", "while", "do", "done", "for x", "in", "case w in", "p)", ";;", "esac", "f()", "function g", "x=1", ">o", "2>&1", "'q r'", "\"$x\"", "$(a)", "else", "elif", "until", "||"];
fn blanks(r: &mut Rng, parts: &[&str]) -> String {
    let mut s = String::new();
    for (i, p) in parts.iter().enumerate() {
        if *p == "\n" {
            s.push_str(*r.pick(&["\n", "\n", " # c\n", "\n\n", " \n\t\n", "\n  # it's \"\n", "\t#\n#x\n"]));
            continue;
        }
        if i > 0 && parts[i - 1] != "\n" || r.pct(30) { s.push_str(*r.pick(&[" ", " ", "  ", "\t", " \t ", " \\\n", " \\\n ", "\t\\\n\\\n"])) }
        s.push_str(p);
    }
    if r.pct(30) { s.push_str(*r.pick(&[" ", "\t", " # c", " \\\n "])) }
    s
}
/// whether two pieces may be written without a blank between them
fn may_touch(a: &str, b: &str) -> bool {
    let join = |x: &str| refmodel::lex::lex(x);
    let glued = format!("{}{}", a, b);
    let mut apart = join(a);
    apart.extend(join(b));
    if join(&glued) != apart { return false }
    let wordy = |c: Option<char>| c.map_or(false, |c| !"()|&;<>+-*/%=!~?:,^".contains(c));
    if wordy(a.chars().last()) && wordy(b.chars().next()) { return false }
    let paren = |c: Option<char>| c.map_or(false, |c| "()!~".contains(c));
    wordy(a.chars().last()) || wordy(b.chars().next()) || (paren(a.chars().last()) || paren(b.chars().next())) && !(b.starts_with('(') && a.ends_with("$(")) && !b.starts_with('=')
}
/// the same pieces with as few blanks as possible, and with some
fn layout_tight(ctx: &mut Ctx, r: &mut Rng, parts: &[&str]) -> Result<(), Fail> {
    let plain = parts.join(" ");
    let w0 = reference(&plain);
    let x = real_ok(&plain)?;
    for k in 0..3 {
        let mut t = String::new();
        for (i, p) in parts.iter().enumerate() {
            if i > 0 && !(may_touch(parts[i - 1], p) && (k == 0 || r.pct(60))) { t.push_str(*r.pick(&[" ", " ", "  ", "\t", " \t ", " \\\n", " \\\n ", "\t\\\n\\\n"])) }
            t.push_str(p);
        }
        let w = reference(&t);
        let y = real_ok(&t)?;
        if let Some(m) = judge(&y, &w, View::Tree).or_else(|| default_judge(&t, &w)) { return fail(t, m) }
        ctx.case(&t, true);
        if viewed(w.cmds.clone(), &mut SepView) != viewed(w0.cmds.clone(), &mut SepView) || w.ok() != w0.ok() { ctx.count("skipped", 1); continue }
        same_outcome(&plain, &x, &t, &y, layout_view)?;
        ctx.count("pairs written tightly", 1);
    }
    Ok(())
}
const TIGHT: Voc = &["a | b || c && d ; e & f", "( a ) | ( ( b ) ; c )", "f ( ) { a ; }", "f ( ) ( a )", "function f ( ) { b ; }", "a > b 2>&1 < c >> d", "$(( ( ) ) )", "$(( ) )", "e $(( x + 1 ) )", "e $(( ( x ) ) )", "$(( x = y ? 1 : z , 3 ) )", "$(( ! ( ~ x ) ) )", "$(( x ++ ) )", "$(( -- x ) )", "$(( x += ( 1 , 2 ) * 3 ) )", "$(( x ** y << 2 >> 3 & 4 ^ 5 | 6 && 7 || 8 ) )", "$(( x == 1 ) )", "$(( x != y <= z >= 3 < 4 > 5 ) )", "case w in ( p | q ) a ;; ( r ) ;; esac", "case w in p ) esac", "case w in p | q | r ) a ; esac", "for x in a b ; do c ; done > o", "for x ; do c ; done", "if ( a ) ; then ( b ) ; fi", "while ( a ) ; do ( b ) ; done < i", "{ a ; } > b | ( c ) < d &", "$( a ; b ) && $( ( c ) )", "x=1 y= a", "! ( a ) && ! b", "` a ` | $( b ) > $( c )", "a > \"b\" 'c' | 'd' & \"e\" ; f", "a <& - ; b >& 2 ; c <> d >| e", "$(( $x % 2 / y - z ) )", "$(( x %= 3 ) ) ; a", "$(( x <<= 1 ) )", "${x:-a} ; ${y} | $z && $1 || $@"];
fn layout_view(r: &Run) -> Vec<Cmd> { viewed(r.cmds.clone(), &mut SepView) }
fn same_outcome(a: &str, x: &Run, b: &str, y: &Run, view: fn(&Run) -> Vec<Cmd>) -> Result<(), Fail> {
    let (u, v) = (view(x), view(y));
    if u != v { return fail(b, format!("differs from {:?}: {}", a, diff(&show(&v), &show(&u)))) }
    if x.ok() != y.ok() { return fail(b, format!("{:?}, but {:?} gives {:?}", y.end, a, x.end)) }
    Ok(())
}
fn layout_seq(ctx: &mut Ctx, r: &mut Rng, parts: &[&str], times: usize) -> Result<(), Fail> {
    let plain = parts.join(" ");
    let x = real_ok(&plain)?;
    for _ in 0..times {
        let t = blanks(r, parts);
        let y = real_ok(&t)?;
        same_outcome(&plain, &x, &t, &y, layout_view)?;
        let w = reference(&t);
        if let Some(m) = judge(&y, &w, View::Tree).or_else(|| default_judge(&t, &w)) { return fail(t, m) }
        ctx.count(if x.ok() { "pairs accepted" } else { "pairs rejected" }, 1);
        ctx.case(&t, true);
    }
    Ok(())
}
fn layout_trees(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let p = grammar::any_prof(r);
    let n = r.range(1, 3);
    let cmds = Tg::new(r, &p).program(n);
    let c = render(&cmds, r, &Lay::plain());
    if layout_view(&reference(&c.text)) != viewed(normed(c.cmds.clone()), &mut SepView) { return Ok(ctx.count("skipped", 1)) }
    let x = real_ok(&c.text)?;
    for _ in 0..3 {
        let lay = Lay::random(r);
        let d = render(&cmds, r, &lay);
        // what was asked for, under this layout; heredoc delimiters and the like are chosen by the renderer
        let want = viewed(normed(d.cmds.clone()), &mut SepView);
        let m = reference(&d.text);
        if layout_view(&m) != want || !m.ok() { ctx.count("skipped", 1); continue }
        let y = real_ok(&d.text)?;
        if layout_view(&y) != want { return fail(d.text, format!("under this layout: {}", diff(&show(&layout_view(&y)), &show(&want)))) }
        if !y.ok() { return fail(d.text, format!("rejected under this layout: {:?}", y.end)) }
        if want == viewed(normed(c.cmds.clone()), &mut SepView) {
            same_outcome(&c.text, &x, &d.text, &y, layout_view)?;
            if let Some(m) = default_judge(&d.text, &m) { return fail(d.text, m) }
            ctx.count("pairs of layouts", 1);
        }
        ctx.case(&d.text, true);
    }
    Ok(())
}

// ---- C15 -------------------------------------------------------------------------------------------------
fn post_word(w: &Word, v: &mut Vec<Call>, call: bool) {
    for p in &w.0 {
        match p { Part::S(s) => post_simple(s, v), Part::Dq(d) => for s in d { post_simple(s, v) }, Part::Sq(_) => {} }
    }
    if call { v.push(Call::Word) }
}
fn post_simple(s: &Simple, v: &mut Vec<Call>) {
    match s {
        Simple::Tick(g) => post_group(g, v),
        Simple::Subst(s) => match &**s { Subst::Cmd(g) => post_group(g, v), Subst::Op(_, _, _, Some(w)) => post_word(w, v, false), _ => {} },
        _ => {}
    }
}
fn post_redir(r: &Redir, v: &mut Vec<Call>) { post_word(&r.word, v, true); v.push(Call::Redir) }
fn post_group(g: &Group, v: &mut Vec<Call>) { for c in &g.cmds { post_cmd(c, v) } }
fn post_cmd(c: &Cmd, v: &mut Vec<Call>) {
    post_pipe(&c.list.first, v);
    for (_, _, p) in &c.list.rest { post_pipe(p, v) }
    v.push(Call::AndOr);
    v.push(Call::Complete);
}
fn post_pipe(p: &Pipe_, v: &mut Vec<Call>) {
    for (_, i) in &p.cmds {
        match i {
            Item::Simple(s) => {
                for x in &s.vars { match x { VarOr::Redir(r) => post_redir(r, v), VarOr::Var(_, Some(w)) => post_word(w, v, true), _ => {} } }
                for x in &s.words { match x { WordOr::Redir(r) => post_redir(r, v), WordOr::Word(w) => post_word(w, v, true) } }
                v.push(Call::Simple);
            }
            Item::Comp(c) => { post_comp(c, v); v.push(Call::IntoPipe) }
            Item::Fn(_, _, c) => { post_comp(c, v); v.push(Call::Fn) }
        }
    }
    v.push(Call::Pipeline);
}
fn post_comp(c: &Comp, v: &mut Vec<Call>) {
    let k = match &c.kind {
        CompKind::Brace(g) => { post_group(g, v); Call::Brace }
        CompKind::Sub(g) => { post_group(g, v); Call::Sub }
        CompKind::Loop(_, g, b) => { post_group(g, v); post_group(b, v); Call::Loop }
        CompKind::If(i) => { for (g, b) in &i.conds { post_group(g, v); post_group(b, v) } if let Some(e) = &i.els { post_group(e, v) } Call::If }
        CompKind::For(f) => { if let Some((_, w, _)) = &f.words { for w in w { post_word(w, v, true) } } post_group(&f.body, v); Call::For }
        CompKind::Case(k) => {
            post_word(&k.word, v, true);
            for a in &k.arms { for p in &a.pats { post_word(p, v, true) } post_group(&a.body, v) }
            Call::Case
        }
    };
    for r in &c.io { post_redir(r, v) }
    v.push(k);
}
fn protocol(s: &str) -> Option<String> {
    let r = match real_text(s) { Ok(r) => r, Err(m) => return Some(m) };
    if let Some(p) = r.problem { return Some(p) }
    let w = reference(s);
    if !w.ok() || !r.ok() { return None }
    let mut v = vec![];
    for c in &w.cmds { post_cmd(c, &mut v) }
    let trail = w.end.as_ref().map_or(0, |t| t.len());
    if trail > 0 { v.push(Call::Comments) }
    if r.calls != v {
        let i = r.calls.iter().zip(v.iter()).position(|(a, b)| a != b).unwrap_or_else(|| r.calls.len().min(v.len()));
        return Some(format!("builder call #{} is {:?}, expected {:?} (calls {:?})", i, r.calls.get(i), v.get(i), r.calls));
    }
    // what was passed to the calls is what the source says
    judge(&r, &w, View::Full)
}
fn protocol_case(ctx: &mut Ctx, _: &mut Rng, s: &str) -> Result<(), Fail> {
    if let Some(m) = protocol(s) { return fail(s, m) }
    let r = real_ok(s)?;
    ctx.count("builder calls", r.calls.len() as u64);
    ctx.count(if r.ok() { "complete logs compared" } else { "partial logs (rejected texts)" }, 1);
    ctx.case(s, r.calls.len() > 4);
    Ok(())
}

// ---- C16 -------------------------------------------------------------------------------------------------
fn inject(ctx: &mut Ctx, r: &mut Rng, s: &str) -> Result<(), Fail> {
    let base = real_ok(s)?;
    let n = base.calls.len();
    let some: Vec<usize> = if n <= 60 { (0..n).collect() } else { (0..60).map(|_| r.below(n)).collect() };
    for k in some {
        let rec = Rec::failing(k);
        let run = no_panic(s, || real(lexed(s), &rec))?.or_else(|m| fail(s, m))?;
        injected(s, k, &run, &rec)?;
        if run.cmds[..] != base.cmds[..run.cmds.len()] { return fail(s, format!("failing call #{} changed the commands before it", k)) }
        // through the iterator
        let rec = Rec::failing(k);
        let mut it = Parser::with_builder(lexed(s), rec.clone()).into_iter();
        let mut cmds = 0;
        loop {
            match no_panic(s, || it.next())? {
                Some(Ok(_)) => cmds += 1,
                Some(Err(e)) => {
                    // the error is still the builder's: it prints like it, and names it as its cause
                    use std::error::Error;
                    #[allow(deprecated)]
                    let told = (e.to_string(), e.cause().map(|c| c.to_string()));
                    if told != (Inj(k).to_string(), Some(Inj(k).to_string())) { return fail(s, format!("the failure of call #{} is told as {:?}", k, told)) }
                    if perr(&e, |e| e.0) != PErr::Custom(k) { return fail(s, format!("the iterator reports {:?} for the failure of call #{}", e, k)) } break }
                None => return fail(s, format!("the iterator swallowed the failure of call #{} ({:?})", k, base.calls[k])),
            }
        }
        if cmds != run.cmds.len() { return fail(s, "the iterator yields other commands") }
        for _ in 0..3 { if no_panic(s, || it.next())?.is_some() { return fail(s, format!("the iterator went on after the failure of call #{}", k)) } }
        if rec.0.borrow().calls.len() != k + 1 { return fail(s, format!("builder called after its failure in call #{}, by the iterator", k)) }
        ctx.count("failures injected", 1);
        ctx.count(match base.calls[k] {
            Call::Complete => "at complete_command", Call::AndOr => "at and_or_list", Call::Pipeline => "at pipeline", Call::Simple => "at simple_command", Call::Brace => "at brace_group", Call::Sub => "at subshell",
            Call::Loop => "at loop_command", Call::If => "at if_command", Call::For => "at for_command", Call::Case => "at case_command", Call::IntoPipe => "at compound_command_into_pipeable", Call::Fn => "at function_declaration",
            Call::Comments => "at comments", Call::Word => "at word", Call::Redir => "at redirect",
        }, 1);
    }
    ctx.case(s, n > 1);
    Ok(())
}
fn injected(s: &str, k: usize, run: &Run, rec: &Rec) -> Result<(), Fail> {
    let l = rec.0.borrow();
    if run.end != Err(PErr::Custom(k)) { return fail(s, format!("failure of builder call #{} ({:?}) ended in {:?}", k, l.calls.get(k), run.end)) }
    if l.calls.len() != k + 1 || l.after_failure > 0 { return fail(s, format!("{} builder calls after the failure of call #{} ({:?})", l.calls.len() - k - 1, k, l.calls.get(k))) }
    Ok(())
}
fn inject_ops(ctx: &mut Ctx, r: &mut Rng, s: &str) -> Result<(), Fail> {
    // the same operation of the parser, without and with failures
    let op = good_op(r, &P::of_str(s));
    let rec = Rec::new();
    let mut p = Parser::with_builder(lexed(s), rec.clone());
    let base = no_panic(s, || real_op(&mut p, &rec, &op))?;
    let n = rec.0.borrow().calls.len();
    for k in 0..n.min(40) {
        let rec = Rec::failing(k);
        let mut p = Parser::with_builder(lexed(s), rec.clone());
        match no_panic(s, || real_op(&mut p, &rec, &op))? {
            Err(Ok(PErr::Custom(x))) if x == k => {}
            x => return fail(s, format!("{:?} with builder call #{} failing gave {:?}; without: {:?}", op, k, x, base)),
        }
        if rec.0.borrow().calls.len() != k + 1 { return fail(s, format!("{:?}: builder called after its failure in call #{}", op, k)) }
        ctx.count("failures injected into single operations", 1);
    }
    ctx.case(s, n > 1);
    Ok(())
}

// ---- C17 -------------------------------------------------------------------------------------------------
struct Out<T> { v: Vec<T>, pos: Vec<Pos>, end: Option<PErr>, last: Pos }
fn run_default<B: Builder>(s: &str, b: B, f: impl Fn(B::Command) -> Cmd) -> Out<Cmd> where B::Error: std::fmt::Debug {
    let mut p = Parser::with_builder(lexed(s), b);
    let (mut v, mut poss) = (vec![], vec![]);
    for _ in 0..s.len() + 2 {
        match p.complete_command() {
            Ok(Some(c)) => { v.push(f(c)); poss.push(pos(p.pos())) }
            Ok(None) => return Out { v, pos: poss, end: None, last: pos(p.pos()) },
            Err(e) => return Out { v, pos: poss, end: Some(perr(&e, |_| usize::MAX)), last: pos(p.pos()) },
        }
    }
    Out { v, pos: poss, end: Some(PErr::Custom(0)), last: Pos::start() }
}
fn dummy() -> Cmd { Cmd { pre: vec![], list: AndOr { first: Pipe_ { bang: false, cmds: vec![] }, rest: vec![] }, sep: Sep::Semi, post: None } }
fn builders(ctx: &mut Ctx, r: &mut Rng, s: &str) -> Result<(), Fail> {
    let rec = Rec::new();
    let run = no_panic(s, || real(lexed(s), &rec))?.or_else(|m| fail(s, m))?;
    let conv = |c: &dyn Conv<Cmd>| { let mut n = Canon::default(); c.conv(&mut n) };
    let a = no_panic(s, || run_default(s, StringBuilder::new(), |c| conv(&c)))?;
    let all: Vec<(&str, Out<Cmd>)> = vec![
        ("RcBuilder", no_panic(s, || run_default(s, RcBuilder::new(), |c| conv(&c)))?),
        ("ArcBuilder", no_panic(s, || run_default(s, ArcBuilder::new(), |c| conv(&c)))?),
        ("Default of StringBuilder", no_panic(s, || run_default(s, StringBuilder::default(), |c| conv(&c)))?),
        ("&mut StringBuilder", no_panic(s, || run_default(s, &mut StringBuilder::new(), |c| conv(&c)))?),
        ("a copy of StringBuilder", no_panic(s, || run_default(s, #[allow(clippy::clone_on_copy)] StringBuilder::new().clone(), |c| conv(&c)))?),
        ("AtomicDefaultBuilder<String>", no_panic(s, || run_default(s, b::AtomicDefaultBuilder::<String>::default(), |c| conv(&c)))?),
        ("Box<RcBuilder>", no_panic(s, || run_default(s, Box::new(RcBuilder::new()), |c| conv(&c)))?),
        ("Box<&mut ArcBuilder>", no_panic(s, || run_default(s, Box::new(&mut ArcBuilder::new()), |c| conv(&c)))?),
        ("EmptyBuilder", no_panic(s, || run_default(s, EmptyBuilder::new(), |()| dummy()))?),
        ("&mut EmptyBuilder", no_panic(s, || run_default(s, &mut EmptyBuilder, |()| dummy()))?),
    ];
    let first = Out { v: a.v.clone(), pos: run.pos.clone(), end: run.end.clone().err(), last: run.end_pos };
    for (name, o) in Some(("StringBuilder", a)).into_iter().chain(all) {
        if o.end != first.end { return fail(s, format!("{} ends in {:?}, the recording builder in {:?}", name, o.end, first.end)) }
        if o.pos != first.pos || o.last != first.last { return fail(s, format!("{} stops at {:?} {:?}, the recording builder at {:?} {:?}", name, o.pos, o.last, first.pos, first.last)) }
        if !name.ends_with("EmptyBuilder") && o.v != first.v { return fail(s, format!("{}: {}", name, diff(&show(&o.v), &show(&first.v)))) }
        if o.v.len() != run.cmds.len() { return fail(s, format!("{} yields {} commands, the recording builder {}", name, o.v.len(), run.cmds.len())) }
        ctx.count("runs compared", 1);
    }
    // wrappers of the recording builder: every method must be passed on, with everything given to it
    type Dyn<'a> = dyn Builder<Command = N<Cmd>, CommandList = N<AndOr>, ListableCommand = N<Pipe_>, PipeableCommand = N<Item>, CompoundCommand = N<Comp>, Word = N<Word>, Redirect = N<Redir>, Error = Inj> + 'a;
    let fail_at = if r.pct(30) && !run.calls.is_empty() { Some(r.below(run.calls.len())) } else { None };
    let fresh = || fail_at.map_or_else(Rec::new, Rec::failing);
    let direct = no_panic(s, || { let rec = fresh(); real_with(Parser::with_builder(lexed(s), rec.clone()), &rec) })?.or_else(|m| fail(s, m))?;
    for k in 0..5 {
        let rec = fresh();
        let mut own = rec.clone();
        let (name, got) = no_panic(s, || match k {
            0 => ("&mut", real_with(Parser::with_builder(lexed(s), &mut own), &rec)),
            1 => ("Box", real_with(Parser::with_builder(lexed(s), Box::new(own)), &rec)),
            2 => { let d: &mut Dyn<'_> = &mut own; ("&mut dyn", real_with(Parser::with_builder(lexed(s), d), &rec)) }
            3 => { let d: Box<Dyn<'_>> = Box::new(own); ("Box<dyn>", real_with(Parser::with_builder(lexed(s), d), &rec)) }
            _ => { let mut d: Box<Dyn<'_>> = Box::new(own); ("&mut Box<dyn>", real_with(Parser::with_builder(lexed(s), &mut d), &rec)) }
        })?;
        let got = got.or_else(|m| fail(s, m))?;
        if !got.same(&direct) || got.calls != direct.calls || got.comments != direct.comments { return fail(s, format!("through {}: {}", name, diff(&show(&(&got.cmds, &got.end, &got.pos, &got.calls)), &show(&(&direct.cmds, &direct.end, &direct.pos, &direct.calls))))) }
        ctx.count("wrapped runs compared", 1);
    }
    ctx.case(s, !run.cmds.is_empty());
    Ok(())
}

// ---- C18 -------------------------------------------------------------------------------------------------
fn default_ast(s: &str) -> Option<String> {
    let run = match real_text(s) { Ok(r) => r, Err(m) => return Some(m) };
    let got = match guard(|| {
        let mut canon = Canon::default();
        let mut v = vec![];
        for c in Parser::<_, StringBuilder>::new(lexed(s)) { match c { Ok(c) => v.push(c.conv(&mut canon)), Err(_) => break } }
        (v, canon)
    }) { Ok(x) => x, Err(m) => return Some(m) };
    if let Some(p) = got.1.problem { return Some(p) }
    let want = viewed(run.cmds, &mut AstView);
    if got.0 != want { return Some(diff(&show(&got.0), &show(&want))) }
    let m = reference(s);
    let want = viewed(m.cmds, &mut AstView);
    if got.0 != want { return Some(format!("against the reference: {}", diff(&show(&got.0), &show(&want)))) }
    None
}
fn default_case(ctx: &mut Ctx, _: &mut Rng, s: &str) -> Result<(), Fail> {
    if let Some(m) = default_ast(s) { return fail(s, m) }
    let w = reference(s);
    ctx.count("commands", w.cmds.len() as u64);
    ctx.case(s, !w.cmds.is_empty());
    Ok(())
}
fn rand_simple(r: &mut Rng) -> (b::SimpleWordKind<ast::TopLevelCommand<String>>, Simple) {
    use b::SimpleWordKind as W;
    let s = r.pick(&["a", "b", "", "$", " ", "é", "\n", "'"]).to_string();
    match r.below(16) {
        0..=5 => (W::Literal(s.clone()), Simple::Lit(s)),
        6 | 7 => (W::Escaped(s.clone()), Simple::Esc(s)),
        8 => { let p = Tg::new(r, &Prof::base()).param(); (W::Param(unparam(&p)), Simple::Param(p)) }
        9 => (W::Star, Simple::Star), 10 => (W::Question, Simple::Question), 11 => (W::SquareOpen, Simple::SqOpen), 12 => (W::SquareClose, Simple::SqClose),
        13 => (W::Tilde, Simple::Tilde), 14 => (W::Colon, Simple::Colon),
        _ => {
            let p = Param::Num(r.below(20) as u32);
            let k = r.below(4);
            let (x, y): (b::ParameterSubstitutionKind<b::ComplexWordKind<ast::TopLevelCommand<String>>, ast::TopLevelCommand<String>>, Subst) = match k {
                0 => (b::ParameterSubstitutionKind::Len(unparam(&p)), Subst::Len(p)),
                1 => (b::ParameterSubstitutionKind::Arith(None), Subst::Arith(None)),
                2 => (b::ParameterSubstitutionKind::Default(true, unparam(&p), None), Subst::Op(SubOp::Default, true, p, None)),
                _ => { let (w, t) = rand_word(r, 1); (b::ParameterSubstitutionKind::Assign(false, unparam(&p), Some(w)), Subst::Op(SubOp::Assign, false, p, Some(t))) }
            };
            (W::Subst(Box::new(x)), Simple::Subst(Box::new(y)))
        }
    }
}
fn rand_part(r: &mut Rng) -> (b::WordKind<ast::TopLevelCommand<String>>, Part) {
    match r.below(6) {
        0 | 1 | 2 => { let (a, t) = rand_simple(r); (b::WordKind::Simple(a), Part::S(t)) }
        3 => { let s = r.pick(&["", "x", "y z"]).to_string(); (b::WordKind::SingleQuoted(s.clone()), Part::Sq(s)) }
        _ => { let n = r.below(4); let v: Vec<_> = (0..n).map(|_| rand_simple(r)).collect(); let (a, t) = v.into_iter().unzip(); (b::WordKind::DoubleQuoted(a), Part::Dq(t)) }
    }
}
fn rand_word(r: &mut Rng, min: usize) -> (b::ComplexWordKind<ast::TopLevelCommand<String>>, Word) {
    if r.pct(30) { let (a, t) = rand_part(r); return (b::ComplexWordKind::Single(a), Word(vec![t])) }
    let n = r.range(min, 6);
    let v: Vec<_> = (0..n).map(|_| rand_part(r)).collect();
    let (a, t) = v.into_iter().unzip();
    (b::ComplexWordKind::Concat(a), Word(t))
}
/// words handed to the builder directly, in forms the parser itself need not produce
fn direct_word(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let (w, t) = rand_word(r, 1);
    let label = format!("builder.word({:?})", w);
    let got = no_panic(&label, || StringBuilder::new().word(w))?;
    let got = match got { Ok(g) => g, Err(_) => return fail(label, "the default builder failed") };
    let mut canon = Canon::default();
    let c = got.conv(&mut canon);
    let want = viewed(t, &mut MergeQuotes);
    if c != want { return fail(label, diff(&show(&c), &show(&want))) }
    if let Some(p) = canon.problem { return fail(label, p) }
    ctx.count("words built directly", 1);
    ctx.case(&label, want.0.len() > 1);
    Ok(())
}

// ---- C20, C21 --------------------------------------------------------------------------------------------
fn cuts(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let p = grammar::any_prof(r);
    let c = case(r, &p);
    let all: Vec<usize> = c.open.iter().flat_map(|(a, b)| *a..*b).filter(|i| c.text.is_char_boundary(*i)).collect::<HashSet<_>>().into_iter().collect();
    if all.is_empty() { return Ok(()) }
    let mut all = all;
    all.sort_unstable();
    for _ in 0..all.len().min(25) {
        let at = *r.pick(&all);
        let s = &c.text[..at];
        let want = reference(s);
        if want.ok() { ctx.count("cuts the reference does not reject", 1); continue }
        if real_ok(s)?.ok() || accepts_quietly(s).is_some() { return fail(s, format!("accepted although cut off, expected {:?}", want.end)) }
        ctx.count("cut programs rejected", 1);
        ctx.case(s, true);
    }
    Ok(())
}
/// malformed pieces: each makes any program it stands in as a command malformed
const MALFORMED: Voc = &["| a", "a | | b", "a |", "a ||", "a &&", "&& a", "|| a", "& a", "a & & b", "a ; ; b", "; a", "! ! a", "!", "a && ! ", "a | ! b", "a ;; b", ";;", "'a", "\"a", "\"a\\\"", "\"$(a\"", "${x", "${x:-", "${x:-'", "${}", "${:-x}", "${x!}", "${x:}", "${1x}", "${ x}", "${x y}", "${x//a/b}", "${x:1}", "${-x}", "${x^}",
    "$(a", "$(a;", "$( (a)", "$((1", "$((1)", "$((1 + ))", "$((1 2))", "$((x y))", "$((+))", "$((1 ? 2))", "$((1 = 2))", "$((, 1))", "$((1 +* 2))", "$((++1))", "$((a b)", "$((8 8))", "$(( ( 1 ))", "(a", "(a;", "()", "( )", "(;)", "(a |)", "{ a", "{ a;", "{ }", "{ ; }", "{ a; )", "(a; }", "if a; then b", "if a; then b;", "if a; b; fi",
    "if a; fi", "if; then b; fi", "if a; then; fi", "if a; then b; else fi", "if a; then b; else; fi", "if a; then b; elif c; fi", "if a; then b; elif then c; fi", "if then b; fi", "if a then b; fi", "if a; then b; else c; else d; fi", "while a; do b", "while a; do b;", "while a; b; done", "while; do a; done", "while do a; done", "while a; do done", "while a; do; done",
    "while a; done", "until a; b; done", "until a; do done", "for x in a; do b", "for x in a; b; done", "for x in a; do done", "for 1 in a; do b; done", "for x-y in a; do b; done", "for 'x' in a; do b; done", "for $x in a; do b; done", "for in; do b; done", "for x; in a; do b; done", "for x y; do a; done", "for x do a", "for", "for x",
    "for x in a", "for x in a; done", "for x in a do b; done", "case", "case a", "case a in", "case a in b", "case a in b)", "case a in b) c", "case a in b) c;;", "case a in b c) d;; esac", "case a in ) b;; esac", "case a in (b c;; esac", "case a in b|) c;; esac", "case a in |b) c;; esac", "case a in b) c; ; esac", "case a b) c;; esac", "case in a) b;; esac x",
    "case a b in c) d;; esac", "f() a", "f()", "f( ) ", "f(a) { b; }", "f(", "f() ;", "f() { a", "f() { }", "f() ( )", "1f() { a; }", "f-g() { a; }", "function", "function f", "function f a", "function f() a", "function 1 { a; }", "function f-g { a; }", "function f( { a; }", "function f() ; { a; }", "a >", "a > ;", "a >& b", "a <& b", "a 3>&x", "a >&2b", "a 99999>o", "a 65536<i", "> > o", "a < > b",
    "a >|", "a <<", "a << ;", "a >>", "a <>", "a <&", "a > | b", "a > (b)", "`a", "`a |`", "`(a`", "`\"a`", "\"`a |`\"", "$(a |)", "$(&& a)", "\"$(a |)\"", "\"${x:-$(a |)}\"", "$({ a)", "a $(if b; fi)", "x=$(a", "x=(a)", "a=( b )", ")", "a )", "{ a; }; )", "f() { (a; }", "{ a; } b", "(a) b", "if a; then b; fi c", "while a; do b; done c", "(a) {", "{ a; } x=1", "(a) $x", "(a) 'b'"];
const CLOSED: &[(&str, &str)] = &[("", "\n"), ("{ ", "\n}"), ("( ", "\n)"), ("$( ", "\n)"), ("\"$( ", "\n)\""), ("if ", "\nthen a\nfi"), ("if a; then ", "\nfi"), ("if a; then b; else ", "\nfi"), ("while ", "\ndo a; done"), ("until a; do ", "\ndone"), ("for x in a; do ", "\ndone"), ("case a in b) ", "\nesac"), ("f() { ", "\n}"), ("a; ", "\n"), ("a\n", "\nb"),
    ("x && ", "\n"), ("x || ", "\n"), ("x & ", "\n"), ("c <<E\n$( ", "\n)\nE\n"), ("${x:-$( ", "\n)}"), ("x=$( ", "\n)"), ("a >$( ", "\n)"), ("{ ( ", "\n) \n}"), ("`", "\n`"), ("a <<E; ", "\nE\n"), ("\"`", "\n`\"")];
fn malformed(ctx: &mut Ctx, i: u64) -> Result<(), Fail> {
    let (a, b) = ((i as usize) % MALFORMED.len(), (i as usize) / MALFORMED.len());
    let s = format!("{}{}{}", CLOSED[b].0, MALFORMED[a], CLOSED[b].1);
    if reference(&s).ok() { ctx.count("not malformed here, by the reference", 1); return Ok(()) }
    let r = real_ok(&s)?;
    if r.ok() { return fail(s, format!("accepted, although it contains {:?}: {:?}", MALFORMED[a], r.cmds)) }
    if let Some(n) = accepts_quietly(&s) { return fail(s, format!("accepted by {}, although it contains {:?}", n, MALFORMED[a])) }
    ctx.count("malformed texts rejected", 1);
    ctx.case(&s, true);
    Ok(())
}
fn malformed_deep(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let m = *r.pick(MALFORMED);
    let mut s = m.to_string();
    for _ in 0..r.range(2, 5) { let c = *r.pick(&CLOSED[..CLOSED.len() - 3]); s = format!("{}{}{}", c.0, s, c.1) }
    let w = reference(&s);
    if w.ok() { ctx.count("not malformed here, by the reference", 1); return Ok(()) }
    let x = real_ok(&s)?;
    if x.ok() || accepts_quietly(&s).is_some() { return fail(s, format!("accepted, although it contains {:?}", m)) }
    ctx.count("malformed texts rejected", 1);
    ctx.case(&s, true);
    Ok(())
}
fn diagnosed(ctx: &mut Ctx, s: &str) -> Result<(), Fail> {
    if let Some(m) = diag_oracle(s) { return fail(s, m) }
    let w = reference(s);
    if let Err(e) = &w.end { ctx.count(&format!("diagnosed: {}", e.kind()), 1) }
    // what the user is shown
    let shown = no_panic(s, || Parser::<_, StringBuilder>::new(lexed(s)).into_iter().filter_map(|r| r.err()).map(|e| (e.to_string(), perr(&e, |_| 0))).next())?;
    if let (Some((_, e)), Err(x)) = (&shown, &w.end) { if e != x { return fail(s, format!("iterating over the default parser: diagnosed as {:?}, expected {:?}", e, x)) } }
    if let (None, Err(x)) = (&shown, &w.end) { return fail(s, format!("accepted by iterating over the default parser, expected {:?}", x)) }
    if let Some((text, e)) = shown { rendered(s, &text, &e)?; ctx.count("messages judged", 1) }
    ctx.case(s, !w.ok());
    Ok(())
}
fn rendered(s: &str, text: &str, e: &PErr) -> Result<(), Fail> {
    let at = |p: &Pos| format!("{}:{}", p.line, p.col);
    let shown = |t: &Tok| if t.k == K::Newline { vec!["\n".to_string(), "\\n".to_string()] } else { vec![t.t.to_string()] };
    let need: Vec<Vec<String>> = match e {
        PErr::BadFd(a, b) => vec![vec![at(a)], vec![at(b)]],
        PErr::BadIdent(n, p) => vec![vec![n.clone()], vec![at(p)]],
        PErr::BadSubst(t, p) | PErr::Unmatched(t, p) | PErr::Unexpected(t, p) => vec![shown(t), vec![at(p)]],
        PErr::Incomplete(c, p, k, q) => vec![vec![c.to_string()], vec![at(p)], vec![k.to_string()], vec![at(q)]],
        PErr::Eof => vec![vec!["end".to_string()]],
        PErr::Custom(_) => vec![],
    };
    for n in need { if !n.iter().any(|n| text.contains(&n[..])) { return fail(s, format!("the message {:?} does not contain {:?} ({:?})", text, n, e)) } }
    Ok(())
}
fn rendering(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let sp = |r: &mut Rng| SourcePos { byte: 1000 + r.below(9000), line: 10_000 + r.below(89_999), col: 100_000 + r.below(899_999) };
    let t = rand_token(r);
    let (p, q) = (sp(r), sp(r));
    const KW: &[&str] = &["if", "then", "fi", "while", "do", "done", "for", "case", "in", "esac"];
    let e: ParseError<Inj> = match r.below(8) {
        0 => ParseError::BadFd(p, q), 1 => ParseError::BadIdent(format!("id{}", r.below(1000)), p), 2 => ParseError::BadSubst(t, p), 3 => ParseError::Unmatched(t, p), 4 => ParseError::IncompleteCmd(*r.pick(KW), p, *r.pick(KW), q),
        5 => ParseError::Unexpected(t, p), 6 => ParseError::UnexpectedEOF, _ => ParseError::Custom(Inj(r.below(1000))),
    };
    let label = format!("{:?}", e);
    let text = no_panic(&label, || e.to_string())?;
    rendered(&label, &text, &perr(&e, |e| e.0))?;
    if let ParseError::Custom(i) = &e { if text != i.to_string() { return fail(label, format!("rendered as {:?}", text)) } }
    #[allow(deprecated)]
    let cause = std::error::Error::cause(&e).map(|c| c.to_string());
    let want = if let ParseError::Custom(i) = &e { Some(i.to_string()) } else { None };
    if cause != want { return fail(label, format!("its cause is {:?}, expected {:?}", cause, want)) }
    ctx.count("messages judged", 1);
    ctx.case(&label, true);
    Ok(())
}
pub fn rand_token(r: &mut Rng) -> Token {
    match r.below(4) {
        0 => Token::Name(r.pick(NAMES).to_string()),
        1 => Token::Literal(r.pick(&["1", "42", ".", "é\u{301}", "\u{1}", "1x", "..."]).to_string()),
        2 => if r.pct(50) { Token::Whitespace(r.pick(&[" ", "\t", "  \t "]).to_string()) } else { Token::ParamPositional(digit(r.below(10) as u8)) },
        _ => token(&Tok::op(r.pick(OPS).0)),
    }
}

// ---- C22 -------------------------------------------------------------------------------------------------
fn iteration(ctx: &mut Ctx, r: &mut Rng, s: &str) -> Result<(), Fail> {
    let rec = Rec::new();
    let run = no_panic(s, || real(lexed(s), &rec))?.or_else(|m| fail(s, m))?;
    let rec2 = Rec::new();
    let mut it = Parser::with_builder(lexed(s), rec2.clone()).into_iter();
    let mut cmds = vec![];
    let mut err = None;
    for _ in 0..s.len() + 5 {
        match no_panic(s, || it.next())? {
            Some(Ok(c)) => { if err.is_some() { return fail(s, "a command after an error") } cmds.push(normed(c.t)) }
            Some(Err(e)) => { if err.is_some() { return fail(s, "a second error") } err = Some(perr(&e, |e| e.0)) }
            None => break,
        }
    }
    for _ in 0..4 { if no_panic(s, || it.next())?.is_some() { return fail(s, "something after the end") } }
    if cmds != run.cmds { return fail(s, diff(&show(&cmds), &show(&run.cmds))) }
    if err != run.end.clone().err() { return fail(s, format!("iterating ends in {:?}, parsing one at a time in {:?}", err, run.end)) }
    let (a, b) = (rec.0.borrow(), rec2.0.borrow());
    if a.calls != b.calls || a.comments != b.comments { return fail(s, format!("iterating calls the builder differently: {} calls and comments {:?}, one at a time {} and {:?}", b.calls.len(), b.comments, a.calls.len(), a.comments)) }
    let blank = refmodel::parse::P::of_str(s).complete_command();
    if let Ok(Err(t)) = &blank {
        if !cmds.is_empty() || err.is_some() { return fail(s, format!("there is no command in this, but {:?} {:?}", cmds, err)) }
        if b.comments.iter().flatten().count() != t.len() { return fail(s, format!("comments {:?} reported as {:?}", t, b.comments)) }
        ctx.count("texts without commands", 1);
    }
    // a failure of the builder is an error like any other
    let n = a.calls.len();
    drop((a, b));
    if n > 0 {
        let k = if n > 4 && r.pct(70) { n - 1 - r.below(4) } else { r.below(n) };
        let (one, many) = (Rec::failing(k), Rec::failing(k));
        let run = no_panic(s, || real(lexed(s), &one))?.or_else(|m| fail(s, m))?;
        let mut it = Parser::with_builder(lexed(s), many.clone()).into_iter();
        let (mut cmds, mut errs) = (vec![], vec![]);
        for _ in 0..s.len() + 5 {
            match no_panic(s, || it.next())? {
                Some(Ok(c)) => { if !errs.is_empty() { return fail(s, format!("a command after the failure of builder call #{}", k)) } cmds.push(normed(c.t)) }
                Some(Err(e)) => errs.push(perr(&e, |e| e.0)),
                None => break,
            }
        }
        for _ in 0..4 { if no_panic(s, || it.next())?.is_some() { return fail(s, format!("something after the end, with builder call #{} failing", k)) } }
        if cmds != run.cmds { return fail(s, format!("with builder call #{} failing, iterating yields {} commands, parsing one at a time {}", k, cmds.len(), run.cmds.len())) }
        if errs != run.end.clone().err().into_iter().collect::<Vec<_>>() { return fail(s, format!("with builder call #{} failing, iterating yields the errors {:?}, parsing one at a time ends in {:?}", k, errs, run.end)) }
        if one.0.borrow().calls != many.0.borrow().calls { return fail(s, format!("with builder call #{} failing, iterating calls the builder differently", k)) }
        ctx.count("iterations with a failing builder", 1);
    }
    // the wanted commands, too
    if let Some(m) = judge(&run, &reference(s), View::Tree) { return fail(s, m) }
    // adapters over the iterator see the same
    let n = no_panic(s, || Parser::<_, EmptyBuilder>::new(lexed(s)).into_iter().filter(|r| r.is_ok()).count())?;
    if n != cmds.len() { return fail(s, format!("{} commands through an adapter, {} otherwise", n, cmds.len())) }
    ctx.count("commands", cmds.len() as u64);
    ctx.count(if err.is_some() { "ending in an error" } else { "ending without an error" }, 1);
    ctx.case(s, true);
    Ok(())
}
/// iterating over a source which ends more than once, and over what is left after some commands
fn pausing(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let n = r.range(2, 4);
    let pieces: Vec<String> = (0..n).map(|_| match r.below(5) { 0 => program(r), 1 => lines(r), 2 => anything(r), 3 => r.pick(&["", "a", "a\n", "# c", "a; ", "\n", "a &&", "(", "'", "a b"]).to_string(), _ => program(r) + "\n" }).collect();
    let label = format!("{:?}, with a pause after each", pieces);
    ctx.about(&label);
    let (one, many) = (Rec::new(), Rec::new());
    let mut p = Parser::with_builder(Pausing::new(&pieces), one.clone());
    let mut it_src = Parser::with_builder(Pausing::new(&pieces), many.clone());
    // some commands one at a time on both sides
    let mut stop = false;
    for _ in 0..r.below(3) {
        let (a, b) = (no_panic(&label, || p.complete_command())?, no_panic(&label, || it_src.complete_command())?);
        stop |= !matches!(a, Ok(Some(_)));
        if a.is_ok() != b.is_ok() { return fail(label, "two parsers of the same source differ") }
    }
    if stop { return Ok(()) }
    let mut it = it_src.into_iter();
    let max: usize = pieces.iter().map(String::len).sum::<usize>() + 5;
    for k in 0..max {
        let a = no_panic(&label, || p.complete_command())?;
        let b = no_panic(&label, || it.next())?;
        let same = match (&a, &b) {
            (Ok(Some(x)), Some(Ok(y))) => normed(x.t.clone()) == normed(y.t.clone()),
            (Ok(None), None) => true,
            (Err(x), Some(Err(y))) => perr(x, |e| e.0) == perr(y, |e| e.0),
            _ => false,
        };
        if !same { return fail(label, format!("command {}: {:?} one at a time, {:?} iterating", k, a, b)) }
        if !matches!(a, Ok(Some(_))) { break }
    }
    for _ in 0..n + 2 { if let Some(x) = no_panic(&label, || it.next())? { return fail(label, format!("{:?} after the end", x)) } }
    if one.0.borrow().calls != many.0.borrow().calls { return fail(label, "the builder is called differently when iterating") }
    ctx.count("iterations over sources with pauses", 1);
    ctx.case(&label, true);
    Ok(())
}
const BLANKS: Voc = &["\n", " ", "\t", "#", "# c\n", "#c", "\\\n", "a", ";", "a\n", "a;", " # it's", "&", "(", "# \\\n"];

// ---- C23 -------------------------------------------------------------------------------------------------
fn streaming(ctx: &mut Ctx, _: &mut Rng, s: &str) -> Result<(), Fail> {
    let src = Chars::new(s);
    let m = src.m.clone();
    let rec = Rec::new();
    let mut p = Parser::with_builder(Lexer::new(src), rec);
    let mut q = P::of_str(s);
    for _ in 0..s.len() + 2 {
        let want = match q.complete_command() { Ok(Ok(c)) => c, _ => break };
        let here = no_panic(s, || p.complete_command())?;
        let c = match here { Ok(Some(c)) => c, _ => break };
        if c.t.sep != want.sep { break }
        ctx.count("commands returned", 1);
        if c.t.sep == Sep::Newline {
            // everything needed: up to and including the newline, and the bodies of heredocs before it
            let end = q.pos().byte;
            if m.bytes.get() > end { return fail(s, format!("the command ending at byte {} was returned after {} bytes were read", end, m.bytes.get())) }
            if m.ended.get() && end < s.len() { return fail(s, "read to the end") }
            ctx.count("newline-terminated commands returned in time", 1);
        }
    }
    ctx.case(s, true);
    Ok(())
}
fn lines(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(2, 5) { s.push_str(&program(r)); if !s.ends_with('\n') { s.push('\n') } }
    s
}
/// newline-terminated and complete: nothing that follows can belong to it
fn complete(s: &str) -> bool {
    if !s.ends_with('\n') { return false }
    let a = reference(s);
    if !a.ok() { return false }
    // with a probe command behind it, the commands stay the same
    let b = reference(&format!("{}q1\n)", s));
    viewed(b.cmds.clone(), &mut NoComments).len() == a.cmds.len() + 1 && viewed(b.cmds[..a.cmds.len()].to_vec(), &mut NoComments) == viewed(a.cmds, &mut NoComments) && b.end == Err(PErr::Unexpected(Tok::op(K::ParenClose), Pos::start().after(&format!("{}q1\n", s))))
}
fn shift(e: &PErr, by: Pos) -> PErr {
    let f = |p: &Pos| Pos { byte: p.byte + by.byte, line: p.line + by.line - 1, col: p.col };
    match e {
        PErr::BadFd(a, b) => PErr::BadFd(f(a), f(b)), PErr::BadIdent(s, p) => PErr::BadIdent(s.clone(), f(p)), PErr::BadSubst(t, p) => PErr::BadSubst(t.clone(), f(p)), PErr::Unmatched(t, p) => PErr::Unmatched(t.clone(), f(p)),
        PErr::Incomplete(a, p, b, q) => PErr::Incomplete(a, f(p), b, f(q)), PErr::Unexpected(t, p) => PErr::Unexpected(t.clone(), f(p)), PErr::Eof => PErr::Eof, PErr::Custom(k) => PErr::Custom(*k),
    }
}
fn concatenation(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let mut a = match r.below(3) { 0 => anything(r), 1 => grammar::hd_soup(r), _ => program(r) };
    if !a.ends_with('\n') { a.push('\n') }
    if !complete(&a) { return Ok(ctx.count("first part not complete, skipped", 1)) }
    let b = anything(r);
    let s = format!("{}{}", a, b);
    let (x, y, z) = (real_ok(&a)?, real_ok(&b)?, real_ok(&s)?);
    let strip = |r: &Run| viewed(r.cmds.clone(), &mut NoComments);
    let mut want = strip(&x);
    want.extend(strip(&y));
    let got = strip(&z);
    if got != want { return fail(s, format!("{:?} followed by {:?}: {}", a, b, diff(&show(&got), &show(&want)))) }
    let by = Pos::start().after(&a);
    match (&y.end, &z.end) {
        (Ok(_), Ok(_)) => ctx.count("followed by an accepted text", 1),
        (Err(e), Err(f)) => {
            if shift(e, by) != *f { return fail(s, format!("after {:?} the error of {:?} becomes {:?}, was {:?}", a, b, f, e)) }
            ctx.count("followed by a rejected text", 1);
        }
        (e, f) => return fail(s, format!("after {:?} the outcome of {:?} becomes {:?}, was {:?}", a, b, f, e)),
    }
    for (p, q) in y.pos.iter().zip(z.pos[x.cmds.len()..].iter()) { if (Pos { byte: p.byte + by.byte, line: p.line + by.line - 1, col: p.col }) != *q { return fail(s, format!("position {:?} becomes {:?} after {:?}", p, q, a)) } }
    ctx.case(&s, true);
    Ok(())
}

// ---- C24 -------------------------------------------------------------------------------------------------
/// an operation which the reference can perform here, if one is found quickly
fn good_op(r: &mut Rng, p: &P) -> Op {
    let mut op = random_op(r);
    for _ in 0..12 {
        let mut q = p.clone();
        match ref_op(&mut q, &op) { Ok(Val::None) | Ok(Val::Refused) | Ok(Val::Unit) | Err(_) => op = random_op(r), Ok(_) => break }
    }
    op
}
const OP_TEXTS: Voc = &["foo", "foo bar", "$x", "${x}", "\"$x\"", ">o", "2>&1", "<<E\nx\nE\n", "do a; done", "{ a; }", "(a)", "if a; then b; fi", "while a; do b; done", "until a; do b; done", "for x in a b; do c; done", "for x; do c; done", "case a in b) c;; esac", "f() { a; }", "function f { a; }", "a | b", "a && b", "! a", "a; b", "`a`", "`a \\`b\\``",
    "1 + 2 ))", "x = 3, y ))", " ", "\n", "# c\n", "a\nb\n", "if", "then", "fi", "done", "in", "esac", "{", "}", "!", ")", ";;", "a; done", "a\ndone", "b; fi", "b\n}", "'q'", "x=1", "x=1 a", "\\\n", "1>", "42", "é", "\t", "-", "foo1", ";", "&", "|"];
fn ops(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let s = match r.below(5) {
        0 => anything(r),
        1 => program(r),
        2 => { let n = r.range(1, 4); (0..n).map(|_| format!("{}{}", *r.pick(OP_TEXTS), *r.pick(&["", " ", "\n", ";", " \\\n ", " # c\n"]))).collect() }
        3 => format!("{}{}{}", *r.pick(OP_TEXTS), *r.pick(&["", " ", "\n", "; "]), anything(r)),
        _ => soup(r, POOL, 2, 14, 40),
    };
    op_run(ctx, r, &s, P::of_str(&s), lexed(&s), true)
}
fn op_run(ctx: &mut Ctx, r: &mut Rng, label: &str, mut q: P, src: Toks, good: bool) -> Result<(), Fail> {
    let rec = Rec::new();
    let mut p = Parser::with_builder(src, rec.clone());
    let mut hist = vec![];
    let mut done = 0;
    for _ in 0..12 {
        let op = if r.pct(25) { random_peek(r) } else if good && r.pct(85) { good_op(r, &q) } else { random_op(r) };
        let want = ref_op(&mut q, &op);
        let before = pos(p.pos());
        let got = no_panic(&format!("{}\n[{:?} {:?}]", label, hist, op), || real_op(&mut p, &rec, &op))?;
        hist.push(op.clone());
        let l = || format!("{}\n---- operations {:?}", label, hist);
        match (&got, &want) {
            (Err(Err(m)), _) => return fail(l(), m.clone()),
            (Ok(a), Ok(b)) => if a != b { return fail(l(), format!("{:?}: {}", op, diff(&show(a), &show(b)))) },
            (Err(Ok(a)), Err(b)) => { if a != b { return fail(l(), format!("{:?} failed with {:?}, expected {:?}", op, a, b)) } ctx.count("operations failing as expected", 1); break }
            (Ok(a), Err(e)) => return fail(l(), format!("{:?} gave {:?}, expected {:?}", op, a, e)),
            (Err(Ok(e)), Ok(b)) => return fail(l(), format!("{:?} failed with {:?}, expected {:?}", op, e, b)),
        }
        if pos(p.pos()) != q.pos() { return fail(l(), format!("{:?} stopped at {:?}, expected {:?}", op, pos(p.pos()), q.pos())) }
        if let Op::PeekTok(_) | Op::PeekWord(_) = op { let _ = before; ctx.count("look-aheads", 1) } else { ctx.count("operations succeeding", 1) }
        match op {
            Op::Complete => ctx.count("op complete_command", 1), Op::AndOr => ctx.count("op and_or_list", 1), Op::Pipeline => ctx.count("op pipeline", 1), Op::Command => ctx.count("op command", 1), Op::Simple => ctx.count("op simple_command", 1),
            Op::RedirList => ctx.count("op redirect_list", 1), Op::Redirect => ctx.count("op redirect", 1), Op::Heredoc(_) => ctx.count("op redirect_heredoc", 1), Op::Word => ctx.count("op word", 1), Op::WordKeep => ctx.count("op word_preserve_trailing_whitespace", 1),
            Op::Backtick => ctx.count("op backticked_command_substitution", 1), Op::Param => ctx.count("op parameter", 1), Op::Do => ctx.count("op do_group", 1), Op::Brace => ctx.count("op brace_group", 1), Op::Subshell => ctx.count("op subshell", 1),
            Op::Compound => ctx.count("op compound_command", 1), Op::Loop => ctx.count("op loop_command", 1), Op::If => ctx.count("op if_command", 1), Op::For => ctx.count("op for_command", 1), Op::Case => ctx.count("op case_command", 1),
            Op::MaybeFn => ctx.count("op maybe_function_declaration", 1), Op::FnDecl => ctx.count("op function_declaration", 1), Op::Linebreak => ctx.count("op linebreak", 1), Op::Newline => ctx.count("op newline", 1), Op::ResTok(_) => ctx.count("op reserved_token", 1),
            Op::ResWord(_) => ctx.count("op reserved_word", 1), Op::Group(_) => ctx.count("op command_group", 1), Op::Arith => ctx.count("op arithmetic_substitution", 1), _ => {}
        }
        done += 1;
        if q.at_end() && r.pct(50) { break }
    }
    ctx.case(&format!("{} {:?}", label, hist), done > 1);
    Ok(())
}
/// the same for token sequences which no lexer produces
fn token_ops(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let toks: Vec<Tok> = match r.below(2) {
        0 => { let n = r.range(1, 14); (0..n).map(|_| tok(&rand_token(r))).collect() }
        _ => { let mut v = refmodel::lex::lex(&anything(r)); if v.len() > 40 { v.truncate(40) } for _ in 0..r.range(1, 3) { let i = r.below(v.len() + 1); v.insert(i, tok(&rand_token(r))) } v }
    };
    let label = format!("{:?}", toks.iter().map(|t| format!("{:?} {:?}", t.k, t.t)).collect::<Vec<_>>());
    let src: Vec<Token> = toks.iter().map(token).collect();
    op_run(ctx, r, &label, P::new(toks), Box::new(src.into_iter()), false)
}
/// every construct followed by every kind of text
const FOLLOW: Voc = &["", " ", "\n", ";", "&", "|", "&&", "||", ")", "}", ";;", " a", "a", " }", " )", " then", "\ndone", " # c", "#c", "\\\n", "\"", "'", "`", "$", "((", "=", "1", " >o", ">o", "<<E", " 2>o", "{", "(", "!", "*", "é", " \\\n a", "\nb\nc", "; done", "; fi", "+", "-", "}}", "))"];
fn follow(ctx: &mut Ctx, i: u64) -> Result<(), Fail> {
    let (a, b) = ((i as usize) % OP_TEXTS.len(), (i as usize) / OP_TEXTS.len());
    let s = format!("{}{}", OP_TEXTS[a], FOLLOW[b]);
    let mut all: Vec<Op> = vec![Op::Complete, Op::AndOr, Op::Pipeline, Op::Command, Op::Simple, Op::RedirList, Op::Redirect, Op::Heredoc(None), Op::Word, Op::WordKeep, Op::Backtick, Op::Param, Op::Do, Op::Brace, Op::Subshell, Op::Compound, Op::Loop, Op::If, Op::For, Op::Case, Op::MaybeFn, Op::FnDecl, Op::SkipWs, Op::Linebreak, Op::Newline, Op::Arith];
    for k in 0..7 { all.extend(vec![Op::PeekTok(k), Op::ResTok(k), Op::Group(k)]); if k < 6 { all.extend(vec![Op::PeekWord(k), Op::ResWord(k)]) } }
    for op in all {
        let mut q = P::of_str(&s);
        let rec = Rec::new();
        let mut p = Parser::with_builder(lexed(&s), rec.clone());
        let want = ref_op(&mut q, &op);
        let got = no_panic(&s, || real_op(&mut p, &rec, &op))?;
        match (got, want) {
            (Err(Err(m)), _) => return fail(s, m),
            (Ok(a), Ok(b)) => {
                if a != b { return fail(s, format!("{:?}: {}", op, diff(&show(&a), &show(&b)))) }
                if pos(p.pos()) != q.pos() { return fail(s, format!("{:?} stopped at {:?}, expected {:?}", op, pos(p.pos()), q.pos())) }
                ctx.count("operations succeeding", 1);
            }
            (Err(Ok(a)), Err(b)) => { if a != b { return fail(s, format!("{:?} failed with {:?}, expected {:?}", op, a, b)) } ctx.count("operations failing as expected", 1) }
            (Ok(a), Err(e)) => return fail(s, format!("{:?} gave {:?}, expected {:?}", op, a, e)),
            (Err(Ok(e)), Ok(b)) => return fail(s, format!("{:?} failed with {:?}, expected {:?}", op, e, b)),
        }
        ctx.case(&format!("{} {:?}", s, op), true);
    }
    Ok(())
}

// ---- C25 -------------------------------------------------------------------------------------------------
fn tick_view(r: &Run) -> Vec<Cmd> { viewed(r.cmds.clone(), &mut TickView) }
const TICK_CTX: &[(&str, &str)] = &[("", ""), ("a ", " b"), ("\"", "\""), ("\"x ", " y\" z"), ("x=", " a"), ("c <<E\n", "\nE\nd\n"), ("a >", ""), ("for x in ", "; do a; done"), ("case ", " in a) b;; esac"), ("${x:-", "}"), ("a; ", "\nb"), ("(a ", ")"), ("{ a ", "; }"), ("\"${x:-", "}\""), ("c <<-E\n\t", "x\n\tE\n"), ("$(a ", ")"), ("if a ", "; then b; fi"), ("x", "y"), ("'s'", "\"t\"")];
fn tick_body(r: &mut Rng) -> String {
    match r.below(6) {
        0 => { let p = grammar::any_prof(r); case(r, &p).text }
        1 => soup(r, &["a", "b", "$x", "${y}", "$1", "\\$x", "\\\\", "\\a", "'q'", "\"d\"", "\"$x\"", "$(c)", "`e`", ";", "|", "&&", ">o", "x=1", "\n", "# c\n", "(a)", "\\`", "$", "'\\'", "\"\\\"\"", "\\\"", "\\'", "$((1+x))", "*", "é", "\\\n", "\\$", "\\\\\\$y", "$$", "$?"], 1, 7, 60),
        2 => soup(r, &["a", "b", " ", " ", "$x", "${y}", "$1", ";", "|", "x=1", "\n", "$(c)", "`e f`", "\\\\", "\\$"], 1, 8, 40),
        3 => r.pick(MALFORMED).to_string(),
        4 => { let mut p = Prof::base(); p.budget = 6; p.heredoc = 0; p.parts = [30, 3, 2, 2, 3, 12, 8, 3, 4, 12]; case(r, &p).text }
        _ => grammar::hd_soup(r),
    }
}
/// how the shell removes backslashes within backticks, applied the other way round
fn plain_escape(body: &str, dq: bool) -> String {
    let mut o = String::new();
    for c in body.chars() { if c == '\\' || c == '`' || c == '$' || (dq && c == '"') { o.push('\\') } o.push(c) }
    o
}
fn ticks(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let body = tick_body(r);
    if body.len() > 400 { return Ok(()) }
    // keep the two forms comparable: `$((` means arithmetic, and the last line may not be a comment or a continuation
    let body = if body.starts_with('(') { format!(" {}", body) } else { body };
    let nest = r.range(1, 3);
    let (mut d, mut t) = (body.clone(), body.clone());
    let style = r.below(3);
    for k in 0..nest {
        if k > 0 { let pre = *r.pick(&["z ", "", "y=", "(", "a | b "]); let post = if pre == "(" { ")" } else { "" }; d = format!("{}{}{}", pre, d, post); t = format!("{}{}{}", pre, t, post) }
        d = format!("$({}{})", if d.starts_with('(') { " " } else { "" }, d);
        let e = match style { 0 => plain_escape(&t, false), _ => tick_escape(&t, r) };
        t = format!("`{}`", e);
    }
    let c = *r.pick(TICK_CTX);
    let (ds, ts) = (format!("{}{}{}", c.0, d, c.1), format!("{}{}{}", c.0, t, c.1));
    let (rd, rt) = (reference(&ds), reference(&ts));
    // the reference decides whether this body can be written between backticks in this way
    let equal = tick_view(&rd) == tick_view(&rt) && rd.ok() == rt.ok();
    let (x, y) = (real_ok(&ds)?, real_ok(&ts)?);
    if equal {
        same_outcome(&ds, &x, &ts, &y, tick_view)?;
        ctx.count(if rd.ok() { "equal pairs, accepted" } else { "equal pairs, rejected" }, 1);
        if nest > 1 && rd.ok() { ctx.count("nested pairs, accepted", 1) }
    } else {
        ctx.count("pairs the reference tells apart, skipped", 1);
    }
    if let Some(m) = judge(&y, &rt, View::Tree).or_else(|| default_judge(&ts, &rt)) { return fail(ts, m) }
    if equal && y.ok() && y.end_pos != rt.end_pos { return fail(ts, format!("parsing ended at {:?}, expected {:?}", y.end_pos, rt.end_pos)) }
    ctx.case(&ts, equal);
    Ok(())
}

// ---- C26 -------------------------------------------------------------------------------------------------
fn printing(ctx: &mut Ctx, t: &Token) -> Result<(), Fail> {
    let label = format!("{:?}", t);
    let want = tok(t).t.to_string();
    let (text, shown, len, empty) = no_panic(&label, || (t.as_str().to_string(), t.to_string(), t.len(), t.is_empty()))?;
    if text != want || shown != want { return fail(label, format!("as_str {:?}, displayed {:?}, expected {:?}", text, shown, want)) }
    if len != want.len() || empty != want.is_empty() { return fail(label, format!("len {} and is_empty {} for {:?}", len, empty, want)) }
    let back: Vec<Token> = no_panic(&label, || Lexer::new(text.chars()).collect())?;
    if back != vec![t.clone()] { return fail(label, format!("{:?} reads back as {:?}", text, back)) }
    // placed after a word
    let delim = no_panic(&label, || t.is_word_delimiter())?;
    let twice = match t { Token::SingleQuote | Token::DoubleQuote => true, _ => false };
    let mut src = vec![Token::Name("a".into()), t.clone()];
    if twice { src.push(t.clone()) }
    if *t == Token::Backtick { src.extend(vec![Token::Name("c".into()), Token::Backtick]) }
    src.push(Token::Name("b".into()));
    let total: usize = src.iter().map(|t| tok(t).t.len()).sum();
    let rec = Rec::new();
    let mut p = Parser::with_builder(src.into_iter(), rec.clone());
    let w = no_panic(&label, || p.word_preserve_trailing_whitespace())?;
    let at = p.pos().byte;
    match w {
        Ok(Some(_)) => {}
        w => return fail(label, format!("a word followed by it is {:?}", w)),
    }
    if delim != tok(t).is_delim() { return fail(label, format!("is_word_delimiter is {}", delim)) }
    if delim != (at == 1) || (!delim && at != total) { return fail(label, format!("is_word_delimiter is {}, but a word followed by it ends at byte {} of {}", delim, at, total)) }
    ctx.count("tokens", 1);
    ctx.case(&label, true);
    Ok(())
}
fn param_back(ctx: &mut Ctx, p: &Param) -> Result<(), Fail> {
    let x = unparam(p);
    let text = no_panic(&format!("{:?}", x), || x.to_string())?;
    let forms = vec![text.clone(), format!("\"{}\"", text), format!("{} b", text), format!("{};", text)];
    for s in forms {
        let r = real_ok(&s)?;
        let want = if s.starts_with('"') { Part::Dq(vec![Simple::Param(p.clone())]) } else { Part::S(Simple::Param(p.clone())) };
        let got = r.cmds.first().and_then(|c| match &c.list.first.cmds[0].1 { Item::Simple(s) => match s.words.first() { Some(WordOr::Word(w)) => Some(w.0.clone()), _ => None }, _ => None });
        if got != Some(vec![want.clone()]) { return fail(s, format!("{:?} is printed as {:?}, which reads back as {:?}", x, text, got)) }
    }
    let mut q = Parser::with_builder(lexed(&text), Rec::new());
    match no_panic(&text, || q.parameter())? {
        Ok(n) if n.t == Word(vec![Part::S(Simple::Param(p.clone()))]) => {}
        g => return fail(text, format!("{:?} reads back as {:?}", x, g)),
    }
    if q.pos().byte != text.len() { return fail(text, format!("only {} bytes were read back", q.pos().byte)) }
    ctx.count("parameters", 1);
    ctx.case(&text, true);
    Ok(())
}
fn digits(ctx: &mut Ctx) -> Result<(), Fail> {
    for n in 0..=255u8 {
        let label = format!("Positional::from_num({})", n);
        let p = no_panic(&label, || Positional::from_num(n))?;
        if n < 10 {
            if p != Some(digit(n)) { return fail(label, format!("{:?}", p)) }
            if no_panic(&label, || digit(n).as_num())? != n { return fail(label, "as_num differs") }
            let as_u8: u8 = no_panic(&label, || digit(n).into())?;
            if as_u8 != n { return fail(label, "the conversion to a number differs from as_num") }
        } else if p.is_some() { return fail(label, format!("{:?}", p)) }
        ctx.count("digits", 1);
    }
    ctx.case("digits", true);
    Ok(())
}
fn positions_printed(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let p = SourcePos { byte: r.below(1 << 20), line: r.below(100_000), col: r.below(100_000) };
    let s = no_panic("position", || p.to_string())?;
    let v: Vec<usize> = s.split(':').filter_map(|x| x.parse().ok()).collect();
    if v != vec![p.line, p.col] { return fail(format!("{:?}", p), format!("printed as {:?}", s)) }
    // advancing over tokens
    let mut at = SourcePos::new();
    let mut want = Pos::start();
    if pos(at) != want || pos(SourcePos::default()) != want { return fail("SourcePos::new()", format!("{:?}", at)) }
    let mut toks = vec![];
    for _ in 0..r.range(1, 12) {
        let t = match r.below(5) { 0 => Token::Literal(r.pick(&["a\nb", "\n", "x\n\n", "é\né", "\r\n", "\na", "no newline", ""]).to_string()), 1 => Token::Name(r.pick(&["é", "日本", "a"]).to_string()), 2 => Token::Whitespace(r.pick(&["\n ", " \n", "\t"]).to_string()), _ => rand_token(r) };
        want = want.after(&tok(&t).t);
        toks.push(t);
        let t = toks.last().unwrap();
        no_panic("advance", || at.advance(t))?;
        if pos(at) != want { return fail(format!("{:?}", toks), format!("position {:?}, expected {:?}", at, want)) }
        ctx.count("tokens advanced over", 1);
    }
    ctx.case(&format!("{:?}", toks), true);
    Ok(())
}
/// numbered parameters, printed and read back once
fn number_back(ctx: &mut Ctx, n: u32) -> Result<(), Fail> {
    let text = no_panic("parameter", || ast::Parameter::<String>::Positional(n).to_string())?;
    let mut q = Parser::with_builder(lexed(&text), Rec::new());
    match no_panic(&text, || q.parameter())? {
        Ok(ref w) if w.t == Word(vec![Part::S(Simple::Param(Param::Num(n)))]) && q.pos().byte == text.len() => {}
        g => return fail(text, format!("parameter number {} reads back as {:?}", n, g)),
    }
    ctx.count("parameters", 1);
    ctx.case(&text, true);
    Ok(())
}
fn edge_number(i: u64) -> u32 {
    let (base, d) = (i / 9, (i % 9) as i64 - 4);
    let b = if base < 33 { 1i64 << base } else if base < 43 { 10i64.pow((base - 33) as u32) } else { (base as i64 - 42) * 999_999_937 / 3 };
    (b + d).max(0).min(u32::max_value() as i64) as u32
}
fn some_param(r: &mut Rng) -> Param {
    match r.below(6) {
        0 => r.pick(&[Param::At, Param::Star, Param::Pound, Param::Question, Param::Dash, Param::Dollar, Param::Bang]).clone(),
        1 => Param::Num(r.below(12) as u32), 2 => Param::Num(r.below(1 << 32) as u32), 3 => Param::Num(u32::max_value()),
        4 => Param::Var(r.pick(NAMES).to_string()),
        _ => { let mut s: String = unicode(r).chars().filter(|c| *c == '_' || c.is_ascii_digit() || c.is_alphabetic()).collect(); while s.starts_with(|c: char| c.is_ascii_digit()) { s.remove(0); } if s.is_empty() { s.push('_') } Param::Var(s) }
    }
}

// ---- C27 -------------------------------------------------------------------------------------------------
fn assert_send_sync<T: Send + Sync>() {}
fn together(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    assert_send_sync::<ast::AtomicTopLevelCommand<String>>();
    assert_send_sync::<ast::AtomicTopLevelCommand<Arc<String>>>();
    let n = r.range(2, 6);
    let texts: Vec<String> = (0..n).map(|_| { let mut t = anything(r); if r.pct(40) { t = format!("{}\n{}", t, program(r)) } t }).collect();
    let all = texts.join("\u{0}\n");
    let alone: Vec<Run> = texts.iter().map(|t| real_ok(t)).collect::<Result<_, _>>()?;
    // interleaved, with parsers abandoned half-way
    let recs: Vec<Rec> = texts.iter().map(|_| Rec::new()).collect();
    let mut ps: Vec<Option<Parser<Toks, Rec>>> = texts.iter().zip(&recs).map(|(t, r)| Some(Parser::with_builder(lexed(t), r.clone()))).collect();
    let mut got: Vec<Vec<Cmd>> = vec![vec![]; n];
    let mut ends: Vec<Option<Result<(), PErr>>> = vec![None; n];
    let mut steps = 0;
    while ps.iter().any(|p| p.is_some()) && steps < 10_000 {
        steps += 1;
        let k = r.below(n);
        if r.pct(3) { ps[k] = None; continue }
        if r.pct(5) { let x = anything(r); let mut p = Parser::with_builder(lexed(&x), Rec::new()); let _ = no_panic(&x, || p.complete_command().is_ok())?; }
        if let Some(p) = &mut ps[k] {
            match no_panic(&texts[k], || p.complete_command())? {
                Ok(Some(c)) => got[k].push(normed(c.t)),
                Ok(None) => { ends[k] = Some(Ok(())); ps[k] = None }
                Err(e) => { ends[k] = Some(Err(perr(&e, |e| e.0))); ps[k] = None }
            }
        }
    }
    for k in 0..n {
        if got[k][..] != alone[k].cmds[..got[k].len().min(alone[k].cmds.len())] { return fail(&texts[k][..], format!("interleaved with {:?}: {}", texts, diff(&show(&got[k]), &show(&alone[k].cmds)))) }
        if let Some(e) = &ends[k] { if *e != alone[k].end.clone().map(|_| ()) || got[k].len() != alone[k].cmds.len() { return fail(&texts[k][..], format!("interleaved with {:?} it ends in {:?}, alone in {:?}", texts, e, alone[k].end)) } ctx.count("interleaved parses completed", 1) } else { ctx.count("interleaved parses abandoned", 1) }
    }
    // once more, and against the reference
    for (t, a) in texts.iter().zip(&alone) {
        let b = real_ok(t)?;
        if !b.same(a) { return fail(&t[..], format!("parsed again: {}", diff(&show(&(&b.cmds, &b.end, &b.pos)), &show(&(&a.cmds, &a.end, &a.pos))))) }
        if let Some(m) = judge(a, &reference(t), View::Tree) { return fail(&t[..], m) }
        ctx.count("repeated parses", 1);
    }
    ctx.case(&all, true);
    Ok(())
}
fn shared(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let texts: Vec<String> = (0..4).map(|_| program(r)).collect();
    let parse = |t: &str| -> Vec<ast::AtomicTopLevelCommand<Arc<String>>> { Parser::<_, ArcBuilder>::new(Lexer::new(t.chars())).into_iter().filter_map(|c| c.ok()).collect() };
    let asts: Vec<Arc<Vec<ast::AtomicTopLevelCommand<Arc<String>>>>> = texts.iter().map(|t| no_panic(t, || Arc::new(parse(t)))).collect::<Result<_, _>>()?;
    let shown: Vec<String> = asts.iter().map(|a| format!("{:?}", a)).collect();
    let outcome = std::thread::scope(|s| {
        let mut hs = vec![];
        for k in 0..3 {
            let (asts, texts, shown) = (&asts, &texts, &shown);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || -> Option<(usize, &'static str)> {
                for j in 0..texts.len() {
                    let i = (j + k) % texts.len();
                    let mine = asts[i].clone();
                    if format!("{:?}", mine) != shown[i] { return Some((i, "reads differently on another thread")) }
                    let copy: Vec<_> = mine.iter().cloned().collect();
                    if copy != **asts[i] { return Some((i, "a copy made on another thread differs")) }
                    let again = parse(&texts[i]);
                    if again != **mine { return Some((i, "parsed differently on another thread")) }
                }
                None
            }).expect("thread"));
        }
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    for o in outcome {
        match o { Err(_) => return fail(texts.join("\n----\n"), "panic on another thread"), Ok(Some((i, m))) => return fail(&texts[i][..], m), Ok(None) => ctx.count("threads", 1) }
    }
    for (a, s) in asts.iter().zip(&shown) { if format!("{:?}", a) != *s { return fail(&s[..], "changed by being shared") } }
    ctx.case(&texts.join("\n"), true);
    Ok(())
}

// ---- C01 -------------------------------------------------------------------------------------------------
/// any operations, also after errors, on any tokens
fn survive(ctx: &mut Ctx, r: &mut Rng, label: &str, src: Toks, count: usize) -> Result<(), Fail> {
    let rec = if r.pct(15) { Rec::failing(r.below(12)) } else { Rec::new() };
    let mut p = Parser::with_builder(src, rec.clone());
    let mut hist: Vec<Op> = vec![];
    let only_complete = r.pct(40);
    let (mut errs, mut stuck, mut last) = (0, 0, usize::MAX);
    let n = if only_complete { 3 * count + 10 } else { 20 };
    for _ in 0..n {
        let op = if only_complete { Op::Complete } else { random_op(r) };
        let got = match guard(|| real_op(&mut p, &rec, &op)) { Ok(g) => g, Err(m) => return fail(format!("{}\n---- operations {:?} {:?}", label, hist, op), m) };
        match &got { Err(Ok(_)) => errs += 1, Err(Err(_)) => {} , Ok(_) => {} }
        let at = p.pos().byte;
        if only_complete {
            if let Ok(Val::Trail(_)) = got { break }
            if let Ok(Val::Cmd(_)) = got { if at == last { stuck += 1; if stuck > 2 { return fail(label, "commands are returned without anything being consumed") } } }
        }
        last = at;
        if hist.len() < 40 { hist.push(op) }
    }
    // as an iterator it must end
    ctx.count("operations after an error", errs);
    ctx.case(label, true);
    Ok(())
}
fn garbage(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let s = match r.below(5) { 0 => unicode(r), 1 => { let n = r.range(1, 60); (0..n).map(|_| (r.below(128) as u8) as char).collect() }, 2 => soup(r, POOL, 1, 30, 20), _ => anything(r) };
    match r.below(8) {
        0 => { no_panic(&s, || { let mut n = 0; for x in Parser::<_, StringBuilder>::new(Lexer::new(s.chars())) { n += 1; let _ = x.map_err(|e| e.to_string()); } n })?; ctx.case(&s, true); Ok(()) }
        1 => {
            // errors of all builders render, default ASTs print
            let v: Vec<String> = no_panic(&s, || Parser::<_, RcBuilder>::new(Lexer::new(s.chars())).into_iter().map(|x| format!("{:?}", x)).collect())?;
            ctx.count("results printed", v.len() as u64);
            ctx.case(&s, true);
            Ok(())
        }
        _ => { let n = refmodel::lex::lex(&s).len(); survive(ctx, r, &s, lexed(&s), n) }
    }
}
fn odd_tokens(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let n = r.range(1, 24);
    let v: Vec<Token> = (0..n).map(|_| match r.below(10) {
        0 => Token::Name(r.pick(&["", "1x", "a b", "\n", "é", "if", "then", "EOF", "x=1", "$", "`"]).to_string()),
        1 => Token::Literal(r.pick(&["", "a b", "\n", "'", "EOF", "if", "1", "99999999999999999999", "0x", "0xzz", "0", "\\", "-1", "+1", "08", "65536", "\"", "`", "$"]).to_string()),
        2 => Token::Whitespace(r.pick(&["", "\n", "a", " ", "\t", " \n "]).to_string()),
        _ => rand_token(r),
    }).collect();
    let label = format!("{:?}", v);
    survive(ctx, r, &label, Box::new(v.into_iter()), n)
}
/// families of inputs which grow
fn family(k: usize, n: usize) -> String {
    let rep = |s: &str| s.repeat(n);
    match k {
        0 => rep("a "), 1 => rep("a;"), 2 => rep("a\n"), 3 => format!("a{}", rep(" | a")), 4 => format!("a{}", rep(" && a")), 5 => rep("'a' "), 6 => rep("\"$x\""), 7 => rep("\\a"), 8 => rep("$x"), 9 => rep("${x:-a}"),
        10 => rep("x=1 "), 11 => rep(">o "), 12 => rep("# c\n"), 13 => rep("\n"), 14 => format!("$(({}1))", rep("1 + ")), 15 => format!("$(({}x))", rep("x = ")), 16 => format!("$(({}1))", rep("1 ? 2 : ")), 17 => format!("$(({}1))", rep("2 ** ")),
        18 => rep("a <<E\nx\nE\n"), 19 => format!("a{}\n{}", rep(" <<E"), rep("x\nE\n")), 20 => format!("a <<E\n{}", rep("x $y\n")), 21 => format!("a <<'E'\n{}", rep("x\n")), 22 => format!("a <<E\n{}E\n", rep("E \n")), 23 => rep("if a; then b; fi\n"),
        24 => format!("case a in {} esac", rep("b) c;; ")), 25 => format!("case a in {}x) c;; esac", rep("b | ")), 26 => format!("if a; then b; {} fi", rep("elif c; then d; ")), 27 => format!("for x in {}; do b; done", rep("a ")), 28 => rep("f() { a; }\n"), 29 => rep("`a` "),
        30 => rep("\\\n"), 31 => format!("a {}", rep("\\\n ")), 32 => format!("a <<E\n{}E\n", rep("\\\n")), 33 => format!("\"{}\"", rep("a ")), 34 => format!("'{}'", rep("a ")), 35 => format!("`{}`", rep("a; ")), 36 => format!("$({})", rep("a; ")), 37 => rep("$(a) "),
        38 => rep("("), 39 => rep("$("), 40 => rep("${x:-"), 41 => rep("{ "), 42 => rep("if "), 43 => rep("\"$("), 44 => rep("`"), 45 => rep("! "), 46 => rep("$(("), 47 => format!("$(({}", rep("(")), 48 => format!("$(({}1", rep("-")), 49 => rep("a <<E; "),
        50 => rep("'"), 51 => rep("\""), 52 => rep("$"), 53 => rep("&"), 54 => rep("<"), 55 => rep(";"), 56 => rep("é"), 57 => rep("*"), 58 => rep("1 2>&1 "), 59 => format!("{}a{}", rep("( "), rep(" )")), 60 => format!("{}a{}", rep("$( "), rep(" )")),
        61 => format!("{}a{}", rep("{ "), rep("; }")), 62 => format!("{}a{}", rep("if a; then "), rep("; fi")), 63 => format!("{}a{}", rep("${x:-"), rep("}")), 64 => format!("{}a{}", rep("\"$( "), rep(" )\"")), 65 => format!("{}a{}", rep("f() { "), rep("; }")), 66 => format!("{}a{}", rep("while a; do "), rep("; done")),
        67 => format!("{}a{}", rep("case a in b) "), rep(";; esac")), 68 => format!("$(({}1{}))", rep("("), rep(")")), 69 => format!("{}{}", rep("a <<E | "), "b\nE\n"), 70 => format!("a <<-E\n{}", rep("\t\tx\n")), 71 => format!("`{}`", rep("\\\\")), 72 => format!("a `{}`", rep("'b' ")), 73 => format!("a <<E\n{}E\n", rep("`b` ")),
        74 => format!("a <<E\n{}E\n", rep("$(b) ")), 75 => format!("$(a <<E\n{}E\n)", rep("x\n")), 76 => format!("{}x\n{}", rep("$(a <<E\n"), rep("\nE\n)")), 77 => format!("(a <<E; {})\nx\nE\n", rep("b; ")), 78 => format!("{} <<E\nx\nE\n", rep("a ")), 79 => format!("a <<{}\nx\n", rep("E")),
        80 => rep("for x do "), 81 => rep("function f "), 82 => rep("f() "), 83 => rep("a=\""), 84 => rep("x\\\n"), 85 => format!("\"{}\"", rep("`a` ")), 86 => format!("\"{}\"", rep("\\\\")), 87 => format!("{}\n{}", rep("a <<'E' "), rep("E\n")), 88 => format!("${{{}}}", rep("#")), 89 => format!("$(({}))", rep("x, ")),
        90 => rep("a # c\n"), 91 => rep("a &\n"), 92 => format!("a{}", rep(" || \n\n # c\n b")), 93 => format!("a{}", rep(" |\n b")), 94 => format!("for x in a{}\n do b; done", rep(" # c\n")), 95 => format!("case a in {} esac", rep("# c\n\n")), 96 => format!("{{ {} a; }}", rep("# c\n\n")), 97 => format!("if {} a; then b; fi", rep("a\n")),
        98 => format!("case a in b) {} ;; esac", rep("c\n")), 99 => format!("while {} a; do {} b; done", rep("a; "), rep("c & ")), 100 => format!("f() {{ {} }} {}", rep("a; "), rep(">o ")), 101 => rep("a 'b' \"c\" $d ${e} `f` $(g) $((h)) *.? ~ [x] é\n"), 102 => format!("\"{}\"", rep("${x:-a} ")), 103 => format!("\"{}\"", rep("$(a) ")), 104 => format!("${{x:-{}}}", rep("a $y 'b' ")), 105 => format!("a{}", rep("'b'c")),
        106 => rep("x=(a) "), 107 => rep("a > \\\n o "), 108 => rep("case\n"), 109 => rep(";;"), 110 => rep("a\r\n"), 111 => rep("\t"), 112 => format!("`{}`", rep("\\$x \\`a\\` ")), 113 => format!("a <<E\n{}E\n", rep("\\$x \\` \\\\ ")), 114 => format!("a <<-E\n{}\tE\n", rep("\t$x `y` $(z)\n")), 115 => format!("a <<E;{}\nx\nE\n", rep(" # c")),
        _ => return String::new(),
    }
}
const FAMILIES: u64 = 116;
fn growth(ctx: &mut Ctx, k: u64) -> Result<(), Fail> {
    let max = if ctx.thorough { 4096 } else { 1024 };
    let mut prev: Option<(u64, u64, f64)> = None;
    let mut n = 64;
    while n <= max {
        let s = family(k as usize, n);
        let label = format!("family {} of {} repetitions, like {:?}", k, n, family(k as usize, 3));
        let m0 = alloc_mark();
        let t0 = cpu();
        let items = no_panic(&label, || Parser::<_, EmptyBuilder>::new(Lexer::new(s.chars())).into_iter().count())?;
        let t = cpu() - t0;
        let m1 = alloc_mark();
        let (a, by) = (m1.0 - m0.0, m1.1 - m0.1);
        ctx.count("growth steps measured", 1);
        ctx.count("commands", items as u64);
        if let Some((pa, pb, pt)) = prev {
            // twice the input: at most about eight times the work (cubic); generous slack for small numbers
            if a > 9 * pa + 20_000 || by > 9 * pb + 4_000_000 { return fail(label, format!("doubling the input took the allocations from {} ({} bytes) to {} ({} bytes)", pa, pb, a, by)) }
            if pt > 0.5 && t > 20.0 * pt { return fail(label, format!("doubling the input took the processor time from {:.2} to {:.2} s", pt, t)) }
        }
        prev = Some((a, by, t));
        ctx.case(&label, true);
        n *= 2;
    }
    Ok(())
}
/// families whose members nest or take more than linear time
const DEEP: &[u64] = &[6, 14, 15, 16, 17, 19, 38, 39, 40, 41, 42, 43, 47, 49, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 76, 80, 87];
/// what does not nest needs no more stack when there is more of it
fn flat_family(ctx: &mut Ctx, k: u64) -> Result<(), Fail> {
    if DEEP.contains(&k) { return Ok(()) }
    let n = if ctx.thorough { 80_000 } else { 40_000 };
    let s = family(k as usize, n);
    let label = format!("family {} of {} repetitions, like {:?}, on a stack of 512 kB", k, n, family(k as usize, 3));
    ctx.about(&label);
    let got = std::thread::scope(|sc| std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(sc, || {
        let a = guard(|| Parser::<_, EmptyBuilder>::new(Lexer::new(s.chars())).into_iter().count());
        let b = guard(|| Parser::<_, StringBuilder>::new(Lexer::new(s.chars())).into_iter().fold((0, 0), |a, x| if x.is_ok() { (a.0 + 1, a.1) } else { (a.0, a.1 + 1) }));
        (a, b)
    }).expect("thread").join());
    match got {
        Ok((Ok(_), Ok(b))) => { ctx.count("long flat inputs", 1); ctx.count("long flat inputs accepted", (b.1 == 0) as u64) }
        Ok((Err(m), _)) | Ok((_, Err(m))) => return fail(label, m),
        Err(_) => return fail(label, "the thread died"),
    }
    ctx.case(&label, true);
    Ok(())
}
fn cpu() -> f64 {
    std::fs::read_to_string("/proc/thread-self/schedstat").ok().and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok())).unwrap_or(0.0) / 1e9
}
/// nesting which fits the stack
fn depth(ctx: &mut Ctx, i: u64) -> Result<(), Fail> {
    const FORMS: &[(&str, &str, &str)] = &[("(", "a", ")"), ("$(", "a", ")"), ("{ ", "a", "; }"), ("if a; then ", "b", "; fi"), ("${x:-", "a", "}"), ("\"$(", "a", ")\""), ("while a; do ", "b", "; done"), ("case a in b) ", "c", ";; esac"), ("f() { ", "a", "; }"), ("$((", "1", "))"), ("for x do ", "a", "; done"), ("\"${x:-", "a", "}\""), ("until ", "a", "; do b; done")];
    let (o, m, c) = FORMS[i as usize % FORMS.len()];
    let n = 100 << (i as usize / FORMS.len());
    let s = if o == "$((" { format!("$(({}{}{}))", "(".repeat(n), m, ")".repeat(n)) } else { format!("{}{}{}", o.repeat(n), m, c.repeat(n)) };
    let s = if o == "(" || o == "$(" { s.replace("((", "( (").replace("$( (", "$( $(").replace("$( $($(", "$( $( $(") } else { s };
    let label = format!("{} levels of {:?}", n, o);
    let (items, bad) = no_panic(&label, || Parser::<_, StringBuilder>::new(Lexer::new(s.chars())).into_iter().fold((0, 0), |a, x| if x.is_ok() { (a.0 + 1, a.1) } else { (a.0, a.1 + 1) }))?;
    if items + bad == 0 { return fail(label, "nothing came out") }
    ctx.count("nested inputs", 1);
    ctx.count("nested inputs accepted", (bad == 0) as u64);
    // and cut in the middle
    let cut = &s[..s.len() / 2];
    no_panic(&label, || Parser::<_, StringBuilder>::new(Lexer::new(cut.chars())).into_iter().count())?;
    ctx.case(&label, true);
    Ok(())
}

/// characters which mean something, and one which does not
const LETTERS: Voc = &["a", "(", ")", "{", "}", ";", "&", "|", "'", "\"", "`", "$", " ", "\n", "<", ">"];

pub fn check(o: &Opts) -> Option<Check> {
    let t = o.thorough;
    let k: u64 = if t { 12 } else { 1 };
    let fixed = |name, n, f: fn(&mut Ctx, u64) -> Result<(), Fail>| Stream { name, n, exhaustive: true, f: Box::new(f) };
    let seq = |name, voc: Voc, len: usize, join: Voc, f: fn(&mut Ctx, &mut Rng, &str) -> Result<(), Fail>| Stream {
        name, n: seq_count(voc.len(), len) * join.len() as u64, exhaustive: true,
        f: Box::new(move |ctx, i| { let j = join[i as usize % join.len()]; let mut r = Rng::of(&[i]); let s = seq_at(voc, len, i / join.len() as u64).join(j); f(ctx, &mut r, &s) }),
    };
    let mut oracle: Option<Oracle> = None;
    let (id, rule, require, streams): (&'static str, &'static str, &'static [&'static str], Vec<Stream>) = match &o.id[..] {
        "C01" => ("C01", "texts and token sequences of all kinds under all operations, also after errors; input families doubled in size; deep nesting; each case runs under a panic trap, overflow checks, an allocation meter and a processor-time watchdog; non-trivial: distinct input", &["operations after an error", "growth steps measured", "nested inputs accepted", "long flat inputs accepted"], vec![
            fixed("growing families", FAMILIES, growth),
            fixed("long flat inputs", FAMILIES, flat_family),
            fixed("nesting", 13 * if t { 5 } else { 3 }, depth),
            each("texts of all kinds", 11, 200_000 * k, garbage),
            each("tokens no lexer produces", 12, 200_000 * k, odd_tokens),
            Stream { name: "all short token sequences", n: seq_count(POOL.len(), if t { 4 } else { 3 }), exhaustive: true, f: Box::new(move |ctx, i| { let s = seq_at(POOL, 4, i).concat(); no_panic(&s, || Parser::<_, EmptyBuilder>::new(Lexer::new(s.chars())).into_iter().count())?; ctx.case(&s, true); Ok(()) }) },
            each("cut programs", 13, 20_000 * k, |ctx, r| {
                let s = program(r);
                for _ in 0..8 { let at = r.below(s.len() + 1); if s.is_char_boundary(at) { let c = &s[..at]; no_panic(c, || Parser::<_, EmptyBuilder>::new(Lexer::new(c.chars())).into_iter().count())?; ctx.case(c, true); } }
                Ok(())
            }),
        ]),
        "C02" => { oracle = Some(lossless); ("C02", "character strings (all short ones over 38 characters, random unicode, every character in context, programs); non-trivial: at least two characters", &["tokens"], lexing(t, k, lossless)) }
        "C03" => { oracle = Some(kinds); ("C03", "character strings (all short ones over 38 characters, random unicode, every character in context, programs), compared with an independent lexer; non-trivial: at least two characters", &["tokens"], lexing(t, k, kinds)) }
        "C04" => ("C04", "texts read through a metered character source: size bounds before every token, read-ahead after every token, clones, polling after the end, for lexers and command streams; non-trivial: at least two tokens", &["size bounds judged", "clones compared", "read-ahead judged", "command streams"], vec![
            seq("all short character sequences", FEW, if t { 6 } else { 4 }, &[""], iterator),
            seq("all very short character sequences", CHARS, 3, &[""], iterator),
            each("endless sources", 43, 10_000 * k, |ctx, r| {
                let s = if r.pct(50) { unicode(r) } else { anything(r) };
                if s.is_empty() { return Ok(()) }
                // cut so that it can be repeated
                let whole = s.repeat(3);
                let want = refmodel::lex::lex(&whole);
                let mut lx = Lexer::new(s.chars().cycle());
                for (i, w) in want.iter().enumerate().take(want.len() * 2 / 3) {
                    let (lo, hi) = no_panic(&s, || lx.size_hint())?;
                    if hi.is_some() { return fail(s, format!("size bounds ({}, {:?}) of a stream without end", lo, hi)) }
                    let t = no_panic(&s, || lx.next())?;
                    if t.as_ref().map(tok).as_ref() != Some(w) { return fail(s, format!("token {} of the text repeated without end: {:?}, expected {:?}", i, t, w)) }
                    // a clone of a stream without end goes on alike
                    if r.pct(5) { if let Some(n) = want.get(i + 1) { if i + 2 < want.len() && no_panic(&s, || lx.clone().next())?.as_ref().map(tok).as_ref() != Some(n) { return fail(s, format!("a clone after token {} goes on differently", i)) } } }
                    ctx.count("tokens of endless sources", 1);
                }
                ctx.case(&s, true);
                Ok(())
            }),
            over("random characters", 41, 60_000 * k, unicode, iterator),
            over("texts of all kinds", 42, 40_000 * k, anything, iterator),
        ]),
        "C13" => { oracle = None; ("C13", "pairs of texts which differ in layout only: token sequences (well-formed or not) under different blanks, escaped newlines, comments and blank lines, and programs printed under different layouts; non-trivial: distinct text", &["pairs accepted", "pairs rejected", "pairs of layouts", "pairs written tightly"], vec![
            Stream { name: "all short token sequences, two layouts each", n: seq_count(LAYOUT_VOC.len(), if t { 4 } else { 3 }), exhaustive: true, f: Box::new(move |ctx, i| { let v = seq_at(LAYOUT_VOC, 4, i); let mut r = Rng::of(&[ctx.seed, 131, i]); layout_seq(ctx, &mut r, &v, 2) }) },
            each("longer token sequences", 132, 60_000 * k, |ctx, r| { let n = r.range(4, 14); let v: Vec<&str> = (0..n).map(|_| *r.pick(LAYOUT_VOC)).collect(); layout_seq(ctx, r, &v, 2) }),
            each("well-formed token sequences", 133, 60_000 * k, |ctx, r| {
                const P: Voc = &["if a \n then b \n fi", "while a ; do b ; done", "for x in c d ; do e \n done", "for x \n do e ; done", "case w in \n ( p | q ) a ;; \n r ) b \n esac", "{ a ; b \n }", "( a \n b )", "f() { a ; }", "function g { a \n }", "function g () ( a )", "f () \n { a ; }", "a | \n b", "a && \n b", "! a | b", "a || b", "x=1 a >o", "a 2>&1 & b", "until a \n do b \n done >o", "if a ; then b ; elif c ; then d ; else e ; fi", "a 'q-r' \"$x\"", "a ; b", "case w \n in esac", "case w in p ) esac", "case w in p ) ;; esac", "for x in \n do a \n done", "for x \n in a \n do b \n done", "a $( b \n c )", "if a \n then \n \n b \n else c \n fi <i"];
                let n = r.range(1, 3);
                let mut v: Vec<&str> = vec![];
                for i in 0..n { if i > 0 { v.push(*r.pick(&[";", "\n", "&", "&&", "|", "||"])) } v.extend(r.pick(P).split(' ')); }
                layout_seq(ctx, r, &v, 3)
            }),
            each("pieces with and without blanks between them", 135, 30_000 * k, |ctx, r| {
                let n = r.range(1, 3);
                let mut v: Vec<&str> = vec![];
                for i in 0..n { if i > 0 { v.push(*r.pick(&[";", "&", "&&", "|", "||"])) } v.extend(r.pick(TIGHT).split(' ')); }
                // some pieces are taken from elsewhere
                if r.pct(30) { let i = r.below(v.len()); v[i] = *r.pick(&["(", ")", "|", ";", "a", "1", "+", "<", "x", "!", ";;", "do", "((", "in", "$x"]); }
                layout_tight(ctx, r, &v)
            }),
            each("programs under several layouts", 134, 25_000 * k, layout_trees),
        ]) }
        "C15" => { oracle = Some(protocol); ("C15", "texts parsed with a builder which numbers its results and checks that each is used exactly once, in order; complete logs are compared with the post-order of the reference tree; non-trivial: more than four calls", &["builder calls", "complete logs compared", "partial logs (rejected texts)"], vec![
            over("texts of all kinds", 151, 80_000 * k, anything, protocol_case),
            over("programs", 152, 40_000 * k, program, protocol_case),
            long_with("long lists", "*", some_counts(t), |ctx, r, s, post| protocol_case(ctx, r, &(s + post))),
            seq("all short sequences of construct pieces", grammar::COMP_VOC, if t { 5 } else { 4 }, &[" "], protocol_case),
            seq("all short sequences of comments and tokens", grammar::NL_VOC, if t { 4 } else { 3 }, &[" ", ""], protocol_case),
        ]) }
        "C16" => ("C16", "for each text, one run per builder call, failing at exactly that call (up to 60 calls per text, then a sample), through repeated parsing, the iterator, and single operations; non-trivial: more than one call", &["failures injected", "failures injected into single operations", "at word", "at redirect", "at comments", "at case_command", "at for_command", "at function_declaration", "at subshell", "at loop_command", "at if_command", "at brace_group", "at compound_command_into_pipeable"], vec![
            over("programs", 161, 12_000 * k, program, inject),
            over("texts of all kinds", 162, 12_000 * k, anything, inject),
            long_with("long lists", "*", vec![33, 257], |ctx, r, s, post| inject(ctx, r, &(s + post))),
            over("single operations", 163, 30_000 * k, |r| if r.pct(40) { format!("{}{}", *r.pick(OP_TEXTS), *r.pick(FOLLOW)) } else { anything(r) }, inject_ops),
            seq("all short sequences of construct pieces", grammar::COMP_VOC, if t { 4 } else { 3 }, &[" "], inject),
            seq("all short sequences of comments and tokens", grammar::NL_VOC, 3, &[" "], inject),
        ]),
        "C17" => ("C17", "each text parsed with nine default, no-op and recording builders and five kinds of wrappers, with and without injected failures; non-trivial: at least one command", &["runs compared", "wrapped runs compared"], vec![
            over("programs", 171, 15_000 * k, program, builders),
            over("texts of all kinds", 172, 25_000 * k, anything, builders),
            long_with("long lists", "*", some_counts(t), |ctx, r, s, post| builders(ctx, r, &(s + post))),
            seq("all short sequences of construct pieces", grammar::COMP_VOC, if t { 4 } else { 3 }, &[" "], builders),
            seq("all short sequences of word pieces", grammar::WORD_VOC, if t { 4 } else { 3 }, &[""], builders),
        ]),
        "C18" => { oracle = Some(default_ast); ("C18", "the default AST of each text compared with what a recording builder was given and with the reference, and checked for canonical form; words handed to the builder directly; non-trivial: at least one command, or a multi-part word", &["commands", "words built directly"], vec![
            over("programs", 181, 30_000 * k, program, default_case),
            over("texts of all kinds", 182, 40_000 * k, anything, default_case),
            long_with("long lists", "*", some_counts(t), |ctx, r, s, post| default_case(ctx, r, &(s + post))),
            over("rich words", 183, 30_000 * k, |r| { let s = soup(r, grammar::WORD_SOUP, 2, 12, 10); format!("a {}", s) }, default_case),
            seq("all short sequences of word pieces", grammar::WORD_VOC, if t { 5 } else { 4 }, &[""], default_case),
            seq("all short operator sequences", grammar::LIST_VOC, if t { 5 } else { 4 }, &[" "], default_case),
            seq("all short sequences of construct pieces", grammar::COMP_VOC, if t { 4 } else { 3 }, &[" "], default_case),
            each("words handed to the builder", 184, 200_000 * k, direct_word),
        ]) }
        "C19" => {
            oracle = Some(pos_oracle);
            let s = |name, voc, len, join, wraps| seqs(Seqs { name, voc, len, join, wraps }, pos_oracle, any);
            const POS_VOC: Voc = &["é", "a", " ", "\n", "\\\n", "'\n'", "\"é\n\"", "`", "\\`", "\\\\", "$(", ")", "(", "<<E", "\nE\n", ";", "&&", "# é\n", "${x}", "$", "\t", "|", "{", "}", "if ", "1>"];
            ("C19", "positions after every command and in every error, compared with the reference and with the text itself, over multi-byte, multi-line, heredoc and backtick texts; positions after every single operation; non-trivial: distinct text", &["accepted", "rejected: Unmatched", "rejected: Unexpected", "rejected: Incomplete", "rejected: BadFd", "rejected: BadSubst", "operations succeeding", "tokens advanced over"], vec![
                s("sequences of multi-byte and multi-line pieces", POS_VOC, if t { 5 } else { 4 }, &[""], BARE),
                s("in backticks and heredocs", POS_VOC, if t { 4 } else { 3 }, &[""], &[("`é\n", "`x )"), ("a <<E\né ", "\nE\nb )"), ("\"\né`", "`\" )"), ("`a \\`", "\\` é` )"), ("a <<E; b é\n", "E\n )"), ("$(a <<-E\n\té", "\n\tE\n) )")]),
                soups("longer sequences", 191, 80_000 * k, POS_VOC, 4, 16, &[("", ""), ("`", "` )"), ("\"`", "`\" )"), ("a <<E <<F\n", "\nE\nx\nF\n)"), ("$(", "))"), ("é\n", ")"), ("x=\"\n", "\" )"), ("`a `", "`` )")], pos_oracle, any),
                spelled("texts spelled character by character", LETTERS, 4, if t { &["@ \n)", "`@`", "\"@\" )", "é\n@ )"] } else { &["é\n@ )"] }, pos_oracle, any),
                each("texts of all kinds", 192, 80_000 * k, |ctx, r| { let s = anything(r); see(ctx, &s, pos_oracle, any) }),
                long_with("long lists", "*", some_counts(t), |ctx, r, s, post| see(ctx, &format!("{}{}{}", s, post, r.pick(&["", "\n)", " 70000>x"])), pos_oracle, any)),
                deep_nests("*", t, pos_oracle, any),
                long_with("very long lists", "*", vec![if t { 140_000 } else { 66_000 }], |ctx, r, s, post| see(ctx, &format!("{}{}{}", s, post, r.pick(&["", "\n)", " 70000>x"])), pos_oracle, any)),
                every_char("every character in context", &["a@ '@' # @\n@ )"], 1, pos_oracle, any),
                each("texts of all kinds followed by an error", 193, 60_000 * k, |ctx, r| { let s = format!("{}{}", anything(r), *r.pick(&["\n)", " )", "\n|", ";;", "\n'", "\n${x!}", "\nif a; b", " 70000>x", "\nfor 1", "`)`", "\n&&", "\"$(", "\n\"é\n${-x}\""])); see(ctx, &s, pos_oracle, any) }),
                neighbours("all single edits of small programs", POOL, pos_oracle, any),
                each("single operations", 194, 60_000 * k, ops),
                each("single operations on other tokens", 195, 30_000 * k, token_ops),
                each("advancing over tokens", 196, 30_000 * k, positions_printed),
            ])
        }
        "C20" => {
            oracle = Some(accept_oracle);
            ("C20", "malformed texts: programs cut off while a construct is open, malformed pieces in all contexts, edited programs, token sequences; a text counts when the reference rejects it, and must then be rejected; non-trivial: rejected text", &["cut programs rejected", "malformed texts rejected", "rejected: Unexpected", "rejected: Unmatched"], vec![
                fixed("malformed pieces in context", (MALFORMED.len() * CLOSED.len()) as u64, malformed),
                each("malformed pieces in deeper contexts", 201, 60_000 * k, malformed_deep),
                deep_nests("*", t, accept_oracle, any),
                spelled("texts spelled character by character", LETTERS, if t { 5 } else { 4 }, &["@"], accept_oracle, rejected),
                each("cut programs", 202, 12_000 * k, cuts),
                long_with("long lists, cut", "*", some_counts(t), |ctx, _, s, _| see(ctx, &s, accept_oracle, rejected)),
                neighbours("all single edits of small programs", POOL, accept_oracle, rejected),
                neighbours2("small programs with a few edits", 205, 60_000 * k, accept_oracle, rejected),
                mutants("edited programs", 203, 80_000 * k, grammar::any_prof, accept_oracle, rejected),
                each("texts of all kinds", 204, 60_000 * k, |ctx, r| { let s = anything(r); see(ctx, &s, accept_oracle, rejected) }),
                seqs(Seqs { name: "sequences of construct pieces", voc: grammar::COMP_VOC, len: if t { 5 } else { 4 }, join: &[" "], wraps: BARE }, accept_oracle, rejected),
                seqs(Seqs { name: "operator sequences", voc: grammar::LIST_VOC, len: if t { 6 } else { 5 }, join: &[" "], wraps: BARE }, accept_oracle, rejected),
                seqs(Seqs { name: "reserved words", voc: grammar::RES_VOC, len: if t { 5 } else { 4 }, join: &[" "], wraps: BARE }, accept_oracle, rejected),
                seqs(Seqs { name: "contents of ${ }", voc: grammar::PARAM_VOC, len: 3, join: &[""], wraps: grammar::PARAM_WRAPS }, accept_oracle, rejected),
                seqs(Seqs { name: "expressions", voc: grammar::ARITH_VOC, len: 3, join: &[" "], wraps: grammar::ARITH_WRAPS }, accept_oracle, rejected),
                seqs(Seqs { name: "redirections", voc: grammar::REDIR_VOC, len: if t { 4 } else { 3 }, join: &["", " "], wraps: &[("", ""), ("a ", "")] }, accept_oracle, rejected),
            ])
        }
        "C21" => {
            oracle = Some(diag_oracle);
            let q = |name, voc: Voc, len: usize, join: Voc, wraps: &'static [(&'static str, &'static str)]| Stream { name, n: seq_count(voc.len(), len) * (join.len() * wraps.len()) as u64, exhaustive: true, f: Box::new(move |ctx, i| {
                let (j, w) = (join.len() as u64, wraps.len() as u64);
                let (k, rest) = (i % (j * w), i / (j * w));
                let c = wraps[(k / j) as usize];
                diagnosed(ctx, &format!("{}{}{}", c.0, seq_at(voc, len, rest).join(join[(k % j) as usize]), c.1))
            }) };
            ("C21", "rejected texts: the error is compared in kind, token, names and positions with the reference's, and its message must contain them; non-trivial: rejected text", &["diagnosed: Unexpected", "diagnosed: Unmatched", "diagnosed: Incomplete", "diagnosed: BadFd", "diagnosed: BadIdent", "diagnosed: BadSubst", "diagnosed: Eof", "messages judged"], vec![
                Stream { name: "malformed pieces in context", n: (MALFORMED.len() * CONTEXTS.len()) as u64, exhaustive: true, f: Box::new(|ctx, i| { let (a, b) = ((i as usize) % MALFORMED.len(), (i as usize) / MALFORMED.len()); diagnosed(ctx, &format!("{}{}{}", CONTEXTS[b].0, MALFORMED[a], CONTEXTS[b].1)) }) },
                Stream { name: "cut malformed pieces", n: (MALFORMED.len() * CONTEXTS.len()) as u64, exhaustive: true, f: Box::new(|ctx, i| { let (a, b) = ((i as usize) % MALFORMED.len(), (i as usize) / MALFORMED.len()); diagnosed(ctx, &format!("{}{}", CONTEXTS[b].0, MALFORMED[a])) }) },
                neighbours("all single edits of small programs", POOL, diag_oracle, rejected),
                neighbours2("small programs with a few edits", 215, 60_000 * k, diag_oracle, rejected),
                spelled("texts spelled character by character", LETTERS, if t { 5 } else { 4 }, &["@"], diag_oracle, rejected),
                fixed("every operation, construct and following text", (OP_TEXTS.len() * FOLLOW.len()) as u64, follow),
                each("sequences of operations", 213, 60_000 * k, ops),
                each("sequences of operations on other tokens", 214, 40_000 * k, token_ops),
                each("texts of all kinds", 211, 80_000 * k, |ctx, r| { let s = anything(r); diagnosed(ctx, &s) }),
                long_with("long lists, cut", "*", some_counts(t), |ctx, _, s, _| diagnosed(ctx, &s)),
                long_with("long lists followed by an error", "*", some_counts(t), |ctx, r, s, post| diagnosed(ctx, &format!("{}{}{}", s, post, r.pick(&["\n)", " 70000>x", "\n${x!}", "\n'", "\nif a; b"])))),
                deep_nests("*", t, diag_oracle, any),
                each("edited programs", 212, 80_000 * k, |ctx, r| { let p = grammar::any_prof(r); let c = case(r, &p).text; let n = r.range(1, 3); let s = mutate(r, &c, n); diagnosed(ctx, &s) }),
                each("cut programs", 213, 30_000 * k, |ctx, r| { let s = program(r); for _ in 0..3 { let at = r.below(s.len() + 1); if s.is_char_boundary(at) { diagnosed(ctx, &s[..at])? } } Ok(()) }),
                q("operator sequences", grammar::LIST_VOC, if t { 5 } else { 4 }, &[" ", ""], BARE),
                q("sequences of construct pieces", grammar::COMP_VOC, if t { 5 } else { 4 }, &[" "], BARE),
                q("reserved words", grammar::RES_VOC, if t { 5 } else { 3 }, &[" "], BARE),
                q("contents of ${ }", grammar::PARAM_VOC, 3, &[""], grammar::PARAM_WRAPS),
                q("expressions", grammar::ARITH_VOC, 3, &[" "], &[("$((", "))"), ("\"$((", "))\"")]),
                q("redirections", grammar::REDIR_VOC, if t { 4 } else { 3 }, &["", " "], &[("", ""), ("a ", ""), ("(b) ", "")]),
                q("words", grammar::WORD_VOC, if t { 4 } else { 3 }, &[""], &[("", ""), ("a ", "")]),
                each("messages", 214, 60_000 * k, rendering),
            ])
        }
        "C22" => ("C22", "each text iterated over and parsed one command at a time, with the builder calls of both; non-trivial: distinct text", &["commands", "texts without commands", "ending in an error", "ending without an error", "iterations with a failing builder", "iterations over sources with pauses"], vec![
            each("sources with pauses", 224, 40_000 * k, pausing),
            seq("all short sequences of blanks, comments and commands", BLANKS, if t { 6 } else { 5 }, &[""], iteration),
            over("programs", 221, 20_000 * k, program, iteration),
            over("texts of all kinds", 222, 60_000 * k, anything, iteration),
            long_with("long lists", "*", some_counts(t), |ctx, r, s, post| iteration(ctx, r, &(s + post))),
            over("several lines", 223, 15_000 * k, lines, iteration),
        ]),
        "C23" => ("C23", "programs read through a metered source: bytes read when each newline-terminated command is returned; concatenations of complete texts with arbitrary ones; non-trivial: distinct text", &["newline-terminated commands returned in time", "followed by an accepted text", "followed by a rejected text"], vec![
            over("several programs in lines", 231, 40_000 * k, lines, streaming),
            over("texts of all kinds", 232, 60_000 * k, anything, streaming),
            long_with("long lists", "*", some_counts(t), |ctx, r, s, post| streaming(ctx, r, &(s + post + "\nb\n"))),
            seq("all short sequences of construct pieces", grammar::COMP_VOC, if t { 4 } else { 3 }, &["\n", " "], streaming),
            seq("all short sequences of comments and tokens", grammar::NL_VOC, if t { 4 } else { 3 }, &[" "], streaming),
            each("concatenations", 233, 100_000 * k, concatenation),
        ]),
        "C24" => ("C24", "random sequences of up to 12 public operations of one parser, each compared with the reference in result and position; every operation on every kind of construct followed by every kind of text; non-trivial: more than one operation", &["operations succeeding", "look-aheads", "operations failing as expected", "op complete_command", "op and_or_list", "op pipeline", "op command", "op simple_command", "op redirect_list", "op redirect", "op redirect_heredoc", "op word", "op word_preserve_trailing_whitespace", "op backticked_command_substitution", "op parameter", "op do_group", "op brace_group", "op subshell", "op compound_command", "op loop_command", "op if_command", "op for_command", "op case_command", "op maybe_function_declaration", "op function_declaration", "op linebreak", "op newline", "op reserved_token", "op reserved_word", "op command_group", "op arithmetic_substitution"], vec![
            fixed("every operation, construct and following text", (OP_TEXTS.len() * FOLLOW.len()) as u64, follow),
            each("sequences of operations", 241, 200_000 * k, ops),
            each("sequences of operations on other tokens", 242, 60_000 * k, token_ops),
        ]),
        "C25" => ("C25", "pairs of texts with the same body in $( ) and, escaped, in backticks, nested up to three deep, in 19 contexts; non-trivial: the body can be written in backticks", &["equal pairs, accepted", "equal pairs, rejected", "nested pairs, accepted"], vec![
            each("pairs", 251, 150_000 * k, ticks),
        ]),
        "C26" => ("C26", "every token kind with many texts, every kind of parameter, digits and positions, printed and read back; non-trivial: distinct value", &["tokens", "parameters", "digits", "tokens advanced over"], vec![
            Stream { name: "operators", n: OPS.len() as u64, exhaustive: true, f: Box::new(|ctx, i| printing(ctx, &token(&Tok::op(OPS[i as usize].0)))) },
            Stream { name: "digits", n: 1, exhaustive: true, f: Box::new(|ctx, _| { for d in 0..10 { printing(ctx, &Token::ParamPositional(digit(d)))? } digits(ctx) }) },
            Stream { name: "numbered parameters", n: if t { 200_000 } else { 20_000 }, exhaustive: true, f: Box::new(|ctx, i| param_back(ctx, &Param::Num(i as u32))) },
            Stream { name: "numbers around powers", n: 9 * 55, exhaustive: true, f: Box::new(|ctx, i| param_back(ctx, &Param::Num(edge_number(i)))) },
            Stream { name: "more numbered parameters", n: if t { 6_000_000 } else { 400_000 }, exhaustive: true, f: Box::new(|ctx, i| number_back(ctx, i as u32)) },
            each("parameters", 261, 60_000 * k, |ctx, r| { let p = some_param(r); param_back(ctx, &p) }),
            each("tokens of texts", 262, 20_000 * k, |ctx, r| { let s = if r.pct(60) { unicode(r) } else { anything(r) }; for t in Lexer::new(s.chars()) { printing(ctx, &t)? } Ok(()) }),
            each("positions", 263, 60_000 * k, positions_printed),
        ]),
        "C27" => ("C27", "groups of texts parsed alone, interleaved with others (some abandoned), again, and on other threads; atomic ASTs read, copied and compared on three threads at once while eight such cases run in parallel; non-trivial: distinct group", &["interleaved parses completed", "interleaved parses abandoned", "repeated parses", "threads"], vec![
            each("interleaved and repeated", 271, 20_000 * k, together),
            each("shared between threads", 272, 3_000 * k, shared),
            each("long texts one after the other", 273, 800 * k, |ctx, r| {
                let n = r.range(1, 3);
                let mut texts: Vec<String> = (0..n).map(|_| flat(r, 60_000)).collect();
                texts.push({ let p = program(r); stretch(r, &p, 20_000) });
                texts.push(anything(r));
                for t in texts.iter().chain(texts.iter().rev()) {
                    if let Some(m) = judge(&real_ok(t)?, &reference(t), View::Full) { return fail(&t[..], m) }
                    ctx.count("long texts parsed again", 1);
                }
                ctx.case(&texts.concat(), true);
                Ok(())
            }),
        ]),
        "C28" => ("C28", "all pairs of small programs which differ in single details, in every context, and of programs and slightly edited versions: equality against that of the trees they stand for, for four kinds of trees; copies compared and changed; the same for errors, tokens and positions; non-trivial: distinct group of texts", &["equal pairs", "different pairs", "copies", "copies changed", "words copied", "pairs of errors"], crate::values::streams(k)),
        _ => return None,
    };
    let _: Option<Rc<()>> = None;
    Some(Check { id, streams, oracle, rule, require })
}
