//! Syntax trees, errors, tokens and positions as plain values: equality, clones, wrappers.
use crate::astconv::{Canon, Conv};
use crate::drive::show;
use crate::glue::*;
use crate::run::*;
use crate::special::{anything, program, rand_token};
use crate::texts::*;
use conch_parser::ast;
use conch_parser::ast::builder::{ArcBuilder, AtomicDefaultBuilder, RcBuilder, StringBuilder};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use refmodel::rng::Rng;
use refmodel::tree::*;
use std::rc::Rc;
use std::sync::Arc;

fn view<T: Conv<O>, O: std::fmt::Debug>(t: &T) -> String { show(&t.conv(&mut Canon::default())) }

/// Texts which differ in as little as a single detail.
const TWINS: Voc = &["a", "a b", "a  b", "ab", "a 'b'", "a \"b\"", "a \\b", "a b c", "'a'", "a;", "a &", "a\n", "a # c\n", "! a", "a | b", "! a | b", "a | b | c", "a && b", "a || b", "a && b || c", "a || b && c", "x=1", "x=", "x=''", "x=1 a", "x= a", "y=1 a", "x=1 y=2 a", "y=2 x=1 a", "a x=1",
    "a >o", "a 1>o", "a 2>o", "a 0>o", "a <o", "a 0<o", "a 1<o", "a >>o", "a 1>>o", "a >|o", "a 1>|o", "a <>o", "a 0<>o", "a >&1", "a 1>&1", "a <&1", "a 0<&1", "a >&-", "a <&-", "a >o b", "a b >o", ">o a b", ">o", ">p", "<o", "x=1 >o", ">o x=1", "a >o >p", "a >p >o", "a <<E\nE\n", "a 0<<E\nE\n", "a <<E\nb\nE\n", "a <<'E'\nb\nE\n", "a <<-E\n\tb\nE\n", "a <<E\n$x\nE\n", "a <<'E'\n$x\nE\n",
    "{ a; }", "(a)", "{ a; b; }", "(a; b)", "{ b; a; }", "{ a & }", "{ a; } >o", "(a) >o", "{ a; } >o 2>p", "{ a; } 2>p >o", "while a; do b; done", "until a; do b; done", "while b; do a; done", "while a; b; do c; done", "while a; do b; c; done", "if a; then b; fi", "if a; then b; else c; fi", "if a; then b; elif c; then d; fi", "if a; then b; elif c; then d; else e; fi", "if a; then b; else if c; then d; fi; fi", "if a; b; then c; fi", "if a; then b; c; fi",
    "for x do a; done", "for x in; do a; done", "for x in b; do a; done", "for x in b c; do a; done", "for y in b; do a; done", "for x in b; do c; done", "case a in esac", "case b in esac", "case a in b) ;; esac", "case a in b) c;; esac", "case a in b|c) d;; esac", "case a in b) d;; c) d;; esac", "case a in c|b) d;; esac", "case a in b) c; d;; esac",
    "f() { a; }", "g() { a; }", "f() (a)", "f() { b; }", "f() { a; } >o", "f() { a; b; }", "f() { g() { a; }; }", "$a", "${a}", "$1", "${1}", "${10}", "$@", "$*", "$#", "$?", "$-", "$$", "$!", "$b", "$0", "${#a}", "${#b}", "${##}", "${#}", "${a:-b}", "${a-b}", "${a:=b}", "${a=b}", "${a:?b}", "${a?b}", "${a:+b}", "${a+b}", "${a%b}", "${a%%b}", "${a#b}", "${a##b}", "${a:-}", "${a-}", "${a%}", "${a%%}", "${a:-c}", "${b:-c}", "${a:-''}", "${a:-$b}",
    "$(a)", "$()", "`a`", "$(b)", "$(a; b)", "$(a &)", "\"$a\"", "\"$a$b\"", "a\"$a\"", "\"a$a\"", "\"\"", "''", "a''", "a\"\"", "*", "\\*", "'*'", "?", "[", "]", "[a]", "~", "\\~", "'~'", ":", "a:b", "a*", "a?", "*a", "a'b'c", "a\"b\"c", "\"a'b'c\"", "'a' 'b'", "'a''b'", "\"a\"\"b\"", "\"a\\$\"", "\"a\\b\"",
    "$((1))", "$((2))", "$((01))", "$((0x1))", "$(())", "$((x))", "$(($x))", "$((y))", "$((x++))", "$((x--))", "$((++x))", "$((--x))", "$((+x))", "$((-x))", "$((!x))", "$((~x))", "$((x+y))", "$((y+x))", "$((x-y))", "$((x*y))", "$((x/y))", "$((x%y))", "$((x**y))", "$((x<<y))", "$((x>>y))", "$((x<y))", "$((x<=y))", "$((x>y))", "$((x>=y))", "$((x==y))", "$((x!=y))", "$((x&y))", "$((x^y))", "$((x|y))", "$((x&&y))", "$((x||y))", "$((x?y:z))", "$((x?z:y))", "$((x=y))", "$((y=x))", "$((x+=y))", "$((x=x+y))", "$((x,y))", "$((y,x))", "$((x,y,z))", "$((x+y+z))", "$((x+(y+z)))", "$(((x,y),z))"];

macro_rules! trees {
    ($name:ident, $B:ty, $T:ty, $Cmd:ident, $Word:ident) => {
        fn $name(ctx: &mut Ctx, r: &mut Rng, texts: &[String]) -> Result<(), Fail> {
            type C = ast::$Cmd<$T>;
            type W = ast::$Word<$T>;
            let which = stringify!($B);
            let mut pool: Vec<(C, String, &str)> = vec![];
            for t in texts {
                let cs: Vec<C> = guard(|| Parser::<_, $B>::new(Lexer::new(t.chars())).into_iter().map_while(|c| c.ok()).take(4).collect()).or_else(|m| fail(&t[..], m))?;
                for c in cs { let v = view(&c); pool.push((c, v, t)) }
            }
            let mut words: Vec<(W, String, &str)> = vec![];
            for t in texts.iter().take(40) {
                let w = guard(|| Parser::<_, $B>::new(Lexer::new(t.chars())).word()).or_else(|m| fail(&t[..], m))?;
                if let Ok(Some(w)) = w { let v = view(&w); words.push((w, v, t)) }
            }
            if pool.is_empty() { return Ok(()) }
            macro_rules! laws {
                ($pool:expr, $what:expr) => {
                    for (k, (a, va, ta)) in $pool.iter().enumerate() {
                        for (b, vb, tb) in $pool.iter().skip(k) {
                            let want = va == vb;
                            let got = [a == b, b == a, !(a != b), *a == **b, !(*a != **b), **a == **b, *b == **a];
                            if got != [want; 7] { return fail(format!("{}\n---- and ----\n{}", ta, tb), format!("{} of {}: equality is {:?} where {} is expected: {:?} {:?}", $what, which, got, want, a, b)) }
                            ctx.count(if want { "equal pairs" } else { "different pairs" }, 1);
                        }
                    }
                };
            }
            laws!(pool, "commands");
            laws!(words, "words");
            for _ in 0..12 {
                let (a, va, ta) = r.pick(&pool);
                let (b, vb, tb) = r.pick(&pool);
                let l = || format!("{}\n---- and ----\n{}", ta, tb);
                let from = C::from(a.0.clone());
                let mut copy = a.clone();
                if copy != *a || from != *a || view(&from) != *va || view(&copy) != *va || format!("{:?}", copy) != format!("{:?}", a) { return fail(l(), format!("a copy of {:?} is {:?}, rewrapped it is {:?}", a, copy, from)) }
                let mut over = b.clone();
                over.clone_from(a);
                if over != *a || view(&over) != *va { return fail(l(), format!("a copy of {:?} made in place is {:?}", a, over)) }
                // a change of the copy is one of the copy alone
                *copy = b.0.clone();
                if copy != *b || view(&copy) != *vb || view(a) != *va || view(b) != *vb { return fail(l(), format!("{:?} after replacing a copy of it: {:?}", a, copy)) }
                let mut copy = a.clone();
                if change(&mut copy, b) {
                    if (view(&copy) == *va) != (copy == *a) || view(a) != *va { return fail(l(), format!("{:?} after changing a copy of it to {:?}", a, copy)) }
                    ctx.count("copies changed", 1);
                }
                ctx.count("copies", 1);
            }
            for _ in 0..6 {
                if words.is_empty() { break }
                let (a, va, ta) = r.pick(&words);
                let (b, vb, tb) = r.pick(&words);
                let from = W::from(a.0.clone());
                let mut copy = a.clone();
                let ok = copy == *a && from == *a && view(&from) == *va && view(&copy) == *va;
                *copy = b.0.clone();
                if !ok || copy != *b || view(&copy) != *vb || view(a) != *va || view(b) != *vb { return fail(format!("{}\n---- and ----\n{}", ta, tb), format!("copies of {:?}: {:?} {:?}", a, from, copy)) }
                ctx.count("words copied", 1);
            }
            /// Replaces the first command of `c` by that of `by`.
            fn change(c: &mut C, by: &C) -> bool {
                let other = match &by.0 { ast::Command::List(l) | ast::Command::Job(l) => l.first.clone() };
                match &mut **c { ast::Command::List(l) | ast::Command::Job(l) => l.first = other }
                true
            }
            Ok(())
        }
    };
}
trees!(strings, StringBuilder, String, TopLevelCommand, TopLevelWord);
trees!(rcs, RcBuilder, Rc<String>, TopLevelCommand, TopLevelWord);
trees!(arcs, ArcBuilder, Arc<String>, AtomicTopLevelCommand, AtomicTopLevelWord);
trees!(atomic_strings, AtomicDefaultBuilder<String>, String, AtomicTopLevelCommand, AtomicTopLevelWord);

fn each_kind(ctx: &mut Ctx, r: &mut Rng, texts: &[String]) -> Result<(), Fail> {
    match r.below(5) { 0 | 1 => strings(ctx, r, texts)?, 2 => rcs(ctx, r, texts)?, 3 => arcs(ctx, r, texts)?, _ => atomic_strings(ctx, r, texts)? }
    ctx.case(&texts.join("\n"), true);
    Ok(())
}
/// programs, edited slightly
fn near(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let base = if r.pct(50) { program(r) } else { r.pick(TWINS).to_string() };
    let mut texts = vec![base.clone(), base.clone()];
    for _ in 0..r.range(2, 8) {
        let n = r.range(1, 2);
        texts.push(mutate(r, &base, n));
    }
    // twice the same tree, with different text
    texts.push(format!("\n# c\n{}", base));
    each_kind(ctx, r, &texts)
}
/// all pairs of the small programs, in a context
fn twins(ctx: &mut Ctx, i: u64) -> Result<(), Fail> {
    const AROUND: &[(&str, &str)] = &[("", ""), ("{ ", "\n}"), ("$( ", "\n)"), ("f() { ", "\n}"), ("a $( ", "\n)"), ("\"$( ", "\n)\""), ("x=", ""), ("a ", ""), ("${x:-", "}"), ("a >", ""), ("while ", "\ndo x; done"), ("case a in b) ", "\nesac"), ("a | ", ""), ("a && ", "")];
    let (k, c) = ((i % 4) as usize, AROUND[(i / 4) as usize % AROUND.len()]);
    let texts: Vec<String> = TWINS.iter().map(|t| format!("{}{}{}", c.0, t, c.1)).collect();
    let mut r = Rng::of(&[ctx.seed, 281, i]);
    match k { 0 => strings(ctx, &mut r, &texts)?, 1 => rcs(ctx, &mut r, &texts)?, 2 => arcs(ctx, &mut r, &texts)?, _ => atomic_strings(ctx, &mut r, &texts)? }
    ctx.case(&format!("{:?} {}", c, k), true);
    Ok(())
}
/// errors, tokens and positions
fn errors(ctx: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let base = anything(r);
    let mut pool: Vec<(ParseError<std::convert::Infallible>, PErr, String)> = vec![];
    for k in 0..12 {
        let t = if k == 0 { base.clone() } else if k % 3 == 0 { anything(r) } else { mutate(r, &base, 1) };
        let e = guard(|| Parser::<_, StringBuilder>::new(Lexer::new(t.chars())).into_iter().find_map(|c| c.err().map(|e| {
            let p = perr(&e, |_| usize::MAX);
            let e = match e {
                ParseError::BadFd(a, b) => ParseError::BadFd(a, b), ParseError::BadIdent(s, p) => ParseError::BadIdent(s, p), ParseError::BadSubst(t, p) => ParseError::BadSubst(t, p),
                ParseError::Unmatched(t, p) => ParseError::Unmatched(t, p), ParseError::IncompleteCmd(a, b, c, d) => ParseError::IncompleteCmd(a, b, c, d),
                ParseError::Unexpected(t, p) => ParseError::Unexpected(t, p), _ => ParseError::UnexpectedEOF,
            };
            (e, p)
        }))).or_else(|m| fail(&t[..], m))?;
        if let Some((e, p)) = e { pool.push((e, p, t)) }
    }
    for (a, pa, ta) in &pool {
        if a.clone() != *a { return fail(&ta[..], format!("a copy of {:?} is {:?}", a, a.clone())) }
        for (b, pb, tb) in &pool {
            if (a == b) != (pa == pb) || (a != b) == (pa == pb) { return fail(format!("{}\n---- and ----\n{}", ta, tb), format!("equality of {:?} and {:?} is {}", a, b, a == b)) }
            ctx.count("pairs of errors", 1);
        }
    }
    let (x, y) = (rand_token(r), rand_token(r));
    let same = (x.to_string(), std::mem::discriminant(&x)) == (y.to_string(), std::mem::discriminant(&y));
    if (x == y) != same || (x != y) == same || x.clone() != x { return fail(format!("{:?} {:?}", x, y), "equality of tokens") }
    let p = |r: &mut Rng| SourcePos { byte: r.below(3), line: r.below(3), col: r.below(3) };
    let (p, q) = (p(r), p(r));
    let same = (p.byte, p.line, p.col) == (q.byte, q.line, q.col);
    if (p == q) != same || SourcePos::default() != SourcePos::new() || pos(SourcePos::new()) != Pos::start() { return fail(format!("{:?} {:?}", p, q), "equality of positions") }
    ctx.case(&base, !pool.is_empty());
    Ok(())
}

pub fn streams(k: u64) -> Vec<Stream> {
    let each = |name, tag: u64, n, f: fn(&mut Ctx, &mut Rng) -> Result<(), Fail>| Stream { name, n, exhaustive: false, f: Box::new(move |ctx: &mut Ctx, i| { let mut r = Rng::of(&[ctx.seed, tag, i]); f(ctx, &mut r) }) };
    vec![
        Stream { name: "all pairs of small programs in a context", n: 4 * 14, exhaustive: true, f: Box::new(twins) },
        each("programs edited slightly", 282, 30_000 * k, near),
        each("errors, tokens and positions", 283, 30_000 * k, errors),
    ]
}
