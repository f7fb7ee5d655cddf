//! Drives the real lexer and parser, and the reference, through the same operations.
use crate::glue::*;
use conch_parser::ast::builder::{Builder, LoopKind};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{CommandGroupDelimiters, ParseResult, Parser};
use conch_parser::token::Token;
use refmodel::parse::{Delims, P};
use refmodel::rng::Rng;
use refmodel::tree::*;
use std::cell::Cell;
use std::rc::Rc;

pub type Toks = Box<dyn Iterator<Item = Token>>;

/// what was asked of a character source
#[derive(Debug, Default, Clone)]
pub struct Meter { pub bytes: Cell<usize>, pub calls: Cell<usize>, pub ended: Cell<bool>, pub after_end: Cell<usize> }
/// how much a character source tells about its length
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint { Exact, Loose, None, Huge }
/// A character source which records how it is used. A clone has a record of its own.
#[derive(Debug)]
pub struct Chars { text: Rc<str>, at: usize, pub m: Rc<Meter>, hint: Hint }
impl Chars {
    pub fn new(s: &str) -> Chars { Chars::hinting(s, Hint::Loose) }
    pub fn hinting(s: &str, hint: Hint) -> Chars { Chars { text: s.into(), at: 0, m: Rc::new(Meter::default()), hint } }
}
impl Clone for Chars {
    fn clone(&self) -> Chars { Chars { text: self.text.clone(), at: self.at, m: Rc::new((*self.m).clone()), hint: self.hint } }
}
impl Iterator for Chars {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.m.calls.set(self.m.calls.get() + 1);
        if self.m.ended.get() { self.m.after_end.set(self.m.after_end.get() + 1) }
        match self.text[self.at..].chars().next() {
            Some(c) => {
                self.at += c.len_utf8();
                self.m.bytes.set(self.at.max(self.m.bytes.get()));
                Some(c)
            }
            None => { self.m.ended.set(true); None }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let rest = &self.text[self.at..];
        match self.hint {
            Hint::Exact => { let n = rest.chars().count(); (n, Some(n)) }
            Hint::Loose => ((rest.len() + 3) / 4, Some(rest.len())),
            Hint::None => (0, None),
            Hint::Huge => (0, Some(usize::MAX)),
        }
    }
}
/// A source of tokens which pauses: it ends after each piece, and goes on when it is asked again.
pub struct Pausing { pub pieces: Vec<Vec<Token>>, pub at: usize }
impl Pausing {
    pub fn new(pieces: &[String]) -> Pausing { Pausing { pieces: pieces.iter().map(|p| { let mut v: Vec<Token> = Lexer::new(p.chars()).collect(); v.reverse(); v }).collect(), at: 0 } }
}
impl Iterator for Pausing {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        let r = self.pieces.get_mut(self.at)?.pop();
        if r.is_none() { self.at += 1 }
        r
    }
}
pub fn lexed(s: &str) -> Toks { Box::new(Lexer::new(Chars::new(s))) }
pub fn lexed_from(c: Chars) -> Toks { Box::new(Lexer::new(c)) }

// ---- whole programs ---------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Run {
    pub cmds: Vec<Cmd>,
    /// position after each command
    pub pos: Vec<Pos>,
    pub end: Result<Vec<Nl>, PErr>,
    pub end_pos: Pos,
    /// broken builder protocol
    pub problem: Option<String>,
    pub calls: Vec<Call>,
    /// groups of comments handed to the builder outside of commands
    pub comments: usize,
}
impl Run {
    pub fn ok(&self) -> bool { self.end.is_ok() }
    pub fn same(&self, o: &Run) -> bool { self.cmds == o.cmds && self.pos == o.pos && self.end == o.end && self.end_pos == o.end_pos }
}
pub fn reference(s: &str) -> Run { reference_of(P::of_str(s)) }
pub fn reference_of(mut p: P) -> Run {
    let (mut cmds, mut poss) = (vec![], vec![]);
    loop {
        let end = match p.complete_command() {
            Ok(Ok(c)) => {
                cmds.push(normed(c));
                poss.push(p.pos());
                continue;
            }
            Ok(Err(t)) => Ok(t),
            Err(e) => Err(e),
        };
        return Run { cmds, pos: poss, end, end_pos: p.pos(), problem: None, calls: vec![], comments: 0 };
    }
}
/// The real parser with a recording builder. `Err` means it made no progress.
pub fn real(src: Toks, rec: &Rec) -> Result<Run, String> { real_with(Parser::with_builder(src, rec.clone()), rec) }
pub fn real_with<I, B>(mut p: Parser<I, B>, rec: &Rec) -> Result<Run, String>
where
    I: Iterator<Item = Token>,
    B: Builder<Command = N<Cmd>, Error = Inj>,
{
    let (mut cmds, mut poss) = (vec![], vec![]);
    let mut hi = 0;
    let mut last = usize::MAX;
    let mut problem = None;
    let mut trail_at = usize::MAX;
    loop {
        let r = p.complete_command();
        let at = pos(p.pos());
        let end = match r {
            Ok(Some(c)) => {
                if c.lo != hi { problem = Some(format!("command returned covers builder calls {}.., expected {}..", c.lo, hi)) }
                hi = c.hi;
                cmds.push(normed(c.t));
                poss.push(at);
                if at.byte == last { return Err("a command was returned without consuming anything".into()) }
                last = at.byte;
                continue;
            }
            Ok(None) => {
                let l = rec.0.borrow();
                trail_at = 0;
                if l.calls.len() as u32 != hi + l.comments.len() as u32 {
                    problem = Some(format!("{} builder calls, of which {} belong to the commands returned", l.calls.len(), hi));
                }
                if l.comments.len() > 1 || (l.comments.len() == 1 && l.comments[0].is_empty()) { problem = Some(format!("trailing comments delivered as {:?}", l.comments)) }
                Ok(l.comments.iter().flatten().cloned().collect())
            }
            Err(e) => Err(perr(&e, |e| e.0)),
        };
        let l = rec.0.borrow();
        if trail_at != 0 && !l.comments.is_empty() { problem = Some(format!("comments {:?} handed over before an error", l.comments)) }
        if l.problem.is_some() { problem = l.problem.clone() }
        return Ok(Run { cmds, pos: poss, end, end_pos: at, problem, calls: l.calls.clone(), comments: l.comments.len() });
    }
}
pub fn real_text(s: &str) -> Result<Run, String> {
    match crate::run::guard(|| real(lexed(s), &Rec::new())) { Ok(r) => r, Err(p) => Err(p) }
}
pub fn show<T: std::fmt::Debug>(t: &T) -> String { format!("{:?}", t) }
/// The difference of two debug representations, shortened around the first difference.
pub fn diff(got: &str, want: &str) -> String {
    let g: Vec<char> = got.chars().collect();
    let w: Vec<char> = want.chars().collect();
    let i = g.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or_else(|| g.len().min(w.len()));
    let cut = |v: &[char]| -> String { v[i.saturating_sub(120)..(i + 160).min(v.len())].iter().collect() };
    format!("got …{}… expected …{}…", cut(&g), cut(&w))
}

// ---- single operations ------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Complete, AndOr, Pipeline, Command, Simple, RedirList, Redirect, Heredoc(Option<u16>), Word, WordKeep, Backtick, Param, Do, Brace, Subshell,
    Compound, Loop, If, For, Case, MaybeFn, FnDecl, SkipWs, Linebreak, Newline, PeekTok(usize), PeekWord(usize), ResTok(usize), ResWord(usize),
    Group(usize), Arith,
}
/// the reserved words an operation looks for: fixed sets, then any subset of a pool (in either order)
pub const WORD_SETS: &[&[&str]] = &[&["if", "then", "else", "elif", "fi"], &["do", "done"], &["in", "esac", "case"], &["for", "while", "until", "function"],
    &["foo", "a", "b", "echo"], &["1", "42", "x1"], &[]];
const WORD_POOL: &[&str] = &["do", "done", "fi", "then", "in", "esac", "a", "b", "foo", "1", "é", "if"];
fn subset<T: Clone>(i: usize, pool: &[T]) -> Vec<T> {
    let mut v: Vec<T> = pool.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, t)| t.clone()).collect();
    if i >> pool.len() & 1 == 1 { v.reverse() }
    v
}
pub fn word_set(i: usize) -> Vec<&'static str> { if i < 7 { WORD_SETS[i].to_vec() } else { subset(i - 7, WORD_POOL) } }
pub fn tok_set(i: usize) -> Vec<Tok> {
    match i {
        0 => vec![Tok::op(K::CurlyOpen)], 1 => vec![Tok::op(K::CurlyClose)], 2 => vec![Tok::op(K::Bang), Tok::op(K::Dash)],
        3 => vec![Tok::new(K::Name, "foo"), Tok::new(K::Literal, "1")], 4 => vec![Tok::op(K::Semi), Tok::op(K::ParenClose), Tok::op(K::Pipe)],
        5 => vec![Tok::new(K::Whitespace, " "), Tok::op(K::Newline)], 6 => vec![],
        _ => subset(i - 7, &[Tok::op(K::CurlyOpen), Tok::op(K::CurlyClose), Tok::op(K::Bang), Tok::new(K::Name, "a"), Tok::new(K::Name, "foo"), Tok::op(K::Semi), Tok::op(K::ParenClose), Tok::new(K::Whitespace, " "), Tok::op(K::Newline), Tok::op(K::DSemi), Tok::op(K::Backslash), Tok::op(K::Star)]),
    }
}
pub fn delim_set(i: usize) -> Delims {
    if i < 7 { return delim_sets().swap_remove(i) }
    let i = i - 7;
    Delims { tokens: if i & 1 == 1 { tok_set((i >> 3) % 8000 + 7) } else { vec![] }, words: if i & 2 == 2 { word_set((i >> 4) % 8000 + 7) } else { vec![] }, exact: if i & 4 == 4 { tok_set((i >> 5) % 8000 + 7) } else { vec![] } }
}
fn delim_sets() -> Vec<Delims> {
    vec![
        Delims { tokens: vec![], words: vec!["done"], exact: vec![] },
        Delims { tokens: vec![], words: vec!["then", "fi", "else"], exact: vec![] },
        Delims { tokens: vec![Tok::op(K::CurlyClose)], words: vec![], exact: vec![] },
        Delims { tokens: vec![], words: vec![], exact: vec![Tok::op(K::ParenClose)] },
        Delims { tokens: vec![], words: vec!["esac"], exact: vec![Tok::op(K::DSemi)] },
        Delims { tokens: vec![Tok::op(K::CurlyClose)], words: vec!["b"], exact: vec![Tok::op(K::ParenClose)] },
        Delims::default(),
    ]
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    None, Unit, Cmd(Cmd), Trail(Vec<Nl>), AndOr(AndOr), Pipe(Pipe_), Item(Item), Redirs(Vec<Redir>), Redir(Redir), Word(Word), Group(Group), Comp(Comp), Loop(bool, Group, Group),
    If(IfC), For(ForC), Case(CaseC), Nls(Vec<Nl>), Nl(Nl), Tok(Tok), Str(String), Arith(Arith), Refused,
}
impl Val {
    fn norm(mut self) -> Val {
        let n = &mut Norm;
        match &mut self {
            Val::Cmd(x) => x.map(n), Val::AndOr(x) => x.map(n), Val::Pipe(x) => x.map(n), Val::Item(x) => x.map(n), Val::Redirs(x) => x.map(n),
            Val::Redir(x) => x.map(n), Val::Word(x) => x.map(n), Val::Group(x) => x.map(n), Val::Comp(x) => x.map(n),
            Val::Loop(_, a, b) => { a.map(n); b.map(n) }
            Val::If(x) => x.map(n), Val::For(x) => x.map(n), Val::Case(x) => x.map(n),
            _ => {}
        }
        self
    }
}
pub fn ref_op(p: &mut P, op: &Op) -> Result<Val, PErr> {
    Ok(match op {
        Op::Complete => match p.complete_command()? { Ok(c) => Val::Cmd(c), Err(t) => Val::Trail(t) },
        Op::AndOr => Val::AndOr(p.and_or()?),
        Op::Pipeline => Val::Pipe(p.pipeline()?),
        Op::Command => Val::Item(p.command()?),
        Op::Simple => Val::Item(Item::Simple(p.simple()?)),
        Op::RedirList => Val::Redirs(p.redirect_list()?),
        Op::Redirect => match p.redirect()? { None => Val::None, Some(Ok(r)) => Val::Redir(r), Some(Err(w)) => Val::Word(w) },
        Op::Heredoc(fd) => { p.skip_ws(); Val::Redir(p.heredoc(*fd)?) }
        Op::Word => p.word()?.map_or(Val::None, Val::Word),
        Op::WordKeep => p.word_keep_ws()?.map_or(Val::None, Val::Word),
        Op::Backtick => Val::Word(Word(vec![Part::S(p.backtick()?)])),
        Op::Param => Val::Word(Word(vec![Part::S(p.parameter()?)])),
        Op::Do => Val::Group(p.do_group()?),
        Op::Brace => Val::Group(p.brace()?),
        Op::Subshell => Val::Group(p.subshell(false)?),
        Op::Compound => Val::Comp(p.compound()?),
        Op::Loop => { let (u, g, b) = p.loop_cmd()?; Val::Loop(u, g, b) }
        Op::If => Val::If(p.if_cmd()?),
        Op::For => Val::For(p.for_cmd()?),
        Op::Case => Val::Case(p.case_cmd()?),
        Op::MaybeFn => p.maybe_fn()?.map_or(Val::None, Val::Item),
        Op::FnDecl => Val::Item(p.fn_decl()?),
        Op::SkipWs => { p.skip_ws(); Val::Unit }
        Op::Linebreak => Val::Nls(p.linebreak()),
        Op::Newline => p.newline().map_or(Val::None, Val::Nl),
        Op::PeekTok(i) => p.peek_token(&tok_set(*i)).map_or(Val::None, Val::Tok),
        Op::PeekWord(i) => p.peek_word(&word_set(*i)).map_or(Val::None, |s| Val::Str(s.into())),
        Op::ResTok(i) => Val::Tok(p.token_kw(&tok_set(*i))?),
        Op::ResWord(i) => p.word_kw(&word_set(*i)).map_or(Val::Refused, |s| Val::Str(s.into())),
        Op::Group(i) => Val::Group(p.group(&delim_set(*i))?),
        Op::Arith => Val::Arith(p.arith()?),
    }
    .norm())
}
/// One operation of the real parser. `Err(Ok(e))` is an error of the parser, `Err(Err(msg))` a broken protocol.
pub fn real_op<I: Iterator<Item = Token>>(p: &mut Parser<I, Rec>, rec: &Rec, op: &Op) -> Result<Val, Result<PErr, String>> {
    let start = rec.0.borrow().calls.len() as u32;
    let comments = rec.0.borrow().comments.len();
    let mut used: Option<(Option<u32>, u32)> = None;
    macro_rules! q { ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Err(Ok(perr(&e, |e: &Inj| e.0))) } } }
    macro_rules! f { ($c:expr, $f:expr) => {{ let f = $f; used = Some((f.lo, f.hi)); $c(f.t) }} }
    let toks = |i: &usize| -> Vec<Token> { tok_set(*i).iter().map(token).collect() };
    let v = match op {
        Op::Complete => match q!(p.complete_command()) {
            Some(c) => f!(Val::Cmd, rec.one(c)),
            None => {
                let l = rec.0.borrow();
                used = Some((None, l.calls.len() as u32));
                Val::Trail(l.comments[comments..].iter().flatten().cloned().collect())
            }
        },
        Op::AndOr => f!(Val::AndOr, rec.one(q!(p.and_or_list()))),
        Op::Pipeline => f!(Val::Pipe, rec.one(q!(p.pipeline()))),
        Op::Command => f!(Val::Item, rec.one(q!(p.command()))),
        Op::Simple => f!(Val::Item, rec.one(q!(p.simple_command()))),
        Op::RedirList => f!(Val::Redirs, rec.redirs(q!(p.redirect_list()))),
        Op::Redirect => match q!(p.redirect()) {
            None => Val::None,
            Some(Ok(r)) => f!(Val::Redir, rec.one(r)),
            Some(Err(w)) => f!(Val::Word, rec.one(w)),
        },
        Op::Heredoc(fd) => { p.skip_whitespace(); f!(Val::Redir, rec.one(q!(p.redirect_heredoc(*fd)))) }
        Op::Word => match q!(p.word()) { Some(w) => f!(Val::Word, rec.one(w)), None => Val::None },
        Op::WordKeep => match q!(p.word_preserve_trailing_whitespace()) { Some(w) => f!(Val::Word, rec.one(w)), None => Val::None },
        Op::Backtick => f!(Val::Word, rec.one(q!(p.backticked_command_substitution()))),
        Op::Param => f!(Val::Word, rec.one(q!(p.parameter()))),
        Op::Do => f!(Val::Group, rec.group(q!(p.do_group()))),
        Op::Brace => f!(Val::Group, rec.group(q!(p.brace_group()))),
        Op::Subshell => f!(Val::Group, rec.group(q!(p.subshell()))),
        Op::Compound => f!(Val::Comp, rec.one(q!(p.compound_command()))),
        Op::Loop => {
            let (k, g) = q!(p.loop_command());
            f!(|(a, b)| Val::Loop(k == LoopKind::Until, a, b), rec.guard_body(g))
        }
        Op::If => f!(Val::If, rec.if_frag(q!(p.if_command()))),
        Op::For => f!(Val::For, rec.for_frag(q!(p.for_command()))),
        Op::Case => f!(Val::Case, rec.case_frag(q!(p.case_command()))),
        Op::MaybeFn => match q!(p.maybe_function_declaration()) { Some(w) => f!(Val::Item, rec.one(w)), None => Val::None },
        Op::FnDecl => f!(Val::Item, rec.one(q!(p.function_declaration()))),
        Op::SkipWs => { p.skip_whitespace(); Val::Unit }
        Op::Linebreak => Val::Nls(p.linebreak().into_iter().map(|n| n.0).collect()),
        Op::Newline => p.newline().map_or(Val::None, |n| Val::Nl(n.0)),
        Op::PeekTok(i) => p.peek_reserved_token(&toks(i)).map_or(Val::None, |t| Val::Tok(tok(t))),
        Op::PeekWord(i) => p.peek_reserved_word(&word_set(*i)).map_or(Val::None, |s| Val::Str(s.into())),
        Op::ResTok(i) => Val::Tok(tok(&q!(p.reserved_token(&toks(i))))),
        Op::ResWord(i) => p.reserved_word(&word_set(*i)).map_or(Val::Refused, |s| Val::Str(s.into())),
        Op::Group(i) => {
            let d = &delim_set(*i);
            let (a, b): (Vec<Token>, Vec<Token>) = (d.tokens.iter().map(token).collect(), d.exact.iter().map(token).collect());
            let r: ParseResult<_, _> = if *d == Delims::default() { p.command_group(CommandGroupDelimiters::default()) } else { p.command_group(CommandGroupDelimiters { reserved_tokens: &a, reserved_words: &d.words, exact_tokens: &b }) };
            f!(Val::Group, rec.group(q!(r)))
        }
        Op::Arith => Val::Arith(arith(&q!(p.arithmetic_substitution()))),
    };
    let l = rec.0.borrow();
    if let Some(m) = &l.problem { return Err(Err(m.clone())) }
    let (lo, hi) = used.unwrap_or((None, start));
    if hi != l.calls.len() as u32 && !(lo.is_none() && l.calls.len() as u32 == start) || lo.map_or(false, |lo| lo != start) {
        return Err(Err(format!("{:?} made builder calls {}..{} but its result covers {:?}..{}", op, start, l.calls.len(), lo, hi)));
    }
    Ok(v.norm())
}
fn any_set(r: &mut Rng) -> usize { if r.pct(50) { r.below(7) } else { let few = r.below(8192) & r.below(8192); few + 7 } }
pub fn random_op(r: &mut Rng) -> Op {
    match r.below(36) {
        0 | 1 => Op::Complete, 2 => Op::AndOr, 3 => Op::Pipeline, 4 => Op::Command, 5 => Op::Simple, 6 => Op::RedirList, 7 => Op::Redirect,
        8 => Op::Heredoc(if r.pct(50) { Some(3) } else { None }), 9 | 10 => Op::Word, 11 => Op::WordKeep, 12 => Op::Backtick, 13 => Op::Param, 14 => Op::Do,
        15 => Op::Brace, 16 => Op::Subshell, 17 => Op::Compound, 18 => Op::Loop, 19 => Op::If, 20 => Op::For, 21 => Op::Case, 22 => Op::MaybeFn,
        23 => Op::FnDecl, 24 => Op::SkipWs, 25 => Op::Linebreak, 26 => Op::Newline, 27 | 28 => Op::PeekTok(any_set(r)), 29 | 30 => Op::PeekWord(any_set(r)),
        31 => Op::ResTok(any_set(r)), 32 => Op::ResWord(any_set(r)), 33 | 34 => Op::Group(any_set(r)), _ => Op::Arith,
    }
}
/// operations which only look ahead
pub fn random_peek(r: &mut Rng) -> Op { if r.pct(50) { Op::PeekTok(any_set(r)) } else { Op::PeekWord(any_set(r)) } }
