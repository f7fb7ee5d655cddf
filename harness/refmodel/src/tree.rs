//! Token, position and tree types of the model.
use std::borrow::Cow;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Newline, ParenOpen, ParenClose, CurlyOpen, CurlyClose, SquareOpen, SquareClose,
    Bang, Tilde, Pound, Star, Question, Backslash, Percent, Dash, Equals, Plus, Colon, At, Caret, Slash, Comma,
    SingleQuote, DoubleQuote, Backtick,
    Semi, Amp, Pipe, AndIf, OrIf, DSemi,
    Less, Great, DLess, DGreat, GreatAnd, LessAnd, DLessDash, Clobber, LessGreat,
    Dollar,
    Positional, Whitespace, Literal, Name,
}
use K::*;
pub const OPS: &[(K, &str)] = &[
    (Newline, "\n"), (ParenOpen, "("), (ParenClose, ")"), (CurlyOpen, "{"), (CurlyClose, "}"), (SquareOpen, "["),
    (SquareClose, "]"), (Bang, "!"), (Tilde, "~"), (Pound, "#"), (Star, "*"), (Question, "?"), (Backslash, "\\"),
    (Percent, "%"), (Dash, "-"), (Equals, "="), (Plus, "+"), (Colon, ":"), (At, "@"), (Caret, "^"), (Slash, "/"),
    (Comma, ","), (SingleQuote, "'"), (DoubleQuote, "\""), (Backtick, "`"), (Semi, ";"), (Amp, "&"), (Pipe, "|"),
    (AndIf, "&&"), (OrIf, "||"), (DSemi, ";;"), (Less, "<"), (Great, ">"), (DLess, "<<"), (DGreat, ">>"),
    (GreatAnd, ">&"), (LessAnd, "<&"), (DLessDash, "<<-"), (Clobber, ">|"), (LessGreat, "<>"), (Dollar, "$"),
];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tok {
    pub k: K,
    pub t: Cow<'static, str>,
}
impl Tok {
    pub fn op(k: K) -> Tok {
        let t = OPS.iter().find(|x| x.0 == k).expect("not an operator").1;
        Tok { k, t: Cow::Borrowed(t) }
    }
    pub fn new(k: K, t: impl Into<String>) -> Tok {
        Tok { k, t: Cow::Owned(t.into()) }
    }
    /// ends a word when it appears unquoted
    pub fn is_delim(&self) -> bool {
        match self.k {
            Newline | ParenOpen | ParenClose | Semi | Amp | Pipe | AndIf | OrIf | DSemi | Less | Great | DLess
            | DGreat | GreatAnd | LessAnd | DLessDash | Clobber | LessGreat | Whitespace => true,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pos {
    pub byte: usize,
    pub line: usize,
    pub col: usize,
}
impl Pos {
    pub fn start() -> Pos {
        Pos { byte: 0, line: 1, col: 1 }
    }
    /// position after `text`
    pub fn after(self, text: &str) -> Pos {
        let mut p = self;
        for b in text.bytes() {
            p.byte += 1;
            if b == b'\n' {
                p.line += 1;
                p.col = 1;
            } else {
                p.col += 1;
            }
        }
        p
    }
}

/// a newline with, possibly, the comment it ends
pub type Nl = Option<String>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sep { Semi, Amp, Newline, Other }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cmd { pub pre: Vec<Nl>, pub list: AndOr, pub sep: Sep, pub post: Option<Nl> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AndOr { pub first: Pipe_, pub rest: Vec<(Vec<Nl>, bool, Pipe_)> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pipe_ { pub bang: bool, pub cmds: Vec<(Vec<Nl>, Item)> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item { Simple(SimpleCmd), Comp(Box<Comp>), Fn(String, Vec<Nl>, Box<Comp>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SimpleCmd { pub vars: Vec<VarOr>, pub words: Vec<WordOr> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum VarOr { Redir(Redir), Var(String, Option<Word>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum WordOr { Redir(Redir), Word(Word) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Comp { pub kind: CompKind, pub io: Vec<Redir> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum CompKind {
    Brace(Group),
    Sub(Group),
    /// until?, guard, body
    Loop(bool, Group, Group),
    If(IfC),
    For(ForC),
    Case(CaseC),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct IfC { pub conds: Vec<(Group, Group)>, pub els: Option<Group> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ForC {
    pub var: String,
    pub var_nl: Option<Nl>,
    pub words: Option<(Vec<Nl>, Vec<Word>, Option<Nl>)>,
    pub pre_body: Vec<Nl>,
    pub body: Group,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CaseC { pub word: Word, pub post_word: Vec<Nl>, pub in_nl: Option<Nl>, pub arms: Vec<Arm>, pub post_arms: Vec<Nl> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Arm { pub pre: Vec<Nl>, pub pats: Vec<Word>, pub pat_nl: Option<Nl>, pub body: Group, pub end_nl: Option<Nl> }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Group { pub cmds: Vec<Cmd>, pub trail: Vec<Nl> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Word(pub Vec<Part>);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Part { S(Simple), Dq(Vec<Simple>), Sq(String) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Simple {
    Lit(String), Esc(String), Param(Param), Subst(Box<Subst>), Tick(Group),
    Star, Question, SqOpen, SqClose, Tilde, Colon,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Param { At, Star, Pound, Question, Dash, Dollar, Bang, Num(u32), Var(String) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SubOp { Default, Assign, Error, Alt, SmallSuffix, LargeSuffix, SmallPrefix, LargePrefix }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Subst {
    Cmd(Group), Len(Param), Arith(Option<Arith>),
    /// operator, colon?, parameter, word (colon is always false for the prefix and suffix operators)
    Op(SubOp, bool, Param, Option<Word>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Pow, Mul, Div, Mod, Add, Sub, Shl, Shr, Lt, Le, Gt, Ge, Eq, Ne, BAnd, BXor, BOr, LAnd, LOr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un { Plus, Minus, Not, BNot }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inc { PreInc, PreDec, PostInc, PostDec }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arith {
    Var(String), Num(i64), Inc(Inc, String), Un(Un, Box<Arith>), Bin(Bin, Box<Arith>, Box<Arith>),
    Tern(Box<Arith>, Box<Arith>, Box<Arith>), Assign(String, Box<Arith>), Seq(Vec<Arith>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RK { Read, Write, ReadWrite, Append, Clobber, Heredoc, DupRead, DupWrite }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Redir { pub kind: RK, pub fd: Option<u16>, pub word: Word }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PErr {
    BadFd(Pos, Pos), BadIdent(String, Pos), BadSubst(Tok, Pos), Unmatched(Tok, Pos),
    Incomplete(&'static str, Pos, &'static str, Pos), Unexpected(Tok, Pos), Eof,
    /// failure injected by the recording builder (never produced by the reference)
    Custom(usize),
}
impl PErr {
    pub fn kind(&self) -> &'static str {
        match self {
            PErr::BadFd(..) => "BadFd", PErr::BadIdent(..) => "BadIdent", PErr::BadSubst(..) => "BadSubst",
            PErr::Unmatched(..) => "Unmatched", PErr::Incomplete(..) => "Incomplete",
            PErr::Unexpected(..) => "Unexpected", PErr::Eof => "Eof", PErr::Custom(_) => "Custom",
        }
    }
}

/// Something a visitor can be applied to: normalisation (merge adjacent literals) and comment removal.
pub trait Map {
    fn map(&mut self, m: &mut dyn Mapper);
}
pub trait Mapper {
    fn nls(&mut self, _v: &mut Vec<Nl>) {}
    fn nl(&mut self, _v: &mut Option<Nl>) {}
    fn word(&mut self, _w: &mut Word) {}
    fn simples(&mut self, _w: &mut Vec<Simple>) {}
    fn cmd(&mut self, _c: &mut Cmd) {}
    fn simple(&mut self, _c: &mut Simple) {}
}
impl Map for Group {
    fn map(&mut self, m: &mut dyn Mapper) {
        for c in &mut self.cmds { c.map(m) }
        m.nls(&mut self.trail);
    }
}
impl Map for Cmd {
    fn map(&mut self, m: &mut dyn Mapper) {
        m.nls(&mut self.pre);
        self.list.map(m);
        m.nl(&mut self.post);
        m.cmd(self);
    }
}
impl Map for AndOr {
    fn map(&mut self, m: &mut dyn Mapper) {
        self.first.map(m);
        for (n, _, p) in &mut self.rest { m.nls(n); p.map(m) }
    }
}
impl Map for Pipe_ {
    fn map(&mut self, m: &mut dyn Mapper) {
        // comments found after a `|` are stored with the command before it, hence come after it
        for (n, i) in &mut self.cmds { i.map(m); m.nls(n) }
    }
}
impl Map for Item {
    fn map(&mut self, m: &mut dyn Mapper) {
        match self {
            Item::Simple(s) => s.map(m),
            Item::Comp(c) => c.map(m),
            Item::Fn(_, n, c) => { m.nls(n); c.map(m) }
        }
    }
}
impl Map for SimpleCmd {
    fn map(&mut self, m: &mut dyn Mapper) {
        for v in &mut self.vars {
            match v { VarOr::Redir(r) => r.map(m), VarOr::Var(_, Some(w)) => w.map(m), VarOr::Var(_, None) => {} }
        }
        for v in &mut self.words {
            match v { WordOr::Redir(r) => r.map(m), WordOr::Word(w) => w.map(m) }
        }
    }
}
impl Map for Redir {
    fn map(&mut self, m: &mut dyn Mapper) { self.word.map(m) }
}
impl Map for Comp {
    fn map(&mut self, m: &mut dyn Mapper) {
        match &mut self.kind {
            CompKind::Brace(g) | CompKind::Sub(g) => g.map(m),
            CompKind::Loop(_, g, b) => { g.map(m); b.map(m) }
            CompKind::If(i) => i.map(m),
            CompKind::For(f) => f.map(m),
            CompKind::Case(c) => c.map(m),
        }
        for r in &mut self.io { r.map(m) }
    }
}
impl Map for IfC {
    fn map(&mut self, m: &mut dyn Mapper) {
        for (g, b) in &mut self.conds { g.map(m); b.map(m) }
        if let Some(e) = &mut self.els { e.map(m) }
    }
}
impl Map for ForC {
    fn map(&mut self, m: &mut dyn Mapper) {
        m.nl(&mut self.var_nl);
        if let Some((n, ws, p)) = &mut self.words {
            m.nls(n);
            for w in ws { w.map(m) }
            m.nl(p);
        }
        m.nls(&mut self.pre_body);
        self.body.map(m);
    }
}
impl Map for CaseC {
    fn map(&mut self, m: &mut dyn Mapper) {
        self.word.map(m);
        m.nls(&mut self.post_word);
        m.nl(&mut self.in_nl);
        for a in &mut self.arms {
            m.nls(&mut a.pre);
            for p in &mut a.pats { p.map(m) }
            m.nl(&mut a.pat_nl);
            a.body.map(m);
            m.nl(&mut a.end_nl);
        }
        m.nls(&mut self.post_arms);
    }
}
fn map_simples(v: &mut Vec<Simple>, m: &mut dyn Mapper) {
    for s in v.iter_mut() { s.map(m) }
    m.simples(v);
}
impl Map for Word {
    fn map(&mut self, m: &mut dyn Mapper) {
        for p in &mut self.0 {
            match p { Part::S(s) => s.map(m), Part::Dq(v) => map_simples(v, m), Part::Sq(_) => {} }
        }
        m.word(self);
    }
}
impl Map for Simple {
    fn map(&mut self, m: &mut dyn Mapper) {
        match self {
            Simple::Tick(g) => g.map(m),
            Simple::Subst(s) => match &mut **s {
                Subst::Cmd(g) => g.map(m),
                Subst::Op(_, _, _, Some(w)) => w.map(m),
                _ => {}
            },
            _ => {}
        }
        m.simple(self);
    }
}
impl<T: Map> Map for Vec<T> {
    fn map(&mut self, m: &mut dyn Mapper) { for x in self { x.map(m) } }
}
impl<T: Map> Map for Option<T> {
    fn map(&mut self, m: &mut dyn Mapper) { if let Some(x) = self { x.map(m) } }
}

pub struct Norm;
fn merge_simples(v: &mut Vec<Simple>) {
    let mut out: Vec<Simple> = Vec::with_capacity(v.len());
    for s in v.drain(..) {
        if let (Some(Simple::Lit(a)), Simple::Lit(b)) = (out.last_mut(), &s) {
            a.push_str(b);
            continue;
        }
        out.push(s);
    }
    *v = out;
}
impl Mapper for Norm {
    fn word(&mut self, w: &mut Word) {
        let mut out: Vec<Part> = Vec::with_capacity(w.0.len());
        for p in w.0.drain(..) {
            if let (Some(Part::S(Simple::Lit(a))), Part::S(Simple::Lit(b))) = (out.last_mut(), &p) {
                a.push_str(b);
                continue;
            }
            out.push(p);
        }
        w.0 = out;
    }
    fn simples(&mut self, v: &mut Vec<Simple>) { merge_simples(v) }
}
/// merges adjacent quoted sections as the default builder does
pub struct MergeQuotes;
impl Mapper for MergeQuotes {
    fn word(&mut self, w: &mut Word) {
        let mut out: Vec<Part> = Vec::with_capacity(w.0.len());
        for p in w.0.drain(..) {
            match (out.last_mut(), p) {
                (Some(Part::S(Simple::Lit(a))), Part::S(Simple::Lit(b))) => a.push_str(&b),
                (Some(Part::Sq(a)), Part::Sq(b)) => a.push_str(&b),
                (Some(Part::Dq(a)), Part::Dq(b)) => { a.extend(b); merge_simples(a) }
                (_, p) => out.push(p),
            }
        }
        w.0 = out;
    }
    fn simples(&mut self, v: &mut Vec<Simple>) { merge_simples(v) }
}
pub struct NoComments;
impl Mapper for NoComments {
    fn nls(&mut self, v: &mut Vec<Nl>) { v.clear() }
    fn nl(&mut self, v: &mut Option<Nl>) { *v = None }
}
/// what the default AST keeps: no comments, separators only as job / not a job
pub struct AstView;
impl Mapper for AstView {
    fn nls(&mut self, v: &mut Vec<Nl>) { v.clear() }
    fn nl(&mut self, v: &mut Option<Nl>) { *v = None }
    fn cmd(&mut self, c: &mut Cmd) { if c.sep != Sep::Amp { c.sep = Sep::Semi } }
    fn simple(&mut self, s: &mut Simple) {
        if let Simple::Tick(g) = s {
            let g = std::mem::take(g);
            *s = Simple::Subst(Box::new(Subst::Cmd(g)));
        }
    }
    fn word(&mut self, w: &mut Word) { MergeQuotes.word(w) }
    fn simples(&mut self, v: &mut Vec<Simple>) { merge_simples(v) }
}
/// separators other than `&` made equal, backticks made `$()`
pub struct SepView;
impl Mapper for SepView {
    fn nls(&mut self, v: &mut Vec<Nl>) { v.clear() }
    fn nl(&mut self, v: &mut Option<Nl>) { *v = None }
    fn cmd(&mut self, c: &mut Cmd) { if c.sep != Sep::Amp { c.sep = Sep::Semi } }
}
pub struct TickView;
impl Mapper for TickView {
    fn simple(&mut self, s: &mut Simple) {
        if let Simple::Tick(g) = s {
            let g = std::mem::take(g);
            *s = Simple::Subst(Box::new(Subst::Cmd(g)));
        }
    }
}
pub struct Comments(pub Vec<Nl>);
impl Mapper for Comments {
    fn nls(&mut self, v: &mut Vec<Nl>) { self.0.extend(v.iter().cloned()) }
    fn nl(&mut self, v: &mut Option<Nl>) { self.0.extend(v.iter().cloned()) }
}
pub fn normed<T: Map>(mut t: T) -> T { t.map(&mut Norm); t }
pub fn viewed<T: Map>(mut t: T, m: &mut dyn Mapper) -> T { t.map(m); t }
