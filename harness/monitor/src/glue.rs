//! Conversions between the types of the crate under test and those of the reference model, and the recording builder.
use conch_parser::ast::builder as b;
use conch_parser::ast::builder::Builder;
use conch_parser::ast::{self, AndOr as RAndOr, RedirectOrCmdWord, RedirectOrEnvVar};
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::{Positional, Token};
use refmodel::tree::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn tok(t: &Token) -> Tok {
    use Token::*;
    let k = match t {
        Newline => K::Newline, ParenOpen => K::ParenOpen, ParenClose => K::ParenClose, CurlyOpen => K::CurlyOpen, CurlyClose => K::CurlyClose,
        SquareOpen => K::SquareOpen, SquareClose => K::SquareClose, Bang => K::Bang, Tilde => K::Tilde, Pound => K::Pound, Star => K::Star,
        Question => K::Question, Backslash => K::Backslash, Percent => K::Percent, Dash => K::Dash, Equals => K::Equals, Plus => K::Plus,
        Colon => K::Colon, At => K::At, Caret => K::Caret, Slash => K::Slash, Comma => K::Comma, SingleQuote => K::SingleQuote,
        DoubleQuote => K::DoubleQuote, Backtick => K::Backtick, Semi => K::Semi, Amp => K::Amp, Pipe => K::Pipe, AndIf => K::AndIf,
        OrIf => K::OrIf, DSemi => K::DSemi, Less => K::Less, Great => K::Great, DLess => K::DLess, DGreat => K::DGreat,
        GreatAnd => K::GreatAnd, LessAnd => K::LessAnd, DLessDash => K::DLessDash, Clobber => K::Clobber, LessGreat => K::LessGreat,
        Dollar => K::Dollar,
        ParamPositional(p) => return Tok::new(K::Positional, format!("${}", posnum(*p))),
        Whitespace(s) => return Tok::new(K::Whitespace, s.clone()),
        Literal(s) => return Tok::new(K::Literal, s.clone()),
        Name(s) => return Tok::new(K::Name, s.clone()),
    };
    Tok::op(k)
}
/// the digit of a positional parameter, without relying on the conversions under test
pub fn posnum(p: Positional) -> u8 {
    match p {
        Positional::Zero => 0, Positional::One => 1, Positional::Two => 2, Positional::Three => 3, Positional::Four => 4,
        Positional::Five => 5, Positional::Six => 6, Positional::Seven => 7, Positional::Eight => 8, Positional::Nine => 9,
    }
}
pub fn digit(n: u8) -> Positional {
    [Positional::Zero, Positional::One, Positional::Two, Positional::Three, Positional::Four, Positional::Five, Positional::Six,
     Positional::Seven, Positional::Eight, Positional::Nine][n as usize]
}
pub fn token(t: &Tok) -> Token {
    use Token::*;
    match t.k {
        K::Newline => Newline, K::ParenOpen => ParenOpen, K::ParenClose => ParenClose, K::CurlyOpen => CurlyOpen, K::CurlyClose => CurlyClose,
        K::SquareOpen => SquareOpen, K::SquareClose => SquareClose, K::Bang => Bang, K::Tilde => Tilde, K::Pound => Pound, K::Star => Star,
        K::Question => Question, K::Backslash => Backslash, K::Percent => Percent, K::Dash => Dash, K::Equals => Equals, K::Plus => Plus,
        K::Colon => Colon, K::At => At, K::Caret => Caret, K::Slash => Slash, K::Comma => Comma, K::SingleQuote => SingleQuote,
        K::DoubleQuote => DoubleQuote, K::Backtick => Backtick, K::Semi => Semi, K::Amp => Amp, K::Pipe => Pipe, K::AndIf => AndIf,
        K::OrIf => OrIf, K::DSemi => DSemi, K::Less => Less, K::Great => Great, K::DLess => DLess, K::DGreat => DGreat,
        K::GreatAnd => GreatAnd, K::LessAnd => LessAnd, K::DLessDash => DLessDash, K::Clobber => Clobber, K::LessGreat => LessGreat,
        K::Dollar => Dollar,
        K::Positional => ParamPositional(digit(t.t.as_bytes()[1] - b'0')),
        K::Whitespace => Whitespace(t.t.to_string()),
        K::Literal => Literal(t.t.to_string()),
        K::Name => Name(t.t.to_string()),
    }
}
pub fn pos(p: SourcePos) -> Pos { Pos { byte: p.byte, line: p.line, col: p.col } }

pub fn perr<E>(e: &ParseError<E>, f: impl Fn(&E) -> usize) -> PErr {
    match e {
        ParseError::BadFd(a, b) => PErr::BadFd(pos(*a), pos(*b)),
        ParseError::BadIdent(s, p) => PErr::BadIdent(s.clone(), pos(*p)),
        ParseError::BadSubst(t, p) => PErr::BadSubst(tok(t), pos(*p)),
        ParseError::Unmatched(t, p) => PErr::Unmatched(tok(t), pos(*p)),
        ParseError::IncompleteCmd(a, p, b, q) => PErr::Incomplete(a, pos(*p), b, pos(*q)),
        ParseError::Unexpected(t, p) => PErr::Unexpected(tok(t), pos(*p)),
        ParseError::UnexpectedEOF => PErr::Eof,
        ParseError::Custom(e) => PErr::Custom(f(e)),
    }
}
pub fn param(p: &ast::DefaultParameter) -> Param {
    match p {
        ast::Parameter::At => Param::At, ast::Parameter::Star => Param::Star, ast::Parameter::Pound => Param::Pound,
        ast::Parameter::Question => Param::Question, ast::Parameter::Dash => Param::Dash, ast::Parameter::Dollar => Param::Dollar,
        ast::Parameter::Bang => Param::Bang, ast::Parameter::Positional(n) => Param::Num(*n), ast::Parameter::Var(s) => Param::Var(s.clone()),
    }
}
pub fn unparam(p: &Param) -> ast::DefaultParameter {
    match p {
        Param::At => ast::Parameter::At, Param::Star => ast::Parameter::Star, Param::Pound => ast::Parameter::Pound,
        Param::Question => ast::Parameter::Question, Param::Dash => ast::Parameter::Dash, Param::Dollar => ast::Parameter::Dollar,
        Param::Bang => ast::Parameter::Bang, Param::Num(n) => ast::Parameter::Positional(*n), Param::Var(s) => ast::Parameter::Var(s.clone()),
    }
}
pub fn arith<T: Txt>(a: &ast::Arithmetic<T>) -> Arith {
    use ast::Arithmetic as A;
    let s = |x: &T| x.txt().to_string();
    let bx = |x: &Box<ast::Arithmetic<T>>| Box::new(arith(&**x));
    let bin = |o, x: &Box<ast::Arithmetic<T>>, y: &Box<ast::Arithmetic<T>>| Arith::Bin(o, Box::new(arith(&**x)), Box::new(arith(&**y)));
    match a {
        A::Var(v) => Arith::Var(s(v)), A::Literal(n) => Arith::Num(*n as i64),
        A::PostIncr(v) => Arith::Inc(Inc::PostInc, s(v)), A::PostDecr(v) => Arith::Inc(Inc::PostDec, s(v)),
        A::PreIncr(v) => Arith::Inc(Inc::PreInc, s(v)), A::PreDecr(v) => Arith::Inc(Inc::PreDec, s(v)),
        A::UnaryPlus(x) => Arith::Un(Un::Plus, bx(x)), A::UnaryMinus(x) => Arith::Un(Un::Minus, bx(x)),
        A::LogicalNot(x) => Arith::Un(Un::Not, bx(x)), A::BitwiseNot(x) => Arith::Un(Un::BNot, bx(x)),
        A::Pow(x, y) => bin(Bin::Pow, x, y), A::Mult(x, y) => bin(Bin::Mul, x, y), A::Div(x, y) => bin(Bin::Div, x, y),
        A::Modulo(x, y) => bin(Bin::Mod, x, y), A::Add(x, y) => bin(Bin::Add, x, y), A::Sub(x, y) => bin(Bin::Sub, x, y),
        A::ShiftLeft(x, y) => bin(Bin::Shl, x, y), A::ShiftRight(x, y) => bin(Bin::Shr, x, y), A::Less(x, y) => bin(Bin::Lt, x, y),
        A::LessEq(x, y) => bin(Bin::Le, x, y), A::Great(x, y) => bin(Bin::Gt, x, y), A::GreatEq(x, y) => bin(Bin::Ge, x, y),
        A::Eq(x, y) => bin(Bin::Eq, x, y), A::NotEq(x, y) => bin(Bin::Ne, x, y), A::BitwiseAnd(x, y) => bin(Bin::BAnd, x, y),
        A::BitwiseXor(x, y) => bin(Bin::BXor, x, y), A::BitwiseOr(x, y) => bin(Bin::BOr, x, y), A::LogicalAnd(x, y) => bin(Bin::LAnd, x, y),
        A::LogicalOr(x, y) => bin(Bin::LOr, x, y), A::Ternary(x, y, z) => Arith::Tern(bx(x), bx(y), bx(z)),
        A::Assign(v, x) => Arith::Assign(s(v), bx(x)), A::Sequence(v) => Arith::Seq(v.iter().map(arith).collect()),
    }
}
pub fn sep(s: b::SeparatorKind) -> Sep {
    match s {
        b::SeparatorKind::Semi => Sep::Semi, b::SeparatorKind::Amp => Sep::Amp, b::SeparatorKind::Newline => Sep::Newline,
        b::SeparatorKind::Other => Sep::Other,
    }
}
fn nl(n: b::Newline) -> Nl { n.0 }
fn nls(v: Vec<b::Newline>) -> Vec<Nl> { v.into_iter().map(nl).collect() }

// ---- recording builder -----------------------------------------------------------------------------
/// A value made by the recording builder: the tree it stands for and the interval of calls below and including it.
#[derive(Clone, Debug, PartialEq)]
pub struct N<T> { pub lo: u32, pub hi: u32, pub t: T }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Inj(pub usize);
impl std::fmt::Display for Inj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "injected failure #{}", self.0) }
}
impl std::error::Error for Inj {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Call { Complete, AndOr, Pipeline, Simple, Brace, Sub, Loop, If, For, Case, IntoPipe, Fn, Comments, Word, Redir }

#[derive(Debug, Default)]
pub struct Log {
    pub calls: Vec<Call>,
    pub problem: Option<String>,
    pub comments: Vec<Vec<Nl>>,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_failure: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Rec(pub Rc<RefCell<Log>>);
impl Rec {
    pub fn new() -> Rec { Rec::default() }
    pub fn failing(at: usize) -> Rec {
        let r = Rec::default();
        r.0.borrow_mut().fail_at = Some(at);
        r
    }
}
/// interval of the values passed to one call
struct Span<'a> { log: &'a RefCell<Log>, lo: Option<u32>, hi: u32, kind: Call }
impl<'a> Span<'a> {
    fn take<T>(&mut self, n: N<T>) -> T {
        match self.lo {
            None => self.lo = Some(n.lo),
            Some(_) if self.hi == n.lo => {}
            Some(_) => {
                let m = format!("{:?} call was passed values {}..{} after ..{}: not consecutive", self.kind, n.lo, n.hi, self.hi);
                self.log.borrow_mut().problem.get_or_insert(m);
            }
        }
        self.hi = n.hi;
        n.t
    }
    fn group(&mut self, g: b::CommandGroup<N<Cmd>>) -> Group {
        Group { cmds: g.commands.into_iter().map(|c| self.take(c)).collect(), trail: nls(g.trailing_comments) }
    }
    fn redirs(&mut self, v: Vec<N<Redir>>) -> Vec<Redir> { v.into_iter().map(|r| self.take(r)).collect() }
    fn done<T>(self, t: T) -> Result<N<T>, Inj> {
        let mut l = self.log.borrow_mut();
        let id = l.calls.len() as u32;
        if let Some(_) = self.lo {
            if self.hi != id {
                let m = format!("{:?} call #{} follows calls ..{} whose results are not among its arguments (..{})", self.kind, id, id, self.hi);
                l.problem.get_or_insert(m);
            }
        }
        l.calls.push(self.kind);
        if l.failed { l.after_failure += 1 }
        if l.fail_at == Some(id as usize) {
            l.failed = true;
            return Err(Inj(id as usize));
        }
        Ok(N { lo: self.lo.unwrap_or(id), hi: id + 1, t })
    }
    fn simple(&mut self, s: b::SimpleWordKind<N<Cmd>>) -> Simple {
        use b::SimpleWordKind as S;
        match s {
            S::Literal(s) => Simple::Lit(s), S::Escaped(s) => Simple::Esc(s), S::Param(p) => Simple::Param(param(&p)),
            S::CommandSubst(g) => Simple::Tick(self.group(g)), S::Subst(s) => Simple::Subst(Box::new(self.subst(*s))),
            S::Star => Simple::Star, S::Question => Simple::Question, S::SquareOpen => Simple::SqOpen, S::SquareClose => Simple::SqClose,
            S::Tilde => Simple::Tilde, S::Colon => Simple::Colon,
        }
    }
    fn subst(&mut self, s: b::ParameterSubstitutionKind<b::ComplexWordKind<N<Cmd>>, N<Cmd>>) -> Subst {
        use b::ParameterSubstitutionKind as S;
        let (op, colon, p, w) = match s {
            S::Command(g) => return Subst::Cmd(self.group(g)),
            S::Len(p) => return Subst::Len(param(&p)),
            S::Arith(a) => return Subst::Arith(a.as_ref().map(arith)),
            S::Default(c, p, w) => (SubOp::Default, c, p, w), S::Assign(c, p, w) => (SubOp::Assign, c, p, w),
            S::Error(c, p, w) => (SubOp::Error, c, p, w), S::Alternative(c, p, w) => (SubOp::Alt, c, p, w),
            S::RemoveSmallestSuffix(p, w) => (SubOp::SmallSuffix, false, p, w), S::RemoveLargestSuffix(p, w) => (SubOp::LargeSuffix, false, p, w),
            S::RemoveSmallestPrefix(p, w) => (SubOp::SmallPrefix, false, p, w), S::RemoveLargestPrefix(p, w) => (SubOp::LargePrefix, false, p, w),
        };
        Subst::Op(op, colon, param(&p), w.map(|w| self.complex(w)))
    }
    fn part(&mut self, w: b::WordKind<N<Cmd>>) -> Part {
        match w {
            b::WordKind::Simple(s) => Part::S(self.simple(s)),
            b::WordKind::DoubleQuoted(v) => Part::Dq(v.into_iter().map(|s| self.simple(s)).collect()),
            b::WordKind::SingleQuoted(s) => Part::Sq(s),
        }
    }
    fn complex(&mut self, w: b::ComplexWordKind<N<Cmd>>) -> Word {
        Word(match w {
            b::ComplexWordKind::Single(w) => vec![self.part(w)],
            b::ComplexWordKind::Concat(v) => v.into_iter().map(|w| self.part(w)).collect(),
        })
    }
}
impl Rec {
    fn span(&self, kind: Call) -> Span<'_> { Span { log: &*self.0, lo: None, hi: 0, kind } }
}
impl Builder for Rec {
    type Command = N<Cmd>;
    type CommandList = N<AndOr>;
    type ListableCommand = N<Pipe_>;
    type PipeableCommand = N<Item>;
    type CompoundCommand = N<Comp>;
    type Word = N<Word>;
    type Redirect = N<Redir>;
    type Error = Inj;
    fn complete_command(&mut self, pre: Vec<b::Newline>, list: N<AndOr>, s: b::SeparatorKind, post: Option<b::Newline>) -> Result<N<Cmd>, Inj> {
        let mut x = self.span(Call::Complete);
        let c = Cmd { pre: nls(pre), list: x.take(list), sep: sep(s), post: post.map(nl) };
        x.done(c)
    }
    fn and_or_list(&mut self, first: N<Pipe_>, rest: Vec<(Vec<b::Newline>, RAndOr<N<Pipe_>>)>) -> Result<N<AndOr>, Inj> {
        let mut x = self.span(Call::AndOr);
        let first = x.take(first);
        let rest = rest
            .into_iter()
            .map(|(n, r)| match r { RAndOr::And(p) => (nls(n), true, x.take(p)), RAndOr::Or(p) => (nls(n), false, x.take(p)) })
            .collect();
        x.done(AndOr { first, rest })
    }
    fn pipeline(&mut self, bang: bool, cmds: Vec<(Vec<b::Newline>, N<Item>)>) -> Result<N<Pipe_>, Inj> {
        let mut x = self.span(Call::Pipeline);
        let cmds = cmds.into_iter().map(|(n, c)| (nls(n), x.take(c))).collect();
        x.done(Pipe_ { bang, cmds })
    }
    fn simple_command(
        &mut self,
        v: Vec<RedirectOrEnvVar<N<Redir>, String, N<Word>>>,
        w: Vec<RedirectOrCmdWord<N<Redir>, N<Word>>>,
    ) -> Result<N<Item>, Inj> {
        let mut x = self.span(Call::Simple);
        let vars = v
            .into_iter()
            .map(|v| match v {
                RedirectOrEnvVar::Redirect(r) => VarOr::Redir(x.take(r)),
                RedirectOrEnvVar::EnvVar(n, w) => VarOr::Var(n, w.map(|w| x.take(w))),
            })
            .collect();
        let words = w
            .into_iter()
            .map(|v| match v {
                RedirectOrCmdWord::Redirect(r) => WordOr::Redir(x.take(r)),
                RedirectOrCmdWord::CmdWord(w) => WordOr::Word(x.take(w)),
            })
            .collect();
        x.done(Item::Simple(SimpleCmd { vars, words }))
    }
    fn brace_group(&mut self, g: b::CommandGroup<N<Cmd>>, io: Vec<N<Redir>>) -> Result<N<Comp>, Inj> {
        let mut x = self.span(Call::Brace);
        let kind = CompKind::Brace(x.group(g));
        let io = x.redirs(io);
        x.done(Comp { kind, io })
    }
    fn subshell(&mut self, g: b::CommandGroup<N<Cmd>>, io: Vec<N<Redir>>) -> Result<N<Comp>, Inj> {
        let mut x = self.span(Call::Sub);
        let kind = CompKind::Sub(x.group(g));
        let io = x.redirs(io);
        x.done(Comp { kind, io })
    }
    fn loop_command(&mut self, k: b::LoopKind, g: b::GuardBodyPairGroup<N<Cmd>>, io: Vec<N<Redir>>) -> Result<N<Comp>, Inj> {
        let mut x = self.span(Call::Loop);
        let guard = x.group(g.guard);
        let body = x.group(g.body);
        let kind = CompKind::Loop(k == b::LoopKind::Until, guard, body);
        let io = x.redirs(io);
        x.done(Comp { kind, io })
    }
    fn if_command(&mut self, f: b::IfFragments<N<Cmd>>, io: Vec<N<Redir>>) -> Result<N<Comp>, Inj> {
        let mut x = self.span(Call::If);
        let kind = CompKind::If(if_frag(&mut x, f));
        let io = x.redirs(io);
        x.done(Comp { kind, io })
    }
    fn for_command(&mut self, f: b::ForFragments<N<Word>, N<Cmd>>, io: Vec<N<Redir>>) -> Result<N<Comp>, Inj> {
        let mut x = self.span(Call::For);
        let kind = CompKind::For(for_frag(&mut x, f));
        let io = x.redirs(io);
        x.done(Comp { kind, io })
    }
    fn case_command(&mut self, f: b::CaseFragments<N<Word>, N<Cmd>>, io: Vec<N<Redir>>) -> Result<N<Comp>, Inj> {
        let mut x = self.span(Call::Case);
        let kind = CompKind::Case(case_frag(&mut x, f));
        let io = x.redirs(io);
        x.done(Comp { kind, io })
    }
    fn compound_command_into_pipeable(&mut self, c: N<Comp>) -> Result<N<Item>, Inj> {
        let mut x = self.span(Call::IntoPipe);
        let c = x.take(c);
        x.done(Item::Comp(Box::new(c)))
    }
    fn function_declaration(&mut self, name: String, n: Vec<b::Newline>, body: N<Comp>) -> Result<N<Item>, Inj> {
        let mut x = self.span(Call::Fn);
        let c = x.take(body);
        x.done(Item::Fn(name, nls(n), Box::new(c)))
    }
    fn comments(&mut self, c: Vec<b::Newline>) -> Result<(), Inj> {
        self.0.borrow_mut().comments.push(nls(c));
        self.span(Call::Comments).done(()).map(|_| ())
    }
    fn word(&mut self, w: b::ComplexWordKind<N<Cmd>>) -> Result<N<Word>, Inj> {
        let mut x = self.span(Call::Word);
        let w = x.complex(w);
        x.done(w)
    }
    fn redirect(&mut self, k: b::RedirectKind<N<Word>>) -> Result<N<Redir>, Inj> {
        let mut x = self.span(Call::Redir);
        use b::RedirectKind as R;
        let (kind, fd, w) = match k {
            R::Read(f, w) => (RK::Read, f, w), R::Write(f, w) => (RK::Write, f, w), R::ReadWrite(f, w) => (RK::ReadWrite, f, w),
            R::Append(f, w) => (RK::Append, f, w), R::Clobber(f, w) => (RK::Clobber, f, w), R::Heredoc(f, w) => (RK::Heredoc, f, w),
            R::DupRead(f, w) => (RK::DupRead, f, w), R::DupWrite(f, w) => (RK::DupWrite, f, w),
        };
        let word = x.take(w);
        x.done(Redir { kind, fd, word })
    }
}
fn if_frag(x: &mut Span<'_>, f: b::IfFragments<N<Cmd>>) -> IfC {
    let mut conds = vec![];
    for p in f.conditionals {
        let g = x.group(p.guard);
        conds.push((g, x.group(p.body)));
    }
    IfC { conds, els: f.else_branch.map(|e| x.group(e)) }
}
fn for_frag(x: &mut Span<'_>, f: b::ForFragments<N<Word>, N<Cmd>>) -> ForC {
    ForC {
        var: f.var,
        var_nl: f.var_comment.map(nl),
        words: f.words.map(|(n, w, p)| (nls(n), w.into_iter().map(|w| x.take(w)).collect(), p.map(nl))),
        pre_body: nls(f.pre_body_comments),
        body: x.group(f.body),
    }
}
fn case_frag(x: &mut Span<'_>, f: b::CaseFragments<N<Word>, N<Cmd>>) -> CaseC {
    CaseC {
        word: x.take(f.word),
        post_word: nls(f.post_word_comments),
        in_nl: f.in_comment.map(nl),
        arms: f
            .arms
            .into_iter()
            .map(|a| Arm {
                pre: nls(a.patterns.pre_pattern_comments),
                pats: a.patterns.pattern_alternatives.into_iter().map(|w| x.take(w)).collect(),
                pat_nl: a.patterns.pattern_comment.map(nl),
                body: x.group(a.body),
                end_nl: a.arm_comment.map(nl),
            })
            .collect(),
        post_arms: nls(f.post_arms_comments),
    }
}
/// Converts what the fragment-level entry points return; the interval covered is given along.
pub struct Frag<T> { pub t: T, pub lo: Option<u32>, pub hi: u32 }
impl Rec {
    fn frag<T>(&self, f: impl FnOnce(&mut Span<'_>) -> T) -> Frag<T> {
        let mut x = self.span(Call::Comments);
        let t = f(&mut x);
        Frag { t, lo: x.lo, hi: x.hi }
    }
    pub fn group(&self, g: b::CommandGroup<N<Cmd>>) -> Frag<Group> { self.frag(|x| x.group(g)) }
    pub fn guard_body(&self, g: b::GuardBodyPairGroup<N<Cmd>>) -> Frag<(Group, Group)> {
        self.frag(|x| {
            let a = x.group(g.guard);
            (a, x.group(g.body))
        })
    }
    pub fn if_frag(&self, f: b::IfFragments<N<Cmd>>) -> Frag<IfC> { self.frag(|x| if_frag(x, f)) }
    pub fn for_frag(&self, f: b::ForFragments<N<Word>, N<Cmd>>) -> Frag<ForC> { self.frag(|x| for_frag(x, f)) }
    pub fn case_frag(&self, f: b::CaseFragments<N<Word>, N<Cmd>>) -> Frag<CaseC> { self.frag(|x| case_frag(x, f)) }
    pub fn redirs(&self, v: Vec<N<Redir>>) -> Frag<Vec<Redir>> { self.frag(|x| x.redirs(v)) }
    pub fn one<T>(&self, n: N<T>) -> Frag<T> { self.frag(|x| x.take(n)) }
}
pub trait Txt { fn txt(&self) -> &str; }
impl Txt for String { fn txt(&self) -> &str { self } }
impl Txt for Rc<String> { fn txt(&self) -> &str { self } }
impl Txt for std::sync::Arc<String> { fn txt(&self) -> &str { self } }
