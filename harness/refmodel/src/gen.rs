//! Generator of program trees (the ground truth) and of texts which must parse to them.
use crate::rng::Rng;
use crate::tree::*;

pub const NAMES: &[&str] = &["a", "x", "foo", "_", "_1", "Ab2", "é", "naïve9", "in", "x_y", "ünï", "B", "long_variable_name_0123456789"];
pub const CMDS: &[&str] = &["a", "b", "echo", "cat", "foo", "ls", "x1", "ø", "./run", "c-d", "a.b", "+x", "-n", "%1", "@", "^", "2", "70000", "in",
    "/bin/true", "é", "!x", "{a", "}b", "1x", "c"];
pub const KWS: &[&str] = &["if", "then", "elif", "else", "fi", "do", "done", "case", "esac", "for", "while", "until", "function", "in", "{", "}", "!"];
const LITS: &[&str] = &["a", "b", "foo", "x1", "-n", "--long=x", "1", "42", "%", "=", "+", "@", "^", "/", ",", ".", "a=b", "_", "é", "日本", "{", "}",
    "{}", "!", "a!b", "x#y", "0", "$%", "$.", "$,x", "$=", "\u{1}", "\u{200b}", "x{y,z}", "007", "0x1F", "-", "a-b_c", "\u{1F600}", "A", "\u{7f}", "==",
    "if", "done", "in", "#"];
const DQ: &[&str] = &["a", "b", " ", "  x ", "\n", "&", "|", ";", "(", ")", "<", ">", "*", "?", "[", "]", "~", ":", "'", "#", " # c", "\\a", "\\'", "\\(",
    "\\é", "$%", "$ ", "$.", "1", "2", "a=b", "é", "日", "{", "}", "!", "\t", "\u{a0}", "\r", "&&", ";;", "<<", "\\ ", "x\ny", "if", "/"];
const SQ: &[&str] = &["a", "b", " ", "\n", "\\", "\"", "`", "$x", "$(", "${", "#", " # c", "(", ")", ";", "&&", "é", "\\n", "*", "$1", "\\\"", "1", "{",
    "}", "\t", "EOF", "\\$"];
const HD: &[&str] = &["a", "foo bar", " ", "'", "\"", "it's", "(", ")", "{", "}", "#", "# c", "*", "?", "~", ":", "\\a", "\\\"", "\\'", "&", "|", ";", "<",
    "<<E", "\t", "$%", "$ ", "é", "日本", "\n", "\n", "EOF ", " EOF", "x\n\ny", "done", "\r", "if a; then", "\\ ", "-", "1", "2", "\n\t", "\nEO", "F\n"];
const RAWHD: &[&str] = &["a", "foo bar", " ", "'", "\"", "`", "$x", "$(foo", "${", "\\", "\\\\", "\n", "\n", "# c", "(", ")", "EOF ", "é", "\t", "\\\n", "$((1",
    "x\n\ny", "<<E", "\r"];
const SAFE: &[&str] = &["a", "foo bar", "x", " y", "1", "é", ".", ",", "-", "end"];
const SUBW: &[&str] = &["a", "b", " ", "  ", "&", "|", ";", "(", ")", "<", ">", "#", "\n", "&&", "<<", "1", "-", "=", "+", "é", "a b", " #c", "{", "if", "!",
    "%", ";;", "\t", "/", "@", ",", "x=y", "0"];
const COMMENTS: &[&str] = &["#", "# comment", "#x", "# it's \"quoted\" `here`", "#\\", "# $(foo ${x ((", "#é # nested", "# EOF", "#!/bin/sh", "# a; b && c",
    "#\t tab ", "# done", "# )}", "#;;", "# \\", "#a\r", "# <<EOF"];
const SAFE_COMMENTS: &[&str] = &["#", "# comment", "#x", "# é", "# a b; c", "#!/bin/sh", "# done", "#\ttab"];
const ESCS: &[&str] = &["a", " ", "\\", "'", "\"", "`", "$", "*", "#", ";", "&", "|", "(", ")", "<", ">", "~", "é", "1", "{", "}", "!", "=", ":", "?", "[", "\t", "日", "i"];

pub fn is_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, |c| c == '_' || c.is_alphabetic()) && c.all(|c| c == '_' || c.is_ascii_digit() || c.is_alphabetic())
}
fn name_char(c: char) -> bool { c == '_' || c.is_ascii_digit() || c.is_alphabetic() }

/// Weights, in percent unless noted otherwise.
#[derive(Clone, Debug)]
pub struct Prof {
    pub depth: usize,
    pub budget: i32,
    pub cmds: usize,
    pub andor: usize,
    pub pipe: usize,
    pub bang: usize,
    pub amp: usize,
    pub comp: usize,
    /// relative weights: brace, subshell, loop, if, for, case
    pub kinds: [usize; 6],
    pub func: usize,
    pub words: usize,
    pub redir: usize,
    pub heredoc: usize,
    pub assign: usize,
    pub multi: usize,
    /// relative weights of word parts: literal, escape, glob, single quotes, double quotes, parameter,
    /// ${..}, arithmetic, $( ), backticks
    pub parts: [usize; 10],
    pub kwarg: usize,
    pub io: usize,
}
impl Prof {
    pub fn base() -> Prof {
        Prof {
            depth: 3, budget: 30, cmds: 3, andor: 15, pipe: 15, bang: 8, amp: 15, comp: 25, kinds: [1, 1, 1, 1, 1, 1], func: 4, words: 3, redir: 10,
            heredoc: 12, assign: 10, multi: 25, parts: [40, 6, 6, 6, 8, 8, 6, 3, 4, 4], kwarg: 6, io: 12,
        }
    }
}

pub struct Tg<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Prof,
    pub budget: i32,
    pub depth: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum WC { Arg, First, Val, Target, Pat, Sub, Dup, ForW }

fn weighted(r: &mut Rng, w: &[usize]) -> usize {
    let sum: usize = w.iter().sum();
    if sum == 0 { return 0 }
    let mut n = r.below(sum);
    for (i, x) in w.iter().enumerate() {
        if n < *x { return i }
        n -= x;
    }
    0
}
fn lit(s: impl Into<String>) -> Simple { Simple::Lit(s.into()) }

impl<'a> Tg<'a> {
    pub fn new(r: &'a mut Rng, p: &'a Prof) -> Tg<'a> { Tg { r, p, budget: p.budget, depth: 0 } }
    fn deep(&self) -> bool { self.depth >= self.p.depth || self.budget <= 0 }
    pub fn program(&mut self, max: usize) -> Vec<Cmd> {
        let n = self.r.range(1, max.max(1));
        (0..n).map(|_| self.cmd()).collect()
    }
    pub fn group(&mut self, min: usize) -> Group {
        self.depth += 1;
        let max = if self.budget <= 0 { min.max(1) } else { self.p.cmds.max(min) };
        let n = self.r.range(min, max.max(min));
        let cmds = (0..n).map(|_| self.cmd()).collect();
        self.depth -= 1;
        Group { cmds, trail: vec![] }
    }
    pub fn cmd(&mut self) -> Cmd {
        let list = self.andor();
        let sep = if self.r.pct(self.p.amp) { Sep::Amp } else { Sep::Semi };
        Cmd { pre: vec![], list, sep, post: None }
    }
    pub fn andor(&mut self) -> AndOr {
        let first = self.pipe();
        let mut rest = vec![];
        while self.budget > 0 && rest.len() < 4 && self.r.pct(self.p.andor) {
            let and = self.r.pct(50);
            rest.push((vec![], and, self.pipe()));
        }
        AndOr { first, rest }
    }
    pub fn pipe(&mut self) -> Pipe_ {
        let bang = self.r.pct(self.p.bang);
        let mut cmds = vec![(vec![], self.item())];
        while self.budget > 0 && cmds.len() < 5 && self.r.pct(self.p.pipe) { cmds.push((vec![], self.item())) }
        Pipe_ { bang, cmds }
    }
    pub fn item(&mut self) -> Item {
        self.budget -= 1;
        if !self.deep() && self.r.pct(self.p.func) {
            let name = if self.r.pct(15) { *self.r.pick(&["if", "done", "in", "function", "esac"]) } else { *self.r.pick(NAMES) };
            return Item::Fn(name.into(), vec![], Box::new(self.comp()));
        }
        if !self.deep() && self.r.pct(self.p.comp) { return Item::Comp(Box::new(self.comp())) }
        Item::Simple(self.simple())
    }
    pub fn comp(&mut self) -> Comp {
        self.budget -= 1;
        let kind = match weighted(self.r, &self.p.kinds) {
            0 => CompKind::Brace(self.group(1)),
            1 => CompKind::Sub(self.group(1)),
            2 => CompKind::Loop(self.r.pct(50), self.group(1), self.group(1)),
            3 => {
                let mut conds = vec![(self.group(1), self.group(1))];
                while conds.len() < 4 && self.r.pct(30) { conds.push((self.group(1), self.group(1))) }
                let els = if self.r.pct(40) { Some(self.group(1)) } else { None };
                CompKind::If(IfC { conds, els })
            }
            4 => {
                let var = if self.r.pct(15) { *self.r.pick(&["do", "if", "in", "done"]) } else { *self.r.pick(NAMES) };
                let words = if self.r.pct(75) {
                    let n = self.r.below(4);
                    Some((vec![], (0..n).map(|_| self.word(WC::ForW)).collect(), None))
                } else {
                    None
                };
                CompKind::For(ForC { var: var.into(), var_nl: None, words, pre_body: vec![], body: self.group(1) })
            }
            _ => {
                let word = self.word(WC::Arg);
                let n = self.r.below(4);
                let arms = (0..n)
                    .map(|_| {
                        let k = self.r.range(1, 3);
                        let pats = (0..k).map(|_| self.word(WC::Pat)).collect();
                        Arm { pre: vec![], pats, pat_nl: None, body: self.group(0), end_nl: None }
                    })
                    .collect();
                CompKind::Case(CaseC { word, post_word: vec![], in_nl: None, arms, post_arms: vec![] })
            }
        };
        let mut io = vec![];
        while io.len() < 3 && self.r.pct(self.p.io) { io.push(self.redir()) }
        Comp { kind, io }
    }
    pub fn simple(&mut self) -> SimpleCmd {
        let mut c = SimpleCmd::default();
        loop {
            if c.vars.len() < 3 && self.r.pct(self.p.assign) {
                let name = if self.r.pct(10) { *self.r.pick(&["if", "do", "in", "for"]) } else { *self.r.pick(NAMES) };
                let v = if self.r.pct(20) { None } else { Some(self.word(WC::Val)) };
                c.vars.push(VarOr::Var(name.into(), v));
            } else if c.vars.len() < 3 && self.r.pct(self.p.redir / 2) {
                let r = self.redir();
                c.vars.push(VarOr::Redir(r));
            } else {
                break;
            }
        }
        if !c.vars.is_empty() && self.r.pct(40) { return c }
        let first = if c.vars.is_empty() { WC::First } else { WC::Arg };
        let mut w = self.word(first);
        if !c.vars.is_empty() { fix_assign(&mut w) }
        c.words.push(WordOr::Word(w));
        let n = self.r.below(self.p.words + 1);
        for _ in 0..n {
            if self.r.pct(self.p.redir) {
                let r = self.redir();
                c.words.push(WordOr::Redir(r));
            } else {
                let w = self.word(WC::Arg);
                c.words.push(WordOr::Word(w));
            }
        }
        while c.words.len() < 6 && self.r.pct(self.p.redir) {
            let r = self.redir();
            c.words.push(WordOr::Redir(r));
        }
        c
    }
    pub fn redir(&mut self) -> Redir {
        self.budget -= 1;
        let fd = if self.r.pct(35) { Some(*self.r.pick(&[0u16, 1, 2, 3, 9, 10, 255, 65535])) } else { None };
        if self.r.pct(self.p.heredoc) {
            return Redir { kind: RK::Heredoc, fd, word: self.hd_body() };
        }
        let kind = *self.r.pick(&[RK::Read, RK::Write, RK::ReadWrite, RK::Append, RK::Clobber, RK::DupRead, RK::DupWrite]);
        let c = if kind == RK::DupRead || kind == RK::DupWrite { WC::Dup } else { WC::Target };
        Redir { kind, fd, word: self.word(c) }
    }
    pub fn hd_body(&mut self) -> Word {
        let mut v: Vec<Simple> = vec![];
        match self.r.below(10) {
            0 => return Word(vec![Part::S(lit(""))]),
            1 | 2 => {
                // only representable with a quoted delimiter
                let n = self.r.range(1, 6);
                let mut s = String::new();
                for _ in 0..n { s.push_str(*self.r.pick(RAWHD)) }
                s.push('\n');
                return Word(vec![Part::S(lit(s))]);
            }
            3 => {
                let n = self.r.range(1, 3);
                for _ in 0..n { v.push(lit(*self.r.pick(SAFE))) }
            }
            _ => {
                let n = self.r.range(1, 6);
                for _ in 0..n {
                    let s = self.inner(HD, &["$", "`", "\\", "\n"]);
                    v.push(s);
                }
            }
        }
        if v.last() != Some(&Simple::Esc("\n".into())) || self.r.pct(70) { v.push(lit("\n")) }
        let mut w = Word(v.into_iter().map(Part::S).collect());
        fix_dollars(&mut w);
        w.map(&mut Norm);
        w
    }
    /// part of a double quoted section or heredoc body
    fn inner(&mut self, lits: &[&str], escs: &[&str]) -> Simple {
        match self.r.below(12) {
            0..=5 => lit(*self.r.pick(lits)),
            6 | 7 => Simple::Esc((*self.r.pick(escs)).into()),
            8 | 9 => Simple::Param(self.param()),
            _ => {
                let w = self.p.parts;
                self.subst([w[6].max(1), w[7], w[8], w[9]])
            }
        }
    }
    pub fn param(&mut self) -> Param {
        match self.r.below(12) {
            0 => Param::At, 1 => Param::Star, 2 => Param::Pound, 3 => Param::Question, 4 => Param::Dash, 5 => Param::Dollar, 6 => Param::Bang,
            7 => Param::Num(*self.r.pick(&[0, 1, 2, 9, 10, 11, 42, 100, 4294967295])),
            _ => Param::Var((*self.r.pick(NAMES)).into()),
        }
    }
    /// weights: ${..}, arithmetic, $( ), backticks
    pub fn subst(&mut self, w: [usize; 4]) -> Simple {
        self.budget -= 1;
        let w = if self.deep() { [w[0].max(1), w[1], 0, 0] } else { w };
        let min = if self.r.pct(10) { 0 } else { 1 };
        match weighted(self.r, &w) {
            0 => {
                if self.r.pct(20) { return Simple::Subst(Box::new(Subst::Len(self.param()))) }
                let op = *self.r.pick(&[SubOp::Default, SubOp::Assign, SubOp::Error, SubOp::Alt, SubOp::SmallSuffix, SubOp::LargeSuffix,
                    SubOp::SmallPrefix, SubOp::LargePrefix]);
                let colon = match op {
                    SubOp::Default | SubOp::Assign | SubOp::Error | SubOp::Alt => self.r.pct(50),
                    _ => false,
                };
                let mut param = self.param();
                let mut word = if self.r.pct(30) { None } else { Some(self.subst_word(op)) };
                if param == Param::Pound && word.is_none() {
                    if self.r.pct(50) { param = Param::At } else { word = Some(Word(vec![Part::S(lit("a"))])) }
                }
                Simple::Subst(Box::new(Subst::Op(op, colon, param, word)))
            }
            1 => {
                let a = if self.r.pct(8) { None } else { Some(self.arith(self.p.depth + 1)) };
                Simple::Subst(Box::new(Subst::Arith(a)))
            }
            2 => Simple::Subst(Box::new(Subst::Cmd(self.group(min)))),
            _ => Simple::Tick(self.group(min)),
        }
    }
    fn subst_word(&mut self, op: SubOp) -> Word {
        let mut w = self.word(WC::Sub);
        // would be read as part of the operator
        let bad = match op { SubOp::SmallSuffix | SubOp::LargeSuffix => '%', SubOp::SmallPrefix | SubOp::LargePrefix => '#', _ => return w };
        if let Part::S(Simple::Lit(s)) = &mut w.0[0] {
            if s.starts_with(bad) { s.insert(0, 'w') }
        }
        w
    }
    fn glob(&mut self) -> Simple {
        match self.r.below(6) {
            0 => Simple::Star, 1 => Simple::Question, 2 => Simple::SqOpen, 3 => Simple::SqClose, 4 => Simple::Tilde, _ => Simple::Colon,
        }
    }
    fn pieces(&mut self, t: &[&str], max: usize) -> String {
        let n = self.r.below(max + 1);
        (0..n).map(|_| *self.r.pick(t)).collect()
    }
    fn part(&mut self, c: WC) -> Part {
        let w = self.p.parts;
        match weighted(self.r, &w) {
            0 => Part::S(lit(*self.r.pick(if c == WC::Sub { SUBW } else { LITS }))),
            1 => {
                Part::S(Simple::Esc((*self.r.pick(ESCS)).into()))
            }
            2 => Part::S(self.glob()),
            3 => Part::Sq(self.pieces(SQ, 4)),
            4 => {
                let n = self.r.below(5);
                let mut v: Vec<Simple> = (0..n).map(|_| self.inner(DQ, &["$", "`", "\"", "\\", "\n"])).collect();
                if self.r.pct(5) { v.push(lit("$")) }
                Part::Dq(v)
            }
            5 => Part::S(Simple::Param(self.param())),
            k => {
                let mut q = [0; 4];
                q[k - 6] = 1;
                Part::S(self.subst(q))
            }
        }
    }
    pub fn word(&mut self, c: WC) -> Word {
        let mut w = match c {
            WC::First if self.r.pct(60) => Word(vec![Part::S(lit(*self.r.pick(CMDS)))]),
            WC::First if self.r.pct(self.p.kwarg) => {
                // a reserved word with something quoted, escaped or appended
                let k = *self.r.pick(KWS);
                let n = k.chars().next().unwrap().len_utf8();
                match self.r.below(6) {
                    0 => Word(vec![Part::Sq(k.into())]),
                    1 => Word(vec![Part::Dq(vec![lit(k)])]),
                    2 => {
                        let mut v = vec![Part::S(Simple::Esc(k[..n].into()))];
                        if k.len() > n { v.push(Part::S(lit(&k[n..]))) }
                        Word(v)
                    }
                    3 => Word(vec![Part::S(lit(k)), Part::Sq("".into())]),
                    4 => Word(vec![Part::S(lit(k)), Part::Dq(vec![])]),
                    _ => Word(vec![Part::S(lit(format!("{}x", k)))]),
                }
            }
            WC::Arg | WC::Target | WC::Val | WC::ForW | WC::Pat if self.r.pct(self.p.kwarg) => Word(vec![Part::S(lit(*self.r.pick(KWS)))]),
            WC::Dup => match self.r.below(6) {
                0 | 1 => Word(vec![Part::S(lit("-"))]),
                2 | 3 => Word(vec![Part::S(lit(*self.r.pick(&["0", "1", "2", "10", "99999"])))]),
                4 => Word(vec![Part::S(Simple::Param(self.param()))]),
                _ => match self.r.below(4) {
                    0 => Word(vec![Part::Sq("2".into())]),
                    1 => Word(vec![Part::Dq(vec![lit("1"), Simple::Param(Param::Var("x".into()))])]),
                    2 => Word(vec![Part::S(lit("1")), Part::S(Simple::Esc("0".into()))]),
                    _ => Word(vec![Part::S(self.subst([1, 1, 1, 1]))]),
                },
            },
            _ => {
                let mut n = 1;
                while n < 6 && self.r.pct(self.p.multi) { n += 1 }
                let mut v: Vec<Part> = (0..n).map(|_| self.part(c)).collect();
                if self.r.pct(3) { v.push(Part::S(lit("$"))) }
                Word(v)
            }
        };
        fix_dollars(&mut w);
        w.map(&mut Norm);
        if c != WC::Sub && c != WC::Val {
            if let Part::S(Simple::Lit(s)) = &mut w.0[0] {
                if s.starts_with('#') { s.insert(0, 'h') }
            }
        }
        if c == WC::First { fix_first(&mut w) }
        w
    }
    pub fn arith(&mut self, d: usize) -> Arith {
        self.budget -= 1;
        let var = |r: &mut Rng| -> String { (*r.pick(NAMES)).into() };
        if d == 0 || self.r.pct(20) {
            return match self.r.below(6) {
                0 | 1 => Arith::Var(var(self.r)),
                2 => Arith::Inc(*self.r.pick(&[Inc::PreInc, Inc::PreDec, Inc::PostInc, Inc::PostDec]), var(self.r)),
                _ => Arith::Num(*self.r.pick(&[0, 1, 2, 7, 8, 9, 10, 15, 42, 255, 4096, 123456789, i64::MAX])),
            };
        }
        match self.r.below(20) {
            0..=9 => {
                let op = *self.r.pick(&BINS);
                Arith::Bin(op, Box::new(self.arith(d - 1)), Box::new(self.arith(d - 1)))
            }
            10 | 11 => Arith::Un(*self.r.pick(&[Un::Plus, Un::Minus, Un::Not, Un::BNot]), Box::new(self.arith(d - 1))),
            12 | 13 => Arith::Tern(Box::new(self.arith(d - 1)), Box::new(self.arith(d - 1)), Box::new(self.arith(d - 1))),
            14 | 15 => Arith::Assign(var(self.r), Box::new(self.arith(d - 1))),
            16 => {
                let v = var(self.r);
                let op = *self.r.pick(&COMPOUND);
                Arith::Assign(v.clone(), Box::new(Arith::Bin(op, Box::new(Arith::Var(v)), Box::new(self.arith(d - 1)))))
            }
            17 => {
                let n = self.r.range(2, 4);
                Arith::Seq((0..n).map(|_| self.arith(d - 1)).collect())
            }
            _ => {
                let mut a = self.arith(d - 1);
                let op = *self.r.pick(&BINS);
                for _ in 0..self.r.range(1, 3) {
                    let b = self.arith(d / 2);
                    a = if self.r.pct(50) { Arith::Bin(op, Box::new(a), Box::new(b)) } else { Arith::Bin(op, Box::new(b), Box::new(a)) };
                }
                a
            }
        }
    }
}
pub const BINS: [Bin; 19] = [Bin::Pow, Bin::Mul, Bin::Div, Bin::Mod, Bin::Add, Bin::Sub, Bin::Shl, Bin::Shr, Bin::Lt, Bin::Le, Bin::Gt, Bin::Ge, Bin::Eq,
    Bin::Ne, Bin::BAnd, Bin::BXor, Bin::BOr, Bin::LAnd, Bin::LOr];
pub const COMPOUND: [Bin; 10] = [Bin::Mul, Bin::Div, Bin::Mod, Bin::Add, Bin::Sub, Bin::Shl, Bin::Shr, Bin::BAnd, Bin::BXor, Bin::BOr];

/// a literal `$` must not meet something it would combine with
fn fix_dollars(w: &mut Word) {
    fn ends(s: &Simple) -> bool { if let Simple::Lit(s) = s { s.ends_with('$') } else { false } }
    fn fix(v: &mut Vec<Simple>) {
        let n = v.len();
        for i in 0..n {
            if i + 1 < n && ends(&v[i]) {
                if let Simple::Lit(s) = &mut v[i] { s.push('%') }
            }
        }
    }
    let n = w.0.len();
    for i in 0..n {
        let free = match w.0.get(i + 1) {
            None | Some(Part::Sq(_)) | Some(Part::Dq(_)) | Some(Part::S(Simple::Esc(_))) => true,
            _ => false,
        };
        match &mut w.0[i] {
            Part::S(Simple::Lit(s)) if s.ends_with('$') && !free => s.push('%'),
            Part::Dq(v) => fix(v),
            _ => {}
        }
    }
}
fn fix_assign(w: &mut Word) {
    if let Part::S(Simple::Lit(s)) = &mut w.0[0] {
        if let Some(i) = s.find('=') {
            if is_name(&s[..i]) { *s = s.replacen('=', "-", 1) }
        }
    }
}
fn fix_first(w: &mut Word) {
    fix_assign(w);
    let single = w.0.len() == 1;
    if let Part::S(Simple::Lit(s)) = &mut w.0[0] {
        if s.starts_with('#') { s.insert(0, 'c') }
        if single && KWS.contains(&&s[..]) && s != "in" { s.push('x') }
    }
}

// ---------------------------------------------------------------------------------------------------
/// Layout choices, in percent.
#[derive(Clone, Debug)]
pub struct Lay {
    /// optional blanks are written
    pub opt: usize,
    /// unusual blanks
    pub odd: usize,
    pub escnl: usize,
    /// a newline (rather than `;`) where both are possible, and extra blank lines
    pub nl: usize,
    pub comment: usize,
    /// optional syntax toggled
    pub alt: usize,
    pub parens: usize,
}
impl Lay {
    pub fn base() -> Lay { Lay { opt: 50, odd: 10, escnl: 6, nl: 30, comment: 12, alt: 50, parens: 10 } }
    pub fn plain() -> Lay { Lay { opt: 50, odd: 0, escnl: 0, nl: 15, comment: 0, alt: 0, parens: 0 } }
    pub fn random(r: &mut Rng) -> Lay {
        if r.pct(40) { return Lay::base() }
        let z = |r: &mut Rng, m: usize| if r.pct(40) { 0 } else { r.below(m) };
        Lay { opt: r.below(101), odd: z(r, 40), escnl: z(r, 25), nl: r.below(90), comment: z(r, 40), alt: r.below(101), parens: z(r, 30) }
    }
}
#[derive(Clone, Debug)]
struct Pend { delim: String, body: String, tabs: bool, opened: usize }
#[derive(Clone, Copy, PartialEq)]
enum Close { Kw, Paren, DSemi, LastArm, Eof, Tick }

pub struct Rd<'a> {
    pub r: &'a mut Rng,
    pub lay: &'a Lay,
    pub out: String,
    pend: Vec<Pend>,
    ticks: usize,
    /// pending heredocs may not be left pending when a group is closed
    strict: usize,

    nest: usize,
    /// [from, to): cutting the text at such an offset leaves something open
    pub open: Vec<(usize, usize)>,
    /// (start of the last delimiter line, end of text) of a heredoc body
    last_flush: Option<(usize, usize)>,
}

impl<'a> Rd<'a> {
    pub fn new(r: &'a mut Rng, lay: &'a Lay) -> Rd<'a> {
        Rd { r, lay, out: String::new(), pend: vec![], ticks: 0, strict: 0, nest: 0, open: vec![], last_flush: None }
    }
    fn p(&mut self, s: &str) { self.out.push_str(s) }
    fn mark(&mut self, from: usize, to: usize) { if self.nest == 0 && from < to { self.open.push((from, to)) } }
    fn open_g(&mut self) { for p in &mut self.pend { p.opened += 1 } }
    fn close_g(&mut self) { for p in &mut self.pend { p.opened = p.opened.saturating_sub(1) } }
    fn tight(&self) -> bool { self.ticks > 0 || self.pend.iter().any(|p| p.opened > 0) }

    // ---- layout ----
    fn ws(&mut self) {
        if self.lay.escnl > 0 && self.r.pct(self.lay.escnl / 2 + 1) { self.p("\\\n") }
        if self.r.pct(self.lay.odd) {
            let n = self.r.range(1, 3);
            for _ in 0..n {
                let b = *self.r.pick(&["\t", " ", "\r", "\u{a0}", "\u{b}", "\u{2003}", "\t\t"]);
                self.p(b);
            }
        } else {
            self.p(" ");
        }
        while self.r.pct(self.lay.escnl) {
            self.p("\\\n");
            if self.r.pct(50) { self.p(" ") }
        }
    }
    fn ows(&mut self) {
        if self.r.pct(self.lay.opt) {
            self.ws()
        } else if self.lay.escnl > 0 && self.r.pct(self.lay.escnl / 4 + 1) {
            self.p("\\\n")
        }
    }
    fn comment(&mut self) -> String {
        let t = if self.tight() { SAFE_COMMENTS } else { COMMENTS };
        (*self.r.pick(t)).to_string()
    }
    /// the newline character, followed by the bodies of the heredocs which wait for it
    fn newline_char(&mut self) {
        self.p("\n");
        let all = std::mem::take(&mut self.pend);
        let (now, later): (Vec<_>, Vec<_>) = all.into_iter().partition(|p| p.opened == 0);
        self.pend = later;
        for h in now {
            let body = h.body;
            for l in body.split_inclusive('\n') {
                if h.tabs { let n = self.r.below(3); self.p(&"\t\t"[..n]) }
                self.p(l);
            }
            let at = self.out.len();
            if h.tabs { let n = self.r.below(3); self.p(&"\t\t"[..n]) }
            let d = h.delim;
            self.p(&d);
            if self.r.pct(2) { self.p("\r") }
            self.p("\n");
            if self.nest == 0 { self.last_flush = Some((at, self.out.len())) }
        }
    }
    fn one_nl(&mut self) -> Nl {
        let n = if self.r.pct(self.lay.comment) {
            // a comment starts only where a word may start
            if !self.out.is_empty() && !self.out.ends_with('\n') { self.ws() } else { self.ows() }
            let c = self.comment();
            self.p(&c);
            Some(c)
        } else {
            if self.r.pct(20) { self.ows() }
            None
        };
        self.newline_char();
        n
    }
    /// any number of newlines and comments
    fn nls(&mut self) -> Vec<Nl> {
        let mut v = vec![];
        while v.len() < 4 && self.r.pct(self.lay.nl / 2) { v.push(self.one_nl()) }
        if !v.is_empty() { self.ows() }
        v
    }
    fn maybe_nl(&mut self) -> Option<Nl> {
        if self.r.pct(self.lay.nl / 2) { Some(self.one_nl()) } else { None }
    }

    // ---- commands ----
    pub fn program(&mut self, cmds: &mut Vec<Cmd>) -> Vec<Nl> {
        let mut g = Group { cmds: std::mem::take(cmds), trail: vec![] };
        self.group(&mut g, Close::Eof);
        *cmds = g.cmds;
        // the end of the last heredoc may be the end of input
        if let Some((at, end)) = self.last_flush {
            if end == self.out.len() && g.trail.is_empty() {
                match self.r.below(8) {
                    0 => { self.out.truncate(at); }
                    1 => { self.out.truncate(end - 1); }
                    _ => {}
                }
                let n = self.out.len();
                for o in &mut self.open { o.1 = o.1.min(n + 1) }
            }
        }
        g.trail
    }
    fn group(&mut self, g: &mut Group, close: Close) {
        let n = g.cmds.len();
        let outer = self.pend.len();
        let mut at_line = true;
        for i in 0..n {
            let last = i + 1 == n;
            g.cmds[i].pre = if at_line { self.nls() } else { vec![] };
            if i > 0 { self.ows() }
            self.andor(&mut g.cmds[i].list);
            let force = last && self.pend.len() > outer && match close {
                Close::Eof | Close::Tick => true,
                _ => self.strict > 0 || self.ticks > 0 || self.r.pct(70),
            };
            let c = &mut g.cmds[i];
            let other_ok = last && match close { Close::Kw | Close::LastArm => false, _ => true };
            c.post = None;
            if c.sep == Sep::Amp {
                self.ows();
                self.p("&");
                c.post = if force || self.r.pct(self.lay.nl) { Some(self.one_nl()) } else { None };
            } else if other_ok && !force && self.r.pct(50) {
                c.sep = Sep::Other;
                if self.r.pct(20) { self.ows() }
            } else if self.r.pct(self.lay.nl) {
                c.sep = Sep::Newline;
                c.post = Some(self.one_nl());
            } else {
                c.sep = Sep::Semi;
                self.ows();
                self.p(";");
                c.post = if force || self.r.pct(self.lay.nl / 2) { Some(self.one_nl()) } else { None };
            }
            at_line = c.post.is_some();
        }
        g.trail = if at_line { self.nls() } else { vec![] };
        if n == 0 && self.pend.len() > outer { unreachable!() }
    }
    fn andor(&mut self, a: &mut AndOr) {
        self.pipe(&mut a.first);
        for (nl, and, p) in &mut a.rest {
            self.ows();
            self.p(if *and { "&&" } else { "||" });
            let from = self.out.len();
            self.ows();
            *nl = self.nls();
            let to = self.out.len();
            self.mark(from, to + 1);
            self.pipe(p);
        }
    }
    fn pipe(&mut self, p: &mut Pipe_) {
        if p.bang {
            self.p("!");
            let from = self.out.len();
            match p.cmds[0].1 {
                Item::Comp(ref c) => match c.kind { CompKind::Sub(_) if self.r.pct(30) => {} _ => self.ws() },
                _ => self.ws(),
            }
            let to = self.out.len();
            self.mark(from, to + 1);
        }
        let n = p.cmds.len();
        for i in 0..n {
            self.item(&mut p.cmds[i].1);
            p.cmds[i].0.clear();
            if i + 1 < n {
                self.ows();
                self.p("|");
                let from = self.out.len();
                self.ows();
                p.cmds[i].0 = self.nls();
                let to = self.out.len();
                self.mark(from, to + 1);
            }
        }
    }
    fn item(&mut self, i: &mut Item) {
        match i {
            Item::Simple(s) => self.simple(s),
            Item::Comp(c) => self.comp(c),
            Item::Fn(name, nls, c) => self.func(name, nls, c),
        }
    }
    fn func(&mut self, name: &str, nls: &mut Vec<Nl>, c: &mut Comp) {
        nls.clear();
        let reserved = KWS.contains(&name) && name != "in";
        let kw = reserved || self.r.pct(self.lay.alt / 2);
        let from;
        if kw {
            self.p("function");
            from = self.out.len();
            self.ws();
            self.p(name);
            if self.r.pct(50) {
                // no parentheses
                if let CompKind::Sub(g) = &mut c.kind {
                    self.ws();
                    let to = self.out.len();
                    self.mark(from, to + 1);
                    self.paren_group(g);
                    self.io(&mut c.io);
                    return;
                }
                if self.r.pct(30) {
                    self.newline_char();
                    nls.push(None);
                    nls.extend(self.nls());
                } else {
                    self.ws();
                    *nls = self.nls();
                }
                let to = self.out.len();
                self.mark(from, to + 1);
                self.comp(c);
                return;
            }
            if self.r.pct(50) { self.ws() }
            self.p("(");
        } else {
            self.p(name);
            if self.r.pct(30) { self.ws() }
            self.p("(");
            from = self.out.len();
        }
        self.open_g();
        if self.r.pct(15) { self.ws() }
        self.p(")");
        self.close_g();
        self.ows();
        *nls = self.nls();
        let to = self.out.len();
        self.mark(from, to + 1);
        self.comp(c);
    }
    fn paren_group(&mut self, g: &mut Group) {
        self.p("(");
        let from = self.out.len();
        self.open_g();
        // `((` may not be written where it would start an arithmetic substitution
        self.group_in_parens(g);
        self.p(")");
        self.close_g();
        let to = self.out.len();
        self.mark(from, to);
    }
    fn group_in_parens(&mut self, g: &mut Group) {
        self.ows();
        self.group(g, Close::Paren);
        self.ows();
    }
    fn body(&mut self, g: &mut Group, close: Close) {
        self.ws();
        self.group(g, close);
        self.ows();
    }
    fn comp(&mut self, c: &mut Comp) {
        let from;
        match &mut c.kind {
            CompKind::Sub(g) => {
                from = self.out.len();
                self.paren_group(g);
            }
            CompKind::Brace(g) => {
                self.p("{");
                from = self.out.len();
                self.body(g, Close::Kw);
                self.p("}");
            }
            CompKind::Loop(until, g, b) => {
                self.p(if *until { "until" } else { "while" });
                from = self.out.len();
                self.body(g, Close::Kw);
                self.do_group(b);
            }
            CompKind::If(i) => {
                from = self.out.len() + 2;
                for (k, (g, b)) in i.conds.iter_mut().enumerate() {
                    self.p(if k == 0 { "if" } else { "elif" });
                    self.body(g, Close::Kw);
                    self.p("then");
                    self.body(b, Close::Kw);
                }
                if let Some(e) = &mut i.els {
                    self.p("else");
                    self.body(e, Close::Kw);
                }
                self.p("fi");
            }
            CompKind::For(f) => {
                self.p("for");
                from = self.out.len();
                self.for_cmd(f);
            }
            CompKind::Case(k) => {
                self.p("case");
                from = self.out.len();
                self.case_cmd(k);
            }
        }
        let to = self.out.len();
        self.mark(from, to);
        self.io(&mut c.io);
    }
    fn io(&mut self, v: &mut Vec<Redir>) {
        for r in v {
            if r.fd.is_some() || !self.r.pct(30) { self.ws() }
            self.redir(r);
        }
    }
    fn do_group(&mut self, b: &mut Group) {
        self.p("do");
        self.body(b, Close::Kw);
        self.p("done");
    }
    fn for_cmd(&mut self, f: &mut ForC) {
        self.ws();
        let v = f.var.clone();
        self.p(&v);
        f.pre_body.clear();
        f.var_nl = None;
        let outer = self.pend.len();
        let mut post_var = vec![];
        self.ws();
        if self.r.pct(self.lay.nl / 2) {
            f.var_nl = Some(self.one_nl());
            post_var = self.nls();
            self.ows();
        }
        if let Some((n, ws, end)) = &mut f.words {
            *n = post_var;
            self.p("in");
            for w in ws.iter_mut() {
                self.ws();
                self.word(w, WC::ForW);
            }
            *end = None;
            let semi = self.r.pct(60);
            if semi {
                self.ows();
                self.p(";");
            }
            if !semi || self.pend.len() > outer && self.r.pct(50) || self.r.pct(self.lay.nl / 2) { *end = Some(self.one_nl()) }
            // without a newline, further newlines would be the one after the words
            if end.is_some() { f.pre_body = self.nls() }
            self.ows();
        } else {
            if self.r.pct(50) {
                self.p(";");
                self.ows();
                f.pre_body = post_var;
                let more = self.nls();
                f.pre_body.extend(more);
                self.ows();
            } else {
                f.pre_body = post_var;
            }
        }
        self.do_group(&mut f.body);
    }
    fn case_cmd(&mut self, c: &mut CaseC) {
        self.ws();
        self.word(&mut c.word, WC::Arg);
        self.ws();
        c.post_word = self.nls();
        self.p("in");
        c.in_nl = self.maybe_nl();
        let n = c.arms.len();
        c.post_arms.clear();
        if c.in_nl.is_none() { self.ws() }
        for i in 0..n {
            let after_nl = if i == 0 { c.in_nl.is_some() } else { c.arms[i - 1].end_nl.is_some() };
            let a = &mut c.arms[i];
            a.pre = if after_nl { self.nls() } else { vec![] };
            self.ows();
            let must = self.tight() || !self.pend.is_empty() || match &a.pats[0].0[..] {
                [Part::S(Simple::Lit(s))] => s == "esac",
                _ => false,
            };
            let paren = must || self.r.pct(self.lay.alt / 2);
            if paren {
                self.p("(");
                self.open_g();
                self.ows();
            }
            for (k, w) in a.pats.iter_mut().enumerate() {
                if k > 0 {
                    self.ows();
                    self.p("|");
                    self.ows();
                }
                self.word(w, WC::Pat);
            }
            self.ows();
            // a substitution among the patterns may have left a heredoc pending: its line must be balanced
            self.p(")");
            if paren { self.close_g() }
            a.pat_nl = self.maybe_nl();
            self.ows();
            let drop_last = i + 1 == n && self.r.pct(self.lay.alt / 2);
            if a.pat_nl.is_none() && a.body.cmds.is_empty() {
                // newlines here would be the pattern's
                a.body.trail.clear();
            } else if a.pat_nl.is_none() {
                // likewise the ones before the first command
                let save = self.lay;
                let none = Lay { nl: 0, ..save.clone() };
                self.arm_body(a, &none, drop_last);
            } else {
                self.group(&mut a.body, if drop_last { Close::LastArm } else { Close::DSemi });
            }
            a.end_nl = None;
            if drop_last {
                self.ws();
            } else {
                if self.out.ends_with(';') || self.out.ends_with('&') { self.ws() } else { self.ows() }
                self.p(";;");
                a.end_nl = self.maybe_nl();
            }
        }
        let after_nl = if n == 0 { c.in_nl.is_some() } else { c.arms[n - 1].end_nl.is_some() };
        if after_nl { c.post_arms = self.nls() }
        self.ows();
        self.p("esac");
    }
    /// the body of an arm on the line of its pattern: no newline may come before the first command
    fn arm_body(&mut self, a: &mut Arm, none: &Lay, drop_last: bool) {
        let close = if drop_last { Close::LastArm } else { Close::DSemi };
        let mut first = Group { cmds: vec![a.body.cmds.remove(0)], trail: vec![] };
        let alone = a.body.cmds.is_empty();
        // render the first command without leading newlines
        {
            let c = &mut first.cmds[0];
            c.pre = vec![];
            self.andor(&mut c.list);
            c.post = None;
            let _ = none;
            let can_other = alone && !drop_last;
            if c.sep == Sep::Amp {
                self.ows();
                self.p("&");
                c.post = if self.r.pct(self.lay.nl) { Some(self.one_nl()) } else { None };
            } else if can_other && self.r.pct(50) {
                c.sep = Sep::Other;
            } else if self.r.pct(self.lay.nl) {
                c.sep = Sep::Newline;
                c.post = Some(self.one_nl());
            } else {
                c.sep = Sep::Semi;
                self.ows();
                self.p(";");
                c.post = if self.r.pct(self.lay.nl / 2) { Some(self.one_nl()) } else { None };
            }
        }
        let nl = first.cmds[0].post.is_some();
        if alone {
            first.trail = if nl { self.nls() } else { vec![] };
            a.body = first;
        } else {
            self.ows();
            let mut rest = Group { cmds: std::mem::take(&mut a.body.cmds), trail: vec![] };
            if nl {
                self.group(&mut rest, close);
            } else {
                // same line: recurse
                let mut b = Arm { pre: vec![], pats: vec![], pat_nl: None, body: rest, end_nl: None };
                self.arm_body(&mut b, none, drop_last);
                rest = b.body;
            }
            first.cmds.extend(rest.cmds);
            first.trail = rest.trail;
            a.body = first;
        }
    }
    fn simple(&mut self, c: &mut SimpleCmd) {
        let mut first = true;
        // text of the previous word, if a redirection may follow it directly
        let mut glue = false;
        for v in &mut c.vars {
            match v {
                VarOr::Redir(r) => {
                    self.sep(first, glue && r.fd.is_none());
                    self.redir(r);
                    glue = true;
                }
                VarOr::Var(n, w) => {
                    self.sep(first, false);
                    let n = n.clone();
                    self.p(&n);
                    self.p("=");
                    if let Some(w) = w { self.word(w, WC::Val) }
                    glue = w.is_some();
                }
            }
            first = false;
        }
        for v in &mut c.words {
            match v {
                WordOr::Redir(r) => {
                    self.sep(first, glue && r.fd.is_none());
                    self.redir(r);
                    glue = true;
                }
                WordOr::Word(w) => {
                    self.sep(first, false);
                    self.word(w, WC::Arg);
                    glue = w.0.iter().any(|p| match p {
                        Part::S(Simple::Lit(s)) => !s.bytes().all(|b| b.is_ascii_digit()) || s.parse::<u16>().is_err(),
                        _ => true,
                    });
                }
            }
            first = false;
        }
    }
    fn sep(&mut self, first: bool, glue: bool) {
        if first || glue && self.r.pct(40) { return }
        self.ws();
    }
    fn redir(&mut self, r: &mut Redir) {
        if let Some(fd) = r.fd {
            if self.r.pct(10) { self.p("0") }
            self.p(&fd.to_string());
        }
        if r.kind == RK::Heredoc { return self.heredoc(r) }
        self.p(match r.kind {
            RK::Read => "<", RK::Write => ">", RK::ReadWrite => "<>", RK::Append => ">>", RK::Clobber => ">|", RK::DupRead => "<&",
            RK::DupWrite => ">&", RK::Heredoc => unreachable!(),
        });
        let from = self.out.len();
        self.ows();
        let to = self.out.len();
        self.mark(from, to + 1);
        self.word(&mut r.word, WC::Target);
    }
    fn heredoc(&mut self, r: &mut Redir) {
        // the text of the body
        let raw = match &r.word.0[..] { [Part::S(Simple::Lit(s))] => Some(s.clone()), _ => None };
        let tight = self.tight() || self.ticks > 0;
        let mut body;
        let mut quoted = false;
        let special = |s: &str| s.contains(|c| c == '$' || c == '`' || c == '\\');
        if tight || self.nest > 3 {
            // bodies here have to be balanced
            let safe = match &raw {
                Some(s) if s.chars().all(|c| c == '\n' || c == ' ' || c.is_alphanumeric()) => s.clone(),
                _ => {
                    let n = self.r.below(4);
                    (0..n).map(|_| format!("{}\n", self.r.pick(SAFE))).collect()
                }
            };
            r.word = Word(vec![Part::S(Simple::Lit(safe.clone()))]);
            body = safe;
            quoted = self.r.pct(50);
        } else if let Some(s) = &raw {
            if special(s) && !lit_ok_unquoted(s) || self.r.pct(50) {
                quoted = true;
                body = s.clone();
            } else {
                body = s.clone();
            }
        } else {
            let saved = (std::mem::take(&mut self.out), std::mem::take(&mut self.pend));
            self.nest += 1;
            self.strict += 1;
            for i in 0..r.word.0.len() {
                let next = r.word.0.get(i + 1).cloned();
                if let Part::S(s) = &mut r.word.0[i] {
                    let next = match next { Some(Part::S(Simple::Lit(s))) => Some(s), _ => None };
                    self.inner(s, next.as_deref());
                }
            }
            self.strict -= 1;
            self.nest -= 1;
            body = std::mem::replace(&mut self.out, saved.0);
            self.pend = saved.1;
        }
        if !body.is_empty() && !body.ends_with('\n') { body.push('\n') }
        let mut tabs = self.r.pct(40) && !body.split('\n').any(|l| l.starts_with('\t'));
        if tabs && self.ticks > 0 { tabs = true }
        let mut k = self.r.below(8);
        let delim = loop {
            let d = ["EOF", "E", "end-1", "_X", "éof", "EOFEOF", "E.O", "Zz9_Zz"][k % 8];
            if !body.split('\n').any(|l| l.strip_suffix('\r').unwrap_or(l).trim_start_matches('\t') == d) { break d.to_string() }
            k += 1;
            if k > 20 { break "Unlikely_Delimiter".to_string() }
        };
        self.p(if tabs { "<<-" } else { "<<" });
        let from = self.out.len();
        self.ows();
        let to = self.out.len();
        self.mark(from, to + 1);
        let at = self.out.len();
        if quoted {
            let n = delim.chars().next().unwrap().len_utf8();
            let t = match self.r.below(6) {
                0 => format!("'{}'", delim),
                1 => format!("\"{}\"", delim),
                2 => format!("\\{}", delim),
                3 => format!("{}'{}'", &delim[..n], &delim[n..]),
                4 => format!("{}\"{}\"", &delim[..n], &delim[n..]),
                _ => format!("{}''", delim),
            };
            self.p(&t);
            if t.starts_with('\'') || t.starts_with('"') {
                let end = self.out.len();
                self.mark(at + 1, end);
            }
        } else {
            self.p(&delim);
        }
        self.pend.push(Pend { delim, body, tabs, opened: 0 });
    }

    // ---- words ----
    pub fn word(&mut self, w: &mut Word, c: WC) {
        let n = w.0.len();
        for i in 0..n {
            let next = match w.0.get(i + 1) { Some(Part::S(Simple::Lit(s))) => Some(s.clone()), _ => None };
            match &mut w.0[i] {
                Part::S(s) => self.part(s, next.as_deref(), c),
                Part::Sq(s) => {
                    let s = s.clone();
                    self.p("'");
                    let from = self.out.len();
                    self.p(&s);
                    self.p("'");
                    let to = self.out.len();
                    self.mark(from, to);
                }
                Part::Dq(v) => {
                    self.p("\"");
                    let from = self.out.len();
                    self.open_g();
                    self.strict += 1;
                    for j in 0..v.len() {
                        let next = match v.get(j + 1) { Some(Simple::Lit(s)) => Some(s.clone()), _ => None };
                        self.inner(&mut v[j], next.as_deref());
                    }
                    self.strict -= 1;
                    self.close_g();
                    self.p("\"");
                    let to = self.out.len();
                    self.mark(from, to);
                }
            }
        }
    }
    fn part(&mut self, s: &mut Simple, next: Option<&str>, c: WC) {
        match s {
            Simple::Lit(t) => {
                // `}` ends a substitution: it cannot be a bare literal there
                let t = t.clone();
                debug_assert!(c != WC::Sub || !t.contains('}'));
                self.p(&t);
            }
            Simple::Esc(t) => {
                let t = t.clone();
                self.p("\\");
                self.p(&t);
            }
            Simple::Star => self.p("*"),
            Simple::Question => self.p("?"),
            Simple::SqOpen => self.p("["),
            Simple::SqClose => self.p("]"),
            Simple::Tilde => self.p("~"),
            Simple::Colon => self.p(":"),
            _ => self.inner(s, next),
        }
    }
    fn inner(&mut self, s: &mut Simple, next: Option<&str>) {
        match s {
            Simple::Lit(t) => { let t = t.clone(); self.p(&t) }
            Simple::Esc(t) => { let t = t.clone(); self.p("\\"); self.p(&t) }
            Simple::Param(p) => {
                let p = p.clone();
                self.param(&p, next);
            }
            Simple::Subst(b) => self.subst(b),
            Simple::Tick(g) => self.tick(g),
            _ => unreachable!("glob in a quoted context"),
        }
    }
    fn param(&mut self, p: &Param, next: Option<&str>) {
        let t = param_name(p);
        let need = match p {
            Param::Var(_) => next.map_or(false, |n| n.starts_with(name_char)),
            Param::Num(n) => *n > 9,
            _ => false,
        };
        if need || self.r.pct(self.lay.alt / 2) {
            self.p("${");
            let from = self.out.len();
            if let Param::Num(_) = p { if self.r.pct(10) { self.p("00") } }
            self.p(&t);
            self.p("}");
            let to = self.out.len();
            self.mark(from, to);
        } else {
            self.p("$");
            self.p(&t);
        }
    }
    fn subst(&mut self, s: &mut Subst) {
        match s {
            Subst::Cmd(g) => {
                self.p("$(");
                let from = self.out.len();
                self.open_g();
                // `$((` would start an arithmetic substitution
                let at = self.out.len();
                let snapshot = self.out.len();
                let _ = snapshot;
                if starts_with_paren(g) { self.ws() }
                self.group_in_parens(g);
                debug_assert!(!self.out[at..].starts_with('('));
                self.p(")");
                self.close_g();
                let to = self.out.len();
                self.mark(from, to);
            }
            Subst::Arith(a) => {
                self.p("$((");
                let from = self.out.len();
                self.ows();
                if let Some(a) = a {
                    self.arith(a, 0);
                    self.ows();
                }
                self.p("))");
                let to = self.out.len();
                self.mark(from, to);
            }
            Subst::Len(p) => {
                self.p("${#");
                let from = self.out.len();
                let t = param_name(p);
                self.p(&t);
                self.p("}");
                let to = self.out.len();
                self.mark(from, to);
            }
            Subst::Op(op, colon, p, w) => {
                self.p("${");
                let from = self.out.len();
                self.open_g();
                let t = param_name(p);
                self.p(&t);
                if *colon { self.p(":") }
                self.p(match op {
                    SubOp::Default => "-", SubOp::Assign => "=", SubOp::Error => "?", SubOp::Alt => "+", SubOp::SmallSuffix => "%",
                    SubOp::LargeSuffix => "%%", SubOp::SmallPrefix => "#", SubOp::LargePrefix => "##",
                });
                self.strict += 1;
                if let Some(w) = w { self.word(w, WC::Sub) }
                self.strict -= 1;
                self.p("}");
                self.close_g();
                let to = self.out.len();
                self.mark(from, to);
            }
        }
    }
    fn tick(&mut self, g: &mut Group) {
        self.p("`");
        let from = self.out.len();
        self.open_g();
        let saved = std::mem::take(&mut self.out);
        self.nest += 1;
        self.ticks += 1;
        self.ows();
        self.group(g, Close::Tick);
        self.ticks -= 1;
        self.nest -= 1;
        let body = std::mem::replace(&mut self.out, saved);
        let t = tick_escape(&body, self.r);
        self.p(&t);
        self.close_g();
        self.p("`");
        let to = self.out.len();
        self.mark(from, to);
    }

    // ---- arithmetic ----
    fn arith(&mut self, a: &Arith, min: u8) {
        let l = level(a);
        let parens = l < min || self.r.pct(self.lay.parens);
        if parens {
            self.p("(");
            self.ows();
            self.arith(a, 0);
            self.ows();
            return self.p(")");
        }
        match a {
            Arith::Var(v) => self.avar(v),
            Arith::Num(n) => self.num(*n),
            Arith::Inc(k, v) => match k {
                Inc::PreInc | Inc::PreDec => {
                    self.p(if *k == Inc::PreInc { "++" } else { "--" });
                    self.ows();
                    self.avar(v);
                }
                _ => {
                    self.avar(v);
                    self.ows();
                    self.p(if *k == Inc::PostInc { "++" } else { "--" });
                }
            },
            Arith::Un(u, x) => {
                let t = match u { Un::Plus => "+", Un::Minus => "-", Un::Not => "!", Un::BNot => "~" };
                self.p(t);
                let at = self.out.len();
                self.ows();
                let here = self.out.len();
                self.arith(x, 14);
                // `- -x` is not `--x`
                if at == here && self.out[at..].starts_with(t) && (t == "+" || t == "-") { self.out.insert(at, ' ') }
                // `! =`
                else if at == here && self.out[at..].starts_with('=') { self.out.insert(at, ' ') }
            }
            Arith::Bin(op, x, y) => {
                let (lx, ly) = match op { Bin::Pow => (14, 13), _ => (l, l + 1) };
                self.arith(x, lx);
                self.ows();
                self.binop(*op, y, ly);
            }
            Arith::Tern(c, x, y) => {
                self.arith(c, 3);
                self.ows();
                self.p("?");
                self.ows();
                self.arith(x, 1);
                self.ows();
                self.p(":");
                self.ows();
                self.arith(y, 2);
            }
            Arith::Assign(v, x) => {
                self.avar(v);
                self.ows();
                if let Arith::Bin(op, l, r) = &**x {
                    if **l == Arith::Var(v.clone()) && COMPOUND.contains(op) && self.r.pct(60) {
                        self.p(bin_text(*op));
                        self.p("=");
                        self.ows();
                        return self.arith(r, 1);
                    }
                }
                self.p("=");
                self.ows();
                self.arith(x, 1);
            }
            Arith::Seq(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.ows();
                        self.p(",");
                        self.ows();
                    }
                    self.arith(x, 1);
                }
            }
        }
    }
    fn binop(&mut self, op: Bin, y: &Arith, min: u8) {
        // an operator must not merge with what precedes it
        let t = bin_text(op);
        if (t.starts_with('+') && self.out.ends_with('+')) || (t.starts_with('-') && self.out.ends_with('-')) { self.p(" ") }
        self.p(t);
        let at = self.out.len();
        self.ows();
        let here = self.out.len();
        self.arith(y, min);
        if at == here {
            let clash = match self.out[at..].chars().next() {
                Some('+') => t.ends_with('+'),
                Some('-') => t.ends_with('-'),
                _ => false,
            };
            if clash { self.out.insert(at, ' ') }
        }
    }
    fn avar(&mut self, v: &str) {
        if self.r.pct(self.lay.alt / 2) { self.p("$") }
        self.p(v);
    }
    fn num(&mut self, n: i64) {
        let t = match self.r.below(if self.lay.alt > 0 { 6 } else { 1 }) {
            1 => format!("0x{:x}", n),
            2 => format!("0X{:X}", n),
            3 => format!("0{:o}", n),
            4 => format!("0x00{:x}", n),
            _ => format!("{}", n),
        };
        self.p(&t);
    }
}
fn starts_with_paren(g: &Group) -> bool {
    match g.cmds.first().map(|c| (c.list.first.bang, &c.list.first.cmds[0].1)) {
        Some((false, Item::Comp(c))) => match c.kind { CompKind::Sub(_) => true, _ => false },
        _ => false,
    }
}
/// whether a literal is read unchanged from a heredoc with an unquoted delimiter
fn lit_ok_unquoted(s: &str) -> bool {
    let mut p = crate::parse::P::of_str(&format!("<<Unlikely\n{}Unlikely", s));
    match p.heredoc(None) { Ok(r) => normed(r.word).0 == vec![Part::S(Simple::Lit(s.into()))], Err(_) => false }
}
pub fn param_name(p: &Param) -> String {
    match p {
        Param::At => "@".into(), Param::Star => "*".into(), Param::Pound => "#".into(), Param::Question => "?".into(), Param::Dash => "-".into(),
        Param::Dollar => "$".into(), Param::Bang => "!".into(), Param::Num(n) => n.to_string(), Param::Var(v) => v.clone(),
    }
}
fn bin_text(op: Bin) -> &'static str {
    match op {
        Bin::Pow => "**", Bin::Mul => "*", Bin::Div => "/", Bin::Mod => "%", Bin::Add => "+", Bin::Sub => "-", Bin::Shl => "<<", Bin::Shr => ">>",
        Bin::Lt => "<", Bin::Le => "<=", Bin::Gt => ">", Bin::Ge => ">=", Bin::Eq => "==", Bin::Ne => "!=", Bin::BAnd => "&", Bin::BXor => "^",
        Bin::BOr => "|", Bin::LAnd => "&&", Bin::LOr => "||",
    }
}
fn level(a: &Arith) -> u8 {
    match a {
        Arith::Seq(_) => 0, Arith::Assign(..) => 1, Arith::Tern(..) => 2,
        Arith::Bin(op, ..) => match op {
            Bin::LOr => 3, Bin::LAnd => 4, Bin::BOr => 5, Bin::BXor => 6, Bin::BAnd => 7, Bin::Eq | Bin::Ne => 8,
            Bin::Lt | Bin::Le | Bin::Gt | Bin::Ge => 9, Bin::Shl | Bin::Shr => 10, Bin::Add | Bin::Sub => 11,
            Bin::Mul | Bin::Div | Bin::Mod => 12, Bin::Pow => 13,
        },
        Arith::Un(..) => 14,
        // `++x` may not be the operand of a unary operator... it may: `-++x`
        Arith::Inc(..) => 14,
        _ => 15,
    }
}
/// escapes a text for use between backticks
pub fn tick_escape(body: &str, r: &mut Rng) -> String {
    let mut out = String::with_capacity(body.len() + 8);
    let mut slashes = 0;
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                // the second backslash of a pair is doubled as well, so that what follows stays unescaped
                match it.peek() { Some('\\') | Some('$') | Some('`') | None => out.push_str("\\\\"), _ if slashes % 2 == 1 => out.push_str("\\\\"), _ => out.push('\\') }
                slashes += 1;
                continue;
            }
            '`' => out.push_str("\\`"),
            '$' => {
                // an escaped `$` does not hide the quotes within `${..}` or `$(..)` from the search for the closing backtick
                let plain = it.peek() == Some(&'{') || it.peek() == Some(&'(');
                if slashes % 2 == 1 || (!plain && r.pct(50)) { out.push('\\') }
                out.push('$');
            }
            c => out.push(c),
        }
        slashes = 0;
    }
    out
}

// ---- complete cases ------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Case {
    pub text: String,
    /// what the text must parse to
    pub cmds: Vec<Cmd>,
    /// comments and blank lines after the last command
    pub trail: Vec<Nl>,
    pub open: Vec<(usize, usize)>,
}
pub fn render(cmds: &[Cmd], r: &mut Rng, lay: &Lay) -> Case {
    let mut cmds = cmds.to_vec();
    let mut rd = Rd::new(r, lay);
    let trail = rd.program(&mut cmds);
    Case { text: rd.out, cmds, trail, open: rd.open }
}
pub fn case(r: &mut Rng, p: &Prof) -> Case {
    let lay = Lay::random(r);
    let n = r.range(1, p.cmds.max(1));
    let mut t = Tg::new(r, p);
    let cmds = t.program(n);
    render(&cmds, r, &lay)
}
