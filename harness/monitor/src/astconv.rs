//! The default AST as reference trees, and monitors of its canonical form.
use crate::glue::{arith, Txt};
use conch_parser::ast;
use refmodel::tree::*;

fn param<T: Txt>(p: &ast::Parameter<T>) -> Param {
    match p {
        ast::Parameter::At => Param::At, ast::Parameter::Star => Param::Star, ast::Parameter::Pound => Param::Pound,
        ast::Parameter::Question => Param::Question, ast::Parameter::Dash => Param::Dash, ast::Parameter::Dollar => Param::Dollar,
        ast::Parameter::Bang => Param::Bang, ast::Parameter::Positional(n) => Param::Num(*n),
        ast::Parameter::Var(s) => Param::Var(s.txt().to_string()),
    }
}
/// Collects what is not canonical while converting.
#[derive(Default, Debug)]
pub struct Canon { pub problem: Option<String>, pub words: u64, pub merged: u64 }
impl Canon {
    fn bad(&mut self, s: String) { self.problem.get_or_insert(s); }
    fn simples(&mut self, v: &[Simple], what: &str) {
        for p in v.windows(2) {
            if let (Simple::Lit(a), Simple::Lit(b)) = (&p[0], &p[1]) { self.bad(format!("adjacent literals {:?} {:?} in {}", a, b, what)) }
        }
    }
    fn word(&mut self, w: &Word, concat: bool) {
        self.words += 1;
        if concat && w.0.len() < 2 { self.bad(format!("Concat of {} parts", w.0.len())) }
        if w.0.len() > 1 { self.merged += 1 }
        for p in w.0.windows(2) {
            match (&p[0], &p[1]) {
                (Part::S(Simple::Lit(a)), Part::S(Simple::Lit(b))) => self.bad(format!("adjacent literals {:?} {:?}", a, b)),
                (Part::Sq(a), Part::Sq(b)) => self.bad(format!("adjacent single quotes {:?} {:?}", a, b)),
                (Part::Dq(a), Part::Dq(b)) => self.bad(format!("adjacent double quotes {:?} {:?}", a, b)),
                _ => {}
            }
        }
        for p in &w.0 { if let Part::Dq(v) = p { self.simples(v, "double quotes") } }
    }
}
pub trait Conv<O> { fn conv(&self, c: &mut Canon) -> O; }

macro_rules! conv {
    ($m:ident, $Cmd:ident, $Word:ident, $Fn:ident, $Pipeable:ident) => {
        mod $m {
            use super::*;
            impl<T: Txt> Conv<Word> for ast::$Word<T> {
                fn conv(&self, c: &mut Canon) -> Word {
                    let (v, concat) = match &self.0 {
                        ast::ComplexWord::Single(w) => (vec![part(w, c)], false),
                        ast::ComplexWord::Concat(v) => (v.iter().map(|w| part(w, c)).collect(), true),
                    };
                    let w = Word(v);
                    c.word(&w, concat);
                    w
                }
            }
            type S<T> = ast::SimpleWord<T, ast::Parameter<T>, Box<ast::ParameterSubstitution<ast::Parameter<T>, ast::$Word<T>, ast::$Cmd<T>, ast::Arithmetic<T>>>>;
            fn part<T: Txt>(w: &ast::Word<T, S<T>>, c: &mut Canon) -> Part {
                match w {
                    ast::Word::Simple(s) => Part::S(simple(s, c)),
                    ast::Word::DoubleQuoted(v) => Part::Dq(v.iter().map(|s| simple(s, c)).collect()),
                    ast::Word::SingleQuoted(s) => Part::Sq(s.txt().to_string()),
                }
            }
            fn simple<T: Txt>(s: &S<T>, c: &mut Canon) -> Simple {
                use ast::SimpleWord as W;
                match s {
                    W::Literal(s) => Simple::Lit(s.txt().to_string()), W::Escaped(s) => Simple::Esc(s.txt().to_string()),
                    W::Param(p) => Simple::Param(param(p)),
                    W::Subst(s) => Simple::Subst(Box::new(subst(s, c))),
                    W::Star => Simple::Star, W::Question => Simple::Question, W::SquareOpen => Simple::SqOpen, W::SquareClose => Simple::SqClose,
                    W::Tilde => Simple::Tilde, W::Colon => Simple::Colon,
                }
            }
            fn subst<T: Txt>(s: &ast::ParameterSubstitution<ast::Parameter<T>, ast::$Word<T>, ast::$Cmd<T>, ast::Arithmetic<T>>, c: &mut Canon) -> Subst {
                use ast::ParameterSubstitution as P;
                let (op, colon, p, w) = match s {
                    P::Command(v) => return Subst::Cmd(group(v, c)),
                    P::Len(p) => return Subst::Len(param(p)),
                    P::Arith(a) => return Subst::Arith(a.as_ref().map(arith)),
                    P::Default(k, p, w) => (SubOp::Default, *k, p, w), P::Assign(k, p, w) => (SubOp::Assign, *k, p, w),
                    P::Error(k, p, w) => (SubOp::Error, *k, p, w), P::Alternative(k, p, w) => (SubOp::Alt, *k, p, w),
                    P::RemoveSmallestSuffix(p, w) => (SubOp::SmallSuffix, false, p, w), P::RemoveLargestSuffix(p, w) => (SubOp::LargeSuffix, false, p, w),
                    P::RemoveSmallestPrefix(p, w) => (SubOp::SmallPrefix, false, p, w), P::RemoveLargestPrefix(p, w) => (SubOp::LargePrefix, false, p, w),
                };
                Subst::Op(op, colon, param(p), w.as_ref().map(|w| w.conv(c)))
            }
            fn group<T: Txt>(v: &[ast::$Cmd<T>], c: &mut Canon) -> Group { Group { cmds: v.iter().map(|x| x.conv(c)).collect(), trail: vec![] } }
            impl<T: Txt> Conv<Redir> for ast::Redirect<ast::$Word<T>> {
                fn conv(&self, c: &mut Canon) -> Redir {
                    use ast::Redirect as R;
                    let (kind, fd, w) = match self {
                        R::Read(f, w) => (RK::Read, f, w), R::Write(f, w) => (RK::Write, f, w), R::ReadWrite(f, w) => (RK::ReadWrite, f, w),
                        R::Append(f, w) => (RK::Append, f, w), R::Clobber(f, w) => (RK::Clobber, f, w), R::Heredoc(f, w) => (RK::Heredoc, f, w),
                        R::DupRead(f, w) => (RK::DupRead, f, w), R::DupWrite(f, w) => (RK::DupWrite, f, w),
                    };
                    Redir { kind, fd: *fd, word: w.conv(c) }
                }
            }
            impl<T: Txt> Conv<Comp> for ast::ShellCompoundCommand<T, ast::$Word<T>, ast::$Cmd<T>> {
                fn conv(&self, c: &mut Canon) -> Comp {
                    use ast::CompoundCommandKind as C;
                    let kind = match &self.kind {
                        C::Brace(v) => CompKind::Brace(group(v, c)),
                        C::Subshell(v) => CompKind::Sub(group(v, c)),
                        C::While(p) => CompKind::Loop(false, group(&p.guard, c), group(&p.body, c)),
                        C::Until(p) => CompKind::Loop(true, group(&p.guard, c), group(&p.body, c)),
                        C::If { conditionals, else_branch } => CompKind::If(IfC {
                            conds: conditionals.iter().map(|p| (group(&p.guard, c), group(&p.body, c))).collect(),
                            els: else_branch.as_ref().map(|e| group(e, c)),
                        }),
                        C::For { var, words, body } => CompKind::For(ForC {
                            var: var.txt().to_string(),
                            var_nl: None,
                            words: words.as_ref().map(|w| (vec![], w.iter().map(|w| w.conv(c)).collect(), None)),
                            pre_body: vec![],
                            body: group(body, c),
                        }),
                        C::Case { word, arms } => CompKind::Case(CaseC {
                            word: word.conv(c),
                            post_word: vec![],
                            in_nl: None,
                            arms: arms
                                .iter()
                                .map(|a| Arm { pre: vec![], pats: a.patterns.iter().map(|p| p.conv(c)).collect(), pat_nl: None, body: group(&a.body, c), end_nl: None })
                                .collect(),
                            post_arms: vec![],
                        }),
                    };
                    Comp { kind, io: self.io.iter().map(|r| r.conv(c)).collect() }
                }
            }
            impl<T: Txt> Conv<Item> for ast::$Pipeable<T, ast::$Word<T>, ast::$Cmd<T>> {
                fn conv(&self, c: &mut Canon) -> Item {
                    match self {
                        ast::PipeableCommand::Simple(s) => Item::Simple(SimpleCmd {
                            vars: s
                                .redirects_or_env_vars
                                .iter()
                                .map(|v| match v {
                                    ast::RedirectOrEnvVar::Redirect(r) => VarOr::Redir(r.conv(c)),
                                    ast::RedirectOrEnvVar::EnvVar(n, w) => VarOr::Var(n.txt().to_string(), w.as_ref().map(|w| w.conv(c))),
                                })
                                .collect(),
                            words: s
                                .redirects_or_cmd_words
                                .iter()
                                .map(|v| match v {
                                    ast::RedirectOrCmdWord::Redirect(r) => WordOr::Redir(r.conv(c)),
                                    ast::RedirectOrCmdWord::CmdWord(w) => WordOr::Word(w.conv(c)),
                                })
                                .collect(),
                        }),
                        ast::PipeableCommand::Compound(x) => Item::Comp(Box::new(x.conv(c))),
                        ast::PipeableCommand::FunctionDef(n, x) => Item::Fn(n.txt().to_string(), vec![], Box::new(x.conv(c))),
                    }
                }
            }
            impl<T: Txt> Conv<Pipe_> for ast::ListableCommand<ast::$Pipeable<T, ast::$Word<T>, ast::$Cmd<T>>> {
                fn conv(&self, c: &mut Canon) -> Pipe_ {
                    match self {
                        ast::ListableCommand::Single(x) => Pipe_ { bang: false, cmds: vec![(vec![], x.conv(c))] },
                        ast::ListableCommand::Pipe(bang, v) => {
                            if !bang && v.len() < 2 { c.bad(format!("pipeline of {} commands without negation is wrapped", v.len())) }
                            if v.is_empty() { c.bad("empty pipeline".into()) }
                            Pipe_ { bang: *bang, cmds: v.iter().map(|x| (vec![], x.conv(c))).collect() }
                        }
                    }
                }
            }
            impl<T: Txt> Conv<AndOr> for ast::AndOrList<ast::ListableCommand<ast::$Pipeable<T, ast::$Word<T>, ast::$Cmd<T>>>> {
                fn conv(&self, c: &mut Canon) -> AndOr {
                    AndOr {
                        first: self.first.conv(c),
                        rest: self
                            .rest
                            .iter()
                            .map(|r| match r { ast::AndOr::And(x) => (vec![], true, x.conv(c)), ast::AndOr::Or(x) => (vec![], false, x.conv(c)) })
                            .collect(),
                    }
                }
            }
            impl<T: Txt> Conv<Cmd> for ast::$Cmd<T> {
                fn conv(&self, c: &mut Canon) -> Cmd {
                    let (list, sep) = match &self.0 { ast::Command::Job(l) => (l, Sep::Amp), ast::Command::List(l) => (l, Sep::Semi) };
                    Cmd { pre: vec![], list: list.conv(c), sep, post: None }
                }
            }
        }
    };
}
conv!(rc, TopLevelCommand, TopLevelWord, Rc, ShellPipeableCommand);
conv!(arc, AtomicTopLevelCommand, AtomicTopLevelWord, Arc, AtomicShellPipeableCommand);
