//! Reference parser: works on a fully lexed token vector in which every token carries its own position.
//! Heredoc bodies are cut out of the vector when their operator is met.
use crate::tree::{K::*, *};

pub type R<T> = Result<T, PErr>;
#[derive(Clone, Debug)]
pub struct P {
    toks: Vec<(Tok, Pos)>,
    i: usize,
    end: Pos,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Delims {
    pub tokens: Vec<Tok>,
    pub words: Vec<&'static str>,
    pub exact: Vec<Tok>,
}
fn words(w: &[&'static str]) -> Delims { Delims { words: w.to_vec(), ..Default::default() } }



fn is_word_part(k: K) -> bool {
    match k {
        Newline | ParenOpen | ParenClose | Semi | Amp | Pipe | AndIf | OrIf | DSemi | Less | Great | DLess | DGreat
        | GreatAnd | LessAnd | DLessDash | Clobber | LessGreat | Whitespace => false,
        _ => true,
    }
}

impl P {
    pub fn new(toks: Vec<Tok>) -> P {
        let (toks, end) = crate::lex::with_pos(toks);
        P { toks, i: 0, end }
    }
    pub fn of_str(s: &str) -> P { P::new(crate::lex::lex(s)) }
    fn sub(toks: Vec<(Tok, Pos)>, end: Pos) -> P { P { toks, i: 0, end } }

    pub fn pos(&self) -> Pos { self.toks.get(self.i).map_or(self.end, |t| t.1) }
    pub fn at_end(&self) -> bool { self.i >= self.toks.len() }
    /// text not consumed yet, in the order it will be read
    pub fn rest(&self) -> String { self.toks[self.i.min(self.toks.len())..].iter().map(|t| &*t.0.t).collect() }
    fn k(&self) -> Option<K> { self.toks.get(self.i).map(|t| t.0.k) }
    fn k_at(&self, n: usize) -> Option<K> { self.toks.get(self.i + n).map(|t| t.0.k) }
    fn tok(&self) -> Option<&Tok> { self.toks.get(self.i).map(|t| &t.0) }
    fn next(&mut self) -> Option<Tok> {
        let t = self.toks.get(self.i).map(|t| t.0.clone());
        if t.is_some() { self.i += 1 }
        t
    }
    fn is(&self, k: K) -> bool { self.k() == Some(k) }
    fn eat_if(&mut self, k: K) -> bool {
        let y = self.is(k);
        if y { self.i += 1 }
        y
    }
    fn unexpected<T>(&mut self) -> R<T> {
        let pos = self.pos();
        match self.next() {
            Some(t) => Err(PErr::Unexpected(t, pos)),
            None => Err(PErr::Eof),
        }
    }
    fn eat(&mut self, k: K) -> R<()> { if self.eat_if(k) { Ok(()) } else { self.unexpected() } }

    // ---- layout -------------------------------------------------------------------------------
    pub fn skip_ws(&mut self) {
        loop {
            if self.is(Whitespace) {
                self.i += 1;
            } else if self.is(Backslash) && self.k_at(1) == Some(Newline) {
                self.i += 2;
            } else {
                return;
            }
        }
    }
    pub fn newline(&mut self) -> Option<Nl> {
        self.skip_ws();
        if self.eat_if(Newline) { return Some(None) }
        if !self.is(Pound) { return None }
        let mut s = String::new();
        while let Some(t) = self.next() {
            if t.k == Newline { break }
            s.push_str(&t.t);
        }
        Some(Some(s))
    }
    pub fn linebreak(&mut self) -> Vec<Nl> {
        let mut v = Vec::new();
        while let Some(n) = self.newline() { v.push(n) }
        v
    }

    // ---- reserved words ------------------------------------------------------------------------
    /// the token `n` from here, if any, ends a word; an escaped newline does
    fn delim_after(&self, n: usize) -> bool {
        match self.toks.get(self.i + n) {
            None => true,
            Some(t) if t.0.k == Backslash => self.k_at(n + 1) == Some(Newline),
            Some(t) => t.0.is_delim(),
        }
    }
    pub fn peek_word(&mut self, ws: &[&'static str]) -> Option<&'static str> {
        if ws.is_empty() { return None }
        self.skip_ws();
        let t = self.tok()?;
        if t.k != Name && t.k != Literal { return None }
        let found = ws.iter().find(|w| **w == t.t).copied()?;
        if self.delim_after(1) { Some(found) } else { None }
    }
    pub fn word_kw(&mut self, ws: &[&'static str]) -> Option<&'static str> {
        let r = self.peek_word(ws);
        if r.is_some() { self.i += 1 }
        r
    }
    pub fn peek_token(&mut self, ts: &[Tok]) -> Option<Tok> {
        if ts.is_empty() { return None }
        let mut tries = 2;
        if !ts.iter().any(|t| t.k == Whitespace) {
            self.skip_ws();
            tries = 1;
        }
        for _ in 0..tries {
            let t = self.tok()?.clone();
            if ts.contains(&t) && self.delim_after(1) {
                return Some(t);
            }
            self.skip_ws();
        }
        None
    }
    pub fn token_kw(&mut self, ts: &[Tok]) -> R<Tok> {
        if let Some(t) = self.peek_token(ts) {
            self.i += 1;
            return Ok(t);
        }
        if self.tok().map_or(false, |t| ts.contains(t)) { self.i += 1 }
        self.unexpected()
    }

    // ---- commands ------------------------------------------------------------------------------
    /// the command, or the comments found before the end of input
    pub fn complete_command(&mut self) -> R<Result<Cmd, Vec<Nl>>> {
        let pre = self.linebreak();
        if self.at_end() { return Ok(Err(pre)) }
        self.cc_with(pre).map(Ok)
    }
    fn cc_with(&mut self, pre: Vec<Nl>) -> R<Cmd> {
        let list = self.and_or()?;
        let (sep, post) = match self.k() {
            Some(Semi) => { self.i += 1; (Sep::Semi, self.newline()) }
            Some(Amp) => { self.i += 1; (Sep::Amp, self.newline()) }
            _ => match self.newline() {
                Some(n) => (Sep::Newline, Some(n)),
                None => (Sep::Other, None),
            },
        };
        Ok(Cmd { pre, list, sep, post })
    }
    pub fn and_or(&mut self) -> R<AndOr> {
        let first = self.pipeline()?;
        let mut rest = Vec::new();
        loop {
            self.skip_ws();
            let and = match self.k() {
                Some(AndIf) => true,
                Some(OrIf) => false,
                _ => return Ok(AndOr { first, rest }),
            };
            self.i += 1;
            let nls = self.linebreak();
            rest.push((nls, and, self.pipeline()?));
        }
    }
    pub fn pipeline(&mut self) -> R<Pipe_> {
        let bang = self.bang();
        if bang { self.i += 1 }
        let mut cmds = Vec::new();
        loop {
            if self.bang() { return self.unexpected() }
            let c = self.command()?;
            if self.eat_if(Pipe) {
                let nls = self.linebreak();
                cmds.push((nls, c));
            } else {
                cmds.push((Vec::new(), c));
                return Ok(Pipe_ { bang, cmds });
            }
        }
    }
    fn bang(&mut self) -> bool { self.peek_token(&[Tok::op(Bang)]).is_some() }
    pub fn command(&mut self) -> R<Item> {
        if self.compound_ahead() {
            return Ok(Item::Comp(Box::new(self.compound()?)));
        }
        if let Some(f) = self.maybe_fn()? { return Ok(f) }
        self.simple().map(Item::Simple)
    }
    fn compound_ahead(&mut self) -> bool {
        self.skip_ws();
        self.is(ParenOpen)
            || self.peek_token(&[Tok::op(CurlyOpen)]).is_some()
            || self.peek_word(&["for", "case", "if", "while", "until"]).is_some()
    }
    pub fn simple(&mut self) -> R<SimpleCmd> {
        let mut c = SimpleCmd::default();
        loop {
            self.skip_ws();
            if self.is(Name) && self.k_at(1) == Some(Equals) {
                let name = self.next().unwrap().t.into_owned();
                self.i += 1;
                while self.is(Backslash) && self.k_at(1) == Some(Newline) { self.i += 2 }
                let val = if self.is(Whitespace) {
                    None
                } else if self.is(Pound) {
                    self.fragments(None)?
                } else {
                    self.word()?
                };
                c.vars.push(VarOr::Var(name, val));
                continue;
            }
            match self.redirect()? {
                Some(Ok(r)) => c.vars.push(VarOr::Redir(r)),
                Some(Err(w)) => {
                    c.words.push(WordOr::Word(w));
                    break;
                }
                None => break,
            }
        }
        while let Some(x) = self.redirect()? {
            c.words.push(match x { Ok(r) => WordOr::Redir(r), Err(w) => WordOr::Word(w) });
        }
        if c.vars.is_empty() && c.words.is_empty() { return self.unexpected() }
        Ok(c)
    }
    pub fn compound(&mut self) -> R<Comp> {
        self.skip_ws();
        let kind = if self.is(ParenOpen) {
            CompKind::Sub(self.subshell(false)?)
        } else if self.peek_token(&[Tok::op(CurlyOpen)]).is_some() {
            CompKind::Brace(self.brace()?)
        } else {
            match self.peek_word(&["for", "case", "if", "while", "until"]) {
                Some("for") => CompKind::For(self.for_cmd()?),
                Some("case") => CompKind::Case(self.case_cmd()?),
                Some("if") => CompKind::If(self.if_cmd()?),
                Some(_) => {
                    let (u, g, b) = self.loop_cmd()?;
                    CompKind::Loop(u, g, b)
                }
                None => return self.unexpected(),
            }
        };
        let io = self.redirect_list()?;
        Ok(Comp { kind, io })
    }
    fn group_internal(&mut self, d: &Delims) -> R<Group> {
        let mut g = Group::default();
        loop {
            if self.at_delim(d) { return Ok(g) }
            let nls = self.linebreak();
            if self.at_delim(d) || self.at_end() {
                g.trail = nls;
                return Ok(g);
            }
            let c = self.cc_with(nls)?;
            g.cmds.push(c);
        }
    }
    fn at_delim(&mut self, d: &Delims) -> bool {
        (!d.exact.is_empty() && self.tok().map_or(false, |t| d.exact.contains(t)))
            || self.peek_word(&d.words).is_some()
            || self.peek_token(&d.tokens).is_some()
    }
    pub fn group(&mut self, d: &Delims) -> R<Group> {
        let g = self.group_internal(d)?;
        if g.cmds.is_empty() { return self.unexpected() }
        Ok(g)
    }
    pub fn do_group(&mut self) -> R<Group> {
        let start = self.pos();
        if self.word_kw(&["do"]).is_none() { return self.unexpected() }
        let g = self.group(&words(&["done"]))?;
        if self.word_kw(&["done"]).is_none() { return Err(PErr::Incomplete("do", start, "done", self.pos())) }
        Ok(g)
    }
    pub fn brace(&mut self) -> R<Group> {
        let start = self.pos();
        self.token_kw(&[Tok::op(CurlyOpen)])?;
        let g = self.group(&Delims { tokens: vec![Tok::op(CurlyClose)], ..Default::default() })?;
        if self.token_kw(&[Tok::op(CurlyClose)]).is_err() { return Err(PErr::Unmatched(Tok::op(CurlyOpen), start)) }
        Ok(g)
    }
    pub fn subshell(&mut self, empty_ok: bool) -> R<Group> {
        let start = self.pos();
        self.eat(ParenOpen)?;
        self.subshell_body(start, empty_ok)
    }
    fn subshell_body(&mut self, start: Pos, empty_ok: bool) -> R<Group> {
        let g = self.group_internal(&Delims { exact: vec![Tok::op(ParenClose)], ..Default::default() })?;
        match self.k() {
            Some(ParenClose) if empty_ok || !g.cmds.is_empty() => { self.i += 1; Ok(g) }
            Some(_) => self.unexpected(),
            None => Err(PErr::Unmatched(Tok::op(ParenOpen), start)),
        }
    }
    pub fn loop_cmd(&mut self) -> R<(bool, Group, Group)> {
        let start = self.pos();
        let until = match self.word_kw(&["while", "until"]) {
            Some(w) => w == "until",
            None => return self.unexpected(),
        };
        let guard = self.group(&words(&["do"]))?;
        if self.peek_word(&["do"]).is_none() { return Err(PErr::Incomplete("while", start, "do", self.pos())) }
        let body = self.do_group()?;
        Ok((until, guard, body))
    }
    pub fn if_cmd(&mut self) -> R<IfC> {
        let start = self.pos();
        if self.word_kw(&["if"]).is_none() { return self.unexpected() }
        let mut conds = Vec::new();
        loop {
            let g = self.group(&words(&["then"]))?;
            if self.word_kw(&["then"]).is_none() { return Err(PErr::Incomplete("if", start, "then", self.pos())) }
            let b = self.group(&words(&["elif", "else", "fi"]))?;
            conds.push((g, b));
            match self.word_kw(&["elif", "else", "fi"]) {
                Some("elif") => {}
                Some("fi") => return Ok(IfC { conds, els: None }),
                Some(_) => {
                    let e = self.group(&words(&["fi"]))?;
                    if self.word_kw(&["fi"]).is_none() { return Err(PErr::Incomplete("if", start, "fi", self.pos())) }
                    return Ok(IfC { conds, els: Some(e) });
                }
                None => return Err(PErr::Incomplete("if", start, "fi", self.pos())),
            }
        }
    }
    pub fn for_cmd(&mut self) -> R<ForC> {
        let start = self.pos();
        if self.word_kw(&["for"]).is_none() { return self.unexpected() }
        self.skip_ws();
        let var = self.identifier()?;
        let var_nl = self.newline();
        let post_var = self.linebreak();
        let (ws, pre_body) = if self.word_kw(&["in"]).is_some() {
            let mut ws = Vec::new();
            while let Some(w) = self.word()? { ws.push(w) }
            let semi = self.eat_if(Semi);
            let nl = self.newline();
            if !semi && nl.is_none() { return self.unexpected() }
            (Some((post_var, ws, nl)), self.linebreak())
        } else if self.eat_if(Semi) {
            let mut n = post_var;
            n.extend(self.linebreak());
            (None, n)
        } else if self.peek_word(&["do"]).is_none() {
            return Err(PErr::Incomplete("for", start, "in", self.pos()));
        } else {
            (None, post_var)
        };
        if self.peek_word(&["do"]).is_none() { return Err(PErr::Incomplete("for", start, "do", self.pos())) }
        let body = self.do_group()?;
        Ok(ForC { var, var_nl, words: ws, pre_body, body })
    }
    fn identifier(&mut self) -> R<String> {
        let pos = self.pos();
        match self.k() {
            Some(Name) => Ok(self.next().unwrap().t.into_owned()),
            Some(Literal) => Err(PErr::BadIdent(self.next().unwrap().t.into_owned(), pos)),
            _ => self.unexpected(),
        }
    }
    pub fn case_cmd(&mut self) -> R<CaseC> {
        let start = self.pos();
        if self.word_kw(&["case"]).is_none() { return self.unexpected() }
        let word = match self.word()? {
            Some(w) => w,
            None => return self.unexpected(),
        };
        let post_word = self.linebreak();
        if self.word_kw(&["in"]).is_none() { return Err(PErr::Incomplete("case", start, "in", self.pos())) }
        let in_nl = self.newline();
        let mut arms = Vec::new();
        let mut tail = Vec::new();
        loop {
            let pre = self.linebreak();
            if self.peek_word(&["esac"]).is_some() {
                tail = pre;
                break;
            }
            self.eat_if(ParenOpen);
            if self.at_end() { return Err(PErr::Incomplete("case", start, "esac", self.pos())) }
            let mut pats = Vec::new();
            loop {
                match self.word()? {
                    Some(w) => pats.push(w),
                    None => return self.unexpected(),
                }
                match self.k() {
                    Some(Pipe) => self.i += 1,
                    Some(ParenClose) => { self.i += 1; break }
                    None => return Err(PErr::Incomplete("case", start, "esac", self.pos())),
                    _ => return self.unexpected(),
                }
            }
            let pat_nl = self.newline();
            let body = self.group_internal(&Delims { words: vec!["esac"], exact: vec![Tok::op(DSemi)], ..Default::default() })?;
            let more = self.eat_if(DSemi);
            let end_nl = if more { self.newline() } else { None };
            arms.push(Arm { pre, pats, pat_nl, body, end_nl });
            if !more { break }
        }
        tail.extend(self.linebreak());
        if self.word_kw(&["esac"]).is_none() { return Err(PErr::Incomplete("case", start, "esac", self.pos())) }
        Ok(CaseC { word, post_word, in_nl, arms, post_arms: tail })
    }
    pub fn maybe_fn(&mut self) -> R<Option<Item>> {
        if self.peek_word(&["function"]).is_some() { return self.fn_decl().map(Some) }
        if !self.is(Name) { return Ok(None) }
        let mut n = 1;
        loop {
            match self.k_at(n) {
                Some(Whitespace) => n += 1,
                Some(Backslash) if self.k_at(n + 1) == Some(Newline) => n += 2,
                _ => break,
            }
        }
        if self.k_at(n) == Some(ParenOpen) { self.fn_decl().map(Some) } else { Ok(None) }
    }
    pub fn fn_decl(&mut self) -> R<Item> {
        let kw = self.word_kw(&["function"]).is_some();
        self.skip_ws();
        let name = self.identifier()?;
        let mut body = None;
        if self.eat_if(ParenOpen) {
            self.skip_ws();
            self.eat(ParenClose)?;
        } else if kw && self.is(Newline) {
        } else {
            if !(self.is(Backslash) && self.k_at(1) == Some(Newline)) { self.eat(Whitespace)? }
            self.skip_ws();
            let start = self.pos();
            if !kw {
                self.eat(ParenOpen)?;
                self.skip_ws();
                self.eat(ParenClose)?;
            } else if self.eat_if(ParenOpen) {
                self.skip_ws();
                if !self.eat_if(ParenClose) {
                    let g = self.subshell_body(start, false)?;
                    let io = self.redirect_list()?;
                    body = Some(Comp { kind: CompKind::Sub(g), io });
                }
            }
        }
        let (nls, body) = match body {
            Some(b) => (Vec::new(), b),
            None => {
                let n = self.linebreak();
                (n, self.compound()?)
            }
        };
        Ok(Item::Fn(name, nls, Box::new(body)))
    }

    // ---- redirections --------------------------------------------------------------------------
    pub fn redirect_list(&mut self) -> R<Vec<Redir>> {
        let mut v = Vec::new();
        loop {
            self.skip_ws();
            let start = self.pos();
            match self.redirect()? {
                Some(Ok(r)) => v.push(r),
                Some(Err(_)) => return Err(PErr::BadFd(start, self.pos())),
                None => return Ok(v),
            }
        }
    }
    pub fn redirect(&mut self) -> R<Option<Result<Redir, Word>>> {
        let w = self.word_keep_ws()?;
        let mut fd = None;
        if let Some(w) = &w {
            let txt: Option<String> =
                w.0.iter().map(|p| if let Part::S(Simple::Lit(s)) = p { Some(&s[..]) } else { None }).collect();
            fd = txt.filter(|t| t.bytes().all(|b| b.is_ascii_digit())).and_then(|t| t.parse::<u16>().ok());
            if fd.is_none() { return Ok(Some(Err(w.clone()))) }
        }
        let kind = match self.k() {
            Some(Less) => RK::Read,
            Some(Great) => RK::Write,
            Some(DGreat) => RK::Append,
            Some(Clobber) => RK::Clobber,
            Some(LessGreat) => RK::ReadWrite,
            Some(LessAnd) => RK::DupRead,
            Some(GreatAnd) => RK::DupWrite,
            Some(DLess) | Some(DLessDash) => return self.heredoc(fd).map(|r| Some(Ok(r))),
            _ => return Ok(w.map(Err)),
        };
        self.i += 1;
        self.skip_ws();
        let dup = kind == RK::DupRead || kind == RK::DupWrite;
        if dup && self.peek_token(&[Tok::op(Dash)]).is_some() {
            self.i += 1;
            return Ok(Some(Ok(Redir { kind, fd, word: Word(vec![Part::S(Simple::Lit("-".into()))]) })));
        }
        let start = self.pos();
        let word = match self.word_keep_ws()? {
            Some(w) => w,
            None => return self.unexpected(),
        };
        if dup && !maybe_numeric(&word) { return Err(PErr::BadFd(start, self.pos())) }
        Ok(Some(Ok(Redir { kind, fd, word })))
    }
    /// A run of tokens in which all quotes and groups are closed; `inside` is the already open delimiter.
    fn balanced(&mut self, inside: Option<(K, Pos)>) -> R<Vec<(Tok, Pos)>> {
        let mut out = Vec::new();
        let mut open: Vec<(K, Pos)> = inside.into_iter().collect();
        let drop_last = inside.is_some();
        let mut dollar = false;
        let mut pid = false; // between the two halves of `$$`
        loop {
            if let Some(&(close, start)) = open.last() {
                if self.is(close) {
                    open.pop();
                    let t = self.toks[self.i].clone();
                    self.i += 1;
                    if !(open.is_empty() && drop_last) { out.push(t) }
                    if open.is_empty() { return Ok(out) }
                    continue;
                }
                if self.at_end() {
                    let opener = match close { ParenClose => ParenOpen, CurlyClose => CurlyOpen, k => k };
                    return Err(PErr::Unmatched(Tok::op(opener), start));
                }
            } else if self.at_end() {
                return Ok(out);
            }
            let (t, pos) = self.toks[self.i].clone();
            self.i += 1;
            let top = open.last().map(|o| o.0);
            let k = t.k;
            out.push((t, pos));
            if top == Some(SingleQuote) { continue }
            let was_dollar = std::mem::replace(&mut dollar, false);
            match k {
                Backslash => {
                    if !self.at_end() {
                        out.push(self.toks[self.i].clone());
                        self.i += 1;
                    }
                }
                Backtick | DoubleQuote => open.push((k, pos)),
                SingleQuote if top != Some(DoubleQuote) => open.push((k, pos)),
                ParenOpen if was_dollar || (top != Some(DoubleQuote) && top != Some(CurlyClose)) => {
                    open.push((ParenClose, pos))
                }
                Dollar if std::mem::replace(&mut pid, false) => {}
                Dollar => match self.k() {
                    Some(Dollar) => { pid = true; continue }
                    Some(CurlyOpen) => open.push((CurlyClose, self.pos())),
                    Some(ParenOpen) => { dollar = true; continue }
                    _ => {}
                },
                _ => {}
            }
            if open.is_empty() { return Ok(out) }
        }
    }
    pub fn heredoc(&mut self, fd: Option<u16>) -> R<Redir> {
        let strip = match self.k() {
            Some(DLess) => false,
            Some(DLessDash) => true,
            _ => return self.unexpected(),
        };
        self.i += 1;
        self.skip_ws();
        let mut d = Vec::new();
        while let Some(t) = self.tok() {
            if t.k != ParenOpen && self.delim_after(0) { break }
            d.extend(self.balanced(None)?);
        }
        let (delim, quoted) = unquote(d)?;
        if delim.is_empty() { return self.unexpected() }
        // the rest of the operator's line
        let mut line = Vec::new();
        let mut word_start = true;
        while let Some(t) = self.tok() {
            match t.k {
                Newline => { line.push(self.toks[self.i].clone()); self.i += 1; break }
                Pound if word_start => {
                    while self.k().map_or(false, |k| k != Newline) { line.push(self.toks[self.i].clone()); self.i += 1 }
                }
                _ => {
                    let g = self.balanced(None)?;
                    word_start = match g[0].0.k {
                        Backslash => g.len() > 1 && g[1].0.k == Newline,
                        _ => g[0].0.is_delim(),
                    };
                    line.extend(g);
                }
            }
        }
        // the body
        let mut body: Vec<(Tok, Pos)> = Vec::new();
        let mut end;
        loop {
            end = self.pos();
            let mut cur: Vec<(Tok, Pos)> = Vec::new();
            let nl = loop {
                if strip && cur.is_empty() && self.is(Whitespace) {
                    let (t, p) = self.toks[self.i].clone();
                    self.i += 1;
                    let s = t.t.trim_start_matches('\t');
                    if !s.is_empty() { cur.push((Tok::new(Whitespace, s), p.after(&t.t[..t.t.len() - s.len()]))) }
                }
                match self.toks.get(self.i).cloned() {
                    None => break None,
                    Some(t) => {
                        self.i += 1;
                        if t.0.k == Newline { break Some(t) }
                        cur.push(t);
                    }
                }
            };
            if nl.is_none() && cur.is_empty() { break }
            let text: String = cur.iter().map(|t| &*t.0.t).collect();
            if text == delim || text.strip_suffix('\r') == Some(&delim[..]) { break }
            body.extend(cur);
            body.extend(nl);
        }
        // goes on with the rest of the line, then with what follows the body: the line was read from here, so it fits
        self.i -= line.len();
        for (k, t) in line.into_iter().enumerate() { self.toks[self.i + k] = t }
        let word = if quoted {
            Word(vec![Part::S(Simple::Lit(body.iter().map(|t| &*t.0.t).collect()))])
        } else {
            let mut p = P::sub(body, end);
            let mut v = p.interpolated(None, end)?;
            if v.is_empty() { v.push(Simple::Lit(String::new())) }
            Word(v.into_iter().map(Part::S).collect())
        };
        Ok(Redir { kind: RK::Heredoc, fd, word })
    }

    // ---- words ---------------------------------------------------------------------------------
    pub fn word(&mut self) -> R<Option<Word>> {
        let w = self.word_keep_ws()?;
        self.skip_ws();
        Ok(w)
    }
    pub fn word_keep_ws(&mut self) -> R<Option<Word>> {
        self.skip_ws();
        if self.is(Pound) { return Ok(None) }
        self.fragments(None)
    }
    fn fragments(&mut self, stop: Option<K>) -> R<Option<Word>> {
        let mut v = Vec::new();
        while let Some(k) = self.k() {
            if Some(k) == stop || !is_word_part(k) { break }
            let pos = self.pos();
            v.push(match k {
                Backtick => Part::S(self.backtick()?),
                Dollar | Positional => Part::S(self.parameter()?),
                Star | Question | Tilde | SquareOpen | SquareClose | Colon => {
                    self.i += 1;
                    Part::S(glob(k))
                }
                Backslash => {
                    self.i += 1;
                    match self.next() {
                        None => break,
                        Some(t) if t.k == Newline => break,
                        Some(t) => Part::S(Simple::Esc(t.t.into_owned())),
                    }
                }
                SingleQuote => {
                    self.i += 1;
                    let mut s = String::new();
                    loop {
                        match self.next() {
                            None => return Err(PErr::Unmatched(Tok::op(SingleQuote), pos)),
                            Some(t) if t.k == SingleQuote => break,
                            Some(t) => s.push_str(&t.t),
                        }
                    }
                    Part::Sq(s)
                }
                DoubleQuote => {
                    self.i += 1;
                    Part::Dq(self.interpolated(Some(DoubleQuote), pos)?)
                }
                _ => Part::S(Simple::Lit(self.next().unwrap().t.into_owned())),
            });
        }
        Ok(if v.is_empty() { None } else { Some(Word(v)) })
    }
    fn interpolated(&mut self, close: Option<K>, start: Pos) -> R<Vec<Simple>> {
        let mut v = Vec::new();
        loop {
            let k = match (self.k(), close) {
                (None, Some(c)) => return Err(PErr::Unmatched(Tok::op(c), start)),
                (None, None) => break,
                (Some(k), _) => k,
            };
            if Some(k) == close {
                self.i += 1;
                break;
            }
            v.push(match k {
                Dollar | Positional => self.parameter()?,
                Backtick => self.backtick()?,
                Backslash => {
                    self.i += 1;
                    match self.k() {
                        Some(n) if n == Dollar || n == Backtick || n == Backslash || n == Newline || Some(n) == close => {
                            Simple::Esc(self.next().unwrap().t.into_owned())
                        }
                        _ => Simple::Lit("\\".into()),
                    }
                }
                _ => Simple::Lit(self.next().unwrap().t.into_owned()),
            });
        }
        let mut w = Word(vec![Part::Dq(v)]);
        w.map(&mut Norm);
        match w.0.pop() {
            Some(Part::Dq(v)) => Ok(v),
            _ => unreachable!(),
        }
    }
    pub fn backtick(&mut self) -> R<Simple> {
        let pos = self.pos();
        self.eat(Backtick)?;
        let body = self.balanced(Some((Backtick, pos)))?;
        let mut out: Vec<(Tok, Pos)> = Vec::new();
        let mut it = body.into_iter().peekable();
        while let Some(t) = it.next() {
            if t.0.k == Backslash {
                match it.peek().map(|n| n.0.k) {
                    Some(Dollar) | Some(Backtick) | Some(Backslash) => out.extend(it.next()),
                    _ => {
                        out.push(t);
                        out.extend(it.next());
                    }
                }
            } else {
                out.push(t);
            }
        }
        let mut p = P::sub(out, self.pos());
        Ok(Simple::Tick(p.group_internal(&Delims::default())?))
    }
    pub fn parameter(&mut self) -> R<Simple> {
        let pos = self.pos();
        match self.next() {
            Some(t) if t.k == Positional => Ok(Simple::Param(Param::Num(t.t[1..].parse().unwrap()))),
            Some(t) if t.k == Dollar => match self.k() {
                Some(Star) | Some(Pound) | Some(Question) | Some(Dollar) | Some(Bang) | Some(Dash) | Some(At)
                | Some(Name) => self.param_name().map(Simple::Param),
                Some(ParenOpen) => {
                    if self.k_at(1) == Some(ParenOpen) {
                        self.i += 2;
                        self.skip_ws();
                        let a = if self.is(ParenClose) { None } else { Some(self.arith()?) };
                        self.skip_ws();
                        self.eat(ParenClose)?;
                        self.skip_ws();
                        self.eat(ParenClose)?;
                        Ok(Simple::Subst(Box::new(Subst::Arith(a))))
                    } else {
                        Ok(Simple::Subst(Box::new(Subst::Cmd(self.subshell(true)?))))
                    }
                }
                Some(CurlyOpen) => self.braced(),
                // `$$` and a literal digit
                Some(Positional) => {
                    self.split_first(1);
                    self.i += 1;
                    let d = self.tok().unwrap().t.clone();
                    self.toks[self.i].0 = Tok { k: Literal, t: d };
                    Ok(Simple::Param(Param::Dollar))
                }
                // a `$` which had been escaped in backticks
                Some(Literal) if self.tok().unwrap().t.as_bytes().first().map_or(false, |b| b.is_ascii_digit()) => {
                    let n = self.tok().unwrap().t[..1].parse().unwrap();
                    if self.tok().unwrap().t.len() > 1 { self.split_first(1) }
                    self.i += 1;
                    Ok(Simple::Param(Param::Num(n)))
                }
                _ => Ok(Simple::Lit("$".into())),
            },
            Some(t) => Err(PErr::Unexpected(t, pos)),
            None => Err(PErr::Eof),
        }
    }
    /// splits the next token in two
    fn split_first(&mut self, at: usize) {
        let (t, p) = self.toks[self.i].clone();
        let (a, b) = (t.t[..at].to_string(), t.t[at..].to_string());
        let p2 = p.after(&a);
        self.toks[self.i] = (Tok::new(t.k, a), p);
        self.toks.insert(self.i + 1, (Tok::new(t.k, b), p2));
    }
    fn param_name(&mut self) -> R<Param> {
        let pos = self.pos();
        let t = match self.next() {
            None => return Err(PErr::Eof),
            Some(t) => t,
        };
        Ok(match t.k {
            Star => Param::Star,
            Pound => Param::Pound,
            Question => Param::Question,
            Dollar => Param::Dollar,
            Bang => Param::Bang,
            Dash => Param::Dash,
            At => Param::At,
            Name => Param::Var(t.t.into_owned()),
            Literal => match t.t.parse::<u32>() {
                Ok(n) => Param::Num(n),
                Err(_) => return Err(PErr::BadSubst(t, pos)),
            },
            _ => return Err(PErr::BadSubst(t, pos)),
        })
    }
    fn braced(&mut self) -> R<Simple> {
        let open = self.pos();
        self.i += 1;
        let sub = |s| Ok(Simple::Subst(Box::new(s)));
        let param = self.param_name()?;
        let pound = param == Param::Pound;
        match self.k() {
            Some(Percent) => {
                self.i += 1;
                let op = if self.eat_if(Percent) { SubOp::LargeSuffix } else { SubOp::SmallSuffix };
                let w = self.subst_word(open)?;
                return sub(Subst::Op(op, false, param, w));
            }
            Some(Pound) => {
                self.i += 1;
                if self.eat_if(Pound) {
                    let w = self.subst_word(open)?;
                    return sub(Subst::Op(SubOp::LargePrefix, false, param, w));
                }
                let w = self.subst_word(open)?;
                if w.is_none() && pound { return sub(Subst::Len(Param::Pound)) }
                return sub(Subst::Op(SubOp::SmallPrefix, false, param, w));
            }
            Some(Colon) | Some(Dash) | Some(Equals) | Some(Question) | Some(Plus) | Some(CurlyClose) => {}
            _ if pound => {
                let p = self.param_name()?;
                self.eat(CurlyClose)?;
                return sub(Subst::Len(p));
            }
            _ => {}
        }
        let colon = self.eat_if(Colon);
        let pos = self.pos();
        let t = match self.next() {
            None => return Err(PErr::Unmatched(Tok::op(CurlyOpen), open)),
            Some(t) => t,
        };
        let op = match t.k {
            CurlyClose if !colon => return Ok(Simple::Param(param)),
            Dash => SubOp::Default,
            Equals => SubOp::Assign,
            Question => SubOp::Error,
            Plus => SubOp::Alt,
            _ => return Err(PErr::BadSubst(t, pos)),
        };
        let w = self.subst_word(open)?;
        if pound && !colon && w.is_none() {
            if op == SubOp::Default { return sub(Subst::Len(Param::Dash)) }
            if op == SubOp::Error { return sub(Subst::Len(Param::Question)) }
        }
        sub(Subst::Op(op, colon, param, w))
    }
    /// the word of a `${param<op>word}`, including the closing brace
    fn subst_word(&mut self, open: Pos) -> R<Option<Word>> {
        let mut v: Vec<Part> = Vec::new();
        loop {
            match self.k() {
                None => return Err(PErr::Unmatched(Tok::op(CurlyOpen), open)),
                Some(CurlyClose) => { self.i += 1; break }
                Some(Backslash) if self.k_at(1) == Some(Newline) => {
                    self.i += 2;
                    v.push(Part::S(Simple::Esc("\n".into())));
                }
                Some(k) if !is_word_part(k) || k == Pound => v.push(Part::S(Simple::Lit(self.next().unwrap().t.into_owned()))),
                Some(_) => match self.fragments(Some(CurlyClose))? {
                    Some(w) => v.extend(w.0),
                    // a lone trailing backslash
                    None => {
                        if self.eat_if(CurlyClose) { break }
                        return Err(PErr::Unmatched(Tok::op(CurlyOpen), open));
                    }
                },
            }
        }
        Ok(if v.is_empty() { None } else { Some(Word(v)) })
    }

    // ---- arithmetic: precedence climbing ---------------------------------------------------------
    pub fn arith(&mut self) -> R<Arith> {
        let mut v = Vec::new();
        loop {
            self.skip_ws();
            v.push(self.arith_assign()?);
            if !self.eat_if(Comma) { break }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Arith::Seq(v) })
    }
    fn assign_ahead(&self) -> bool {
        let mut n = 0;
        while self.k_at(n) == Some(Dollar) { n += 1 }
        if self.k_at(n) != Some(Name) { return false }
        n += 1;
        loop {
            match self.k_at(n) {
                Some(Whitespace) => n += 1,
                Some(Backslash) if self.k_at(n + 1) == Some(Newline) => n += 2,
                Some(k) if compound_op(k).is_some() => return self.k_at(n + 1) == Some(Equals),
                Some(Equals) => return self.k_at(n + 1) != Some(Equals),
                _ => return false,
            }
        }
    }
    fn arith_assign(&mut self) -> R<Arith> {
        self.skip_ws();
        if !self.assign_ahead() { return self.arith_ternary() }
        let var = self.arith_var()?;
        self.skip_ws();
        let op = self.next().unwrap().k;
        let bin = compound_op(op);
        if bin.is_some() { self.eat(Equals)? }
        let val = Box::new(self.arith_assign()?);
        Ok(match bin {
            Some(b) => Arith::Assign(var.clone(), Box::new(Arith::Bin(b, Box::new(Arith::Var(var)), val))),
            None => Arith::Assign(var, val),
        })
    }
    fn arith_ternary(&mut self) -> R<Arith> {
        let c = self.arith_bin(1)?;
        self.skip_ws();
        if !self.eat_if(Question) { return Ok(c) }
        let a = self.arith_assign()?;
        self.skip_ws();
        self.eat(Colon)?;
        let b = self.arith_ternary()?;
        Ok(Arith::Tern(Box::new(c), Box::new(a), Box::new(b)))
    }
    fn arith_bin(&mut self, min: u8) -> R<Arith> {
        let mut lhs = self.arith_pow()?;
        loop {
            self.skip_ws();
            if self.is(DLessDash) && min <= 8 {
                let pos = self.pos();
                let at = Pos { byte: pos.byte + 2, line: pos.line, col: pos.col + 2 };
                self.toks.splice(self.i..=self.i, vec![(Tok::op(DLess), pos), (Tok::op(Dash), at)]);
            }
            let (lvl, mut op) = match self.k() {
                Some(OrIf) => (1, Bin::LOr),
                Some(AndIf) => (2, Bin::LAnd),
                Some(Pipe) => (3, Bin::BOr),
                Some(Caret) => (4, Bin::BXor),
                Some(Amp) => (5, Bin::BAnd),
                Some(Equals) => (6, Bin::Eq),
                Some(Bang) => (6, Bin::Ne),
                Some(Less) => (7, Bin::Lt),
                Some(Great) => (7, Bin::Gt),
                Some(DLess) => (8, Bin::Shl),
                Some(DGreat) => (8, Bin::Shr),
                Some(Plus) => (9, Bin::Add),
                Some(Dash) => (9, Bin::Sub),
                Some(Star) => (10, Bin::Mul),
                Some(Slash) => (10, Bin::Div),
                Some(Percent) => (10, Bin::Mod),
                _ => return Ok(lhs),
            };
            if lvl < min { return Ok(lhs) }
            self.i += 1;
            if lvl == 6 { self.eat(Equals)? }
            if lvl == 7 && self.eat_if(Equals) { op = if op == Bin::Lt { Bin::Le } else { Bin::Ge } }
            let rhs = self.arith_bin(lvl + 1)?;
            lhs = Arith::Bin(op, Box::new(lhs), Box::new(rhs));
        }
    }
    fn arith_pow(&mut self) -> R<Arith> {
        let base = self.arith_unary()?;
        self.skip_ws();
        if self.is(Star) && self.k_at(1) == Some(Star) {
            self.i += 2;
            let e = self.arith_pow()?;
            return Ok(Arith::Bin(Bin::Pow, Box::new(base), Box::new(e)));
        }
        Ok(base)
    }
    fn arith_unary(&mut self) -> R<Arith> {
        self.skip_ws();
        let k = self.k();
        let (un, inc) = match k {
            Some(Bang) => (Un::Not, None),
            Some(Tilde) => (Un::BNot, None),
            Some(Plus) => (Un::Plus, Some(Inc::PreInc)),
            Some(Dash) => (Un::Minus, Some(Inc::PreDec)),
            _ => return self.arith_primary(),
        };
        self.i += 1;
        if let Some(inc) = inc {
            if self.k() == k {
                self.i += 1;
                return Ok(Arith::Inc(inc, self.arith_var()?));
            }
        }
        Ok(Arith::Un(un, Box::new(self.arith_unary()?)))
    }
    fn arith_primary(&mut self) -> R<Arith> {
        self.skip_ws();
        if self.eat_if(ParenOpen) {
            let e = self.arith()?;
            self.skip_ws();
            self.eat(ParenClose)?;
            return Ok(e);
        }
        if self.is(Literal) {
            if let Some(n) = number(&self.tok().unwrap().t) {
                self.i += 1;
                return Ok(Arith::Num(n));
            }
        }
        let var = self.arith_var()?;
        self.skip_ws();
        for &(k, inc) in &[(Plus, Inc::PostInc), (Dash, Inc::PostDec)] {
            if self.is(k) && self.k_at(1) == Some(k) {
                self.i += 2;
                return Ok(Arith::Inc(inc, var));
            }
        }
        Ok(Arith::Var(var))
    }
    fn arith_var(&mut self) -> R<String> {
        self.skip_ws();
        self.eat_if(Dollar);
        if self.is(Name) { Ok(self.next().unwrap().t.into_owned()) } else { self.unexpected() }
    }
}
fn compound_op(k: K) -> Option<Bin> {
    Some(match k {
        Star => Bin::Mul, Slash => Bin::Div, Percent => Bin::Mod, Plus => Bin::Add, Dash => Bin::Sub,
        DLess => Bin::Shl, DGreat => Bin::Shr, Amp => Bin::BAnd, Pipe => Bin::BOr, Caret => Bin::BXor,
        _ => return None,
    })
}
pub fn number(s: &str) -> Option<i64> {
    if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        if h.is_empty() { Some(0) } else { i64::from_str_radix(h, 16).ok() }
    } else if s.starts_with('0') {
        i64::from_str_radix(s, 8).ok()
    } else {
        s.parse().ok()
    }
}
fn glob(k: K) -> Simple {
    match k {
        Star => Simple::Star, Question => Simple::Question, Tilde => Simple::Tilde, SquareOpen => Simple::SqOpen,
        SquareClose => Simple::SqClose, Colon => Simple::Colon,
        _ => unreachable!(),
    }
}
pub fn maybe_numeric(w: &Word) -> bool {
    fn simple(s: &Simple) -> bool {
        match s {
            Simple::Lit(s) | Simple::Esc(s) => s.bytes().all(|b| b.is_ascii_digit()),
            Simple::Param(_) | Simple::Subst(_) | Simple::Tick(_) => true,
            _ => false,
        }
    }
    w.0.iter().all(|p| match p {
        Part::S(s) => simple(s),
        Part::Sq(s) => s.bytes().all(|b| b.is_ascii_digit()),
        Part::Dq(v) => v.iter().all(simple),
    })
}
/// the delimiter word of a heredoc with quotes removed, and whether any part of it was quoted
fn unquote(d: Vec<(Tok, Pos)>) -> R<(String, bool)> {
    let mut p = P::sub(d, Pos::start());
    let (mut s, mut quoted) = (String::new(), false);
    while let Some(t) = p.next() {
        let pos = Pos::start();
        match t.k {
            Backslash => {
                quoted = true;
                if let Some(t) = p.next() { s.push_str(&t.t) }
            }
            SingleQuote => {
                quoted = true;
                for (t, _) in p.balanced(Some((SingleQuote, pos)))? { s.push_str(&t.t) }
            }
            DoubleQuote | Backtick => {
                quoted = true;
                let inner: Vec<Tok> = p.balanced(Some((t.k, pos)))?.into_iter().map(|t| t.0).collect();
                let mut text = String::new();
                let mut i = 0;
                while i < inner.len() {
                    let drop = inner[i].k == Backslash
                        && inner.get(i + 1).map_or(false, |n| match n.k {
                            Dollar | Backtick | Backslash => true,
                            DoubleQuote | Newline => t.k == DoubleQuote,
                            _ => false,
                        });
                    if !drop { text.push_str(&inner[i].t) }
                    if inner[i].k == Backslash {
                        i += 1;
                        if i < inner.len() { text.push_str(&inner[i].t) }
                    }
                    i += 1;
                }
                if t.k == Backtick { text = format!("`{}`", text) }
                s.push_str(&text);
            }
            _ => s.push_str(&t.t),
        }
    }
    Ok((s, quoted))
}
