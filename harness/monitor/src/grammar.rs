//! Checks of the properties of the grammar: the real parser against the reference over many texts.
use crate::drive::*;
use crate::run::*;
use crate::texts::*;
use refmodel::gen::*;
use refmodel::rng::Rng;
use refmodel::tree::*;

fn base(r: &mut Rng) -> Prof {
    let mut p = Prof::base();
    match r.below(6) {
        0 => { p.heredoc = 50; p.redir = 30 }
        1 => p.parts = [10, 6, 6, 6, 8, 8, 6, 5, 10, 10],
        2 => { p.comp = 55; p.func = 10; p.budget = 40; p.depth = 5 }
        _ => {}
    }
    p
}
fn lists(r: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.andor = r.range(20, 70);
    p.pipe = r.range(20, 70);
    p.bang = 25;
    p.amp = 40;
    p.cmds = 5;
    p.comp = 20;
    p.words = 2;
    p.multi = 5;
    p.heredoc = 5;
    p
}
fn compounds(r: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.comp = 70;
    p.func = 15;
    p.io = 25;
    p.words = 2;
    p.multi = 5;
    p.depth = r.range(2, 6);
    p.budget = r.range(10, 40) as i32;
    if r.pct(50) { let k = r.below(6); p.kinds[k] = 6 }
    p
}
fn words(_: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.comp = 10;
    p.words = 4;
    p.multi = 80;
    p.assign = 30;
    p.parts = [30, 12, 14, 12, 16, 10, 6, 3, 3, 3];
    p
}
fn params(_: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.comp = 10;
    p.multi = 50;
    p.heredoc = 25;
    p.redir = 20;
    p.depth = 5;
    p.parts = [12, 3, 2, 3, 14, 30, 40, 3, 4, 4];
    p
}
fn arithmetic(_: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.comp = 8;
    p.cmds = 2;
    p.words = 2;
    p.multi = 20;
    p.heredoc = 10;
    p.parts = [8, 1, 1, 1, 10, 3, 5, 60, 3, 3];
    p
}
fn redirs(r: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.redir = r.range(30, 80);
    p.io = 70;
    p.comp = 35;
    p.assign = 25;
    p.heredoc = 10;
    p
}
fn heredocs(r: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.redir = r.range(30, 80);
    p.io = 50;
    p.heredoc = 85;
    p.pipe = 25;
    p.andor = 25;
    p.parts = [30, 5, 4, 6, 8, 8, 6, 3, 12, 8];
    p
}
fn keywords(_: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.kwarg = 60;
    p.comp = 45;
    p.words = 4;
    p.assign = 25;
    p.redir = 25;
    p
}

pub const LIST_VOC: Voc = &["a", "b", "|", "||", "&&", "!", ";", "&", "\n", "(", ")", "{", "}", ";;"];
pub fn any_prof(r: &mut Rng) -> Prof {
    let f = *r.pick(&[base as fn(&mut Rng) -> Prof, base, lists, compounds, words, params, arithmetic, redirs, heredocs, keywords, commented]);
    f(r)
}
pub fn any_voc(r: &mut Rng) -> Voc { *r.pick(&[LIST_SOUP, COMP_SOUP, WORD_SOUP, PARAM_SOUP, ARITH_SOUP, REDIR_SOUP, NL_SOUP, RES_VOC]) }
const LIST_SOUP: Voc = &["a", "b", "c d", "|", "|", "||", "&&", "&&", "!", ";", "&", "\n", "(", ")", "{", "}", ";;", "a | b", "! a", "a && b", "\\\n", "\n\n", "# c\n",
    "{ a; }", "(a)", "if a; then b; fi", "$(a && b)", "`a | b`", "x=1", ">o", "a;", "b &"];
pub const COMP_VOC: Voc = &["if a;", "then b;", "elif c;", "else d;", "fi", "while a;", "until a;", "do b;", "done", "for x", "in w v;", "in;", ";", "\n", "case w in", "(p|q)", "p)",
    "x;;", "x", ";;", "esac", "f()", "function f", "()", "{", "}", "(", ")", ">o", "a;", "&"];
const COMP_SOUP: Voc = &["if", "then", "elif", "else", "fi", "while", "until", "do", "done", "for", "for x", "in", "case", "case w in", "esac", "function", "f", "()", "f()", "{",
    "}", "(", ")", ";", ";", "\n", "&", ";;", "a", "a;", "b\n", "|", "&&", "!", ">o", "2>&1", "x=1", "p)", "(p", "$(a)", "`b`", "if a; then b; fi", "for x in w; do b; done",
    "case w in (p|q) a;; esac", "while a; do b; done", "{ a; }", "(a)", "# c\n", "<<E\nx\nE\n", "$x", "'q r'", "\"d\"", "case $x in", "*)", "in\n", "do\n", "then\n", "else\n"];
pub const WORD_VOC: Voc = &["a", "'", "\"", "\\", " ", "\n", "#", "=", "*", "?", "[", "]", "~", ":", "$", "`", "{", "}", "x=", "1", "é", "!", "%", ";", "\\\n"];
pub const WORD_SOUP: Voc = &["a", "b", "'", "'x y'", "\"", "\"x y\"", "\"$x\"", "\\", "\\\\", "\\'", "\\\"", "\\ ", "\\\n", "\\$", "\\`", " ", "\t", "\n", "#", "=", "x=", "x=y", "1", "é", "日", "*", "?",
    "[", "]", "[a-z]", "~", ":", "$", "$x", "${y}", "$(c)", "`d`", "{", "}", "!", "%", "@", "^", "/", ",", "+", "-", ".", "\u{1}", "\u{a0}", "\r", ";", "&", "|", "<", ">", "(", ")", "$'", "$\"", "''", "\"\"", "\u{3000}", "_", "A_1", "1x"];
pub const PARAM_VOC: Voc = &["x", "1", "10", "#", "@", "*", "?", "-", "=", "+", "%", ":", "!", "$", " ", "a", "\"", "'", "/", "\n", "`a`", "${y}", "\\", "}", "{"];
const PARAM_SOUP: Voc = &["$x", "$1", "$10", "$", "$$", "$#", "$@", "$*", "$?", "$-", "$!", "$0", "${", "${x", "${1", "${10", "${#", "${@", "${*", "${?", "${-", "${$", "${!", "}", "}", "}", ":-", "-", ":=", "=", ":?",
    "?", ":+", "+", "%", "%%", "#", "##", ":", "a", "b c", "\"", "'", "'q}'", "\"d}\"", "\\}", "\\", "`t`", "$(c)", "$((1))", " ", "\n", "é", "{", "/", "x", "_", "~", "*", "\\\n", "(", ")", "&", "|", ";", "#x", "[", "]", "!", "$%", "9", "99"];
pub const PARAM_WRAPS: &[(&str, &str)] = &[("${", "}"), ("a\"${", "}\"b"), ("c <<E\n${", "}\nE\n")];
const DOLLAR_WRAPS: &[(&str, &str)] = &[("$", ""), ("\"$", "\""), ("c <<E\n$", "\nE\n"), ("${x:-$", "}"), ("`$", "`")];
pub const ARITH_VOC: Voc = &["x", "1", "0x1f", "010", "$y", "+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", "==", "!=", "&", "^", "|", "&&", "||", "?", ":", "=", "+=", "<<=", "++", "--", "!", "~", "(", ")", ","];
const ARITH_SOUP: Voc = &["x", "x", "y", "1", "2", "3", "0", "0x1f", "0X1F", "0xg", "010", "08", "0", "1x", "$y", "${z}", "$1", "$$", "9223372036854775807", "9223372036854775808", "é", "+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=",
    ">", ">=", "==", "!=", "&", "^", "|", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|=", "++", "--", "!", "~", "(", ")", ",", " ", "\n", "\\\n", "\t", "x++", "--x", "x ? y : 1", "x = 1", "#", ";", "'", "\""];
pub const ARITH_WRAPS: &[(&str, &str)] = &[("$((", "))"), ("\"$((", "))\""), ("c <<E\n$((", "))\nE\n"), ("$((1 + (", ")))"), ("${x:-$((", "))}"), ("`$((", "))`")];
pub const REDIR_VOC: Voc = &["1", "12", "٣", "65535", "65536", "a", "x=1", ">", "<", ">>", ">|", "<>", ">&", "<&", "-", " ", "\\2", "\"2\"", "$x", "{", "(b)", ";", "é", "\n"];
const REDIR_SOUP: Voc = &["1", "2", "0", "00", "01", "65535", "65536", "99999999999", "a", "x=", "x=1", ">", "<", ">>", ">|", "<>", ">&", "<&", "<<E", "-", " ", " ", "\t", "\\2", "\"2\"", "'1'", "$x", "$1", "${y}", "`c`", "$(c)", "{", "}", "(b)", "{ b; }",
    "f()", "if a; then b; fi", ";", "|", "&&", "&", "\n", "#", "\\\n", "é", "*", "~", "+", "1>", "2>&1", ">&-", "<&2", ">&a", ">&2a", ">&\"2\"", ">&a2", "٣", "１", "²", ">&'٣'", "<&１", "2٣", "½", "\nE\n", "!", "for x in a; do b; done"];
const RES: &[&str] = &["if", "then", "elif", "else", "fi", "do", "done", "case", "esac", "for", "while", "until", "function", "in", "{", "}", "!"];
pub const RES_VOC: Voc = &["if", "then", "elif", "else", "fi", "do", "done", "case", "esac", "for", "while", "until", "function", "in", "{", "}", "!", "a", ";", "\n", ")", "|", "f()", "x="];
const TEMPLATES: Voc = &[
    "@", "echo @", "@ a", "a; @", "a && @", "a || @ b", "a | @", "! @", "!@", "a & @", "a\n@", "{ @; }", "{ a; @ }", "{ a; @; }", "{ @ a; }", "{@ a; }", "( @ )", "(@)", "(a; @)", "(a;@ b)",
    "if @; then b; fi", "if @ a; then b; fi", "if a; then @; fi", "if a; then @ b; fi", "if a; @ b; fi", "if a\n@ b; fi", "if a; then b; @ c; fi", "if a; then b; @ c; then d; fi", "if a; then b; @", "if a; then b\n@",
    "if a; then b; else c; @", "if a; then b; else @; fi", "if a @; then b; fi", "if a; then b @; fi", "if (a) @ b; fi", "if a; then (b) @", "if a; then b & @", "@ a; then b; fi", "@ a; do b; done",
    "while @; do b; done", "while a; @ b; done", "while a\n@ b; done", "while a; do b; @", "while a; do b\n@", "while a; do @; done", "while a; do @ b; done", "while a; do b; done @", "until a; @ b; done", "until @; do a; done",
    "for @ in a; do b; done", "for x @ a; do b; done", "for x in @; do b; done", "for x in @ a; do b; done", "for x in a @ b\ndo c; done", "for x in a; @ b; done", "for x in a\n@ b; done", "for x @ b; done", "for x; @ b; done",
    "for x\n@ b; done", "for x\n@ a\ndo b; done", "for x in a; do b; @", "for @; do b; done", "for @ do b; done", "for x in\n@ b; done", "for x in; @ b; done", "@ x in a; do b; done",
    "case @ in a) b;; esac", "case a @ b) c;; esac", "case a\n@ b) c;; esac", "case a in @) b;; esac", "case a in (@) b;; esac", "case a in (@|x) b;; esac", "case a in @|x) b;; esac", "case a in x|@) b;; esac", "case a in x | @ ) b;; esac",
    "case a in @", "case a in\n@", "case a in b) @;; esac", "case a in b) @ c;; esac", "case a in b) c; @", "case a in b) c;; @", "case a in b) c;;\n@", "case a in b) @", "case a in b)\n@", "case a in b) c @;; esac", "case a in b) c;; @) d;; esac", "@ a in b) c;; esac",
    "x=@", "x=@ a", "x=1 @", "x=1 @ a", "x= @", ">@", "> @ a", ">o @", ">o @ b; done", "a >@ b", "a > @", "a <<@\nx\n@\nb", "2>@", "a >&@", "x=1 >o @", "@ >o", "@<i a; then b; fi",
    "@() { a; }", "@ () (a)", "function @ { a; }", "function @ () { a; }", "function @ (a)", "function @", "f() @", "f() @ a; }", "f()@ a; }", "f() { a; @", "f() { @; }", "f()\n@ a; }", "f() @ a; then b; fi", "f() @ a; do b; done", "f() @ x in a; do b; done", "@ f { a; }", "@ f() { a; }",
    "$(@)", "$(@ a)", "`@`", "`@ a`", "\"$(@ a)\"", "\"`@`\"", "${x:-@}", "$((@))", "$(a; @)", "@=1", "a @=1", "@>o a", "@#x", "@ #x", "@;", "@&", "@&&b", "@||b", "@|b", "@\na", "@(", "@)", "@(a)", "# @", "a # @\n@",
    "a \\\n@", "\\\n@ a", "a; \\\n@", "@\\\n", "@\\\nx", "@\\\n a", "{ a; }@", "{ a; } @", "(a) @", "(a)@", "(a); @", "{ a; }; @", "if(a)@", "{ a; }&@", "a|@ b; }", "a&&@ b; }", "a||\n@ b; }", "a|\n@ a; then b; fi", "! @ a; then b; fi", "! ! @", "! @ !", "@ @", "@ @ @", "@;@", "@\n@", "@ a; @ b; @",
    "a @ b; @ c", "\"@\"", "'@'", "$@", "${@}", "@$x", "$x@", "@'x'", "@*", "*@", "~@", "@~", "@:", ":@", "[@]", "@\"\"", "''@", "a<<E @\nx\nE\n", "<<E @ a; }\nx\nE\n", "a<<E\n@\nE\n@ a; }",
];
fn res_variants(k: &str) -> Vec<String> {
    let first = &k[..1];
    let rest = &k[1..];
    let last = &k[k.len() - 1..];
    let init = &k[..k.len() - 1];
    vec![k.into(), format!("\\{}", k), format!("'{}'", k), format!("\"{}\"", k), format!("{}'{}'", init, last), format!("\"{}\"{}", first, rest), format!("{}\\{}", init, last),
        format!("{}x", k), format!("x{}", k), format!("{}{}", k, k), format!("{}\"\"", k), format!("''{}", k), format!("{}1", k), format!("{}$x", k), format!("{}=", k), format!("{}-", k),
        format!("{}\\\n{}", init, last), format!("${{{}}}", k), k.to_uppercase(), format!("{} ", k), format!("{}*", k), format!("{}:", k)]
}
pub const NL_VOC: Voc = &["a", "#c", "# d\n", "\n", ";", "&", "|", "&&", "(", ")", "{", "}", "if", "then", "fi", "for x", "in w", "do", "done", "case w", "in", "p)", ";;", "esac", "while", "f()"];
const NL_INS: Voc = &["#c\n", " #c\n", "\n", "#", " # it's\n", "\n\n#x\n", "\n# a\n# b\n\n", " #\n", ";#c\n", "\\\n", "\\\n#c\n", " \\\n #c\n", "\t#\tc \\\n", "#c", "# é\n"];
const NL_SOUP: Voc = &["a", "#c\n", "# d e\n", "#", "\n", "\n", ";", "&", "|", "&&", "||", "(", ")", "{", "}", "if", "then", "else", "elif", "fi", "for x", "in w", "in", "do", "done", "case w in", "case w", "p)", "(p)", ";;", "esac", "while", "until", "f()", "function f",
    "$(", "`", "\"#c\"", "x#c", "'#'", "\\#", "${x#p}", "$#", "x=#c", "x=", ">#c", "> #c\n", "<<E #c\nx\nE\n", "$((1))", "\\\n", "a #c\n", "a; #c\n", "a & #c\n", "a && #c\n", "a | #c\n"];
fn commented(_: &mut Rng) -> Prof {
    let mut p = Prof::base();
    p.comp = 45;
    p.func = 10;
    p.words = 2;
    p.heredoc = 6;
    p
}

// heredocs: operator line × body × end
const HD_OPS: Voc = &["c <<E", "c <<-E", "c << E", "c <<'E'", "c <<\"E\"", "c <<\\E", "c <<-'E'", "c <<E''", "<<E c", "c 3<<E", "c <<E <<F", "c <<F <<E", "c <<-E <<'F'", "{ c; } <<E", "(c <<E)", "{ c <<E", "$(c <<E", "c <<\"E F\"", "c <<$x", "c <<E$", "c <<`E`",
    "c <<${x}", "c <<$(E)", "c <<E\\\nF", "if c <<E", "c <<E | d <<F", "c <<E && d <<F", "x=1 <<E", "c <<E; d <<F", "c <<é", "c <<-\tE", "c <<'E", "c <<", "c <<-", "c <<''", "`c <<E", "c <<1", "c <<E*", "c <<~", "c <<{}"];
const HD_TAILS: Voc = &["\n", " d\n", "; d\n", " | d\n", " && d\n", " # it's\n", " \\\nd\n", ")\n", "; }\n", "; then d\n", "", " &\n", " >o\n", " 'q\n'\n", " \"q\nr\"\n", "&& \n", " (\n", " $(d\ne)\n", " `d`\n", "\n\n", "`\n", " $(d <<G\nz\nG\n)\n", " ${x:-y\n}\n", " \"\n"];
const HD_BODIES: Voc = &["", "x\n", "x $y\n", "\tx\n", "\\\n", "x\\\ny\n", "E \n", " E\n", "\tE\n", "x\nE", "`d`\n", "$(d\n)\n", "\\$x \\` \\\\ \\a\n", "it's \"q\"\n", "\n\n", "${x:-y\n}\n", "$((1))\n", "F\n", "x\\\nE\n", "E\\\n", "EE\n", "\\", "\\E\n", "# c\n", "é\n\t\té\n", "$\n", "${", "`", "$(", "\\\tE\n", "\t\\\n\tE\n", "a\\\\\nE\n", "'\n", "${x}E\n", "\r\n", "E\r\n", "$(d <<E\nz\nE\n)\n", "<<E\n", "  \t E\n", "E F\n", "E\\\nE\n"];
const HD_ENDS: Voc = &["E\n", "E", "\tE\n", "E\nd\n", "", "E\nx\nF\n", "F\nx\nE\n", "E\n)\n", "E\n; }\n", "E\n\n\nd\n", "E\nfi\n", "E\nF\ng", "E\\\n", "$x\n", "E F\nd\n"];

fn dims(d: &[usize], mut i: u64) -> Vec<usize> {
    d.iter().map(|n| { let k = (i % *n as u64) as usize; i /= *n as u64; k }).collect()
}
fn product(d: &[usize]) -> u64 { d.iter().map(|n| *n as u64).product() }
type Build = Box<dyn Fn(&[usize]) -> String + Send + Sync>;
fn grid(name: &'static str, d: Vec<usize>, build: Build, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream { name, n: product(&d), exhaustive: true, f: Box::new(move |ctx, i| see(ctx, &build(&dims(&d, i)), or, nt)) }
}
fn hd_case(k: &[usize]) -> String { format!("{}{}{}{}", HD_OPS[k[0]], HD_TAILS[k[1]], HD_BODIES[k[2]], HD_ENDS[k[3]]) }
pub fn hd_soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let wrap = *r.pick(&[("", ""), ("(", ")"), ("{ ", "\n}"), ("if ", "\nthen a; fi"), ("x $(", "\n) y"), ("f() {\n", "\n}"), ("case a in b) ", ";;\nesac"), ("a | ", ""), ("while a; do ", "\ndone\nb"), ("`", "\n`"), ("\"$(", "\n)\""), ("for x in $(", "\n); do b; done"), ("! ", "\nz"), ("{ ", "\n} | d\ne"), ("$(", "\n) <<E\nq\nE\n")]);
    s.push_str(wrap.0);
    for _ in 0..r.range(1, 3) {
        s.push_str(*r.pick(HD_OPS));
        let n = r.range(0, 2);
        for _ in 0..n { s.push_str(*r.pick(&[" <<E", " <<-E", " <<'E'", " <<F", " >o", " d", " <<-\"F\"", " 3<<E"])) }
        s.push_str(*r.pick(HD_TAILS));
        for _ in 0..r.range(0, 3) {
            for _ in 0..r.range(0, 3) { s.push_str(*r.pick(HD_BODIES)) }
            s.push_str(*r.pick(HD_ENDS));
        }
        if r.pct(30) { s.push_str(*r.pick(&["\n", "d\n", ";", " # c\n", "\n\n"])) }
    }
    s.push_str(wrap.1);
    s
}
fn texts(name: &'static str, tag: u64, n: u64, build: fn(&mut Rng) -> String, or: Oracle, nt: fn(&str, &Run) -> bool) -> Stream {
    Stream { name, n, exhaustive: false, f: Box::new(move |ctx, i| { let mut r = Rng::of(&[ctx.seed, tag, i]); let s = build(&mut r); see(ctx, &s, or, nt) }) }
}
fn everything(tag: u64, n: u64, or: Oracle) -> Stream { texts("texts of all kinds", tag, n, crate::special::anything, or, any) }
fn arith_text(r: &mut Rng) -> String {
    let w = *r.pick(ARITH_WRAPS);
    // alternates operands and operators, so that long expressions are accepted often
    let mut s = String::from(w.0);
    let mut depth = 0;
    const OPERAND: Voc = &["x", "y", "1", "2", "0x1F", "017", "$z", "x++", "--y", "-1", "!x", "~ 2", "- -x", "x--", "+y", "${w}", "$5"];
    const OPERATOR: Voc = &["+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|=", ","];
    let narrow = r.pct(60);
    let keep: Vec<&str> = (0..4).map(|_| *r.pick(OPERATOR)).collect();
    let mut ternaries = 0;
    for _ in 0..r.range(2, 9) {
        if r.pct(15) { s.push('('); depth += 1 }
        s.push_str(*r.pick(OPERAND));
        if depth > 0 && r.pct(30) { s.push(')'); depth -= 1 }
        if r.pct(50) { s.push_str(*r.pick(&[" ", " ", "\n", "\\\n", "\t"])) }
        let mut op = if narrow { *r.pick(&keep) } else { *r.pick(OPERATOR) };
        if ternaries > 0 && r.pct(50) { op = ":"; ternaries -= 1 } else if op == "?" { ternaries += 1 }
        s.push_str(op);
        if r.pct(50) { s.push(' ') }
    }
    s.push_str(*r.pick(OPERAND));
    for _ in 0..ternaries { s.push_str(" : 4") }
    for _ in 0..depth { s.push(')') }
    if r.pct(3) { s.push_str(*r.pick(OPERATOR)) }
    s.push_str(w.1);
    s
}
fn comment_case(ctx: &mut Ctx, i: u64, or: Oracle) -> Result<(), Fail> {
    let mut r = Rng::of(&[ctx.seed, 0xC0, i]);
    let p = commented(&mut r);
    let mut lay = Lay::random(&mut r);
    lay.comment = r.range(20, 80);
    lay.nl = r.range(20, 90);
    let n = r.range(1, 3);
    let cmds = Tg::new(&mut r, &p).program(n);
    let c = render(&cmds, &mut r, &lay);
    // all comments of the text, in order, as the generator wrote them
    let mut truth = Comments(vec![]);
    let mut t = c.cmds.clone();
    t.map(&mut truth);
    truth.0.extend(c.trail.iter().cloned());
    let want = reference(&c.text);
    let mut got = Comments(vec![]);
    let mut g = want.cmds.clone();
    g.map(&mut got);
    got.0.extend(want.end.clone().unwrap_or_default());
    ctx.count(if got.0 == truth.0 { "generated programs judged by construction" } else { "generated programs judged by the reference only" }, 1);
    ctx.count("comments and newlines", got.0.len() as u64);
    see(ctx, &c.text, or, accepted)
}

/// a delimiter, a body in which every reading of it stands on a line, and the reading which ends it
const HD_CONTEXTS: Voc = &["a <<@\n$x\n@\nE\n", "a <<@\n\\$x\nE'\n\"E\nEE\nE\n\n", "a <<-@ b\n\t$x\n\t@\n\tE\n", "a <<@"];

pub fn check(o: &Opts) -> Option<Check> {
    let t = o.thorough;
    let k = if t { 12 } else { 1 };
    let or: Oracle = match &o.id[..] { "C14" => full_oracle, _ => tree_oracle };
    let len = |quick: usize, thorough: usize| if t { thorough } else { quick };
    let s = |name, voc, l, join, wraps| seqs(Seqs { name, voc, len: l, join, wraps }, or, any);
    let mut v = vec![];
    let (id, rule, require): (&'static str, &'static str, &'static [&'static str]) = match &o.id[..] {
        "C05" => {
            v.push(s("operator sequences", LIST_VOC, len(5, 6), &[" ", ""], BARE));
            v.push(soups("longer operator sequences", 51, 60_000 * k, LIST_SOUP, 4, 25, &[("", ""), ("{ ", "\n}"), ("(", ")"), ("$(", ")"), ("if ", "\nthen a; fi"), ("f() {\n", "}")], or, any));
            v.push(trees("programs of lists and pipelines", 52, 20_000 * k, lists, or));
            v.push(trees("programs of all kinds", 53, 10_000 * k, base, or));
            v.push(mutants("edited programs", 54, 30_000 * k, lists, or, any));
            v.push(long_lists("l", t, or, any));
            v.push(deep_nests("l", t, or, any));
            v.push(stretched("programs with long parts", 55, 6_000 * k, lists, or, any));
            v.push(neighbours2("small programs with a few edits", 57, 60_000 * k, or, any));
            v.push(everything(59, 20_000 * k, or));
            ("C05", "texts built from commands, operators, separators and groups (all sequences up to a length, random longer ones, generated programs, edited programs); non-trivial: distinct non-empty text", &["accepted", "rejected: Unexpected", "rejected: end of input", "generated programs judged by construction"])
        }
        "C06" => {
            v.push(s("sequences of construct pieces", COMP_VOC, len(4, 5), &[" "], BARE));
            v.push(s("sequences of construct pieces, tight", COMP_VOC, len(3, 4), &["", "\n", "\\\n"], BARE));
            v.push(soups("longer sequences of construct pieces", 61, 60_000 * k, COMP_SOUP, 4, 30, &[("", ""), ("{ ", "\n}"), ("(", ")"), ("$(", ")"), ("if ", "\nthen a; fi"), ("f() ", ""), ("case a in b) ", ";; esac"), ("while a; do ", " done")], or, any));
            v.push(neighbours("all single edits of small programs", POOL, or, any));
            v.push(trees("programs of compound commands", 62, 25_000 * k, compounds, or));
            v.push(trees("programs of all kinds", 63, 10_000 * k, base, or));
            v.push(mutants("edited programs", 64, 30_000 * k, compounds, or, any));
            v.push(long_lists("c", t, or, any));
            v.push(deep_nests("c", t, or, any));
            v.push(every_char("every character in context", &["case @ in x@) @;; esac; for x in @; do a@; done"], 16, or, any));
            v.push(stretched("programs with long parts", 65, 6_000 * k, compounds, or, any));
            v.push(neighbours2("small programs with a few edits", 67, 60_000 * k, or, any));
            v.push(everything(69, 20_000 * k, or));
            ("C06", "texts built from pieces of compound commands and functions; non-trivial: distinct non-empty text", &["accepted", "rejected: Unexpected", "rejected: Incomplete", "generated programs judged by construction"])
        }
        "C07" => {
            v.push(s("sequences of word pieces", WORD_VOC, len(4, 5), &[""], BARE));
            v.push(s("sequences of word pieces in context", WORD_VOC, len(3, 4), &[""], &[("e ", ""), ("x=", " e"), ("e \"", "\""), ("e '", "'"), ("e a", "b"), ("e >", ""), ("x=a:", ""), ("for x in ", "; do a; done"), ("case ", " in (a) b;; esac"), ("case a in ", ") b;; esac"), ("${x:-", "}"), ("\"${x#", "}\"")]));
            v.push(soups("longer sequences of word pieces", 71, 90_000 * k, WORD_SOUP, 3, 16, &[("", ""), ("e ", ""), ("x=", ""), ("\"", "\""), ("'", "'"), ("e >", " a"), ("`e ", "`"), ("$(e ", ")"), ("\"$(e ", ")\"")], or, any));
            v.push(trees("programs with rich words", 72, 25_000 * k, words, or));
            v.push(trees("programs of all kinds", 73, 10_000 * k, base, or));
            v.push(mutants("edited programs", 74, 30_000 * k, words, or, any));
            v.push(long_lists("w", t, or, any));
            v.push(deep_nests("w", t, or, any));
            v.push(spelled("words spelled character by character", &["a", "'", "\"", "\\", "$", "`", "#", " ", "=", "\n", "{", "~"], len(4, 5), &["@", "a \"@\" b"], or, any));
            v.push(numbers(&["@", "a @ x@ @x", "@=1 x=@", "'@' \"@\" \\@"], or, any));
            v.push(every_char("every character in context", &["a @ x@y @", "a '@' \"@\" \\@ \"\\@\"", "@x @=y x@=z @"], 16, or, any));
            v.push(stretched("programs with long parts", 75, 6_000 * k, words, or, any));
            v.push(everything(79, 20_000 * k, or));
            ("C07", "texts built from quotes, escapes, globs, assignments and other word pieces; non-trivial: distinct non-empty text", &["accepted", "rejected: Unmatched", "generated programs judged by construction"])
        }
        "C08" => {
            v.push(s("contents of ${ }", PARAM_VOC, len(4, 4), &[""], if t { PARAM_WRAPS } else { &PARAM_WRAPS[..1] }));
            v.push(s("short contents of ${ } in context", PARAM_VOC, 3, &[""], &[("a\"${", "}\"b"), ("c <<E\n${", "}\nE\n"), ("x=${", "}"), ("${x:-${", "}}"), ("`a ${", "}`"), ("$(a ${", "})"), ("\"`a ${", "}`\""), ("a ${x", "}"), ("\"${#", "}\""), ("a ${", ""), ("a ${@", "}b")]));
            v.push(s("what follows $", PARAM_VOC, 3, &[""], DOLLAR_WRAPS));
            v.push(soups("longer sequences of expansions", 81, 90_000 * k, PARAM_SOUP, 2, 14, &[("", ""), ("\"", "\""), ("c <<E\n", "\nE\n"), ("${x:-", "}"), ("`e ", "`"), ("$(e ", ")"), ("x=", ""), ("\"${y%", "}\""), ("c <<E\n${x=", "}\nE\n")], or, any));
            v.push(trees("programs with many expansions", 82, 25_000 * k, params, or));
            v.push(mutants("edited programs", 83, 40_000 * k, params, or, any));
            v.push(long_lists("p", t, or, any));
            v.push(deep_nests("p", t, or, any));
            v.push(numbers(&["a ${@}", "a $@", "a \"${@:-@}$@\" ${#@} ${x:@}", "a `echo \\$@ ${@}`", "a <<E\n$@ ${@}\nE\n", "a ${x@}", "a ${@x} ${#@#@}"], or, any));
            v.push(spelled("everything spelled within ${ }", &["#", "@", "0", "1", "9", ":", "-", "?", "x", "é", "%"], len(4, 5), &["a ${@}", "\"$@\"", "a ${@"], or, any));
            v.push(every_char("every character in context", &["a $@ ${x:-@}", "a ${@}"], 1, or, any));
            v.push(stretched("programs with long parts", 85, 6_000 * k, params, or, any));
            v.push(everything(89, 20_000 * k, or));
            ("C08", "texts built from parameter expansions, bare, in double quotes, in heredocs and nested; non-trivial: distinct non-empty text", &["accepted", "rejected: BadSubst", "rejected: Unmatched", "generated programs judged by construction"])
        }
        "C09" => {
            v.push(s("expressions", ARITH_VOC, len(4, 4), &[" "], if t { &ARITH_WRAPS[..3] } else { &ARITH_WRAPS[..1] }));
            v.push(s("expressions written tightly", ARITH_VOC, len(3, 4), &[""], &ARITH_WRAPS[..1]));
            v.push(s("short expressions in context", ARITH_VOC, 2, &[" ", "", "\\\n"], ARITH_WRAPS));
            v.push(texts("longer expressions", 91, 150_000 * k, arith_text, or, accepted));
            v.push(soups("random expressions", 92, 60_000 * k, ARITH_SOUP, 3, 14, ARITH_WRAPS, or, any));
            v.push(trees("programs with many expressions", 93, 25_000 * k, arithmetic, or));
            v.push(mutants("edited programs", 94, 30_000 * k, arithmetic, or, any));
            v.push(long_lists("a", t, or, any));
            v.push(deep_nests("a", t, or, any));
            v.push(numbers(&["a $((@))", "a $((x+@))", "a $((-@ * @))", "a \"$((@?@:@))\"", "a `echo $((x=@))`", "a $((x@))", "a $(($@ + @))"], or, any));
            v.push(spelled("numbers spelled out", &["0", "1", "7", "8", "9", "a", "F", "g", "x", "X"], len(5, 6), &["a $((@))"], or, any));
            v.push(every_char("every character in context", &["a $((x@))", "a $((1 @ 2))"], 1, or, any));
            v.push(stretched("programs with long parts", 95, 6_000 * k, arithmetic, or, any));
            v.push(everything(99, 20_000 * k, or));
            ("C09", "arithmetic expressions (all token sequences up to a length, long random ones, generated ones) bare, quoted, in heredocs and nested; non-trivial: distinct text", &["accepted", "rejected: Unexpected", "rejected: end of input", "generated programs judged by construction"])
        }
        "C10" => {
            v.push(s("sequences of redirection pieces", REDIR_VOC, len(4, 5), &[""], BARE));
            v.push(s("sequences of redirection pieces in context", REDIR_VOC, len(3, 4), &["", " "], &[("a ", ""), ("(b)", ""), ("{ b; } ", ""), ("a 2>", ""), ("f() (b) ", ""), ("if a; then b; fi ", "; c")]));
            v.push(soups("longer sequences of redirections", 101, 90_000 * k, REDIR_SOUP, 3, 16, &[("", ""), ("a ", ""), ("{ ", "; }"), ("(", ")"), ("$(", ")"), ("`", "`"), ("x=1 ", " a")], or, any));
            v.push(trees("programs with many redirections", 102, 25_000 * k, redirs, or));
            v.push(mutants("edited programs", 103, 40_000 * k, redirs, or, any));
            v.push(long_lists("r", t, or, any));
            v.push(numbers(&["a @>f", "@>f a", "a <&@", "a @>&@ b", "{ a; } @>>f", "@<<E\nb\nE\n", "a x@>f", "a @ >f", "a @x>f", "a '@'>f", "a >&'@' <&\"@\" >&x@", "a @\\\n>f"], or, any));
            v.push(spelled("descriptors spelled out", &["0", "1", "6", "5", "9", "+", "-", "x", "'1'", "\\2"], len(4, 5), &["a @>f", "a >&@", "@<<E\nb\nE"], or, any));
            v.push(deep_nests("r", t, or, any));
            v.push(every_char("every character in context", &["a@>o @>@ >&2 b"], 16, or, any));
            v.push(stretched("programs with long parts", 105, 6_000 * k, redirs, or, any));
            v.push(everything(109, 20_000 * k, or));
            ("C10", "texts built from descriptors, operators, targets and the commands they are attached to; non-trivial: distinct non-empty text", &["accepted", "rejected: BadFd", "rejected: Unexpected", "rejected: end of input", "generated programs judged by construction"])
        }
        "C11" => {
            v.push(grid("operator line x body x end", vec![HD_OPS.len(), HD_TAILS.len(), HD_BODIES.len(), HD_ENDS.len()], Box::new(hd_case), or, any));
            v.push(texts("longer sequences of heredocs in context", 111, 120_000 * k, hd_soup, or, any));
            v.push(trees("programs with many heredocs", 112, 30_000 * k, heredocs, or));
            v.push(mutants("edited programs", 113, 40_000 * k, heredocs, or, any));
            v.push(long_lists("h", t, or, any));
            v.push(deep_nests("h", t, or, any));
            v.push(spelled("delimiters spelled character by character", &["E", "'", "\"", "\\", "$", "`", "(", ")", "{", "}", "#", "~", "-"], len(3, 4), HD_CONTEXTS, or, any));
            v.push(spelled("bodies spelled character by character", &["$", "x", "\\", "`", "\"", "'", "{", "}", "(", ")", "\n", "\t", "E", "#"], len(4, 5), &["a <<E\n@\nE\nb", "a <<'E'\n@\nE\nb"], or, any));
            v.push(spelled("bodies of stripped heredocs spelled character by character", &["$", "x", "\\", "`", "\n", "\t", " ", "E", "\r"], len(5, 6), &["a <<-E\n@\nE\nb"], or, any));
            v.push(every_char("every character in context", &["c <<E@ @\n@ $x@\nE@\nd", "c <<-'@E'\n\t@\\@\n\t@E\nd"], 1, or, any));
            v.push(stretched("programs with long parts", 115, 6_000 * k, heredocs, or, any));
            v.push(everything(119, 20_000 * k, or));
            ("C11", "texts built from heredoc operators, rests of their line, bodies and ends, alone and nested in other constructs; non-trivial: distinct text", &["accepted", "rejected: Unmatched", "generated programs judged by construction"])
        }
        "C12" => {
            let vars: Vec<String> = RES.iter().flat_map(|k| res_variants(k)).collect();
            let n = vars.len();
            v.push(grid("reserved words in all positions and spellings", vec![TEMPLATES.len(), n], Box::new(move |k| TEMPLATES[k[0]].replace('@', &vars[k[1]])), or, any));
            let vars: Vec<String> = RES.iter().flat_map(|k| res_variants(k).into_iter().take(9)).collect();
            let n = vars.len();
            v.push(grid("two reserved words", vec![n, n, 12], Box::new(move |k| {
                let (a, b) = (&vars[k[0]], &vars[k[1]]);
                match k[2] {
                    0 => format!("{} {}", a, b), 1 => format!("a; {} b; {} c", a, b), 2 => format!("{}\n{}", a, b), 3 => format!("{} x; {} y", a, b), 4 => format!("for x {} w; {} b; done", a, b),
                    5 => format!("case w {} p) a;; {}", a, b), 6 => format!("if a; {} b; {}", a, b), 7 => format!("while a; {} b; {}", a, b), 8 => format!("{} a; }} {} b", a, b), 9 => format!("({}) {}", a, b),
                    10 => format!("x=1 {} >o {}", a, b), _ => format!("f() {} a; {}", a, b),
                }
            }), or, any));
            v.push(s("sequences of reserved words", RES_VOC, len(4, 5), &[" "], BARE));
            v.push(s("sequences of reserved words, tight", RES_VOC, len(3, 4), &["", "\\\n", ";"], BARE));
            v.push(soups("longer sequences of reserved words", 121, 60_000 * k, COMP_SOUP, 4, 25, BARE, or, any));
            v.push(trees("programs using reserved words as words", 122, 20_000 * k, keywords, or));
            v.push(mutants("edited programs", 123, 30_000 * k, keywords, or, any));
            v.push(long_lists("k", t, or, any));
            v.push(deep_nests("k", t, or, any));
            v.push(every_char("every character in context", &["if@ a; @then b; {@ c; @} d; !@ e"], 16, or, any));
            v.push(stretched("programs with long parts", 125, 6_000 * k, keywords, or, any));
            v.push(neighbours2("small programs with a few edits", 127, 60_000 * k, or, any));
            v.push(everything(129, 20_000 * k, or));
            ("C12", "every reserved word in 22 spellings (plain, quoted, escaped, extended...) in every position of 230 templates, all pairs in 12 templates, sequences, programs; non-trivial: distinct text", &["accepted", "rejected: Unexpected", "rejected: Incomplete", "generated programs judged by construction"])
        }
        "C14" => {
            v.push(s("sequences of comments, newlines and tokens", NL_VOC, len(4, 5), &[" "], BARE));
            v.push(s("sequences of comments, newlines and tokens, tight", NL_VOC, len(3, 4), &["", "\n", ";"], BARE));
            v.push(soups("longer sequences", 141, 90_000 * k, NL_SOUP, 4, 25, &[("", ""), ("{ ", "\n}"), ("(", ")"), ("$(", "\n)"), ("if ", "\nthen a; fi"), ("f() {\n", "}"), ("`", "\n`"), ("case a in\n", "\nesac"), ("for x ", "\ndone")], or, any));
            v.push(Stream { name: "programs with many comments", n: 25_000 * k, exhaustive: false, f: Box::new(move |ctx, i| comment_case(ctx, i, or)) });
            v.push(insertions("comments and newlines at every boundary", 142, 6_000 * k, commented, NL_INS, or, any));
            v.push(long_lists("n", t, or, any));
            v.push(deep_nests("n", t, or, any));
            v.push(spelled("comments spelled character by character", &["#", "a", " ", "\n", ";", "\\", "'", "\"", "\t", "&"], len(5, 6), &["@"], or, any));
            v.push(spelled("comments in constructs, spelled character by character", &["#", "a", " ", "\n", ";", "\\", "|"], len(4, 5), &["{ a @\n}", "if a; then b @\nfi", "a | @\nb", "for x @\ndo a; done", "case a in @\nb) c @\n;; @\nesac", "f() @\n(a)", "$(@\n)", "`@\n`"], or, any));
            v.push(every_char("every character in context", &["#@ b@\na # @\nx@#y @#z"], 16, or, any));
            v.push(stretched("programs with long parts", 145, 6_000 * k, commented, or, any));
            v.push(neighbours2("small programs with a few edits", 147, 60_000 * k, or, any));
            v.push(everything(149, 20_000 * k, or));
            ("C14", "texts with comments and newlines in all places; non-trivial: distinct non-empty text", &["accepted", "comments and newlines", "generated programs judged by construction"])
        }
        _ => return None,
    };
    Some(Check { id, streams: v, oracle: Some(or), rule, require })
}
