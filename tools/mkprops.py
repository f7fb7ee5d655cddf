#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],
                 "observe_at":observe,"hook_needed":None}})
LEX,PAR,IT,BLD,DEF,EMP,AST,TOK="src/lexer.rs","src/parse.rs","src/parse/iter.rs","src/ast/builder.rs","src/ast/builder/default_builder.rs","src/ast/builder/empty_builder.rs","src/ast.rs","src/token.rs"
p("C01","Every input ends in a result: no crash, no hang",
 "For any sequence of characters, and for any sequence of tokens supplied by a custom tokenizer, every public lexing and parsing operation finishes and returns either a value or a structured error. It never panics, never aborts the process (for nesting depths that fit the stack), and never loops without making progress. This also holds when a caller keeps calling the parser after an error, and the work and memory used stay bounded by a small polynomial of the input's length.",
 ["inputs","histories"],"all strings and token sequences (hostile, truncated, mutated, unicode), all public entry points in any order, also after errors",
 "Tests parse a few hundred well-chosen snippets; peeking/rewinding, heredoc and backtick buffering create input shapes (EOF right after a backslash, closer without opener, half a heredoc) which none of them reaches.",
 [LEX,PAR,IT],[("unreachable!/unwrap sites that rely on a previous peek","src/parse.rs word_interpolated_raw, redirect_heredoc"),("Fuse and done flags","src/parse/iter.rs")],["return value of each public call","process exit","allocation counter","per-call CPU time"])
p("C02","Lexing loses nothing",
 "For any input, concatenating the text of the tokens the lexer yields, in order, gives back exactly the input characters. No token is empty, and the token count never exceeds the character count.",
 ["inputs"],"all unicode strings","Unit tests lex single tokens and a few pairs; losslessness must hold for every combination, at every chunk boundary and at end of input.",
 [LEX,TOK],[("peeked token buffer","src/lexer.rs Lexer::next"),("Token::as_str","src/token.rs")],["tokens yielded by the lexer"])
p("C03","Token boundaries and kinds are those of the shell language",
 "The lexer splits any text into the longest shell operators, names, literals, blanks and newlines: `<<-`, `&&`, `;;`, `>|` and the like are single tokens, a name starts with a letter or `_` and ends before the first character that is not a letter, digit or `_`, a run of blanks is one token and never includes a newline, and `$` followed by one digit is a positional parameter. A character following a backslash is always a token of its own, so it never combines with what comes after it.",
 ["inputs"],"all unicode strings","Tests cover each operator alone and with one neighbour; the rule has to hold for every adjacency and every escape.",
 [LEX,TOK],[("one character look-ahead per operator","src/lexer.rs next_internal"),("escape handling","src/lexer.rs Escaped")],["tokens yielded by the lexer"])
p("C04","Lexer and command streams honour the iterator contract",
 "At every point of an iteration, the size bounds reported by the lexer bracket the number of tokens still to come; once the stream has ended it stays ended and the underlying character source is not polled again. A cloned lexer yields exactly the remaining tokens and does not influence the original, and the lexer never reads its source more than one character past the end of the token following the one it returned.",
 ["inputs","histories"],"all strings x all points of the iteration","Tests collect whole token vectors; they never look at bounds, clones, read-ahead or at what happens after the end.",
 [LEX,PAR],[("size_hint","src/lexer.rs"),("Fuse + peeked","src/lexer.rs"),("ParserIterator","src/parse.rs")],["size_hint","calls made on the source iterator","tokens yielded"])
p("C05","Command lists, pipelines and separators are grouped as written",
 "A program made of commands joined by `&&`, `||`, `|`, `!`, `;`, `&` and newlines is parsed into exactly those commands in source order: `|` binds tighter than `!`, which binds tighter than `&&`/`||`, which are left-associative with equal precedence, and all bind tighter than separators. Each command is reported with the separator which ended it, so that exactly the ones followed by `&` are background jobs, and operator sequences which leave an operand missing are rejected.",
 ["programs"],"all operator/command sequences","Tests sample a handful of two- and three-command combinations; grouping is a property of all sequences.",
 [PAR,BLD],[("and_or_list/pipeline/complete_command","src/parse.rs")],["builder calls","default AST"])
p("C06","Compound commands and functions keep their exact structure",
 "`if`/`elif`/`else`, `while`, `until`, `for`, `case`, brace groups, subshells and function definitions, nested in any way, are parsed into the construct as written: every guard, body, branch, loop word list (absent versus empty), case arm, pattern alternative and trailing redirect ends up in its own place and in order. Optional syntax (`(` before a pattern, a missing final `;;`, `function` with or without `()`, newline versus `;` before `do`) does not change the result.",
 ["programs"],"all nestings of compound commands","Tests parse each compound with simple one-word bodies; combinations, nesting and optional syntax multiply beyond them.",
 [PAR,BLD],[("command_group delimiters","src/parse.rs command_group_internal"),("compound parsers","src/parse.rs")],["builder calls","default AST"])
p("C07","Words keep exactly the text and quoting of the source",
 "Splitting a command into words and parsing a word preserves every character of it: literals, escapes, single- and double-quoted sections, glob characters, tildes and colons come out in order with their quoting kind and exact text, including unicode and control characters. Word boundaries are unquoted blanks and operators only; a backslash makes the next character literal (in double quotes only before `$`, `` ` ``, `\"`, `\\` and newline), `#` inside a word is literal, and `name=value` is an assignment exactly when it precedes the command name.",
 ["inputs"],"all words, all positions in a command","Tests check single quoting forms; the interaction of fragments, adjacency and positions is combinatorial.",
 [PAR,BLD],[("word_preserve_trailing_whitespace_raw_with_delim","src/parse.rs"),("word_interpolated_raw","src/parse.rs"),("simple_command assignments","src/parse.rs")],["builder word calls"])
p("C08","Parameter expansions and substitutions are parsed exactly",
 "`$x`, `$1`, `${x}`, `${10}`, the special parameters, lengths, and every `${x<op>word}` form with or without `:` are parsed to that parameter, operator, colon flag and word, wherever they occur (bare, in double quotes, in heredocs, nested in each other). `${#}`-like ambiguities resolve as documented, an absent word differs from a present one, text which cannot be a parameter after `$` is a literal `$`, and a malformed substitution is an error.",
 ["inputs"],"all parameters x operators x words x contexts","Tests enumerate forms in one context with trivial words.",
 [PAR,BLD],[("parameter_raw, parameter_substitution_raw","src/parse.rs")],["builder word calls","errors"])
p("C09","Arithmetic expressions follow C precedence and associativity",
 "Inside `$(( ))` every expression is parsed to the tree dictated by C-like precedence and associativity (assignment and `**` and unary to the right, binary operators to the left, then ternary, assignment and comma), whatever the spacing and redundant parentheses. Numeric literals keep their value (decimal, octal, hexadecimal), variables their name with or without `$`, increments their position, compound assignments expand to the plain operation, and incomplete expressions are errors.",
 ["inputs"],"all arithmetic expressions and layouts","Tests list each operator pair once; the guarantee is over all expression trees and printings.",
 [PAR,AST],[("arith_parse! ladder","src/parse.rs")],["Arith substitutions passed to the builder"])
p("C10","Redirections keep operator, descriptor, target and order",
 "Each redirection is reported with the operator written, the file descriptor only if it is an all-digit word in range immediately before the operator, and the full target word; its position relative to words, assignments and other redirections, and whether it belongs to the simple command or the enclosing compound, is preserved. Duplication targets other than `-` or possibly-numeric words, and missing targets, are errors.",
 ["inputs"],"all redirect operators x descriptors x targets x positions","Tests check each operator in one position.",
 [PAR,BLD],[("redirect","src/parse.rs"),("redirect_list","src/parse.rs")],["builder redirect/simple_command calls","errors"])
p("C11","Heredocs deliver exactly their body to the right command",
 "A heredoc's body is exactly the lines following the line of its operator up to the first line equal to the delimiter (or the end of input): verbatim if any part of the delimiter was quoted, otherwise with parameters, substitutions and the escapes of `$`, `` ` ``, `\\` and newline recognized and everything else literal; with `<<-` only leading tabs of each line and of the delimiter line are dropped. Several heredocs pending on one line get their bodies in order, the rest of the operator's line is parsed as if the bodies were not there, and whatever follows the last body is parsed next, also inside compounds, substitutions and pipelines.",
 ["inputs"],"all delimiters, bodies and placements","Tests use fixed small bodies; tokens of the body are captured, re-buffered and re-parsed, which goes wrong only for particular content.",
 [PAR,IT],[("redirect_heredoc saves and replays tokens","src/parse.rs"),("buffer_tokens_to_yield_first","src/parse/iter.rs")],["builder redirect calls","following commands"])
p("C12","Reserved words are special only unquoted and in command position",
 "`if`, `then`, `do`, `done`, `case`, `in`, `esac`, `for`, `while`, `until`, `function`, `{`, `}`, `!` and the rest act as keywords only when they appear as complete unquoted words where a command (or that keyword) is expected. As arguments, redirect targets, loop words, case subjects, assignment values, or with any character quoted, escaped or appended, they are ordinary words and never change the structure.",
 ["inputs"],"all reserved words x positions x quotings","Tests check a few keywords in a few positions.",
 [PAR],[("peek_reserved_word/peek_reserved_token","src/parse.rs")],["builder calls"])
p("C13","Layout does not change meaning",
 "Changing only blanks between tokens, adding an escaped newline before or after a blank, inserting or removing comments and blank lines where newlines are allowed, choosing `;` or newline where both are equivalent, or toggling optional syntax, yields the same commands. Two programs that differ in layout only never produce different trees or a different acceptance decision.",
 ["programs"],"all programs x layout changes","Tests fix one layout per construct.",
 [PAR],[("skip_whitespace, linebreak, newline","src/parse.rs")],["builder calls with comments removed"])
p("C14","Comments and blank lines are delivered exactly once, in order",
 "Every comment and every newline that terminates or precedes a command, in any place where the grammar permits them, is handed to the builder exactly once, attached to the construct it appears in, in source order and with its exact text; none is lost, duplicated or invented. A `#` which does not start a word (or is quoted) never starts a comment, and a comment ends at the first newline whatever it contains.",
 ["programs"],"all programs x comment placements","Tests check comments of each construct separately.",
 [PAR,BLD],[("newline/linebreak vectors passed through each production","src/parse.rs")],["Newline values in builder calls"])
p("C15","The builder is called bottom-up, in source order, exactly once per node",
 "For a successful parse the parser calls the builder once for each construct of the program, after all constructs it contains and in source order, and passes every value the builder returned to exactly one later call or returns it to the caller. No result is dropped, duplicated, reordered or fabricated, and reporting of constructs does not depend on look-ahead.",
 ["programs","histories"],"all programs, custom builders with identity-tracked nodes","Tests use the default builder, where a dropped or duplicated call is invisible if the final AST happens to match.",
 [PAR,BLD],[("each production calls self.builder once","src/parse.rs")],["log of builder calls with node identities"])
p("C16","A builder's error stops the parse and is returned unchanged",
 "If the builder fails at any call, the public operation in progress returns that very error and makes no further builder call, whatever construct, nesting, substitution or heredoc was being parsed; a command iterator yields the error once and then ends.",
 ["fault_sequences"],"every builder call of every program as the point of failure","Tests use builders whose error type is uninhabited; no test ever injects a builder error.",
 [PAR,BLD],[("? on every builder call and From<E> for ParseError","src/parse.rs")],["result of the call","builder call log"])
p("C17","All provided builders and wrappers agree",
 "For any input, the String, Rc and Arc default builders produce the same tree, and the no-op builder, a mutable reference to, a box of, or a trait object of a builder accept, reject, report and consume exactly as the builder itself does. Acceptance, errors and positions never depend on which builder is used.",
 ["inputs","configurations"],"all inputs x all provided builders","Nearly all tests run with one builder only.",
 [BLD,DEF,EMP],[("impl_builder_body!","src/ast/builder.rs"),("default_builder! and arc/rc variants","src/ast/builder/default_builder.rs")],["results and positions per builder"])
p("C18","The default AST is faithful and canonical",
 "The default AST contains exactly the commands, words, parameters, redirects and expressions reported for the source, in the same structure and order, minus comments: background jobs are marked as such, negation and pipelines of more than one command are kept, single commands are not wrapped. Adjacent literal, single-quoted and double-quoted pieces of a word are merged, a multi-part word has at least two parts, and merging never changes text or crosses a quoting boundary.",
 ["inputs"],"all programs","Tests compare ASTs of snippets; merging depends on the exact sequence of pieces.",
 [DEF,AST],[("compress/Coalesce","src/ast/builder/default_builder.rs"),("CoreBuilder methods","src/ast/builder/default_builder.rs")],["default AST vs builder event tree"])
p("C19","Reported source positions are exact",
 "At every point the parser's position equals the byte offset, line and column (1-based, in bytes) of the next unread part of the source, including after heredocs were captured ahead, inside and after backtick substitutions with removed backslashes, after peeking, and for tokens containing newlines. Positions carried by errors identify the actual start of the offending or unmatched text in the original source.",
 ["inputs","histories"],"all inputs, all calls","Position tests exist for single constructs; positions are saved, restored and re-buffered and only drift for particular combinations.",
 [PAR,IT],[("SourcePos::advance","src/parse.rs"),("TokenOrPos buffering","src/parse/iter.rs")],["Parser::pos after each call","positions in errors"],
 [("pos","position of the next token","src/parse/iter.rs TokenIter")])
p("C20","Malformed programs are rejected",
 "A program with an unterminated quote, substitution, group or compound command, a missing keyword, operand, body, pattern or redirect target, a misplaced operator or closer, an invalid function or loop variable name, or a malformed substitution is never accepted: parsing it yields an error, at whatever depth and in whatever context the defect occurs. In particular, cutting any program off while such a construct is still open is always an error.",
 ["programs"],"all single-defect programs and all truncations","Tests list a few malformed snippets per construct, at top level.",
 [PAR],[("error returns of each production","src/parse.rs")],["Ok/Err of the parse"])
p("C21","Errors diagnose the actual problem",
 "For a malformed program the error has the kind, token, keyword names and positions of the first problem in source order: unexpected token versus end of input, the opening delimiter of unmatched text, the construct and keyword missing from an incomplete command, bad descriptor, bad identifier or bad substitution. The same problem gives the same diagnosis in any context, and the rendered message contains the position and the token or names involved.",
 ["inputs"],"all malformed inputs","Tests check one error per construct.",
 [PAR],[("make_unexpected_err and map_err sites","src/parse.rs")],["ParseError values and their Display"])
p("C22","Iterating commands equals parsing them one at a time",
 "Iterating over a parser yields exactly the commands that repeated single-command parsing yields, in order, then at most one error, and then ends for good. Blank or comment-only input yields no commands and no error, and comments after the last command are still reported.",
 ["inputs","histories"],"all inputs","One test iterates two snippets.",
 [PAR],[("ParserIterator::next","src/parse.rs")],["items of the iterator","builder comments calls"])
p("C23","Commands are parsed incrementally and independently",
 "A complete command is returned without reading the source beyond the newline that ends it (or the end of its heredoc bodies), so interactive and streaming use work. Parsing the concatenation of newline-terminated programs yields the concatenation of their commands, and a later part of the source, even a malformed one, never influences commands that were already complete.",
 ["inputs","histories"],"all programs, all splits at command boundaries","Tests always provide the whole source at once and look only at the result.",
 [PAR,IT,LEX],[("lazy TokenIter, peek only where needed","src/parse/iter.rs"),("complete_command","src/parse.rs")],["characters pulled from the source when a command is returned"])
p("C24","Each parser entry point consumes exactly its construct",
 "Every public parsing operation (words, parameters, redirects, groups, compound and simple commands, lists, reserved words and tokens, blanks, newlines, arithmetic) applied to its construct followed by any other text returns that construct and leaves the parser exactly at the text that follows. Applied to anything else it fails, naming the first thing which does not fit and where it is. Operations that only look ahead never consume anything but blanks, and may be repeated or mixed freely without changing later results.",
 ["inputs","histories"],"all constructs x followers x sequences of calls","Tests call an entry point once on one snippet and rarely look at what is left.",
 [PAR,IT],[("Multipeek rewinding","src/parse/iter.rs"),("public methods","src/parse.rs")],["results and position after each call","remaining input"])
p("C25","Backtick substitution means the same as $( )",
 "A command substitution in backticks, with `$`, `` ` `` and `\\` in its body escaped as the shell requires, yields the same commands as the same body in `$( )`, at any nesting depth and also inside double quotes and heredocs, and parsing continues right after the closing backtick.",
 ["programs"],"all bodies x nesting depths x contexts","Tests check a few bodies and two nesting levels.",
 [PAR,IT],[("BacktickBackslashRemover","src/parse/iter.rs"),("backticked_raw","src/parse.rs")],["builder calls for both spellings"])
p("C26","Printed tokens, parameters and positions read back as themselves",
 "The text of any token lexes back to that token, its reported length is the length of its text, and word-delimiting tokens are exactly those that end a word when placed after one. The text of any parameter parses back to that parameter, and digits convert to positional parameters and back without loss.",
 ["inputs"],"all tokens and parameters","Tests print a few parameters.",
 [TOK,AST],[("Token::as_str/len/is_word_delimiter","src/token.rs"),("Parameter Display","src/ast.rs"),("Positional","src/token.rs")],["Display output and re-parse"])
p("C27","Parsing is deterministic and free of shared state",
 "Parsing the same source again, through another parser instance, interleaved with other parsers, or on another thread at the same time gives the same commands, errors and positions. Atomic ASTs built on one thread can be shared with and read from others without change, and abandoned or failed parses never affect other ones.",
 ["schedules","inputs"],"all inputs, interleavings of parser instances, thread schedules","Tests parse one source at a time and never compare runs.",
 [PAR,DEF],[("no global state; Arc based builders","src/ast/builder/default_builder.rs")],["results across instances and threads"])
p("C28","Syntax trees and errors are plain values",
 "Two trees of the default AST are equal exactly when they stand for the same commands, words, redirections, parameters and expressions, whichever of the Rc or Arc forms and string types they are made of, and comparing is symmetric and agrees between a wrapper and what it wraps. A copy equals its original and prints alike, rewrapping what a top-level command or word contains gives the same value back, and replacing or changing a copy never shows in the original or in any other tree. Errors, tokens and positions are equal exactly when all they carry is.",
 ["inputs","histories"],"all pairs of programs, all changes of copies","Tests compare expected with parsed trees, so an equality which is too generous would hide in every one of them.",
 [AST,PAR],[("derived PartialEq/Clone, TopLevelCommand, TopLevelWord","src/ast.rs"),("ParseError, SourcePos","src/parse.rs"),("Token","src/token.rs")],["results of comparisons and copies of parsed trees"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
