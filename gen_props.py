#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line). Kept so that the file is easy to edit and stays valid."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=hook)))
SEAM="cfg(jsparse_sim) re-export of the token vocabulary, so that a simulated token source can implement the public Tokenizer trait"
p("C01","A file's verdict does not depend on how the OS delivers its bytes",
 "Running the program on a file exits with status 0 exactly when parsing the file's complete content succeeds. The pattern in which the operating system delivers that content (short reads, interrupted reads, reads that split a character or a token, size metadata that is zero, too small or too large, files larger than any buffer) never changes the outcome.",
 ["fault_sequences","inputs"],"every file content and every legal sequence of read, stat and seek results that delivers it",
 "No test runs the program at all; the tests parse string literals in memory, so no read ever returns less than everything.",
 ["src/main.rs","src/parser/mod.rs"],[("read_to_string into one buffer before parsing","src/main.rs main"),("unwrap of the parse result","src/parser/mod.rs FromTokenizer for ()")],
 [("s","complete source text","src/main.rs main")],["exit status","standard output"])
p("C02","A source that was not completely read is never reported as parsed",
 "If the source cannot be opened, if any read of it fails (being interrupted is not failing), if memory for it cannot be had, or if its bytes are not valid UTF-8, the program terminates within a bounded number of system calls with a failure status. In none of these cases does it print the completion line or exit with status 0.",
 ["fault_sequences","crash_points","inputs"],"every file content, every point at which open, read or allocation fails and every error it fails with",
 "No test exercises an I/O or allocation failure or a non-UTF-8 file.",
 ["src/main.rs"],[("every I/O result is unwrapped","src/main.rs main"),("read_to_string rejects invalid UTF-8","src/main.rs main")],
 [],["exit status","standard output"])
p("C03","Exit status 0 means the whole report reached standard output",
 "When the program exits with status 0, standard output has received exactly its two-line report (the start line, then one line with the total parsing time), complete, once and in order, however writes were shortened or interrupted. If standard output refuses data the program ends with a failure status, and a source that was not accepted never produces the completion line.",
 ["fault_sequences","crash_points"],"every sequence of short, interrupted and failing writes, for accepted and rejected sources",
 "No test looks at the program's output or its exit status, and none injects a failing write.",
 ["src/parser/mod.rs","src/main.rs"],[("println! panics when a write fails, and retries short and interrupted ones","src/parser/mod.rs FromTokenizer for ()"),("the completion line is printed only after the result was unwrapped","src/parser/mod.rs")],
 [],["standard output","exit status"])
p("L01","The reported time is the monotonic time that parse took",
 "The completion line gives, in milliseconds, exactly the time that passed on the monotonic clock between the first request for a token and the delivery of the last one, for every parse separately, also when several overlap. Stalls, jumps and changes of the wall clock do not show in it, and no behaviour of any clock changes whether a source is accepted.",
 ["schedules","fault_sequences","inputs"],"every sequence of delays at token requests, every jump of the wall clock, every interleaving of parses",
 "No test controls a clock or reads the timing line; real clocks cannot be compared with anything.",
 ["src/parser/mod.rs"],[("precise_time_ns before and after parse_module","src/parser/mod.rs FromTokenizer for ()")],
 [("t_start","clock reading at the start of this parse","src/parser/mod.rs")],["standard output line","result of parse_root"],SEAM)
p("L02","Parses that overlap in time do not influence one another",
 "Any number of parses may be in progress at once, on several threads or nested inside a token request of another parse, and be advanced in any order. Each one makes the same token requests, with the same goals, gives the same verdict and prints the same report as when it runs alone.",
 ["schedules","histories"],"every set of programs, every interleaving of their token requests across threads, every nesting of a parse in a token request of another",
 "The test runner runs parses in parallel but nothing controls how they interleave, and each test only looks at its own success.",
 ["src/parser/mod.rs","src/tokenizer/slice.rs"],[("all parse state lives in the Parser and tokenizer values, none is shared","src/parser/mod.rs Parser")],
 [("Parser","hint, flags, flag stack and two-token buffer of one parse","src/parser/mod.rs")],["token requests at the source","verdict","report lines"],SEAM)
p("L03","A parse that fails at any point is contained and leaves nothing behind",
 "A failure raised by the token source at any token request, or by the parser itself, ends that parse and reaches its caller by unwinding, unchanged when the source raised it; the source is not asked for anything afterwards, and the process neither aborts nor hangs. Every later parse, on the same thread or another, behaves exactly as in a fresh process.",
 ["crash_points","histories"],"every program, every token request at which the source fails, every history of failed and completed parses before it",
 "Tests only parse sources that succeed; a failing parse would fail the test.",
 ["src/parser/mod.rs","src/parser/utils.rs"],[("scope guards restore the grammar flags while unwinding","src/parser/mod.rs ParserProxy Drop"),("errors are returned through every production","src/parser/utils.rs")],
 [("flags_stack","grammar contexts to be restored on exit","src/parser/mod.rs")],["panic payload at the caller","token requests","later parses"],SEAM)
p("L04","A source cut off in the middle of a construct is never accepted",
 "If a source ends early, at any character, inside an open bracket, string, template, regular expression or block comment, or where a statement still requires more tokens, it is rejected; if it ends right after a complete statement it is accepted. Once end of input has been delivered the parse finishes within a bounded number of further token requests.",
 ["crash_points","inputs"],"every program and every point at which the source or the token stream is cut",
 "Tests only parse complete sources.",
 ["src/parser/file.rs","src/parser/statements.rs","src/parser/expressions.rs","src/parser/module.rs","src/tokenizer/slice.rs"],[("eat_value turns a missing token into an error","src/parser/utils.rs"),("unterminated literals and comments are failures","src/tokenizer/slice.rs"),("module ends only at the end-of-input token","src/parser/file.rs")],
 [],["verdict","token requests after end of input"],SEAM)
p("L05","What a token source puts between tokens never changes what is parsed",
 "However many and whatever kinds of whitespace, comments and line terminators come between two tokens, the tokens, the goals they are requested under and the verdict stay the same, except that a line break there may end a statement and is forbidden before an arrow and after throw. All forms of line break (LF, CR, CRLF, U+2028, U+2029, any of them at the end of a line comment or inside a block comment) have that same effect, and nothing else has it.",
 ["histories","inputs"],"every program, every sequence of trivia between each pair of its tokens",
 "The tests contain a handful of separators; no test has a statement ended by anything but a semicolon.",
 ["src/parser/mod.rs","src/tokenizer/slice.rs"],[("read_token skips trivia and accumulates the line flag","src/parser/mod.rs read_token"),("automatic semicolon insertion","src/parser/mod.rs semicolon_inner"),("trivia lexing and line counting","src/tokenizer/slice.rs")],
 [("line","whether a line break preceded the buffered token","src/parser/mod.rs LookaheadResult")],["verdict","tokens and goals at each request"],SEAM)
p("L06","Each token is requested under the lexical goal its context requires",
 "Whenever the next token starts with a slash, the parser requests it with the expression goal where an operand may start and without it where an operator may follow; whenever it starts with a closing curly, with the template goal exactly when it closes a template substitution. This holds whatever trivia the source delivers first, however far ahead the parser had to look, and however deeply functions, blocks, objects and templates nest.",
 ["histories","inputs"],"every valid program and every way a token source may answer the requests it leads to",
 "The parser tests contain no slash and no template; the tokenizer tests set the goal by hand.",
 ["src/parser/mod.rs","src/parser/expressions.rs","src/parser/statements.rs","src/tokenizer/slice.rs"],[("expect_expression before an operand","src/parser"),("template flag pushed and popped with each nesting","src/parser/mod.rs push_flags pop_flags"),("identifier lookahead with its own goal","src/parser/mod.rs ident_lookahead")],
 [("hint","goal of the next request","src/parser/mod.rs Parser")],["goals at each token request","tokens delivered"],SEAM)
p("L07","No token is skipped, repeated or ignored",
 "A parse takes the tokens of its source once each and in order: a valid program (of the language the parser supports) is accepted, and no program is accepted in which tokens were lost, duplicated, swapped or replaced so that brackets no longer balance, a token appears that no program can contain there, or two neighbours cannot stand next to each other. After a token that no program can contain, at most two more tokens are requested.",
 ["fault_sequences","inputs"],"every valid program and every sequence of losses, duplications, swaps and replacements of its tokens",
 "Tests only parse a few intact sources and never expect a rejection.",
 ["src/parser/mod.rs","src/parser/expressions.rs","src/parser/statements.rs","src/parser/classes.rs","src/parser/module.rs","src/parser/functions.rs"],[("two-slot token buffer","src/parser/mod.rs token_and_line pop ident_lookahead"),("every production consumes or refuses","src/parser")],
 [("tokens, index, count","buffered tokens not consumed yet","src/parser/mod.rs Parser")],["verdict","token requests"],SEAM)
p("L08","Every history of tokens ends in a verdict, in bounded time",
 "Whatever finite sequence of tokens a source delivers before it reports end of input for good, the parse ends by accepting or by reporting a syntax failure. It never fails on a broken internal assumption, never aborts, and never requests more tokens than were delivered plus a small constant.",
 ["histories","fault_sequences"],"every finite sequence of tokens, with line breaks anywhere",
 "Tests deliver only the tokens of a few valid programs.",
 ["src/parser"],[("each production consumes at least one token or returns","src/parser"),("end of input is re-delivered when popped","src/parser/mod.rs token_and_line")],
 [],["verdict and its message","number of token requests"],SEAM)
p("T01","Every byte of a text is accounted for once, whatever goals are asked",
 "Pulling tokens from a text under any sequence of goals yields ranges that follow one another with nothing but whitespace between them, are never empty before the end, never go back, and whose offset, line and column are those of the text at that point (lines counted from 1 and CR LF as one break, columns in code points from 0). Even if the text was truncated or corrupted, the stream reaches the end, or reports a lexical failure, in at most one request per byte plus one, and at the end it stays there.",
 ["histories","fault_sequences","inputs"],"every text, every damage to it, every sequence of goals",
 "The tests call the tokenizer once per text, on intact tokens, and never look at a position.",
 ["src/tokenizer/slice.rs","src/tokenizer/mod.rs"],[("position advanced by the size of each token","src/tokenizer/slice.rs increment_position"),("whitespace skipped before each token","src/tokenizer/slice.rs eat_whitespace")],
 [("position","offset, line and column of the next token","src/tokenizer/slice.rs SliceTokenizer")],["token ranges","number of requests"],SEAM)
p("T02","A copied token stream resumes exactly where it was copied",
 "A token stream may be cloned at any point, and the copies may be advanced in any order, on any threads. Each copy delivers, from that point on and for the same goals, the same tokens at the same positions as the original would have delivered had it never been copied.",
 ["schedules","histories","inputs"],"every text, every point of copying, every interleaving of the copies and every sequence of goals",
 "No test clones a tokenizer.",
 ["src/tokenizer/slice.rs","src/tokenizer/mod.rs"],[("Tokenizer requires Clone","src/tokenizer/mod.rs"),("Clone for SliceTokenizer","src/tokenizer/slice.rs")],
 [("position","the whole state of a stream","src/tokenizer/slice.rs SliceTokenizer")],["tokens and ranges delivered by each copy"],SEAM)
# not applicable
p("N01","Every valid module of the supported language is accepted",
 "Every source text that is a valid ECMAScript module, within the language level the parser supports, is accepted.",
 ["inputs"],"every valid module","Three tests parse a few statements.",
 ["src/parser"],[("recursive descent over the grammar","src/parser")],[],["verdict"])
p("N02","Sources that break the grammar or an early-error rule are rejected",
 "Every source text that is not a valid module (wrong syntax, misplaced keywords, invalid assignment targets, arrow parameters or object literals that were never completed) is rejected.",
 ["inputs"],"every invalid module","No test expects a rejection.",
 ["src/parser"],[("eat_value and bail!","src/parser")],[],["verdict"])
p("N03","Tokens carry the kind and value the language gives their text",
 "For every token text, the punctuator is the longest match, numeric literals have the value the language defines, string and template values have their escapes decoded and line endings normalised, and identifiers contain all characters the language allows.",
 ["inputs"],"every token text","The tests sample a few texts, two of them with values marked as wrong.",
 ["src/tokenizer/slice.rs"],[("read_next","src/tokenizer/slice.rs")],[],["token values"])
p("N04","Printing a syntax tree and parsing it again gives the same tree",
 "Formatting any syntax tree yields source text that is valid and has the same structure, with parentheses and separators where precedence requires them.",
 ["inputs","programs"],"every syntax tree","The module is not compiled, so nothing can test it.",
 ["src/ast"],[("NodeDisplay","src/ast/display.rs")],[],["formatted text"])
p("N05","Nesting depth alone never brings the process down",
 "A source nested arbitrarily deeply is accepted or rejected; it never exhausts the stack of the thread that parses it.",
 ["inputs"],"every nesting depth","No test nests anything.",
 ["src/parser"],[("none: plain recursion","src/parser")],[],["process status"])
p("N06","Parsing takes time and memory linear in the size of the source",
 "The time and memory a parse takes grow at most linearly with the size of its source.",
 ["inputs"],"every source","No test measures cost.",
 ["src/parser","src/tokenizer/slice.rs"],[("single pass with two tokens of lookahead","src/parser/mod.rs")],[],["time","memory"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
