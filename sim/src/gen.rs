//! Workload generator: valid modules, token by token, with annotations that
//! the oracles use. The generator is written from the ECMAScript grammar; it
//! never calls the code under test.

use crate::choice::{Ch, W};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ident,
    Kw,
    Punct,
    Num,
    Str,
    Regex,
    TplNoSub,
    TplHead,
    TplMid,
    TplTail,
}

/// What a line break in the gap before a token means.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gap {
    /// nothing
    Free,
    /// it ends the previous statement; without it the program is invalid
    Asi,
    /// it ends the previous statement; without it the program means something else
    AsiSoft,
    /// it would change the meaning: never put there
    NoLt,
    /// it makes the program invalid (before an arrow, after throw)
    NoLtReject,
}

#[derive(Clone, Debug)]
pub struct GTok {
    pub text: String,
    pub k: K,
    pub gap: Gap,
    /// no valid program ends right after this token
    pub dangle: bool,
    /// a program cut right after this token is complete
    pub end: bool,
    /// identifier, number or string that cannot stand next to another one on a line
    pub plain: bool,
    /// number of brackets and substitutions open after this token
    pub depth: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub slashy: bool,
    pub templates: bool,
    pub budget: i64,
    pub stmts: u64,
    pub asi: u64, // out of 8
    pub imports: bool,
    /// now and then a statement nested hundreds of levels deep
    pub deep: bool,
    /// now and then a statement of tens of thousands of tokens
    pub long: bool,
}

#[derive(Clone, Copy)]
struct Cx {
    in_ok: bool,
    gen: bool,
    asy: bool,
    func: bool,
    brk: bool,
    top: bool,
}

pub struct G<'a> {
    ch: &'a mut Ch,
    pub out: Vec<GTok>,
    prof: Profile,
    budget: i64,
    names: u32,
    labels: Vec<String>,
    pending_asi: bool,
    /// loop heads that are open: "in" is an operator again within their brackets
    heads: u32,
    depth: u32,
}

pub const IDENTS: &[&str] = &[
    "a", "b", "c", "foo", "x1", "$", "_", "inx", "newly", "returned", "doIt", "ofx", "instanceofx", "g", "i", "gi", "e1", "thisx",
    "longIdentifierName", "Z9", "az", "AZ", "y0", "__", "$$", "zZ90", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
];
pub const SOFT_IDENTS: &[&str] = &["get", "set", "from", "as", "target", "of"];
pub const PROP_NAMES: &[&str] = &[
    "p", "q", "in", "if", "return", "this", "class", "new", "typeof", "get", "set", "static", "async", "of", "null", "true", "yield", "await",
    "default", "function", "delete", "else",
];
const BINOPS: &[&str] = &[
    "+", "-", "*", "%", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "<<", ">>", ">>>", "&", "|", "^", "&&", "||",
];
const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "**="];
pub const NUMS: &[&str] = &["1", "0", "7", "42", "10", "100", "3.5", "14.25", ".5", "0.25", "1e3", "2e+4", "5e-2", "0x1f", "0XAb", "0b101", "0o17", "1.5e3", "1e+10", "0e0", "0.5E-1", "5.", "0.",
    "1.05", ".0", "0.0", "10.203", "1234567890.0987654321", "0x0123456789abcdefABCDEF", "0xF0", "0b0", "0B10", "0o70", "0O01234567", "1E5", "1.e3", "0.e1",
    ".5e+1", "1e-400", "9e1234567890", "123456789012345678901234567890", "0e-0", "6e09",
];
pub const STRS: &[&str] = &[
    "'s'", "\"\"", "''", "\"it's\"", "'say \"hi\"'", "'// no comment'", "'/* none */'", "'${x} `'", "'é漢😀'", "\"\\n\\t\"", "'\\''", "'\\\\'",
    "'\\x41'", "'\\u0041b'", "'\\u{1F600}'", "'a;b'", "'/re/'", "'}'", "'a\\\nb'", "'a\\\r\nb'", "\"a\\\u{2028}b\"", "'\u{a0}\u{feff}'",
    "'\\a\\-\\é\\`'", "'\\\rb'", "'\\0'", "\"\\'\\\"\"", "'\\x7F'", "'\\xaf'", "'\\u{10ffff}'", "'\\u{0}'",
    "'\\b\\f\\v\\r'", "\"\\\\\\\"\"", "'\\\\\\\n'", "'\\u00e9\\uD83D'", "'a\\\u{2029}\\\n'", "'\\\\'", "\"'\\\\\"", "'\\0\\x00'", "'${`'",
];
pub const REGEXES: &[&str] = &[
    "/re/", "/a/g", "/[/]/", "/\\//", "/[a/\\]b]/i", "/=/", "/=x/", "/'/", "/\"/", "/`/", "/}/", "/{/", "/(a|b)*/gi", "/[`${]/", "/ /", "/é漢/u",
    "/\\[/", "/a+?/y", "/[\\]/]/", "/;/", "/->/", "/a/gimsuy",
    "/[^/\\\\]+/m", "/[[]/", "/[]/", "/[^]/", "/\\\\/", "/\\\\[/]/", "/[\\\\]/", "/a\\/\\]/s", "/\\(/", "/x*/", "/\\u{41}/u", "/ab/dv",
];
pub const TPL_TEXT: &[&str] = &["", "t", "$", "$$", "{", "}", "a b", "'", "\"", "//", "/*", "\n", "é漢😀", "{}", "$ {", "/", "\r\n", "\u{2028}", "x\ny", "*/",
    "\\`", "\\${", "$\\{", "\\\\", "\\n\\$", "\\\r\n", "\\u{41}", "a\\`b",
    "$\\a{", "$$\\{", "\\$\\{", "\\\\\\`", "{$", "}$", "$}", "$\n{", "\\\n", "\\\u{2028}", "$é{", "\\\\$", "}}", "{{",
];

const CONTINUES: &[&str] = &["(", "[", "/", "+", "-", "*", ".", ",", "in", "instanceof", "?", ":", "=", "=>"];

impl<'a> G<'a> {
    pub fn new(ch: &'a mut Ch, prof: Profile) -> G<'a> {
        G { ch, out: vec![], budget: prof.budget, prof, names: 0, labels: vec![], pending_asi: false, heads: 0, depth: 0 }
    }

    fn n(&mut self, n: u64) -> u64 {
        self.ch.draw(W, n)
    }
    fn coin(&mut self, num: u64, den: u64) -> bool {
        self.ch.chance(W, num, den)
    }

    fn emit(&mut self, text: &str, k: K, dangle: bool) {
        match (k, text) {
            (K::Punct, "(") | (K::Punct, "[") | (K::Punct, "{") | (K::TplHead, _) => self.depth += 1,
            (K::Punct, ")") | (K::Punct, "]") | (K::Punct, "}") | (K::TplTail, _) => self.depth -= 1,
            _ => {}
        }
        self.out.push(GTok {
            text: text.to_string(),
            k,
            gap: Gap::Free,
            dangle,
            end: false,
            plain: false,
            depth: self.depth,
        });
    }
    fn kw(&mut self, t: &str) {
        self.emit(t, K::Kw, true);
    }
    /// An identifier-like token that is not an operand by itself.
    fn word(&mut self, t: &str) {
        self.emit(t, K::Ident, false);
    }
    fn p(&mut self, t: &str) {
        let dangle = !matches!(t, ")" | "]" | "}" | ";" | "++" | "--");
        self.emit(t, K::Punct, dangle);
    }
    fn pd(&mut self, t: &str) {
        self.emit(t, K::Punct, true);
    }
    fn gap_last(&mut self, g: Gap) {
        self.out.last_mut().unwrap().gap = g;
    }
    fn gap_at(&mut self, i: usize, g: Gap) {
        if i < self.out.len() {
            self.out[i].gap = g;
        }
    }
    fn dangle_last(&mut self) {
        self.out.last_mut().unwrap().dangle = true;
    }
    /// Nothing from `from` on can end a program.
    fn dangling_from(&mut self, from: usize) {
        for t in &mut self.out[from..] {
            t.dangle = true;
            t.end = false;
        }
    }
    fn plain_ident(&mut self, t: &str) {
        self.emit(t, K::Ident, false);
        self.out.last_mut().unwrap().plain = true;
    }
    fn ident_ref(&mut self) {
        if self.coin(1, 12) {
            let t = *self.ch.pick(W, SOFT_IDENTS);
            self.word(t);
        } else {
            let t = *self.ch.pick(W, IDENTS);
            self.plain_ident(t);
        }
    }
    fn fresh(&mut self) {
        self.names += 1;
        let t = format!("v{}", self.names);
        self.plain_ident(&t);
    }
    fn num(&mut self) {
        let t = *self.ch.pick(W, NUMS);
        self.emit(t, K::Num, false);
        self.out.last_mut().unwrap().plain = true;
    }
    fn string(&mut self) {
        let t = *self.ch.pick(W, STRS);
        self.emit(t, K::Str, false);
        self.out.last_mut().unwrap().plain = true;
    }
    fn wrap(&mut self, at: usize) {
        // put the expression from `at` on in parentheses
        let d = if at == 0 { 0 } else { self.out[at - 1].depth };
        for t in &mut self.out[at..] {
            t.depth += 1;
            // whatever ends inside parentheses does not end a program
        }
        let gap = self.out[at].gap;
        self.out[at].gap = Gap::Free;
        self.out.insert(
            at,
            GTok { text: "(".into(), k: K::Punct, gap, dangle: true, end: false, plain: false, depth: d + 1 },
        );
        self.depth = d + 1;
        self.emit(")", K::Punct, false);
    }

    // ---- programs -------------------------------------------------------

    pub fn program(mut self) -> Vec<GTok> {
        let cx = Cx { in_ok: true, gen: false, asy: false, func: false, brk: false, top: true };
        let n = self.n(self.prof.stmts + 1);
        for _ in 0..n {
            self.statement_item(cx);
        }
        for i in 0..2 {
            let (on, odds) = if i == 0 { (self.prof.deep, 1500) } else { (self.prof.long, 15000) };
            if on && self.coin(1, odds) {
                let was = std::mem::replace(&mut self.pending_asi, false);
                let at = self.out.len();
                if i == 0 { self.deep() } else { self.long() }
                self.settle(at, was);
            }
        }
        self.out
    }

    /// Something put down as it is: no place in it can end a program.
    fn raw(&mut self, ts: &[(&str, K)]) {
        for &(t, k) in ts {
            match (k, t) {
                (K::Ident, "a") => self.plain_ident(t),
                (K::Ident, "v") => self.fresh(),
                _ => self.emit(t, k, true),
            }
            self.dangle_last();
            if t == "=>" {
                self.gap_last(Gap::NoLtReject);
            }
        }
    }

    /// A block statement of many levels. No recursion here, so the depth is only bounded by the parser's stack.
    fn deep(&mut self) {
        use self::K::*;
        type Side = &'static [(&'static str, K)];
        // (before, after) an expression
        const EXPR: &[(Side, Side)] = &[
            (&[("(", Punct)], &[(")", Punct)]),
            (&[("[", Punct)], &[("]", Punct)]),
            (&[("(", Punct)], &[(")", Punct), ("/", Punct), ("a", Ident)]),
            (&[("a", Ident), ("(", Punct)], &[(")", Punct)]),
            (&[("a", Ident), ("[", Punct)], &[("]", Punct), ("/", Punct), ("/}/", Regex)]),
            (&[("a", Ident), ("?", Punct)], &[(":", Punct), ("/=/", Regex)]),
            (&[("`${", TplHead)], &[("}`", TplTail)]),
            (&[("`/${", TplHead)], &[("}${", TplMid), ("a", Ident), ("}'`", TplTail), ("/", Punct), ("a", Ident)]),
            (&[("{", Punct), ("p", Ident), (":", Punct)], &[("}", Punct)]),
            (&[("{", Punct), ("[", Punct)], &[("]", Punct), (":", Punct), ("a", Ident), ("}", Punct), ("/", Punct), ("a", Ident)]),
            (&[("!", Punct), ("(", Punct)], &[(")", Punct)]),
            (&[("new", Kw), ("a", Ident), ("(", Punct)], &[(")", Punct), (".", Punct), ("p", Ident)]),
        ];
        // from an expression to the statements inside it
        const INTO: &[(Side, Side)] = &[
            (&[("function", Kw), ("(", Punct), (")", Punct), ("{", Punct)], &[("}", Punct)]),
            (&[("function", Kw), ("(", Punct), (")", Punct), ("{", Punct)], &[("}", Punct), ("/", Punct), ("a", Ident)]),
            (&[("(", Punct), (")", Punct), ("=>", Punct), ("{", Punct)], &[("}", Punct)]),
            (&[("class", Kw), ("{", Punct), ("p", Ident), ("(", Punct), (")", Punct), ("{", Punct)], &[("}", Punct), ("}", Punct)]),
            (&[("{", Punct), ("p", Ident), ("(", Punct), (")", Punct), ("{", Punct)], &[("}", Punct), ("}", Punct)]),
        ];
        const STMT: &[(Side, Side)] = &[
            (&[("{", Punct)], &[("}", Punct)]),
            (&[("{", Punct)], &[("}", Punct), ("/a/", Regex), (";", Punct)]),
            (&[("if", Kw), ("(", Punct), ("a", Ident), (")", Punct), ("{", Punct)], &[("}", Punct)]),
            (&[("while", Kw), ("(", Punct), ("/a/", Regex), (")", Punct), ("{", Punct)], &[("}", Punct)]),
            (&[("do", Kw), ("{", Punct)], &[("}", Punct), ("while", Kw), ("(", Punct), ("a", Ident), (")", Punct), (";", Punct)]),
            (&[("try", Kw), ("{", Punct)], &[("}", Punct), ("finally", Kw), ("{", Punct), ("}", Punct)]),
            (&[("switch", Kw), ("(", Punct), ("a", Ident), (")", Punct), ("{", Punct), ("default", Kw), (":", Punct), ("{", Punct)], &[("}", Punct), ("}", Punct)]),
            (&[("function", Kw), ("v", Ident), ("(", Punct), (")", Punct), ("{", Punct)], &[("}", Punct), ("/`/", Regex), (";", Punct)]),
            (&[("class", Kw), ("v", Ident), ("{", Punct), ("p", Ident), ("(", Punct), (")", Punct), ("{", Punct)], &[("}", Punct), ("}", Punct)]),
        ];
        const ASSIGN: &[(Side, Side)] = &[
            (&[("a", Ident), ("=", Punct)], &[(";", Punct)]),
            (&[("var", Kw), ("v", Ident), ("=", Punct)], &[(";", Punct), ("/}/", Regex), (";", Punct)]),
        ];
        let levels = *self.ch.pick(W, &[60u64, 130, 260, 300, 520, 1100]);
        // few kinds or many
        let kinds = 1 + self.n(12);
        let mut afters: Vec<Side> = vec![&[("}", Punct)]];
        self.raw(&[("{", Punct)]);
        let mut expr = false;
        for _ in 0..levels {
            let turn = self.coin(1, 4);
            let list = match (expr, turn) {
                (true, false) => EXPR,
                (true, true) => INTO,
                (false, false) => STMT,
                (false, true) => ASSIGN,
            };
            if turn {
                expr = !expr;
            }
            let i = (self.n(kinds) as usize) % list.len();
            self.raw(list[i].0);
            afters.push(list[i].1);
        }
        if expr {
            let last: &[(&str, K)] = match self.n(5) {
                0 => &[("a", Ident)],
                1 => &[("/}`/", Regex)],
                2 => &[("1", Num)],
                3 => &[("`}`", TplNoSub)],
                _ => &[("a", Ident), ("/", Punct), ("a", Ident)],
            };
            self.raw(last);
        } else {
            self.raw(&[("/a/", Regex), (";", Punct)]);
        }
        while let Some(a) = afters.pop() {
            self.raw(a);
        }
        let t = self.out.last_mut().unwrap();
        t.dangle = false;
        t.end = true;
    }

    /// One statement, or many, with more tokens than a small counter holds.
    fn long(&mut self) {
        use self::K::*;
        type Side = &'static [(&'static str, K)];
        const SHAPES: &[(Side, Side, Side)] = &[
            (&[("{", Punct)], &[("a", Ident), ("=", Punct), ("/a/", Regex), (";", Punct)], &[("}", Punct)]),
            (&[("[", Punct)], &[("a", Ident), (",", Punct)], &[("]", Punct), (";", Punct)]),
            (&[("a", Ident), ("(", Punct)], &[("/a/", Regex), (",", Punct)], &[("a", Ident), (")", Punct), (";", Punct)]),
            (&[("(", Punct), ("{", Punct)], &[("p", Ident), (":", Punct), ("a", Ident), (",", Punct)], &[("}", Punct), (")", Punct), (";", Punct)]),
            (&[("`${", TplHead)], &[("a", Ident), ("/", Punct), ("a", Ident), ("}/${", TplMid)], &[("{", Punct), ("}", Punct), ("}`", TplTail), (";", Punct)]),
            (&[("a", Ident)], &[("/", Punct), ("a", Ident)], &[("/", Punct), ("/;/", Regex), (";", Punct)]),
            (&[("var", Kw), ("v", Ident)], &[(",", Punct), ("v", Ident)], &[("=", Punct), ("/a/", Regex), (";", Punct)]),
            (&[("a", Ident)], &[(".", Punct), ("p", Ident)], &[("/", Punct), ("a", Ident), (";", Punct)]),
            (&[("class", Kw), ("v", Ident), ("{", Punct)], &[("p", Ident), ("(", Punct), (")", Punct), ("{", Punct), ("}", Punct)], &[("}", Punct)]),
            (&[("switch", Kw), ("(", Punct), ("a", Ident), (")", Punct), ("{", Punct)], &[("case", Kw), ("/a/", Regex), (":", Punct)], &[("}", Punct)]),
            (&[("{", Punct)], &[("{", Punct), ("}", Punct)], &[("}", Punct)]),
            (&[("{", Punct)], &[(";", Punct)], &[("}", Punct)]),
        ];
        let (a, b, c) = *self.ch.pick(W, SHAPES);
        let n = *self.ch.pick(W, &[300u64, 33_000, 66_000, 70_000]) / if b.len() > 2 { 2 } else { 1 };
        self.raw(&[("{", Punct)]);
        self.raw(a);
        for _ in 0..n {
            self.raw(b);
        }
        self.raw(c);
        self.raw(&[("}", Punct)]);
        let t = self.out.last_mut().unwrap();
        t.dangle = false;
        t.end = true;
    }

    fn stmts(&mut self, cx: Cx, max: u64) {
        let cx = Cx { top: false, ..cx };
        let n = if self.budget < 0 { self.n(2) } else { self.n(max + 1) };
        let saved = std::mem::replace(&mut self.pending_asi, false);
        for _ in 0..n {
            self.statement_item(cx);
        }
        self.pending_asi = saved;
    }

    /// Settles how the previous statement ends, now that the next one is known to start at `at`.
    fn settle(&mut self, at: usize, was: bool) {
        if !was || at >= self.out.len() {
            return;
        }
        let t = self.out[at].clone();
        if t.k == K::Punct && t.text == ";" {
            // an empty statement here is that statement's end
            return;
        }
        let hazard = matches!(t.k, K::Regex | K::TplHead | K::TplNoSub) || (t.k != K::Str && CONTINUES.contains(&t.text.as_str()))
            // would continue "export { a }"
            || (t.text == "from" && at > 0 && self.out[at - 1].text == "}");
        // nothing goes on after these
        let word = |i: usize| self.out[i].k == K::Kw && matches!(&self.out[i].text[..], "continue" | "break" | "debugger" | "return");
        let jump = |i: usize| self.out[i].k == K::Kw && matches!(&self.out[i].text[..], "continue" | "break");
        let closed = at > 0 && (word(at - 1) || at > 1 && self.out[at - 1].k == K::Ident && self.out[at - 1].gap == Gap::NoLt && jump(at - 2));
        if hazard && !closed {
            let depth = if at == 0 { 0 } else { self.out[at - 1].depth };
            self.out.insert(
                at,
                GTok { text: ";".into(), k: K::Punct, gap: Gap::Free, dangle: false, end: true, plain: false, depth },
            );
        } else {
            let prev = self.out[at - 1].text.clone();
            let soft = matches!(prev.as_str(), "return" | "break" | "continue" | "yield")
                // without the break these belong to the statement before, and one after them ends it
                || (t.k == K::Punct && matches!(t.text.as_str(), "++" | "--"));
            self.out[at].gap = if soft { Gap::AsiSoft } else { Gap::Asi };
        }
    }

    fn statement_item(&mut self, cx: Cx) {
        let was = std::mem::replace(&mut self.pending_asi, false);
        let at = self.out.len();
        self.statement_or_decl(cx);
        self.settle(at, was);
    }

    fn sub_statement(&mut self, cx: Cx) {
        // body of if, for, while...: not a declaration
        let was = std::mem::replace(&mut self.pending_asi, false);
        debug_assert!(!was);
        self.statement(Cx { top: false, ..cx });
    }

    fn semi(&mut self) {
        self.out.last_mut().unwrap().end = true;
        if self.coin(self.prof.asi, 8) {
            self.pending_asi = true;
        } else {
            self.p(";");
            self.out.last_mut().unwrap().end = true;
        }
    }
    fn semi_hard(&mut self) {
        self.out.last_mut().unwrap().end = true;
        self.p(";");
        self.out.last_mut().unwrap().end = true;
    }

    fn statement_or_decl(&mut self, cx: Cx) {
        self.budget -= 1;
        let imports = if cx.top && self.prof.imports { 2 } else { 0 };
        let heavy = if self.budget > 0 { 1 } else { 0 };
        match self.ch.weighted(W, &[12, 3, 3, 2 * heavy, 1 * heavy, 2 * heavy, imports, imports]) {
            0 => self.statement(cx),
            1 => self.let_decl(cx),
            2 => self.const_decl(cx),
            3 => self.function_decl(cx, false),
            4 => self.function_decl(cx, true),
            5 => self.class(cx, true, true),
            6 => self.import(),
            _ => self.export(cx),
        }
    }

    fn statement(&mut self, cx: Cx) {
        self.budget -= 1;
        let h = if self.budget > 0 { 1 } else { 0 };
        let w = [
            14,             // 0 expression
            3,              // 1 var
            2 * h,          // 2 block
            1,              // 3 empty
            4 * h,          // 4 if
            2 * h,          // 5 while
            2 * h,          // 6 do
            3 * h,          // 7 for
            2 * h,          // 8 for in/of
            2 * h,          // 9 switch
            2 * h,          // 10 try
            1,              // 11 throw
            if cx.func { 4 } else { 0 }, // 12 return
            if cx.brk { 2 } else { 0 },  // 13 break/continue
            1 * h,          // 14 label
            1,              // 15 debugger
        ];
        match self.ch.weighted(W, &w) {
            0 => self.expr_stmt(cx),
            1 => self.var_stmt(cx),
            2 => {
                self.block(cx, 3);
                self.out.last_mut().unwrap().end = true;
            }
            3 => {
                self.p(";");
                self.out.last_mut().unwrap().end = true;
            }
            4 => {
                self.kw("if");
                self.paren_expr(cx);
                self.sub_statement(cx);
                if self.coin(2, 5) {
                    let was = std::mem::replace(&mut self.pending_asi, false);
                    let at = self.out.len();
                    self.kw("else");
                    if was {
                        self.gap_at(at, Gap::Asi);
                        let prev = self.out[at - 1].text.clone();
                        if matches!(prev.as_str(), "return" | "break" | "continue" | "yield") {
                            // "return else" is invalid as well, but stay on the safe side
                            self.gap_at(at, Gap::AsiSoft);
                        }
                    }
                    self.sub_statement(cx);
                }
            }
            5 => {
                self.kw("while");
                self.paren_expr(cx);
                self.sub_statement(Cx { brk: true, ..cx });
            }
            6 => {
                let at = self.out.len();
                self.kw("do");
                self.sub_statement(Cx { brk: true, ..cx });
                let was = std::mem::replace(&mut self.pending_asi, false);
                let wi = self.out.len();
                self.kw("while");
                if was {
                    self.gap_at(wi, Gap::Asi);
                }
                self.dangling_from(at);
                self.p("(");
                self.expr(Cx { in_ok: true, ..cx });
                self.p(")");
                self.out.last_mut().unwrap().end = true;
                if self.coin(1, 2) {
                    self.p(";");
                    self.out.last_mut().unwrap().end = true;
                }
            }
            7 => self.for_stmt(cx),
            8 => self.for_x(cx),
            9 => self.switch(cx),
            10 => {
                let at = self.out.len();
                self.kw("try");
                self.block(cx, 2);
                self.dangling_from(at);
                let which = self.n(3);
                if which != 1 {
                    let at = self.out.len();
                    self.kw("catch");
                    self.p("(");
                    if self.coin(1, 4) {
                        self.pattern(cx, 1);
                    } else {
                        self.fresh();
                    }
                    self.pd(")");
                    self.dangling_from(at);
                    self.block(cx, 2);
                    self.out.last_mut().unwrap().end = true;
                }
                if which != 0 {
                    self.kw("finally");
                    self.block(cx, 2);
                    self.out.last_mut().unwrap().end = true;
                }
            }
            11 => {
                self.kw("throw");
                let at = self.out.len();
                self.expr(Cx { in_ok: true, ..cx });
                self.gap_at(at, Gap::NoLtReject);
                self.semi();
            }
            12 => {
                self.kw("return");
                self.out.last_mut().unwrap().dangle = false;
                if self.coin(4, 5) {
                    let at = self.out.len();
                    self.expr(Cx { in_ok: true, ..cx });
                    self.gap_at(at, Gap::NoLt);
                }
                self.semi();
            }
            13 => {
                let b = self.coin(1, 2);
                self.kw(if b { "break" } else { "continue" });
                self.out.last_mut().unwrap().dangle = false;
                if !self.labels.is_empty() && self.coin(1, 2) {
                    let l = self.labels.last().unwrap().clone();
                    self.plain_ident(&l);
                    self.gap_last(Gap::NoLt);
                }
                self.semi();
            }
            14 => {
                self.names += 1;
                let l = format!("L{}", self.names);
                self.word(&l);
                self.p(":");
                self.labels.push(l);
                self.kw("while");
                self.paren_expr(cx);
                self.sub_statement(Cx { brk: true, ..cx });
                self.labels.pop();
            }
            _ => {
                self.kw("debugger");
                self.out.last_mut().unwrap().dangle = false;
                self.semi();
            }
        }
    }

    fn paren_expr(&mut self, cx: Cx) {
        self.p("(");
        self.expr(Cx { in_ok: true, ..cx });
        self.pd(")");
    }

    fn block(&mut self, cx: Cx, max: u64) {
        self.p("{");
        self.stmts(cx, max);
        self.p("}");
    }

    fn expr_stmt(&mut self, cx: Cx) {
        let at = self.out.len();
        self.expr(Cx { in_ok: true, ..cx });
        let t = self.out[at].text.clone();
        if matches!(t.as_str(), "{" | "function" | "class" | "let" | "async") && self.out[at].k != K::Str {
            self.wrap(at);
        }
        self.semi();
    }

    fn declarator(&mut self, cx: Cx, must: bool) {
        let at = self.out.len();
        if self.budget > 0 && self.coin(1, 4) {
            self.pattern(cx, 2);
            self.dangling_from(at);
            self.p("=");
            self.assign(cx);
        } else {
            self.fresh();
            if must || self.coin(2, 3) {
                if must {
                    self.dangle_last();
                }
                self.p("=");
                self.assign(cx);
            }
        }
    }
    fn declarators(&mut self, cx: Cx, must: bool) {
        self.declarator(cx, must);
        while self.coin(1, 4) {
            self.p(",");
            self.declarator(cx, must);
        }
    }
    fn var_stmt(&mut self, cx: Cx) {
        self.kw("var");
        self.declarators(Cx { in_ok: true, ..cx }, false);
        self.semi();
    }
    fn let_decl(&mut self, cx: Cx) {
        self.kw("let");
        self.declarators(Cx { in_ok: false, ..cx }, false);
        self.semi();
    }
    fn const_decl(&mut self, cx: Cx) {
        self.kw("const");
        self.declarators(Cx { in_ok: false, ..cx }, true);
        self.semi();
    }

    fn for_stmt(&mut self, cx: Cx) {
        self.heads += 1;
        self.for_head(cx);
        self.heads -= 1;
        self.sub_statement(Cx { brk: true, ..cx });
    }
    fn for_head(&mut self, cx: Cx) {
        let c = Cx { in_ok: false, ..cx };
        self.kw("for");
        self.p("(");
        match self.n(5) {
            0 => {}
            1 => {
                let at = self.out.len();
                self.expr(c);
                if matches!(self.out[at].text.as_str(), "let" | "async") {
                    self.wrap(at);
                }
            }
            2 => {
                self.kw("var");
                self.declarators(c, false);
            }
            3 => {
                self.kw("let");
                self.declarators(c, false);
            }
            _ => {
                self.kw("const");
                self.declarators(c, true);
            }
        }
        self.p(";");
        if self.coin(2, 3) {
            self.expr(Cx { in_ok: true, ..c });
        }
        self.p(";");
        if self.coin(2, 3) {
            self.expr(Cx { in_ok: true, ..c });
        }
        self.pd(")");
    }
    fn for_x(&mut self, cx: Cx) {
        self.kw("for");
        self.p("(");
        match self.n(4) {
            0 => self.ident_ref_plain(),
            k => {
                self.kw(["var", "let", "const"][k as usize - 1]);
                if self.coin(1, 3) {
                    self.pattern(Cx { in_ok: false, ..cx }, 1);
                } else {
                    self.fresh();
                }
            }
        }
        if self.coin(1, 2) {
            self.kw("in");
        } else {
            self.kw("of");
        }
        self.assign(Cx { in_ok: true, ..cx });
        self.pd(")");
        self.sub_statement(Cx { brk: true, ..cx });
    }
    fn ident_ref_plain(&mut self) {
        let t = *self.ch.pick(W, IDENTS);
        self.plain_ident(t);
    }
    fn switch(&mut self, cx: Cx) {
        self.kw("switch");
        self.paren_expr(cx);
        self.p("{");
        let n = self.n(4);
        let dflt = self.n(4);
        for i in 0..n {
            if i == dflt {
                self.kw("default");
            } else {
                self.kw("case");
                self.expr(Cx { in_ok: true, ..cx });
            }
            self.p(":");
            // the next clause starts on its own: a pending end of statement needs its line break there
            self.clause_body(Cx { brk: true, ..cx });
        }
        self.p("}");
        self.out.last_mut().unwrap().end = true;
    }
    fn clause_body(&mut self, cx: Cx) {
        let cx = Cx { top: false, ..cx };
        let n = self.n(3);
        for _ in 0..n {
            self.statement_item(cx);
        }
        if std::mem::replace(&mut self.pending_asi, false) {
            self.p(";");
        }
    }

    fn function_decl(&mut self, cx: Cx, gen: bool) {
        let at = self.out.len();
        self.kw("function");
        if gen {
            self.p("*");
        }
        self.fresh();
        self.params(cx);
        self.dangling_from(at);
        self.body(cx, gen, false);
        self.out.last_mut().unwrap().end = true;
    }
    fn params(&mut self, cx: Cx) {
        let c = Cx { in_ok: false, gen: false, asy: false, ..cx };
        self.p("(");
        let n = self.n(4);
        for i in 0..n {
            if i + 1 == n && self.coin(1, 5) {
                self.p("...");
                if self.coin(1, 4) {
                    self.pattern(c, 1);
                } else {
                    self.fresh();
                }
                break;
            }
            if self.coin(1, 5) {
                self.pattern(c, 1);
            } else {
                self.fresh();
            }
            if self.coin(1, 5) {
                self.p("=");
                self.assign(c);
            }
            if i + 1 < n || self.coin(1, 8) {
                self.p(",");
            }
        }
        if self.out.last().unwrap().text == "," {
            // trailing comma after a rest element is not possible here: rest breaks first
        }
        self.pd(")");
    }
    fn body(&mut self, cx: Cx, gen: bool, asy: bool) {
        let labels = std::mem::take(&mut self.labels);
        self.block(Cx { gen, asy, func: true, brk: false, top: false, ..cx }, 3);
        self.labels = labels;
    }

    fn class(&mut self, cx: Cx, decl: bool, named: bool) {
        let at = self.out.len();
        self.kw("class");
        if named {
            self.fresh();
        }
        if self.coin(1, 3) {
            self.kw("extends");
            let h = self.out.len();
            self.lhs(Cx { in_ok: false, ..cx }, true);
            let _ = h;
        }
        self.dangling_from(at);
        self.p("{");
        let n = self.n(4);
        for _ in 0..n {
            if self.coin(1, 6) {
                self.p(";");
                continue;
            }
            if self.coin(1, 4) {
                self.word("static");
            }
            self.method(cx, true);
        }
        self.p("}");
        if decl {
            self.out.last_mut().unwrap().end = true;
        }
    }

    fn prop_name(&mut self, cx: Cx, class: bool) {
        match self.ch.weighted(W, &[6, 3, 1, 1, 1]) {
            0 => self.word("m"),
            1 => {
                let t = *self.ch.pick(W, PROP_NAMES);
                let t = if class && matches!(t, "static" | "get" | "set" | "async") { "p" } else { t };
                self.word(t)
            }
            2 => {
                self.string();
                self.out.last_mut().unwrap().plain = false;
            }
            3 => {
                self.num();
                self.out.last_mut().unwrap().plain = false;
            }
            _ => {
                self.p("[");
                self.assign(Cx { in_ok: true, ..cx });
                self.p("]");
            }
        }
    }

    fn method(&mut self, cx: Cx, class: bool) {
        match self.n(6) {
            0 | 1 => {
                self.prop_name_no_accessor(cx, class);
                self.params(cx);
                self.body(cx, false, false);
            }
            2 => {
                self.word("get");
                self.prop_name_no_accessor(cx, class);
                self.p("(");
                self.p(")");
                self.body(cx, false, false);
            }
            3 => {
                self.word("set");
                self.prop_name_no_accessor(cx, class);
                self.p("(");
                self.fresh();
                self.p(")");
                self.body(cx, false, false);
            }
            4 => {
                self.p("*");
                self.prop_name_no_accessor(cx, class);
                self.params(cx);
                self.body(cx, true, false);
            }
            _ => {
                self.word("async");
                let at = self.out.len();
                self.prop_name_no_accessor(cx, class);
                self.gap_at(at, Gap::NoLt);
                self.params(cx);
                self.body(cx, false, true);
            }
        }
    }
    fn prop_name_no_accessor(&mut self, cx: Cx, class: bool) {
        let at = self.out.len();
        self.prop_name(cx, class);
        // method names that are also modifiers are a different construct
        if matches!(self.out[at].text.as_str(), "get" | "set" | "static" | "async") {
            self.out[at].text = "p".into();
        }
    }

    fn import(&mut self) {
        let at = self.out.len();
        self.kw("import");
        let form = self.n(6);
        if form != 0 {
            let def = form >= 4;
            if def || form == 1 {
                self.fresh();
            }
            if def {
                self.p(",");
            }
            match form {
                1 => {}
                2 | 4 => {
                    self.p("*");
                    self.word("as");
                    self.fresh();
                }
                _ => {
                    self.p("{");
                    let n = self.n(4);
                    for i in 0..n {
                        if self.coin(1, 2) {
                            let t = *self.ch.pick(W, PROP_NAMES);
                            self.word(t);
                            self.word("as");
                            self.fresh();
                        } else {
                            self.fresh();
                        }
                        if i + 1 < n || self.coin(1, 3) {
                            self.p(",");
                        }
                    }
                    self.p("}");
                }
            }
            self.word("from");
            self.dangling_from(at);
        }
        self.dangling_from(at);
        self.emit("'mod'", K::Str, false);
        self.semi();
    }
    fn export(&mut self, cx: Cx) {
        let at = self.out.len();
        self.kw("export");
        match self.n(10) {
            0 => {
                self.p("{");
                let n = self.n(4);
                for i in 0..n {
                    let t = *self.ch.pick(W, IDENTS);
                    self.word(t);
                    if self.coin(1, 2) {
                        self.word("as");
                        let t = *self.ch.pick(W, PROP_NAMES);
                        self.word(t);
                    }
                    if i + 1 < n || self.coin(1, 3) {
                        self.p(",");
                    }
                }
                self.p("}");
                if self.coin(1, 2) {
                    self.word("from");
                    self.dangle_last();
                    self.emit("\"mod\"", K::Str, false);
                }
                self.semi();
            }
            1 => {
                self.p("*");
                self.word("from");
                self.dangling_from(at);
                self.emit("'mod'", K::Str, false);
                self.semi();
            }
            2 => {
                self.kw("default");
                let at = self.out.len();
                self.assign(Cx { in_ok: true, ..cx });
                if matches!(self.out[at].text.as_str(), "function" | "class" | "async") {
                    self.wrap(at);
                }
                self.semi();
            }
            3 => {
                self.kw("default");
                let asy = self.coin(1, 4);
                let word = self.out.len();
                if asy {
                    self.word("async");
                }
                self.kw("function");
                let g = !asy && self.coin(1, 3);
                if asy {
                    self.gap_last(Gap::NoLt);
                } else if g {
                    self.p("*");
                }
                if self.coin(1, 2) {
                    self.fresh();
                }
                self.params(cx);
                self.dangling_from(at);
                if asy {
                    self.out[word].dangle = false;
                }
                self.body(cx, g, asy);
                self.out.last_mut().unwrap().end = true;
            }
            4 => {
                self.kw("default");
                let named = self.coin(1, 2);
                self.class(cx, true, named);
            }
            5 => self.var_stmt(cx),
            6 => self.let_decl(cx),
            7 => {
                let gen = self.coin(1, 3);
                self.function_decl(cx, gen)
            }
            8 => self.class(cx, true, true),
            _ => self.const_decl(cx),
        }
    }

    fn pattern(&mut self, cx: Cx, depth: u32) {
        let c = Cx { in_ok: false, ..cx };
        if self.coin(1, 2) {
            self.p("{");
            let n = self.n(4);
            for i in 0..n {
                match self.n(4) {
                    0 => {
                        self.fresh();
                        if self.coin(1, 3) {
                            self.p("=");
                            self.assign(c);
                        }
                    }
                    _ => {
                        self.prop_name(c, false);
                        self.p(":");
                        self.pattern_target(c, depth);
                    }
                }
                if i + 1 < n || self.coin(1, 4) {
                    self.p(",");
                }
            }
            self.p("}");
        } else {
            self.p("[");
            let n = self.n(4);
            for i in 0..n {
                if i + 1 == n && self.coin(1, 4) {
                    self.p("...");
                    self.fresh();
                    break;
                }
                if self.coin(4, 5) {
                    self.pattern_target(c, depth);
                }
                if i + 1 < n || self.coin(1, 4) {
                    self.p(",");
                }
            }
            self.p("]");
        }
    }
    fn pattern_target(&mut self, cx: Cx, depth: u32) {
        if depth > 0 && self.budget > 0 && self.coin(1, 4) {
            self.pattern(cx, depth - 1);
        } else {
            self.fresh();
        }
        if self.coin(1, 4) {
            self.p("=");
            self.assign(cx);
        }
    }

    // ---- expressions ----------------------------------------------------

    fn expr(&mut self, cx: Cx) {
        self.assign(cx);
        while self.budget > 0 && self.coin(1, 10) {
            self.p(",");
            self.assign(cx);
        }
    }

    fn assign(&mut self, cx: Cx) {
        self.budget -= 1;
        let h = if self.budget > 0 { 1 } else { 0 };
        let y = if cx.gen { 3 } else { 0 };
        match self.ch.weighted(W, &[20, 4 * h, 3 * h, 1 * h, 2 * h, y * h]) {
            0 => self.binary(cx),
            1 => {
                self.target(cx);
                let op = *self.ch.pick(W, ASSIGN);
                self.p(op);
                self.assign(cx);
            }
            2 => self.arrow(cx),
            3 => {
                self.word("async");
                self.fresh();
                self.gap_last(Gap::NoLt);
                self.p("=>");
                self.gap_last(Gap::NoLtReject);
                self.arrow_body(Cx { asy: true, gen: false, ..cx });
            }
            4 => {
                self.binary(cx);
                let at = self.out.len();
                self.p("?");
                self.assign(Cx { in_ok: true, ..cx });
                self.dangling_from(at);
                self.p(":");
                self.assign(cx);
            }
            _ => {
                self.word("yield");
                if self.coin(1, 4) {
                    self.p("*");
                    self.gap_last(Gap::NoLt);
                    self.assign(cx);
                } else {
                    let at = self.out.len();
                    self.assign(cx);
                    self.gap_at(at, Gap::NoLt);
                }
            }
        }
    }

    fn arrow(&mut self, cx: Cx) {
        match self.n(4) {
            0 => self.fresh(),
            1 => {
                self.p("(");
                self.pd(")");
            }
            _ => {
                self.p("(");
                let n = 1 + self.n(3);
                let mut rest = false;
                for i in 0..n {
                    if i + 1 == n && self.coin(1, 4) {
                        self.p("...");
                        self.fresh();
                        rest = true;
                    } else {
                        match self.n(4) {
                            0 | 1 => self.fresh(),
                            2 => {
                                self.fresh();
                                self.p("=");
                                self.assign(Cx { gen: false, asy: false, ..cx });
                            }
                            _ => {
                                self.p("{");
                                self.fresh();
                                self.p("}");
                            }
                        }
                    }
                    if i + 1 < n {
                        self.p(",");
                    } else if !rest && self.coin(1, 6) {
                        self.p(",");
                        rest = true;
                    }
                }
                self.p(")");
                if rest {
                    self.dangle_last();
                }
            }
        }
        self.p("=>");
        self.gap_last(Gap::NoLtReject);
        self.arrow_body(Cx { gen: false, asy: false, ..cx });
    }
    fn arrow_body(&mut self, cx: Cx) {
        if self.coin(1, 2) {
            let labels = std::mem::take(&mut self.labels);
            self.block(Cx { func: true, brk: false, top: false, ..cx }, 2);
            self.labels = labels;
        } else {
            let at = self.out.len();
            self.assign(Cx { asy: false, ..cx });
            if self.out[at].text == "{" {
                self.wrap(at);
            }
        }
    }

    fn target(&mut self, cx: Cx) {
        self.ident_ref_plain();
        while self.budget > 0 && self.coin(1, 3) {
            self.budget -= 1;
            if self.coin(1, 2) {
                self.p(".");
                let t = *self.ch.pick(W, PROP_NAMES);
                self.word(t);
            } else {
                self.p("[");
                self.expr(Cx { in_ok: true, ..cx });
                self.p("]");
            }
        }
    }

    fn binary(&mut self, cx: Cx) {
        self.unary(cx);
        loop {
            if self.budget <= 0 {
                break;
            }
            let go = if self.prof.slashy { self.coin(2, 5) } else { self.coin(1, 4) };
            if !go {
                break;
            }
            self.budget -= 1;
            let sl = if self.prof.slashy { 12 } else { 2 };
            match self.ch.weighted(W, &[10, sl, if !cx.in_ok { 0 } else if self.heads > 0 { 8 } else { 1 }, 1, 1]) {
                0 => {
                    let op = *self.ch.pick(W, BINOPS);
                    self.p(op);
                    self.unary(cx);
                }
                1 => {
                    self.p("/");
                    self.unary(cx);
                }
                2 => {
                    self.kw("in");
                    self.unary(cx);
                }
                3 => {
                    self.kw("instanceof");
                    self.unary(cx);
                }
                _ => {
                    // the left side of ** must not be a unary expression
                    self.p("+");
                    self.ident_ref();
                    self.p("**");
                    self.unary(cx);
                }
            }
        }
    }

    fn unary(&mut self, cx: Cx) {
        self.budget -= 1;
        let h = if self.budget > 0 { 1 } else { 0 };
        match self.ch.weighted(W, &[24, 3 * h, 2 * h, 1 * h, 2 * h, if cx.asy { 4 * h } else { 0 }]) {
            0 => self.lhs(cx, true),
            1 => {
                let op = *self.ch.pick(W, &["!", "~", "-", "+"]);
                self.p(op);
                self.unary(cx);
            }
            2 => {
                let op = *self.ch.pick(W, &["typeof", "void", "delete"]);
                self.kw(op);
                if op == "delete" {
                    self.target(cx);
                    self.p(".");
                    self.word("p");
                } else {
                    self.unary(cx);
                }
            }
            3 => {
                let op = *self.ch.pick(W, &["++", "--"]);
                self.pd(op);
                self.target(cx);
            }
            4 => {
                self.target(cx);
                let op = *self.ch.pick(W, &["++", "--"]);
                self.p(op);
                self.gap_last(Gap::NoLt);
            }
            _ => {
                self.kw("await");
                self.unary(cx);
            }
        }
    }

    fn lhs(&mut self, cx: Cx, calls: bool) {
        self.budget -= 1;
        if self.budget > 0 && self.coin(1, 12) {
            self.kw("new");
            self.target(cx);
            if self.coin(3, 4) {
                self.args(cx);
            }
            return;
        }
        self.primary(cx);
        let k = self.out.last().unwrap().clone();
        loop {
            if self.budget <= 0 || !self.coin(1, 4) {
                break;
            }
            self.budget -= 1;
            let numeric = k.k == K::Num && self.out.last().unwrap().text == k.text;
            match self.ch.weighted(W, &[4, 4, if calls { 4 } else { 0 }, if self.prof.templates { 3 } else { 1 }]) {
                0 => {
                    if numeric {
                        continue;
                    }
                    self.p(".");
                    let t = *self.ch.pick(W, PROP_NAMES);
                    self.word(t);
                }
                1 => {
                    self.p("[");
                    self.expr(Cx { in_ok: true, ..cx });
                    self.p("]");
                }
                2 => self.args(cx),
                _ => self.template(cx),
            }
        }
    }

    fn args(&mut self, cx: Cx) {
        let c = Cx { in_ok: true, ..cx };
        self.p("(");
        let n = self.n(4);
        for i in 0..n {
            if self.coin(1, 6) {
                self.p("...");
            }
            self.assign(c);
            if i + 1 < n || self.coin(1, 10) {
                self.p(",");
            }
        }
        self.p(")");
    }

    fn template(&mut self, cx: Cx) {
        let n = if self.budget > 0 { self.n(3) } else { 0 };
        if n == 0 {
            let t = *self.ch.pick(W, TPL_TEXT);
            let t = if t == "$ {" { "$ " } else { t };
            self.emit(&format!("`{}`", t), K::TplNoSub, false);
            return;
        }
        for i in 0..n {
            let t = self.tpl_text();
            if i == 0 {
                self.emit(&format!("`{}${{", t), K::TplHead, true);
            } else {
                self.emit(&format!("}}{}${{", t), K::TplMid, true);
            }
            self.expr(Cx { in_ok: true, ..cx });
        }
        let t = *self.ch.pick(W, TPL_TEXT);
        self.emit(&format!("}}{}`", t), K::TplTail, false);
    }
    fn tpl_text(&mut self) -> &'static str {
        self.ch.pick(W, TPL_TEXT)
    }

    fn primary(&mut self, cx: Cx) {
        self.budget -= 1;
        let h = if self.budget > 0 { 1 } else { 0 };
        let re = if self.prof.slashy { 8 } else { 2 };
        let tp = if self.prof.templates { 7 } else { 2 };
        let w = [10, 4, 3, re, 2, tp, 3 * h, 4 * h, 4 * h, 2 * h, 1 * h, 1 * h];
        match self.ch.weighted(W, &w) {
            0 => self.ident_ref(),
            1 => self.num(),
            2 => self.string(),
            3 => {
                let t = *self.ch.pick(W, REGEXES);
                self.emit(t, K::Regex, false);
            }
            4 => {
                let t = *self.ch.pick(W, &["this", "null", "true", "false"]);
                self.emit(t, K::Kw, false);
            }
            5 => self.template(cx),
            6 => {
                self.p("[");
                let n = self.n(4);
                for i in 0..n {
                    if self.coin(1, 10) {
                        // elision
                    } else {
                        if self.coin(1, 8) {
                            self.p("...");
                        }
                        self.assign(cx);
                    }
                    if i + 1 < n || self.coin(1, 6) {
                        self.p(",");
                    }
                }
                self.p("]");
            }
            7 => self.object(cx),
            8 => {
                self.p("(");
                self.expr(cx);
                self.p(")");
            }
            9 => {
                let at = self.out.len();
                self.kw("function");
                let g = self.coin(1, 4);
                if g {
                    self.p("*");
                }
                if self.coin(1, 2) {
                    self.fresh();
                }
                self.params(cx);
                self.dangling_from(at);
                self.body(cx, g, false);
            }
            10 => {
                let named = self.coin(1, 2);
                self.class(cx, false, named);
            }
            _ => {
                // a parenthesised arrow or sequence
                self.p("(");
                self.arrow(cx);
                self.p(")");
            }
        }
    }

    fn object(&mut self, cx: Cx) {
        self.p("{");
        let n = self.n(4);
        for i in 0..n {
            match self.ch.weighted(W, &[5, 3, 3, 1]) {
                0 => {
                    self.prop_name(cx, false);
                    self.p(":");
                    self.assign(cx);
                }
                1 => {
                    let t = *self.ch.pick(W, IDENTS);
                    self.plain_ident(t);
                }
                2 => self.method(cx, false),
                _ => {
                    self.p("...");
                    self.assign(cx);
                }
            }
            if i + 1 < n || self.coin(1, 5) {
                self.p(",");
            }
        }
        self.p("}");
    }
}

pub fn profile(ch: &mut Ch, max_budget: i64) -> Profile {
    let budget = 4 + ch.draw(W, max_budget as u64) as i64;
    Profile {
        slashy: ch.chance(W, 1, 3),
        templates: ch.chance(W, 1, 3),
        budget,
        stmts: 1 + ch.draw(W, 6),
        asi: *ch.pick(W, &[0, 2, 6]),
        imports: ch.chance(W, 1, 2),
        deep: false,
        long: false,
    }
}

/// A valid module, with annotations.
pub fn program(ch: &mut Ch, prof: Profile) -> Vec<GTok> {
    let derived = if ch.chance(W, 1, 3) { crate::grammar::derive(ch, prof.budget, prof.asi) } else { None };
    let mut v = match derived {
        Some(v) => v,
        None => G::new(ch, prof).program(),
    };
    // depth bookkeeping is exact by construction; recompute to be independent of insertions
    let mut d = 0u32;
    for t in &mut v {
        match (t.k, t.text.as_str()) {
            (K::Punct, "(") | (K::Punct, "[") | (K::Punct, "{") | (K::TplHead, _) => d += 1,
            (K::Punct, ")") | (K::Punct, "]") | (K::Punct, "}") | (K::TplTail, _) => d -= 1,
            _ => {}
        }
        t.depth = d;
    }
    debug_assert_eq!(d, 0);
    v
}
