//! L07: what no program can contain. Every rule is a necessary condition of the
//! ECMAScript (2018) grammar on tokens, so firing means the program is invalid;
//! not firing says nothing. The rules are checked against every generated valid
//! program as well: if one fires there, the harness is wrong and stops.

use crate::choice::{Ch, F};
use crate::gen::{GTok, Gap, K};
use crate::text::PUNCTS;

const BIN: &[&str] = &[
    "==", "===", "!=", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "&&", "||", "&", "|", "^", "%", "**", "*", "/", "+", "-", "=", "+=", "-=",
    "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "**=", "?",
];
/// can only stand between two operands
const BIN_ONLY: &[&str] = &[
    "==", "===", "!=", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "&&", "||", "&", "|", "^", "%", "**", "/", "=", "+=", "-=", "*=", "/=",
    "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "**=", "?", "=>", ".",
];
pub const ALIEN: &[&str] = &["-->", "<!--"];
const STMT: &[&str] = &[
    "if", "while", "for", "do", "switch", "try", "throw", "return", "break", "continue", "debugger", "with", "case", "default", "else", "catch",
    "finally", "export",
];
const PREFIX: &[&str] = &["typeof", "void", "delete", "new", "throw", "in", "instanceof"];

struct Open {
    c: u8, // ( [ { T
    for_head: bool,
    head: Option<&'static str>,
    semis: u32,
    quest: i32,
    primary: bool,
}

fn closer(t: Option<&GTok>) -> bool {
    match t {
        None => true,
        Some(t) => match t.k {
            K::Punct => matches!(t.text.as_str(), ")" | "]" | "}" | ";" | ","),
            K::TplMid | K::TplTail => true,
            _ => false,
        },
    }
}
fn no_operand(t: Option<&GTok>) -> bool {
    closer(t)
        || match t {
            Some(t) => t.k == K::Punct && (BIN_ONLY.contains(&t.text.as_str()) || t.text == ":"),
            None => true,
        }
}
fn is_p(t: Option<&GTok>, s: &str) -> bool {
    matches!(t, Some(t) if t.k == K::Punct && t.text == s)
}
fn word(t: Option<&GTok>) -> Option<&str> {
    match t {
        Some(t) if matches!(t.k, K::Ident | K::Kw) => Some(&t.text),
        _ => None,
    }
}

/// Why no program has this token sequence. `lt[i]`: a line break precedes token i.
pub fn must_reject(toks: &[GTok], lt: &[bool]) -> Option<(&'static str, usize)> {
    let mut st: Vec<Open> = vec![Open { c: b'^', for_head: false, head: None, semis: 0, quest: 0, primary: false }];
    for i in 0..toks.len() {
        let t = &toks[i];
        let prev = if i > 0 { Some(&toks[i - 1]) } else { None };
        let next = toks.get(i + 1);
        let inner = st.last().unwrap().c;
        let s = t.text.as_str();
        let after_dot = is_p(prev, ".");
        if t.k == K::Punct && ALIEN.contains(&s) {
            return Some(("alien", i));
        }
        if let Some(p) = prev {
            let same = !lt[i];
            if same && p.plain && t.plain {
                return Some(("adjacent operands", i));
            }
            if same && p.plain && word(Some(t)).map_or(false, |w| matches!(w, "this" | "null" | "true" | "false")) {
                return Some(("adjacent operands", i));
            }
            if same && p.plain && t.k == K::Regex {
                return Some(("adjacent operands", i));
            }
            if same && p.k == K::Punct && p.text == "]" && t.plain {
                return Some(("operand after ]", i));
            }
            if after_dot && word(Some(t)).is_none() {
                return Some(("period without a name", i));
            }
        }
        match t.k {
            K::Punct => {
                if BIN.contains(&s) || matches!(s, "!" | "~" | "=>" | "...") {
                    if no_operand(next) {
                        return Some(("operator without operand", i));
                    }
                }
                if s == "." && next.is_none() {
                    return Some(("period at the end", i));
                }
                if BIN_ONLY.contains(&s) {
                    let bad = match prev {
                        None => true,
                        Some(p) => match p.k {
                            K::Punct => matches!(p.text.as_str(), "(" | "[" | "{" | ";" | ","),
                            K::TplHead | K::TplMid => true,
                            _ => false,
                        },
                    };
                    if bad {
                        return Some(("operator without left operand", i));
                    }
                }
                if s == "=>" {
                    let ok = match prev {
                        Some(p) => matches!(p.k, K::Ident | K::Kw) || p.text == ")" && p.k == K::Punct,
                        None => false,
                    };
                    if !ok {
                        return Some(("arrow without parameters", i));
                    }
                    if lt[i] {
                        return Some(("line break before arrow", i));
                    }
                }
                if s == "," {
                    let bad = match prev {
                        None => true,
                        Some(p) => match p.k {
                            K::Punct => match p.text.as_str() {
                                "," => inner != b'[',
                                "(" | "{" | ";" => true,
                                _ => false,
                            },
                            K::TplHead | K::TplMid => true,
                            _ => false,
                        },
                    };
                    if bad {
                        return Some(("comma without left side", i));
                    }
                    if next.is_none() || is_p(next, ";") || is_p(next, ":") || matches!(next, Some(n) if matches!(n.k, K::TplMid | K::TplTail)) {
                        return Some(("comma without right side", i));
                    }
                }
                if s == ";" {
                    let o = st.last_mut().unwrap();
                    match o.c {
                        b'[' | b'T' => return Some(("semicolon inside an expression", i)),
                        b'(' => {
                            if !o.for_head {
                                return Some(("semicolon inside parentheses", i));
                            }
                            o.semis += 1;
                            if o.semis > 2 {
                                return Some(("third semicolon in a for head", i));
                            }
                            if o.quest > 0 {
                                return Some(("conditional without colon", i));
                            }
                        }
                        _ => {}
                    }
                }
                if s == "?" {
                    st.last_mut().unwrap().quest += 1;
                }
                if s == ":" {
                    let o = st.last_mut().unwrap();
                    if matches!(o.c, b'(' | b'[' | b'T') {
                        o.quest -= 1;
                        if o.quest < 0 {
                            return Some(("colon without conditional", i));
                        }
                    } else if o.c == b'^' {
                        o.quest -= 1;
                        if o.quest < 0 {
                            o.quest = 0; // a label
                        }
                    }
                }
                match s {
                    "(" | "[" | "{" => {
                        let c = s.as_bytes()[0];
                        let before = word(prev);
                        let pp_dot = i >= 2 && is_p(Some(&toks[i - 2]), ".");
                        let for_head = c == b'(' && before == Some("for") && !pp_dot;
                        let head = if c == b'(' && inner == b'^' && !pp_dot {
                            match before {
                                Some("if") => Some("if"),
                                Some("while") => Some("while"),
                                Some("switch") => Some("switch"),
                                Some("with") => Some("with"),
                                Some("for") => Some("for"),
                                _ => None,
                            }
                        } else {
                            None
                        };
                        let primary = c == b'('
                            && match prev {
                                Some(p) if p.k == K::Punct => {
                                    (BIN.contains(&p.text.as_str()) && p.text != "*") || matches!(p.text.as_str(), "(" | "[" | "=>" | "!" | "~")
                                }
                                _ => false,
                            };
                        st.push(Open { c, for_head, head, semis: 0, quest: 0, primary });
                    }
                    ")" | "]" | "}" => {
                        let o = st.pop().unwrap();
                        let want = match o.c {
                            b'(' => ")",
                            b'[' => "]",
                            b'{' => "}",
                            _ => "",
                        };
                        if want != s || st.is_empty() {
                            return Some(("unbalanced", i));
                        }
                        if o.c != b'{' && o.quest > 0 {
                            return Some(("conditional without colon", i));
                        }
                        if s == ")" {
                            let empty = is_p(prev, "(");
                            if empty && o.primary && !is_p(next, "=>") {
                                return Some(("empty parentheses", i));
                            }
                            if empty && o.head.is_some() {
                                return Some(("empty head", i));
                            }
                            if o.for_head && o.semis == 1 {
                                return Some(("one semicolon in a for head", i));
                            }
                            if matches!(o.head, Some("if") | Some("for") | Some("with")) && next.is_none() {
                                return Some(("head without body", i));
                            }
                        }
                    }
                    _ => {}
                }
            }
            K::TplHead => st.push(Open { c: b'T', for_head: false, head: None, semis: 0, quest: 0, primary: false }),
            K::TplMid | K::TplTail => {
                let o = st.last_mut().unwrap();
                if o.c != b'T' {
                    return Some(("unbalanced template", i));
                }
                if o.quest > 0 {
                    return Some(("conditional without colon", i));
                }
                if matches!(prev, Some(p) if matches!(p.k, K::TplHead | K::TplMid)) {
                    return Some(("empty substitution", i));
                }
                o.quest = 0;
                if t.k == K::TplTail {
                    st.pop();
                }
            }
            K::Ident | K::Kw if !after_dot => {
                if matches!(inner, b'(' | b'[' | b'T') && STMT.contains(&s) {
                    return Some(("statement keyword inside an expression", i));
                }
                if matches!(s, "var" | "const") {
                    let ok = match inner {
                        b'(' => st.last().unwrap().for_head && is_p(prev, "("),
                        b'[' | b'T' => false,
                        _ => true,
                    };
                    if !ok {
                        return Some(("declaration inside an expression", i));
                    }
                }
                if inner != b'{' {
                    if PREFIX.contains(&s) && no_operand(next) && !(s == "new" && is_p(next, ".")) {
                        return Some(("keyword without operand", i));
                    }
                    if s == "function" && !(is_p(next, "*") || is_p(next, "(") || word(next).is_some()) {
                        return Some(("function without parameters", i));
                    }
                    if s == "class" && !(is_p(next, "{") || word(next).is_some()) {
                        return Some(("class without body", i));
                    }
                    if matches!(s, "var" | "const") && !(is_p(next, "{") || is_p(next, "[") || word(next).is_some()) {
                        return Some(("declaration without name", i));
                    }
                }
                if inner == b'^' {
                    if matches!(s, "if" | "while" | "switch" | "for" | "with") && !is_p(next, "(") {
                        return Some(("statement without head", i));
                    }
                    if s == "try" && !is_p(next, "{") {
                        return Some(("try without block", i));
                    }
                    if s == "throw" && (next.is_none() || lt[i + 1]) {
                        return Some(("throw without operand", i));
                    }
                }
            }
            _ => {}
        }
    }
    if st.len() > 1 {
        return Some(("unclosed", toks.len()));
    }
    if st[0].quest > 0 {
        return Some(("conditional without colon", toks.len()));
    }
    None
}

// ---- damage in transit ----------------------------------------------------------

const WORDS: &[&str] = &[
    "a", "b", "x1", "get", "set", "static", "async", "of", "from", "as", "yield", "await", "let", "var", "const", "function", "class", "extends",
    "super", "this", "null", "true", "false", "new", "delete", "typeof", "void", "in", "instanceof", "if", "else", "for", "while", "do", "switch",
    "case", "default", "break", "continue", "return", "throw", "try", "catch", "finally", "with", "debugger", "import", "export", "target", "enum",
    "arguments", "eval", "implements",
];

pub fn any_token(ch: &mut Ch, alien: bool) -> GTok {
    let mk = |text: &str, k: K, plain: bool| GTok { text: text.into(), k, gap: Gap::Free, dangle: false, end: false, plain, depth: 0 };
    match ch.weighted(F, &[10, 8, 2, 2, 1, 1, 1, 1, 1, if alien { 2 } else { 0 }]) {
        0 => {
            let t = *ch.pick(F, PUNCTS);
            if ALIEN.contains(&t) && !alien {
                mk(";", K::Punct, false)
            } else {
                mk(t, K::Punct, false)
            }
        }
        1 => {
            let t = *ch.pick(F, WORDS);
            mk(t, K::Ident, matches!(t, "a" | "b" | "x1"))
        }
        2 => mk("1", K::Num, true),
        3 => mk("'s'", K::Str, true),
        4 => mk("/r/g", K::Regex, false),
        5 => mk("`t`", K::TplNoSub, false),
        6 => mk("`h${", K::TplHead, false),
        7 => mk("}m${", K::TplMid, false),
        8 => mk("}t`", K::TplTail, false),
        _ => mk(ch.pick(F, ALIEN), K::Punct, false),
    }
}

pub const DAMAGE: &[&str] =
    &["lose", "duplicate", "swap", "replace", "insert", "lose-run", "repeat-run", "move", "alien", "relative", "relative", "line", "in"];
/// Tokens that one may be taken for another.
const KIN: &[&[&str]] = &[
    &["in", "+", "*", "<", "instanceof", "&&", "||", "==", "-", "**", ",", "=", "+=", "?", ":", "=>", "/"],
    &["in", "of", ";", "=", ","],
    &["var", "let", "const", "class", "function", "import", "export"],
    &["break", "continue", "return", "debugger", "throw", "this"],
    &["get", "set", "static", "async", "constructor", "super", "new", "yield", "await", "delete", "typeof"],
    &["(", "[", "{"],
    &[")", "]", "}"],
    &[",", ";", ":", ".", "..."],
    &["++", "--", "!", "+", "-", "..."],
    &["if", "while", "for", "switch", "with", "catch", "do", "else", "try", "finally"],
    &["case", "default", "as", "from", "extends"],
];
fn relative(ch: &mut Ch, v: &mut [GTok], from: usize) {
    // the next token that has any
    for i in (from..v.len()).chain(0..from) {
        let own: Vec<&&[&str]> = KIN.iter().filter(|f| matches!(v[i].k, K::Punct | K::Kw | K::Ident) && f.contains(&&v[i].text[..])).collect();
        if own.is_empty() {
            continue;
        }
        let f = own[ch.draw(F, own.len() as u64) as usize];
        let t = *ch.pick(F, f);
        v[i].text = t.to_string();
        v[i].k = if !t.as_bytes()[0].is_ascii_alphabetic() {
            K::Punct
        } else if crate::grammar::reserved(t) {
            K::Kw
        } else {
            K::Ident
        };
        v[i].plain = false;
        return;
    }
}

pub fn damage(ch: &mut Ch, v: &mut Vec<GTok>) -> &'static str {
    let n = v.len();
    if n == 0 {
        let t = any_token(ch, true);
        v.push(t);
        return "insert";
    }
    let at = ch.draw(F, n as u64) as usize;
    let k = ch.draw(F, DAMAGE.len() as u64) as usize;
    match k {
        0 => {
            v.remove(at);
        }
        1 => {
            let t = v[at].clone();
            v.insert(at, t);
        }
        2 => {
            let b = (at + 1) % n;
            v.swap(at, b);
        }
        3 => v[at] = any_token(ch, false),
        4 => {
            let t = any_token(ch, false);
            v.insert(at, t);
        }
        5 => {
            let len = 1 + ch.draw(F, 6) as usize;
            let e = (at + len).min(v.len());
            v.drain(at..e);
        }
        6 => {
            let len = 1 + ch.draw(F, 6) as usize;
            let e = (at + len).min(v.len());
            let r: Vec<GTok> = v[at..e].to_vec();
            for (i, t) in r.into_iter().enumerate() {
                v.insert(e + i, t);
            }
        }
        7 => {
            let t = v.remove(at);
            let to = ch.draw(F, v.len() as u64 + 1) as usize;
            v.insert(to, t);
        }
        9 | 10 => relative(ch, v, at),
        11 => v[at].gap = if v[at].gap == Gap::Free { Gap::Asi } else { Gap::Free },
        12 => {
            // an "in" somewhere in the head of a loop
            let near = |v: &[GTok], i: usize| i > 1 && v[i - 1].text == "(" && v[i - 2].text == "for";
            let from = (at..n).chain(0..at).find(|i| near(v, *i)).unwrap_or(at);
            let i = (from + 1 + ch.draw(F, 12) as usize).min(n);
            let t = |s: &str, k| GTok { text: s.into(), k, gap: Gap::Free, dangle: false, end: false, plain: false, depth: 0 };
            v.insert(i, t("in", K::Kw));
            v.insert(i + 1, t("a", K::Ident));
        }
        _ => {
            let a = *ch.pick(F, ALIEN);
            v.insert(
                at,
                GTok { text: a.into(), k: K::Punct, gap: Gap::Free, dangle: false, end: false, plain: false, depth: 0 },
            );
        }
    }
    DAMAGE[k]
}
