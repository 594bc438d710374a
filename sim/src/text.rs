//! From annotated tokens to a text and a token stream: trivia between the
//! tokens, the layout, and the position model (written from the property, not
//! from the code).

use crate::choice::{Ch, T};
use crate::gen::{GTok, Gap, K};
use jsparse::sim_seam::{tokens as tk, Position};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PK {
    Ws,
    Lt,
    Block,
    BlockLt,
    Line,
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub pk: PK,
    pub text: String,
}

pub type Gaps = Vec<Vec<Piece>>; // one per token, plus the trailing one

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rule {
    Free,
    Forbid,
    Require,
}

pub fn rule_of(g: Gap) -> Rule {
    match g {
        Gap::Free => Rule::Free,
        Gap::Asi | Gap::AsiSoft => Rule::Require,
        Gap::NoLt | Gap::NoLtReject => Rule::Forbid,
    }
}

pub const LTS: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"];
pub const WSS: &[&str] = &[
    " ", "\t", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", " \t ", "    ", "\u{a0}\u{a0}", "\t\u{feff} ", "\u{3000}", "\u{2003}", "\u{1680}",
];
const BLOCKS: &[&str] = &[
    "", "c", "*", "**", " } ", " ${ ", " ` ", " ' ", " \" ", " / ", " // ", " /* ", " é漢😀 ", " => ", " ; ", "/", " function ", " ) ] } ",
];
const LINES: &[&str] = &["", " c", "/", " */", " it's", " ` ${", " }", " \"", " é漢😀", " /*", " \\", "//", " =>", " ;"];

/// Characters that Zs adds beyond what every engine of 2018 agreed on are kept apart.
pub fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '$' || c == '_' || (c as u32) > 0x7f
}
const MUNCH: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--",
    "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=",
    "^=", "=>", "//", "/*",
];

/// Whether two tokens that touch would be read differently.
pub fn needs_sep(a: &GTok, b: &GTok) -> bool {
    let la = a.text.chars().last().unwrap();
    let fb = b.text.chars().next().unwrap();
    let a_word = matches!(a.k, K::Ident | K::Kw | K::Num | K::Regex);
    let b_word = matches!(b.k, K::Ident | K::Kw | K::Num);
    if a_word && b_word && is_word(la) && is_word(fb) {
        return true;
    }
    match a.k {
        K::Regex => b_word,
        // a decimal integer would take the dot
        K::Num => b_word || fb == '.' && a.text.bytes().all(|c| c.is_ascii_digit()),
        K::Punct if a.text == "." && b.k == K::Num => true,
        K::Punct => {
            // a longer punctuator begins here
            let both = format!("{}{}", a.text, b.text);
            MUNCH.iter().any(|p| p.len() > a.text.len() && p.starts_with(&a.text[..]) && both.starts_with(p))
                || a.text == "." && fb == '.'
                // not punctuators of this language level, but read as such by later ones
                || a.text == "?" && fb == '?'
        }
        _ => false,
    }
}

fn sp() -> Piece {
    Piece { pk: PK::Ws, text: " ".into() }
}
fn lt(s: &str) -> Piece {
    Piece { pk: PK::Lt, text: s.into() }
}

/// The fewest separators that keep the program what it is.
pub fn plain_gaps(toks: &[GTok]) -> Gaps {
    let mut v: Gaps = vec![];
    for i in 0..toks.len() {
        let mut g = vec![];
        if rule_of(toks[i].gap) == Rule::Require {
            g.push(lt("\n"));
        } else if i > 0 && needs_sep(&toks[i - 1], &toks[i]) {
            g.push(sp());
        }
        v.push(g);
    }
    v.push(vec![]);
    v
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// chance out of 16 that a gap gets a burst
    pub burst: u64,
    pub max: u64,
    pub comments: bool,
    pub lts: bool,
    /// the most pieces between two tokens
    pub flood: u64,
}

pub fn style(ch: &mut Ch) -> Style {
    Style {
        burst: *ch.pick(T, &[0, 1, 4, 12, 16]),
        max: *ch.pick(T, &[1, 2, 4, 9]),
        comments: ch.draw(T, 4) != 1,
        lts: ch.draw(T, 4) != 1,
        flood: 131_072,
    }
}

pub fn lt_piece(ch: &mut Ch) -> Vec<Piece> {
    // every way of writing a line break
    let form = ch.draw(T, 15) as usize;
    let s = LTS[form % 5];
    match form / 5 {
        0 => vec![lt(s)],
        1 => vec![Piece { pk: PK::Line, text: format!("//{}", ch.pick(T, LINES)) }, lt(s)],
        _ => {
            let a = *ch.pick(T, BLOCKS);
            let b = *ch.pick(T, BLOCKS);
            // a block comment must end where it is meant to
            vec![Piece { pk: PK::BlockLt, text: block(&format!("{}{}{}", a, s, b)) }]
        }
    }
}

fn block(inner: &str) -> String {
    let mut s = inner.to_string();
    // `/*` directly followed by `/` is not closed, but `*` followed by `/` inside would close it
    while s.contains("*/") {
        s = s.replace("*/", "* /");
    }
    format!("/*{}*/", s)
}

/// Pieces without any line break.
pub fn flat_pieces(ch: &mut Ch, st: Style) -> Vec<Piece> {
    let n = 1 + ch.draw(T, st.max);
    let mut v = vec![];
    for _ in 0..n {
        if st.comments && ch.chance(T, 1, 2) {
            let b = *ch.pick(T, BLOCKS);
            v.push(Piece { pk: PK::Block, text: block(b) });
        } else {
            v.push(Piece { pk: PK::Ws, text: ch.pick(T, WSS).to_string() });
        }
    }
    v
}

pub fn gap(ch: &mut Ch, st: Style, rule: Rule, sep: bool) -> Vec<Piece> {
    let burst = ch.chance(T, st.burst, 16);
    let mut v: Vec<Piece> = vec![];
    if burst {
        v.extend(flat_pieces(ch, st));
    }
    match rule {
        Rule::Forbid => {}
        Rule::Free => {
            if burst && st.lts {
                let n = ch.draw(T, 3);
                for _ in 0..n {
                    v.extend(lt_piece(ch));
                    if ch.chance(T, 1, 2) {
                        v.extend(flat_pieces(ch, Style { max: 1, ..st }));
                    }
                }
            }
        }
        Rule::Require => {
            v.extend(lt_piece(ch));
            if burst {
                v.extend(flat_pieces(ch, st));
                if st.lts && ch.chance(T, 1, 3) {
                    v.extend(lt_piece(ch));
                }
            }
        }
    }
    if v.is_empty() && sep {
        v.push(sp());
    }
    v
}

/// Repairs what gluing would change: a comment right after a slash, CR next to LF.
pub fn glue(prev_text: &str, v: &mut Vec<Piece>) {
    if let Some(f) = v.first() {
        if prev_text.ends_with('/') && f.text.starts_with('/') {
            v.insert(0, sp());
        }
    }
    let mut i = 1;
    while i < v.len() {
        if v[i - 1].text.ends_with('\r') && v[i].text.starts_with('\n') {
            v.insert(i, sp());
        }
        i += 1;
    }
}

pub fn burst_gaps(ch: &mut Ch, toks: &[GTok], st: Style) -> Gaps {
    let mut v: Gaps = vec![];
    for i in 0..toks.len() {
        let sep = i > 0 && needs_sep(&toks[i - 1], &toks[i]);
        let mut g = gap(ch, st, rule_of(toks[i].gap), sep);
        glue(if i > 0 { &toks[i - 1].text } else { "" }, &mut g);
        v.push(g);
    }
    let mut g = gap(ch, st, Rule::Free, false);
    if st.comments && ch.chance(T, 1, 6) {
        g.push(Piece { pk: PK::Line, text: format!("//{}", ch.pick(T, LINES)) });
    }
    glue(toks.last().map(|t| &t.text[..]).unwrap_or(""), &mut g);
    v.push(g);
    if ch.chance(T, 1, 2500) {
        flood(ch, toks, &mut v, st.flood);
    }
    v
}

/// Far more between two tokens than anyone counts on.
fn flood(ch: &mut Ch, toks: &[GTok], v: &mut Gaps, max: u64) {
    let i = ch.draw(T, v.len() as u64) as usize;
    let rule = toks.get(i).map_or(Rule::Free, |t| rule_of(t.gap));
    let n = *ch.pick(T, &[255u64, 256, 257, 512, 1000, 4096, 65_535, 65_536, 65_537, 131_072]).min(&max);
    let one: Vec<Piece> = if rule == Rule::Forbid || ch.chance(T, 1, 3) {
        match ch.draw(T, 3) {
            0 => vec![Piece { pk: PK::Block, text: "/**/".into() }],
            1 => vec![Piece { pk: PK::Block, text: "/*é*/".into() }, sp()],
            _ => vec![Piece { pk: PK::Block, text: format!("/*{}*/", " ".repeat(n as usize)) }],
        }
    } else {
        match ch.draw(T, 4) {
            0 => vec![lt(LTS[ch.draw(T, 5) as usize])],
            1 => vec![Piece { pk: PK::BlockLt, text: "/*\n*/".into() }],
            2 => vec![Piece { pk: PK::Line, text: "//".into() }, lt("\n")],
            _ => vec![Piece { pk: PK::BlockLt, text: format!("/*{}*/", "\r\n".repeat(n as usize)) }],
        }
    };
    let mut g = vec![];
    if i > 0 && toks[i - 1].text.ends_with('/') {
        g.push(sp());
    }
    if one[0].text.len() > 200 {
        g.extend(one);
    } else {
        for _ in 0..n {
            g.extend(one.iter().cloned());
        }
    }
    if rule == Rule::Require && !has_lt(&g) {
        g.push(lt("\n"));
    }
    v[i] = g;
}

pub fn has_lt(g: &[Piece]) -> bool {
    g.iter().any(|p| matches!(p.pk, PK::Lt | PK::BlockLt))
}

#[derive(Clone, Debug)]
pub struct Item {
    pub start: usize,
    pub end: usize,
    /// index of the generated token, or the kind of trivia
    pub tok: Option<usize>,
    pub pk: PK,
    pub from: Position,
    pub to: Position,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub text: String,
    pub items: Vec<Item>,
    pub toks: Vec<GTok>,
    pub eof: Position,
}

pub fn layout(toks: &[GTok], gaps: &Gaps) -> Layout {
    let mut text = String::new();
    let mut spans: Vec<(usize, usize, Option<usize>, PK)> = vec![];
    for i in 0..=toks.len() {
        for p in &gaps[i] {
            let s = text.len();
            text.push_str(&p.text);
            spans.push((s, text.len(), None, p.pk));
        }
        if i < toks.len() {
            let s = text.len();
            text.push_str(&toks[i].text);
            spans.push((s, text.len(), Some(i), PK::Ws));
        }
    }
    let mut at = Pos::new(&text);
    let items = spans
        .into_iter()
        .map(|(start, end, tok, pk)| {
            let from = at.at(start);
            let to = at.at(end);
            Item { start, end, tok, pk, from, to }
        })
        .collect();
    let eof = at.at(text.len());
    Layout { text, items, toks: toks.to_vec(), eof }
}

/// Position of any char boundary, scanning forward.
pub struct Pos<'a> {
    text: &'a str,
    cur: Position,
}
impl<'a> Pos<'a> {
    pub fn new(text: &'a str) -> Pos<'a> {
        Pos { text, cur: Position { offset: 0, line: 1, column: 0 } }
    }
    pub fn at(&mut self, off: usize) -> Position {
        if off < self.cur.offset {
            self.cur = Position { offset: 0, line: 1, column: 0 };
        }
        let rest = &self.text[self.cur.offset..off];
        let mut it = rest.chars().peekable();
        while let Some(c) = it.next() {
            self.cur.offset += c.len_utf8();
            match c {
                '\r' => {
                    // CR LF counts once, at the LF
                    let next = it.peek().cloned().or_else(|| self.text[self.cur.offset..].chars().next());
                    if next == Some('\n') {
                        self.cur.column += 1;
                    } else {
                        self.cur.line += 1;
                        self.cur.column = 0;
                    }
                }
                '\n' | '\u{2028}' | '\u{2029}' => {
                    self.cur.line += 1;
                    self.cur.column = 0;
                }
                _ => self.cur.column += 1,
            }
        }
        self.cur
    }
}

// ---- tokens for the stub source --------------------------------------------

pub fn punct(s: &str) -> Option<tk::PunctuatorToken> {
    use tk::PunctuatorToken::*;
    Some(match s {
        "{" => CurlyOpen,
        "}" => CurlyClose,
        "(" => ParenOpen,
        ")" => ParenClose,
        "[" => SquareOpen,
        "]" => SquareClose,
        ";" => Semicolon,
        "," => Comma,
        "~" => Tilde,
        "?" => Question,
        ":" => Colon,
        "." => Period,
        "..." => Ellipsis,
        "<" => LAngle,
        "<=" => LAngleEq,
        "<<" => LAngleAngle,
        "<<=" => LAngleAngleEq,
        "<!--" => LAngleExclamDashDash,
        ">" => RAngle,
        ">=" => RAngleEq,
        ">>" => RAngleAngle,
        ">>=" => RAngleAngleEq,
        ">>>" => RAngleAngleAngle,
        ">>>=" => RAngleAngleAngleEq,
        "!" => Exclam,
        "!=" => ExclamEq,
        "!==" => ExclamEqEq,
        "=" => Eq,
        "=>" => Arrow,
        "==" => EqEq,
        "===" => EqEqEq,
        "+" => Plus,
        "+=" => PlusEq,
        "++" => PlusPlus,
        "-" => Minus,
        "-=" => MinusEq,
        "--" => MinusMinus,
        "-->" => MinusMinusAngle,
        "%" => Percent,
        "%=" => PercentEq,
        "*" => Star,
        "*=" => StarEq,
        "**" => StarStar,
        "**=" => StarStarEq,
        "/" => Slash,
        "/=" => SlashEq,
        "&" => Amp,
        "&&" => AmpAmp,
        "&=" => AmpEq,
        "|" => Bar,
        "||" => BarBar,
        "|=" => BarEq,
        "^" => Caret,
        "^=" => CaretEq,
        _ => return None,
    })
}
pub const PUNCTS: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "...", "<", "<=", "<<", "<<=", "<!--", ">", ">=", ">>", ">>=", ">>>", ">>>=", "!",
    "!=", "!==", "=", "=>", "==", "===", "+", "+=", "++", "-", "-=", "--", "-->", "%", "%=", "*", "*=", "**", "**=", "/", "/=", "&", "&&", "&=",
    "|", "||", "|=", "^", "^=",
];

pub fn stub_token<'c>(k: K, text: &'c str) -> tk::Token<'c> {
    match k {
        K::Ident | K::Kw => tk::IdentifierNameToken { name: text.into() }.into(),
        K::Punct => match punct(text) {
            Some(p) => p.into(),
            None => panic!("sim: no punctuator {:?}", text),
        },
        K::Num => tk::NumericLiteralToken { value: text.parse().unwrap_or(1.0) }.into(),
        K::Str => tk::StringLiteralToken { value: text[1..text.len() - 1].into() }.into(),
        K::Regex => {
            let e = text.rfind('/').unwrap();
            tk::RegularExpressionLiteralToken { pattern: text[1..e].into(), flags: text[e + 1..].into() }.into()
        }
        K::TplNoSub | K::TplTail => {
            let v = &text[1..text.len() - 1];
            let format = if k == K::TplNoSub { tk::TemplateFormat::NoSubstitution } else { tk::TemplateFormat::Tail };
            tk::TemplateToken { format, cooked: v.into(), raw: v.into() }.into()
        }
        K::TplHead | K::TplMid => {
            let v = &text[1..text.len() - 2];
            let format = if k == K::TplHead { tk::TemplateFormat::Head } else { tk::TemplateFormat::Middle };
            tk::TemplateToken { format, cooked: v.into(), raw: v.into() }.into()
        }
    }
}
pub fn stub_trivia<'c>(pk: PK, text: &'c str) -> tk::Token<'c> {
    match pk {
        PK::Ws => tk::WhitespaceToken {}.into(),
        PK::Lt => tk::LineTerminatorToken {}.into(),
        PK::Line => tk::CommentToken { format: tk::CommentFormat::Line, value: text[2..].into() }.into(),
        PK::Block | PK::BlockLt => tk::CommentToken { format: tk::CommentFormat::Block, value: text[2..text.len() - 2].into() }.into(),
    }
}

/// Whether a delivered token is of the kind that the generator meant.
pub fn kind_ok(t: &tk::Token, k: K, text: &str) -> bool {
    match (t, k) {
        (tk::Token::IdentifierName(n), K::Ident) | (tk::Token::IdentifierName(n), K::Kw) => n.name == text,
        (tk::Token::Punctuator(p), K::Punct) => punct(text) == Some(*p),
        (tk::Token::NumericLiteral(_), K::Num) => true,
        (tk::Token::StringLiteral(_), K::Str) => true,
        (tk::Token::RegularExpressionLiteral(_), K::Regex) => true,
        (tk::Token::Template(t), _) => match (&t.format, k) {
            (tk::TemplateFormat::NoSubstitution, K::TplNoSub)
            | (tk::TemplateFormat::Head, K::TplHead)
            | (tk::TemplateFormat::Middle, K::TplMid)
            | (tk::TemplateFormat::Tail, K::TplTail) => true,
            _ => false,
        },
        _ => false,
    }
}
