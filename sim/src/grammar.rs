//! A reference recogniser: an Earley parser for modules of ECMAScript 2018, on tokens.
//! It accepts every module of the language (early errors are not its business) and is
//! deliberately wider in places where the code under test is documented to be (see `WIDER`
//! in DESIGN.md). What it refuses, no program contains; `dead` is the first token that
//! cannot follow the ones before it in any program.

use crate::choice::{Ch, W as DRAW};
use crate::gen::{GTok, Gap, K};
use std::collections::HashMap;
use std::sync::OnceLock;

/// Symbols: 'text', CLASS, Nonterminal with flag changes (+I -I +A -A), `?` optional,
/// @nolt: no line break before the next token; @asi: a semicolon may be left out here;
/// @nocurly, @stmt, @nofunc: the next token is not '{'; not the start of something else
/// than an expression statement; not 'function' or 'class'. [F]: only under flag F.
/// BID and LID are identifiers that a derivation makes up new.
const GRAMMAR: &str = r#"
Module: | Module ModItem
ModItem: Item | Import | Export
Import: 'import' STR Semi | 'import' ImpClause 'from' STR Semi
ImpClause: BID | ImpNs | ImpNamed | BID ',' ImpNs | BID ',' ImpNamed
ImpNs: '*' 'as' BID
ImpNamed: '{' '}' | '{' ImpSpecs ','? '}'
ImpSpecs: ImpSpec | ImpSpecs ',' ImpSpec
ImpSpec: BID | NAME 'as' BID | [W] NAME | [W] NAME 'as' NAME
Export: 'export' '*' 'from' STR Semi | 'export' ExpNamed 'from' STR Semi | 'export' '{' '}' Semi | [W] 'export' ExpNamed Semi
ExpNamed: '{' '}' | '{' ExpSpecs ','? '}'
ExpSpecs: ExpSpec | ExpSpecs ',' ExpSpec
ExpSpec: BID | NAME 'as' BID | [W] NAME | [W] NAME 'as' NAME
Export: 'export' Var | 'export' Decl | 'export' 'default' Deflt
Deflt: Func | AsyncFn BID? Params-A-Y-S FBody+A-Y-S | Class | @nofunc Assign+I Semi

Items: | Items Item
Item: Stmt | Decl
Decl: 'function' BID FuncPlain | 'function' '*' BID GenPlain | [W] AsyncFn '*'? ID FuncRest+A | 'class' BID ClassRest | Lexical
Func: 'function' BID? FuncPlain | 'function' '*' BID? GenPlain | [W] AsyncFn '*'? ID? FuncRest+A
AsyncFn: 'async' @nolt 'function'
FuncRest: Params FBody
FuncPlain: Params-A-Y-S FBody-A-Y-S
GenPlain: Params-A-Y-S FBody-A+Y-S
FBody: Block+R-L-C
Class: 'class' BID? ClassRest
ClassRest: 'extends' Lhs '{' ClassItems Ctor ClassItems '}'
Ctor: 'constructor' Params-A-Y+S '{' SuperCall Items-R-L-C-A-Y+S '}'
SuperCall: 'super' Args-R-L-C-A-Y+S Semi | 'this' '.' NAME '=' 'super' Args-R-L-C-A-Y+S Semi
ClassRest: Heritage? '{' ClassItems '}'
Heritage: 'extends' Lhs
ClassItems: | ClassItems ClassItem
ClassItem: ';' | Method | 'static' Method
Method: PropName Params-A-Y+S FBody-A-Y+S | '*' PropName Params-A-Y+S FBody-A+Y+S
Method: 'async' @nolt PropName Params-A-Y+S FBody+A-Y+S | [W] 'async' @nolt '*'? PropName Params FBody+A
Method: 'get' PropName '(' ')' FBody-A-Y+S | 'set' PropName '(' Param-A-Y+S ')' FBody-A-Y+S
Method: [W] 'get' PropName '(' ')' FBody | [W] 'set' PropName '(' Param ')' FBody
PropName: NAME | STR | NUM | '[' Assign+I ']'
Params: '(' ')' | '(' ParamList ','? ')' | '(' ParamList ',' Rest ')' | '(' Rest ')'
ParamList: Param | ParamList ',' Param
Param: BID Init+I? | Pattern Init+I?
Rest: '...' BID | '...' Pattern

Lexical: 'let' Binds+I Semi | 'const' BindsC+I Semi
Binds: Bind | Binds ',' Bind
Bind: BID Init? | Pattern Init
BindsC: BindC | BindsC ',' BindC
BindC: BID Init | Pattern Init
Var: 'var' Binds+I Semi
Init: '=' Assign
Pattern: '{' '}' | '{' PatProps ','? '}' | [W] '{' PatProps ',' Rest '}' | [W] '{' Rest '}' | '[' PatElems ']'
PatProps: PatProp | PatProps ',' PatProp
PatProp: PropName ':' Param | BID Init+I?
PatElems: Param? | PatElems1 Param? | PatElems1 Rest | Rest
PatElems1: Param? ',' | PatElems1 Param? ','

Stmt: Block | Var | ';' | @stmt Expr+I Semi
Stmt: 'if' '(' Expr+I ')' Stmt | 'if' '(' Expr+I ')' Stmt 'else' Stmt
Stmt: 'while' '(' Expr+I ')' Stmt+L+C | 'do' Stmt+L+C 'while' '(' Expr+I ')' ';'? | 'for' '(' ForHead ')' Stmt+L+C
Stmt: [C] 'continue' Semi | [W] 'continue' @nolt ID Semi | [L] 'break' Semi | [W] 'break' @nolt ID Semi
Stmt: [R] 'return' Semi | [R] 'return' @nolt Expr+I Semi | 'throw' @nolt Expr+I Semi
Stmt: [W] 'with' '(' Expr+I ')' Stmt | LID ':' Stmt | 'switch' '(' Expr+I ')' '{' Clauses '}'
Stmt: 'try' Block Catch | 'try' Block Finally | 'try' Block Catch Finally | 'debugger' Semi
Catch: 'catch' '(' BID ')' Block | 'catch' '(' Pattern ')' Block
Finally: 'finally' Block
Clauses: [W] | [W] Clauses Clause | Cases Default? Cases
Cases: | Cases Case
Clause: Case | Default
Case: 'case' Expr+I ':' Items+L
Default: 'default' ':' Items+L
Block: '{' Items '}'
ForHead: Expr-I? ForRest | 'var' Binds-I ForRest | 'let' Binds-I ForRest | 'const' BindsC-I ForRest
ForHead: [W] Expr-I ForX | Target-I ForX | TPattern ForX | 'var' ForBind ForX | 'let' ForBind ForX | 'const' ForBind ForX
ForRest: ';' Expr+I? ';' Expr+I?
ForX: 'in' Expr+I | 'of' Assign+I
ForBind: BID | Pattern
Semi: ';' | @asi

Expr: Assign | Expr ',' Assign
Assign: Cond | [W] Cond AssignOp Assign | Target AssignOp Assign | TPattern '=' Assign
TPattern: '{' '}' | '{' TProps ','? '}' | '[' TElems ']'
TProps: TProp | TProps ',' TProp
TProp: PropName ':' TElem | ID
TElem: Target+I Init+I? | TPattern Init+I?
TElems: TElem? | TElems1 TElem? | TElems1 TRest | TRest
TElems1: TElem? ',' | TElems1 TElem? ','
TRest: '...' Target+I | '...' TPattern
Assign: [Y] 'yield' | [Y] 'yield' @nolt Assign | [Y] 'yield' @nolt '*' Assign
Assign: BID @nolt '=>' Body-A-Y | ArrowParams-A-Y @nolt '=>' Body-A-Y
Assign: 'async' @nolt BID @nolt '=>' Body+A-Y | 'async' @nolt ArrowParams-A-Y @nolt '=>' Body+A-Y
Assign: [W] ID @nolt '=>' Body | [W] ParenCover @nolt '=>' Body | [W] 'async' Args+I @nolt '=>' Body+A
Body: FBody | @nocurly Assign
ParenCover: '(' ')' | '(' Rest ')' | '(' Expr+I ')' | '(' Expr+I ',' ')' | '(' Expr+I ',' Rest ')'
ArrowParams: '(' ')' | '(' AParamList ','? ')' | '(' AParamList ',' ARest ')' | '(' ARest ')'
AParamList: AParam | AParamList ',' AParam
AParam: BID Init+I? | APattern Init+I?
ARest: '...' BID | '...' APattern
APattern: '{' '}' | '{' APatProps ','? '}' | '[' APatElems ']'
APatProps: APatProp | APatProps ',' APatProp
APatProp: PropName ':' AParam | BID
APatElems: AParam? | APatElems1 AParam? | APatElems1 ARest | ARest
APatElems1: AParam? ',' | APatElems1 AParam? ','
AssignOp: '=' | '*=' | '/=' | '%=' | '+=' | '-=' | '<<=' | '>>=' | '>>>=' | '&=' | '^=' | '|=' | '**='
Target: ID | Lhs '.' NAME | Lhs '[' Expr+I ']' | '(' Target+I ')'
Cond: Bin | Bin '<' '!' '--' Target | Target @nolt '--' '>' Pow | Bin '?' Assign+I ':' Assign
Bin: Pow | Bin BinOp Pow
Pow: Unary | Update '**' Pow
BinOp: '||' | '&&' | '|' | '^' | '&' | '==' | '===' | '!=' | '!==' | '<' | '>' | '<=' | '>=' | 'instanceof' | [I] 'in'
BinOp: '<<' | '>>' | '>>>' | '+' | '-' | '*' | '/' | '%' | [W] '**'
Unary: UnOp Unary | [A] 'await' Unary | 'delete' Lhs '.' NAME | 'delete' Lhs '[' Expr+I ']' | [W] 'delete' Unary | Update
UnOp: '+' | '-' | '~' | '!' | 'void' | 'typeof'
Update: '++' Target | '--' Target | Lhs | Target @nolt '++' | Target @nolt '--'
Update: [W] '++' Unary | [W] '--' Unary | [W] Lhs @nolt '++' | [W] Lhs @nolt '--'
Lhs: Primary | 'new' Lhs | Lhs '.' NAME | Lhs '[' Expr+I ']' | Lhs Tpl | Lhs Args
Lhs: [S] 'super' '.' NAME | [S] 'super' '[' Expr+I ']' | [W] 'super' | [S] 'new' '.' 'target'
Args: '(' ')' | '(' ArgList ','? ')'
ArgList: Arg+I | ArgList ',' Arg+I
Arg: Assign | '...' Assign
Primary: 'this' | 'null' | 'true' | 'false' | REF | NUM | STR | RE | Tpl | '(' Expr+I ')' | Func | Class
Primary: '[' Elems ']' | '{' '}' | '{' Props ','? '}'
Elems: Arg+I? | Elems1 Arg+I?
Elems1: Arg+I? ',' | Elems1 Arg+I? ','
Props: Prop | Props ',' Prop
Prop: '...' Assign+I | PropName ':' Assign+I | ID | Method | [W] ID Init+I
Tpl: TPL | TH Expr+I TplRest
TplRest: TT | TM Expr+I TplRest
"#;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sym {
    Text(u16),
    Class(u8),
    Nt(u16, u8, u8), // id, flags to set, flags to clear
    NoLt,
    Asi,
    Not(u8),
}
/// Flags: 'in' is an operator, 'await' is one, 'yield' is one, return, break, continue and
/// super may stand here; W: the wider grammar, which has all alternatives.
const FLAGS: &[u8] = b"IAYRLCSW";
const I: u8 = 1;
const W: u8 = 128;
const WIDE: u8 = 0b1111_1100;
const CLASSES: &[&str] = &["ID", "NAME", "NUM", "STR", "RE", "TPL", "TH", "TM", "TT", "BID", "LID", "REF"];
fn flag(c: u8) -> u8 {
    1 << FLAGS.iter().position(|f| *f == c).unwrap()
}
/// Words that the smaller grammar does not use as identifiers.
const SPECIAL: &[&str] = &[
    "let", "static", "implements", "interface", "package", "private", "protected", "public", "async", "eval", "arguments",
];
const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false",
    "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try",
    "typeof", "var", "void", "while", "with", "yield", "await",
];

pub fn reserved(w: &str) -> bool {
    RESERVED.contains(&w)
}

struct Grammar {
    texts: HashMap<String, u16>,
    // per nonterminal: (guard flags, first rule)
    alts: Vec<Vec<(u8, u16)>>,
    rules: Vec<(u16, Vec<Sym>)>,
    names: Vec<String>,
}

fn load() -> Grammar {
    let mut g = Grammar { texts: HashMap::new(), alts: vec![], rules: vec![], names: vec![] };
    let mut ids: HashMap<String, u16> = HashMap::new();
    fn nt(g: &mut Grammar, ids: &mut HashMap<String, u16>, n: &str) -> u16 {
        if let Some(i) = ids.get(n) {
            return *i;
        }
        let i = g.alts.len() as u16;
        g.alts.push(vec![]);
        g.names.push(n.to_string());
        ids.insert(n.to_string(), i);
        i
    }
    for line in GRAMMAR.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
        let (name, body) = line.split_once(':').unwrap();
        let left = nt(&mut g, &mut ids, name);
        // alternatives are separated by a bar that stands alone
        let mut alts: Vec<Vec<&str>> = vec![vec![]];
        for w in body.split_whitespace() {
            if w == "|" {
                alts.push(vec![]);
            } else {
                alts.last_mut().unwrap().push(w);
            }
        }
        for alt in alts {
            let mut guard = 0;
            let mut variants: Vec<Vec<Sym>> = vec![vec![]];
            for w in alt {
                if w.starts_with('[') {
                    guard |= flag(w.as_bytes()[1]);
                    continue;
                }
                let (w, opt) = match w.strip_suffix('?') {
                    Some(x) if x.len() > 1 || !x.starts_with('\'') => (x, true),
                    _ => (w, false),
                };
                let s = if let Some(t) = w.strip_prefix('\'') {
                    let t = t.strip_suffix('\'').unwrap_or_else(|| panic!("{}", line));
                    let n = g.texts.len() as u16;
                    Sym::Text(*g.texts.entry(t.to_string()).or_insert(n))
                } else if w == "@nolt" {
                    Sym::NoLt
                } else if w == "@asi" {
                    Sym::Asi
                } else if w == "@nocurly" {
                    Sym::Not(0)
                } else if w == "@stmt" {
                    Sym::Not(1)
                } else if w == "@nofunc" {
                    Sym::Not(2)
                } else if let Some(c) = CLASSES.iter().position(|c| *c == w) {
                    Sym::Class(c as u8)
                } else {
                    let end = w.find(|c| c == '+' || c == '-').unwrap_or(w.len());
                    let (mut set, mut clr) = (0, 0);
                    let f = w[end..].as_bytes();
                    for p in f.chunks(2) {
                        let b = flag(p[1]);
                        if p[0] == b'+' {
                            set |= b
                        } else {
                            clr |= b
                        }
                    }
                    Sym::Nt(nt(&mut g, &mut ids, &w[..end]), set, clr)
                };
                let mut more = vec![];
                for v in &mut variants {
                    if opt {
                        more.push(v.clone());
                    }
                    v.push(s);
                }
                variants.extend(more);
            }
            for v in variants {
                let r = g.rules.len() as u16;
                g.rules.push((left, v));
                g.alts[left as usize].push((guard, r));
            }
        }
    }
    for (i, a) in g.alts.iter().enumerate() {
        assert!(!a.is_empty(), "no rule for {}", g.names[i]);
    }
    g
}

fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(load)
}

pub struct Verdict {
    /// the first token that cannot stand there in any program
    pub dead: Option<usize>,
    /// whether the tokens before `n` are a whole program when the input ends there
    pub whole: Vec<bool>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct It {
    rule: u16,
    dot: u8,
    flags: u8,
    from: u16,
}

#[derive(Default)]
struct Set {
    items: Vec<It>,
    /// items by the nonterminal and flags they wait for; sorted when the set is complete
    waiting: Vec<(u32, It)>,
}

/// Which items and predictions a closure has already seen.
#[derive(Default)]
struct Scratch {
    stamp: u32,
    table: Vec<(u32, u64)>,
    used: usize,
    predicted: Vec<u32>,
}
impl Scratch {
    fn start(&mut self, nts: usize) {
        if self.table.is_empty() || self.stamp == u32::MAX {
            self.table = vec![(0, 0); 4096];
            self.predicted = vec![0; nts * 256];
            self.stamp = 0;
        }
        self.stamp += 1;
        self.used = 0;
    }
    fn first(&mut self, it: It) -> bool {
        let key = (it.rule as u64) << 32 | (it.dot as u64) << 24 | (it.flags as u64) << 16 | it.from as u64;
        if self.used * 2 > self.table.len() {
            let old = std::mem::take(&mut self.table);
            self.table = vec![(0, 0); old.len() * 2];
            for (s, k) in old {
                if s == self.stamp {
                    self.put(k);
                }
            }
        }
        self.put(key)
    }
    fn put(&mut self, key: u64) -> bool {
        let mask = self.table.len() - 1;
        let mut i = (key.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize & mask;
        loop {
            let e = &mut self.table[i];
            if e.0 != self.stamp {
                *e = (self.stamp, key);
                self.used += 1;
                return true;
            }
            if e.1 == key {
                return false;
            }
            i = (i + 1) & mask;
        }
    }
}
thread_local! {
    static SCRATCH: std::cell::RefCell<Scratch> = Default::default();
}

/// What the machine needs to know of a token.
struct Look {
    class: [bool; 12],
    text: Option<u16>,
    // it is '{'; 'function' or 'class'; 'let'; '}'
    curly: bool,
    func: bool,
    lett: bool,
    close: bool,
    regex: bool,
}

fn look(g: &Grammar, t: &GTok, wide: bool) -> Look {
    let mut l = Look { class: [false; 12], text: None, curly: false, func: false, lett: false, close: false, regex: false };
    match t.k {
        K::Ident | K::Kw => {
            let s = t.text.as_str();
            l.class[1] = true;
            let id = !RESERVED.contains(&s) && (wide || !SPECIAL.contains(&s));
            l.class[0] = id;
            l.class[9] = id;
            l.class[10] = id;
            l.class[11] = id || matches!(s, "async" | "eval" | "arguments");
            l.text = g.texts.get(s).copied();
            l.func = s == "function" || s == "class";
            l.lett = s == "let";
        }
        K::Punct => {
            l.text = g.texts.get(&t.text).copied();
            l.curly = t.text == "{";
            l.close = t.text == "}";
        }
        K::Num => l.class[2] = true,
        K::Str => l.class[3] = true,
        K::Regex => {
            l.class[4] = true;
            l.regex = true;
        }
        K::TplNoSub => l.class[5] = true,
        K::TplHead => l.class[6] = true,
        K::TplMid => l.class[7] = true,
        K::TplTail => l.class[8] = true,
    }
    l
}

struct Chart {
    sets: Vec<Set>,
    seed: Vec<It>,
    flags: u8,
    /// closures of the seed, with the conditions they were made under and those that mattered
    made: Vec<(u8, u8, Set, bool)>,
}
// conditions
const C_ASI: u8 = 8;
const C_NOLT: u8 = 16;

impl Chart {
    fn new(g: &Grammar, flags: u8) -> Chart {
        let mut seed = vec![];
        for &(guard, r) in &g.alts[0] {
            if guard & !flags == 0 {
                seed.push(It { rule: r, dot: 0, flags, from: 0 });
            }
        }
        Chart { sets: vec![], seed, flags, made: vec![] }
    }
    /// The items before a token (None: the end), and whether all before it is a whole program.
    fn before(&mut self, g: &Grammar, l: Option<&Look>, asi: bool, lt: bool) -> usize {
        let wide = self.flags & W != 0;
        let not = match l {
            None => 0,
            Some(l) if wide => l.curly as u8 * 3,
            Some(l) => l.curly as u8 | ((l.curly || l.func || l.lett) as u8) << 1 | (l.func as u8) << 2,
        };
        let cond = not | if asi { C_ASI } else { 0 } | if lt { 0 } else { C_NOLT };
        if let Some(i) = self.made.iter().position(|m| (m.0 ^ cond) & m.1 == 0) {
            return i;
        }
        let mut set = Set { items: self.seed.clone(), waiting: vec![] };
        let (whole, mattered) = close(g, &self.sets, &mut set, self.sets.len(), cond);
        self.made.push((cond, mattered, set, whole));
        self.made.len() - 1
    }
    fn hits(g: &Grammar, it: &It, l: &Look) -> bool {
        match g.rules[it.rule as usize].1.get(it.dot as usize) {
            Some(Sym::Text(t)) => l.text == Some(*t),
            Some(Sym::Class(c)) => l.class[*c as usize],
            _ => false,
        }
    }
    fn viable(&mut self, g: &Grammar, l: &Look, asi: bool, lt: bool) -> bool {
        let i = self.before(g, Some(l), asi, lt);
        self.made[i].2.items.iter().any(|it| Chart::hits(g, it, l))
    }
    /// Takes the next token; false if it cannot stand there.
    fn step(&mut self, g: &Grammar, l: &Look, asi: bool, lt: bool) -> bool {
        let i = self.before(g, Some(l), asi, lt);
        let set = self.made.swap_remove(i).2;
        self.made.clear();
        self.seed = set.items.iter().filter(|it| Chart::hits(g, it, l)).map(|it| It { dot: it.dot + 1, ..*it }).collect();
        self.sets.push(set);
        !self.seed.is_empty()
    }
    fn whole(&mut self, g: &Grammar) -> bool {
        let i = self.before(g, None, true, false);
        self.made[i].3
    }
}

/// `lt[i]`: a line break precedes token i (and `lt[toks.len()]` the end of input).
/// `ends`: also decide for every prefix whether it is a whole program.
pub fn recognise(toks: &[GTok], lt: &[bool], ends: bool) -> Verdict {
    let g = grammar();
    let n = toks.len();
    let mut c = Chart::new(g, I | WIDE);
    let mut whole = vec![false; n + 1];
    for i in 0..n {
        if ends {
            whole[i] = c.whole(g);
        }
        let l = look(g, &toks[i], true);
        if !c.step(g, &l, lt[i] || l.close, lt[i]) {
            return Verdict { dead: Some(i), whole };
        }
    }
    whole[n] = c.whole(g);
    Verdict { dead: None, whole }
}

/// The two grammars side by side: what no program contains, and what every parser of the
/// supported language takes.
pub struct Pair<'g> {
    g: &'g Grammar,
    wide: Chart,
    sure: Chart,
    /// the smaller grammar still follows
    pub known: bool,
    depth: i32,
}

/// How a token can follow.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Join {
    /// as part of what came before
    On,
    /// the statement before it ends here
    New,
    /// not in the smaller grammar
    Unknown,
}

impl<'g> Pair<'g> {
    pub fn new() -> Pair<'static> {
        let g = grammar();
        Pair { g, wide: Chart::new(g, I | WIDE), sure: Chart::new(g, I), known: true, depth: 0 }
    }
    /// Whether the wider grammar can take the token as part of what came before. Where
    /// a regular expression starts, whether it does so or ends the statement would be
    /// settled by reading the slash first and reading it again: not decided here.
    fn continues(&mut self, t: &GTok, lt: bool) -> bool {
        let l = look(self.g, t, true);
        l.regex || self.wide.viable(self.g, &l, false, lt)
    }
    pub fn join(&mut self, t: &GTok, lt: bool) -> Join {
        let l = look(self.g, t, false);
        if self.sure.viable(self.g, &l, false, lt) {
            Join::On
        } else if (l.close || lt && !self.continues(t, lt)) && self.sure.viable(self.g, &l, true, lt) {
            Join::New
        } else {
            Join::Unknown
        }
    }
    /// No program goes on with this token.
    pub fn refused(&mut self, t: &GTok, lt: bool) -> bool {
        let l = look(self.g, t, true);
        !self.wide.viable(self.g, &l, lt || l.close, lt)
    }
    /// Takes a token; false if no program goes on with it.
    pub fn step(&mut self, t: &GTok, lt: bool) -> bool {
        if self.known {
            let asi = self.join(t, lt) == Join::New;
            self.known = self.sure.step(self.g, &look(self.g, t, false), asi, lt);
        }
        self.depth += match (t.k, &t.text[..]) {
            (K::Punct, "(") | (K::Punct, "[") | (K::Punct, "{") | (K::TplHead, _) => 1,
            (K::Punct, ")") | (K::Punct, "]") | (K::Punct, "}") | (K::TplTail, _) => -1,
            _ => 0,
        };
        let l = look(self.g, t, true);
        self.wide.step(self.g, &l, lt || l.close, lt)
    }
    /// (may be, is for sure) a whole program
    pub fn whole(&mut self) -> (bool, bool) {
        if self.depth != 0 {
            return (false, false);
        }
        let w = self.wide.whole(self.g);
        (w, w && self.known && self.sure.whole(self.g))
    }
}

pub struct Judgement {
    pub dead: Option<usize>,
    /// may be a program; is one, of the supported language
    pub maybe: bool,
    pub sure: bool,
}

pub fn judge(toks: &[GTok], lt: &[bool]) -> Judgement {
    let mut p = Pair::new();
    for (i, t) in toks.iter().enumerate() {
        if !p.step(t, lt[i]) {
            return Judgement { dead: Some(i), maybe: false, sure: false };
        }
    }
    let (maybe, sure) = p.whole();
    Judgement { dead: None, maybe, sure }
}

fn close(g: &Grammar, sets: &[Set], set: &mut Set, at: usize, cond: u8) -> (bool, u8) {
    SCRATCH.with(|s| close_with(&mut s.borrow_mut(), g, sets, set, at, cond))
}

fn close_with(sc: &mut Scratch, g: &Grammar, sets: &[Set], set: &mut Set, at: usize, cond: u8) -> (bool, u8) {
    sc.start(g.alts.len());
    for it in &set.items {
        sc.first(*it);
    }
    let mut empty: Vec<u32> = vec![];
    let mut k = 0;
    let mut done = false;
    let mut mattered = 0u8;
    while k < set.items.len() {
        let it = set.items[k];
        k += 1;
        let (left, ref body) = g.rules[it.rule as usize];
        let next = It { dot: it.dot + 1, ..it };
        match body.get(it.dot as usize) {
            None => {
                if left == 0 && it.from == 0 {
                    done = true;
                }
                let key = (left as u32) << 8 | it.flags as u32;
                if it.from as usize == at {
                    if !empty.contains(&key) {
                        empty.push(key);
                    }
                    for w in &set.waiting {
                        let n = It { dot: w.1.dot + 1, ..w.1 };
                        if w.0 == key && sc.first(n) {
                            set.items.push(n);
                        }
                    }
                } else {
                    let ws = &sets[it.from as usize].waiting;
                    for w in &ws[ws.partition_point(|w| w.0 < key)..] {
                        if w.0 != key {
                            break;
                        }
                        let n = It { dot: w.1.dot + 1, ..w.1 };
                        if sc.first(n) {
                            set.items.push(n);
                        }
                    }
                }
            }
            Some(Sym::Nt(n, s, c)) => {
                let mut f = (it.flags | s) & !c;
                if f & W != 0 {
                    f |= WIDE;
                }
                let key = (*n as u32) << 8 | f as u32;
                set.waiting.push((key, it));
                if empty.contains(&key) && sc.first(next) {
                    set.items.push(next);
                }
                if sc.predicted[key as usize] != sc.stamp {
                    sc.predicted[key as usize] = sc.stamp;
                    for &(guard, r) in &g.alts[*n as usize] {
                        let n = It { rule: r, dot: 0, flags: f, from: at as u16 };
                        if guard & !f == 0 && sc.first(n) {
                            set.items.push(n);
                        }
                    }
                }
            }
            Some(Sym::NoLt) => {
                mattered |= C_NOLT;
                if cond & C_NOLT != 0 && sc.first(next) {
                    set.items.push(next);
                }
            }
            Some(Sym::Asi) => {
                mattered |= C_ASI;
                if cond & C_ASI != 0 && sc.first(next) {
                    set.items.push(next);
                }
            }
            Some(Sym::Not(n)) => {
                mattered |= 1 << n;
                if cond & (1 << n) == 0 && sc.first(next) {
                    set.items.push(next);
                }
            }
            _ => {}
        }
    }
    set.waiting.sort_unstable_by_key(|w| w.0);
    (done, mattered)
}

// ---- derivation ----------------------------------------------------------------------

/// The fewest tokens that a nonterminal needs, per flags.
fn costs(g: &Grammar) -> Vec<[u32; 128]> {
    const INF: u32 = 1 << 20;
    let mut c = vec![[INF; 128]; g.alts.len()];
    loop {
        let mut changed = false;
        for n in 0..g.alts.len() {
            for f in 0..128u8 {
                let best = g.alts[n].iter().filter(|a| a.0 & !f == 0).map(|a| rule_cost(g, &c, a.1, f)).min().unwrap_or(INF);
                if best < c[n][f as usize] {
                    c[n][f as usize] = best;
                    changed = true;
                }
            }
        }
        if !changed {
            return c;
        }
    }
}
fn rule_cost(g: &Grammar, c: &[[u32; 128]], r: u16, f: u8) -> u32 {
    let mut sum = 0u32;
    for s in &g.rules[r as usize].1 {
        sum = sum.saturating_add(match s {
            Sym::Text(_) | Sym::Class(_) => 1,
            Sym::Nt(n, s, k) => c[*n as usize][((f | s) & !k & 127) as usize],
            _ => 0,
        });
    }
    sum
}

struct Der<'a> {
    g: &'static Grammar,
    costs: &'static [[u32; 128]],
    words: Vec<&'static str>,
    ch: &'a mut Ch,
    out: Vec<GTok>,
    marks: Vec<usize>,
    budget: i64,
    asi: u64,
    names: u32,
    fresh: u32,
    soft: u8,
    /// chance out of 64, per expansion, of a departure from the grammar; how many are left
    wrong: u64,
    slips: u32,
    /// some rules are preferred throughout a program, so that rare ones meet
    taste: u64,
    share: u64,
    /// how many brackets are open in which "in" is an operator again
    inner: u32,
    /// the only rule that is departed from, and one that is preferred
    target: u16,
}
const NONE: u16 = u16::MAX;

impl<'a> Der<'a> {
    fn likes(&self, rule: u16) -> bool {
        rule == self.target || crate::choice::mix(self.taste, rule as u64) % 64 < self.share
    }
    fn slip(&mut self, rule: u16) -> bool {
        let n = if self.target == NONE {
            self.wrong
        } else if self.target == rule {
            32
        } else {
            0
        };
        if self.slips > 0 && self.ch.chance(crate::choice::F, n, 64) {
            self.slips -= 1;
            return true;
        }
        false
    }
    fn emit(&mut self, text: String, k: K, plain: bool) {
        self.budget -= 1;
        self.out.push(GTok { text, k, gap: Gap::Free, dangle: false, end: false, plain, depth: 0 });
    }
    fn nt(&mut self, n: u16, f: u8) {
        let g = self.g;
        let name = &g.names[n as usize][..];
        if name == "Semi" {
            if self.ch.chance(DRAW, self.asi, 8) {
                self.marks.push(self.out.len());
            } else {
                self.emit(";".into(), K::Punct, false);
            }
            return;
        }
        let mut alts: Vec<(u32, u16)> =
            g.alts[n as usize].iter().filter(|a| a.0 & !f == 0).map(|a| (rule_cost(g, self.costs, a.1, f), a.1)).collect();
        if alts.is_empty() {
            // only reached after a departure
            return;
        }
        alts.sort();
        let min = alts[0].0;
        let list = matches!(name, "Module" | "Items");
        let small = if list {
            !(self.budget > 0 && if name == "Module" { self.ch.chance(DRAW, 7, 8) } else { self.ch.chance(DRAW, 3, 4) })
        } else if self.budget <= 0 {
            true
        } else if matches!(name, "ModItem" | "Item" | "Stmt" | "Method" | "ClassItem" | "Prop" | "Decl") {
            self.ch.chance(DRAW, 1, 8)
        } else {
            self.ch.chance(DRAW, 1, 2)
        };
        let all = if self.share > 0 && self.budget > 0 && !list { alts.clone() } else { vec![] };
        if small {
            alts.retain(|a| a.0 == min);
        } else if list {
            alts.retain(|a| a.0 > min);
        }
        if all.len() > 1 {
            let liked: Vec<(u32, u16)> = all.iter().cloned().filter(|a| self.likes(a.1)).collect();
            if !liked.is_empty() && self.ch.chance(DRAW, 1, 2) {
                alts = liked;
            }
        }
        let mut r = alts[self.ch.draw(DRAW, alts.len() as u64) as usize].1;
        if name == "BinOp" && (f & I == 0 && self.slips > 0 || f & I != 0 && self.inner > 0) && self.ch.chance(DRAW, 1, 3) {
            // an "in" inside the head of a loop, where it is an operator or not
            if f & I == 0 {
                self.slips -= 1;
            }
            r = g.alts[n as usize].iter().find(|a| a.0 == I).unwrap().1;
        }
        if name == "Primary" && small && self.ch.chance(DRAW, 1, 2) {
            r = g.alts[n as usize].iter().find(|a| g.rules[a.1 as usize].1[..] == [Sym::Class(11)]).unwrap().1;
        }
        let mut not = None;
        let body = &g.rules[r as usize].1;
        let (mut skip, mut twice, mut swap) = (usize::MAX, usize::MAX, usize::MAX);
        let mut f = f;
        if self.slip(r) {
            let i = self.ch.draw(crate::choice::F, body.len().max(1) as u64) as usize;
            match self.ch.draw(crate::choice::F, 4) {
                0 => f ^= 1 << self.ch.draw(crate::choice::F, 7),
                1 => skip = i,
                2 => twice = i,
                _ => swap = i,
            }
        }
        let mut todo: Vec<Sym> = vec![];
        for (i, s) in body.iter().enumerate() {
            if i == twice {
                todo.push(*s);
            }
            if i == swap {
                // something else
                let r = self.ch.draw(crate::choice::F, g.rules.len() as u64) as usize;
                let b = &g.rules[r].1;
                if !b.is_empty() {
                    todo.push(b[self.ch.draw(crate::choice::F, b.len() as u64) as usize]);
                }
            } else if i != skip {
                todo.push(*s);
            }
        }
        for s in &todo {
            match *s {
                Sym::Text(t) => {
                    let w = self.words[t as usize];
                    let k = if !w.as_bytes()[0].is_ascii_alphabetic() {
                        K::Punct
                    } else if RESERVED.contains(&w) {
                        K::Kw
                    } else {
                        K::Ident
                    };
                    self.emit(w.to_string(), k, false);
                }
                Sym::Class(c) => self.class(CLASSES[c as usize], name == "Primary"),
                Sym::Not(n) => not = Some((n, self.out.len())),
                Sym::Nt(m, s, c) => {
                    let at = self.out.len();
                    let again = f & I == 0 && s & I != 0;
                    self.inner += again as u32;
                    self.nt(m, (f | s) & !c);
                    self.inner -= again as u32;
                    if let Some((n, b)) = not.take() {
                        let first = self.out.get(b).map(|t| look(g, t, false));
                        let hit = first.map_or(false, |l| match n {
                            0 => l.curly,
                            1 => l.curly || l.func || l.lett,
                            _ => l.func,
                        });
                        if hit && b == at {
                            self.emit("(".into(), K::Punct, false);
                            let t = self.out.pop().unwrap();
                            self.out.insert(at, t);
                            for m in &mut self.marks {
                                if *m > at {
                                    *m += 1;
                                }
                            }
                            self.emit(")".into(), K::Punct, false);
                        }
                    }
                }
                Sym::NoLt | Sym::Asi => {}
            }
        }
    }
    fn class(&mut self, c: &str, primary: bool) {
        let tpl = |ch: &mut Ch| *ch.pick(DRAW, crate::gen::TPL_TEXT);
        match c {
            "REF" if self.ch.chance(DRAW, 1, 24) => {
                let t = *self.ch.pick(DRAW, &["async", "async", "eval", "arguments"]);
                self.emit(t.into(), K::Ident, false);
            }
            "ID" | "REF" => {
                let all = crate::gen::IDENTS.len() as u64;
                let n = self.ch.draw(DRAW, all + 6);
                if n < all {
                    self.emit(crate::gen::IDENTS[n as usize].into(), K::Ident, primary);
                } else if n == all || self.fresh == 0 {
                    let t = *self.ch.pick(DRAW, crate::gen::SOFT_IDENTS);
                    self.emit(t.into(), K::Ident, false);
                } else {
                    let i = 1 + self.ch.draw(DRAW, self.fresh as u64);
                    self.emit(format!("v{}", i), K::Ident, primary);
                }
            }
            "NAME" => {
                let t = if self.ch.chance(DRAW, 1, 2) { *self.ch.pick(DRAW, crate::gen::IDENTS) } else { *self.ch.pick(DRAW, crate::gen::PROP_NAMES) };
                self.emit(t.into(), K::Ident, false);
            }
            "BID" => {
                // a word with a meaning elsewhere, once per program
                let soft = ["get", "set", "of", "from", "as", "target"];
                let n = self.ch.draw(DRAW, 48) as usize;
                if n < soft.len() && self.soft >> n & 1 == 0 {
                    self.soft |= 1 << n;
                    self.emit(soft[n].into(), K::Ident, false);
                } else {
                    self.fresh += 1;
                    self.emit(format!("v{}", self.fresh), K::Ident, false);
                }
            }
            "LID" => {
                self.names += 1;
                self.emit(format!("L{}", self.names), K::Ident, false);
            }
            "NUM" => {
                let t = *self.ch.pick(DRAW, crate::gen::NUMS);
                self.emit(t.into(), K::Num, primary);
            }
            "STR" => {
                let t = *self.ch.pick(DRAW, crate::gen::STRS);
                self.emit(t.into(), K::Str, primary);
            }
            "RE" => {
                let t = *self.ch.pick(DRAW, crate::gen::REGEXES);
                self.emit(t.into(), K::Regex, false);
            }
            "TPL" => {
                let t = tpl(self.ch);
                self.emit(format!("`{}`", if t == "$ {" { "$ " } else { t }), K::TplNoSub, false);
            }
            "TH" => {
                let t = tpl(self.ch);
                self.emit(format!("`{}${{", t), K::TplHead, false);
            }
            "TM" => {
                let t = tpl(self.ch);
                self.emit(format!("}}{}${{", t), K::TplMid, false);
            }
            _ => {
                let t = tpl(self.ch);
                self.emit(format!("}}{}`", t), K::TplTail, false);
            }
        }
    }
}

/// A program drawn from the smaller grammar, with annotations. None if its
/// annotations cannot be given.
pub fn derive(ch: &mut Ch, budget: i64, asi: u64) -> Option<Vec<GTok>> {
    let (out, marks) = draw(ch, budget, asi, 0, 0);
    annotate(out, marks)
}

/// Almost a program: up to `slips` departures from the grammar. Also the places where a
/// line break stands for a semicolon.
pub fn near_miss(ch: &mut Ch, budget: i64, asi: u64, wrong: u64, slips: u32) -> (Vec<GTok>, Vec<usize>) {
    draw(ch, budget, asi, wrong, slips)
}

fn draw(ch: &mut Ch, budget: i64, asi: u64, wrong: u64, slips: u32) -> (Vec<GTok>, Vec<usize>) {
    static C: OnceLock<Vec<[u32; 128]>> = OnceLock::new();
    let g = grammar();
    let costs = C.get_or_init(|| costs(g));
    let mut words = vec![""; g.texts.len()];
    for (w, i) in &g.texts {
        words[*i as usize] = &w[..];
    }
    let mut d = Der { g, costs, words, ch, out: vec![], marks: vec![], budget, asi, names: 0, fresh: 0, soft: 0, wrong, slips, taste: 0, share: 0, inner: 0, target: NONE };
    d.taste = d.ch.draw(DRAW, 1 << 32);
    d.share = *d.ch.pick(DRAW, &[0, 2, 5, 12, 24]);
    if slips > 0 && d.ch.chance(crate::choice::F, 1, 2) {
        d.target = d.ch.draw(crate::choice::F, g.rules.len() as u64) as u16;
        d.share = d.share.max(1);
    }
    d.nt(0, I);
    (d.out, d.marks)
}

fn annotate(toks: Vec<GTok>, marks: Vec<usize>) -> Option<Vec<GTok>> {
    let mut p = Pair::new();
    let mut out: Vec<GTok> = vec![];
    for (i, mut t) in toks.into_iter().enumerate() {
        let mut lt = false;
        if marks.contains(&i) && !(t.k == K::Punct && t.text == "}") {
            if p.join(&t, true) == Join::New {
                lt = true;
                t.gap = if p.refused(&t, false) { Gap::Asi } else { Gap::AsiSoft };
            } else {
                // a line break would not end the statement here
                let semi = GTok { text: ";".into(), k: K::Punct, gap: Gap::Free, dangle: false, end: false, plain: false, depth: 0 };
                push(&mut p, &mut out, semi, false);
            }
        }
        if !lt {
            let j = p.join(&t, false);
            if j == Join::Unknown {
                return None;
            }
            t.gap = if p.join(&t, true) == j {
                Gap::Free
            } else if p.refused(&t, true) {
                Gap::NoLtReject
            } else {
                Gap::NoLt
            };
        }
        push(&mut p, &mut out, t, lt);
    }
    if p.known && (out.is_empty() || out.last().unwrap().end) {
        Some(out)
    } else {
        None
    }
}
fn push(p: &mut Pair, out: &mut Vec<GTok>, mut t: GTok, lt: bool) {
    p.step(&t, lt);
    let (maybe, sure) = p.whole();
    t.dangle = !maybe;
    t.end = sure;
    out.push(t);
}
