//! The token source the simulator controls, the record of what the parser asked
//! of it, the scheduler, and the execution of one parse.

use crate::choice::{Ch, S};
use crate::gen::K;
use crate::inter;
use crate::text::*;
use jsparse::sim_seam::{tokens as tk, Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
use std::any::Any;
use std::cell::RefCell;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Condvar, Mutex};

// ---- scheduler ---------------------------------------------------------------

/// Real threads, exactly one of which holds the baton. Every token request is a
/// point where the seeded scheduler may hand it over.
pub struct Ctl {
    m: Mutex<CtlIn>,
    cv: Condvar,
}
struct CtlIn {
    cur: usize,
    live: Vec<bool>,
    ch: Option<Ch>,
    trace: Vec<u8>,
    switches: u64,
    rate: u64,
}
pub const NOBODY: usize = usize::MAX;

impl Ctl {
    pub fn new(ch: Ch, n: usize, rate: u64) -> Ctl {
        Ctl {
            m: Mutex::new(CtlIn { cur: NOBODY, live: vec![true; n], ch: Some(ch), trace: vec![], switches: 0, rate }),
            cv: Condvar::new(),
        }
    }
    fn choose(g: &mut CtlIn, me: Option<usize>) -> usize {
        let live: Vec<usize> = (0..g.live.len()).filter(|&i| g.live[i]).collect();
        if live.is_empty() {
            return NOBODY;
        }
        let rate = g.rate;
        let ch = g.ch.as_mut().unwrap();
        let stay = match me {
            Some(_) => !ch.chance(S, rate, 16),
            None => false,
        };
        let next = match me {
            Some(m) if stay => m,
            _ => live[ch.draw(S, live.len() as u64) as usize],
        };
        if me != Some(next) {
            g.switches += 1;
        }
        g.trace.push(next as u8);
        next
    }
    pub fn start(&self) {
        let mut g = self.m.lock().unwrap();
        let n = Ctl::choose(&mut g, None);
        g.cur = n;
        self.cv.notify_all();
    }
    pub fn wait_turn(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.cur != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    pub fn yield_now(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        let n = Ctl::choose(&mut g, Some(me));
        if n != me {
            g.cur = n;
            self.cv.notify_all();
            while g.cur != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
    pub fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.live[me] = false;
        let n = Ctl::choose(&mut g, None);
        g.cur = n;
        self.cv.notify_all();
    }
    pub fn finish(self) -> (Ch, Vec<u8>, u64) {
        let g = self.m.into_inner().unwrap();
        (g.ch.unwrap(), g.trace, g.switches)
    }
}

// ---- plans ---------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    /// the source fails with a payload of its own type
    Panic,
    /// the same, without going through the panic hook
    Unwind,
    /// the source fails with a message
    Text,
}

#[derive(Clone, Debug, Default)]
pub struct Extra {
    pub delays: Vec<(u32, u64)>,     // request -> simulated ns
    pub jumps: Vec<(u32, i64)>,      // request -> wall clock jump, ns
    pub fault: Option<(u32, FaultKind)>,
    pub into_delay: u64,
    pub write_delay: u64,
    pub split_crlf: bool,
    pub cap: u32,
}

pub struct Plan<'c> {
    pub lay: &'c Layout,
    pub real: bool,
    /// stub only: end of input is delivered in place of this item and everything after
    pub cut: Option<usize>,
    pub ex: Extra,
    pub nested: Vec<(u32, &'c Plan<'c>)>,
}
impl<'c> Plan<'c> {
    pub fn of(lay: &'c Layout, real: bool) -> Plan<'c> {
        Plan { lay, real, cut: None, ex: Extra::default(), nested: vec![] }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Req {
    /// 1 expression, 2 template, 4 strict
    pub hint: u8,
    /// the item that was due
    pub due: i32,
    /// the item that was delivered; -1 end of input, -2 something else, -3 nothing (failed)
    pub got: i32,
}
pub const EOF: i32 = -1;
pub const OTHER: i32 = -2;
pub const NONE: i32 = -3;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    /// the parser reported a failure
    Reject(String),
    /// the lexer reported a failure
    Lexical(String),
    /// a broken internal assumption
    Internal(String),
    /// the source's own failure arrived, with this identity
    Fault(u64),
    /// the source gave up: too many requests
    Cap,
    /// something else arrived instead of the source's failure
    Lost(String),
}
impl Verdict {
    pub fn rejected(&self) -> bool {
        matches!(self, Verdict::Reject(_) | Verdict::Lexical(_))
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Verdict::Accept => "accept",
            Verdict::Reject(_) => "reject",
            Verdict::Lexical(_) => "lexical",
            Verdict::Internal(_) => "internal",
            Verdict::Fault(_) => "fault",
            Verdict::Cap => "cap",
            Verdict::Lost(_) => "lost",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub verdict: Verdict,
    pub reqs: Vec<Req>,
    pub out: Vec<u8>,
    pub t_first: u64,
    pub t_last: u64,
    pub after_fault: u32,
    pub into: u32,
    pub nested: Vec<Outcome>,
    /// text of the token that was delivered in place of the one due
    pub odd: Option<String>,
    pub clones: u32,
}

#[derive(Default)]
pub struct Rec {
    reqs: Vec<Req>,
    t_first: Option<u64>,
    t_last: u64,
    failed: bool,
    after_fault: u32,
    into: u32,
    nested: Vec<Outcome>,
    odd: Option<String>,
    clones: u32,
    fault_id: u64,
}

pub struct SimFault(pub u64);
pub struct SimCap;

pub struct Src<'c> {
    plan: &'c Plan<'c>,
    rec: &'c RefCell<Rec>,
    ctl: Option<(&'c Ctl, usize)>,
    depth: u32,
    cursor: usize,
    half: bool,
    inner: <&'c str as IntoTokenizer<'c>>::Item,
}
impl<'c> std::fmt::Debug for Src<'c> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Src@{}", self.cursor)
    }
}
impl<'c> Clone for Src<'c> {
    fn clone(&self) -> Self {
        self.rec.borrow_mut().clones += 1;
        Src {
            plan: self.plan,
            rec: self.rec,
            ctl: self.ctl,
            depth: self.depth,
            cursor: self.cursor,
            half: self.half,
            inner: self.inner.clone(),
        }
    }
}

pub fn hint_bits(h: &Hint) -> u8 {
    for b in 0..8u8 {
        let x = Hint::default().expression(b & 1 != 0).template(b & 2 != 0).strict(b & 4 != 0);
        if *h == x {
            return b;
        }
    }
    255
}

/// The goal that an item has to be requested under: (mask, value).
pub fn goal(lay: &Layout, i: usize) -> (u8, u8) {
    let it = &lay.items[i];
    match it.tok {
        None => (0, 0),
        Some(t) => {
            let g = &lay.toks[t];
            match g.k {
                K::Regex => (1, 1),
                K::Punct if g.text.starts_with('/') => (1, 0),
                K::Punct if g.text == "}" => (2, 0),
                K::TplMid | K::TplTail => (2, 2),
                _ => (0, 0),
            }
        }
    }
}

impl<'c> Tokenizer<'c> for Src<'c> {
    fn next_token(&mut self, hint: &Hint, out: (&mut tk::Token<'c>, &mut TokenRange)) {
        let plan = self.plan;
        let k = {
            let mut r = self.rec.borrow_mut();
            if r.failed {
                r.after_fault += 1;
            }
            if r.t_first.is_none() {
                r.t_first = Some(inter::MONO.load(SeqCst));
            }
            r.reqs.len() as u32
        };
        if let Some((c, me)) = self.ctl {
            c.yield_now(me);
        }
        // what is due
        if plan.real {
            while self.cursor < plan.lay.items.len() && plan.lay.items[self.cursor].tok.is_none() && plan.lay.items[self.cursor].pk == PK::Ws {
                self.cursor += 1;
            }
        }
        let end = plan.cut.unwrap_or(usize::MAX).min(plan.lay.items.len());
        let due = if self.cursor < end { self.cursor as i32 } else { EOF };
        self.rec.borrow_mut().reqs.push(Req { hint: hint_bits(hint), due, got: NONE });
        if k > plan.ex.cap {
            self.rec.borrow_mut().failed = true;
            panic::resume_unwind(Box::new(SimCap));
        }
        for &(at, ns) in &plan.ex.delays {
            if at == k {
                inter::tick(ns);
            }
        }
        for &(at, ns) in &plan.ex.jumps {
            if at == k {
                inter::REAL.fetch_add(ns, SeqCst);
            }
        }
        for &(at, p) in &plan.nested {
            if at == k && self.depth < 3 {
                let o = run_parse_at(p, self.ctl, self.depth + 1);
                self.rec.borrow_mut().nested.push(o);
            }
        }
        if let Some((at, kind)) = plan.ex.fault {
            if at == k {
                let id = {
                    let mut r = self.rec.borrow_mut();
                    r.failed = true;
                    r.fault_id
                };
                match kind {
                    FaultKind::Panic => panic::panic_any(SimFault(id)),
                    FaultKind::Unwind => panic::resume_unwind(Box::new(SimFault(id))),
                    FaultKind::Text => panic!("sim source failure {}", id),
                }
            }
        }
        let got;
        if plan.real {
            let tok = out.0;
            let rng = out.1;
            self.inner.next_token(hint, (&mut *tok, &mut *rng));
            let (s, e) = (rng.start.offset, rng.end.offset);
            got = if matches!(tok, tk::Token::EOF(_)) {
                if due == EOF {
                    EOF
                } else {
                    OTHER
                }
            } else if due == EOF {
                OTHER
            } else {
                let it = &plan.lay.items[self.cursor];
                let whole = it.start == s && it.end == e;
                let ok = match it.tok {
                    Some(t) => whole && kind_ok(tok, plan.lay.toks[t].k, &plan.lay.toks[t].text),
                    None => match it.pk {
                        PK::Ws => false,
                        PK::Lt => {
                            let crlf = &plan.lay.text[it.start..it.end] == "\r\n";
                            let part = crlf && e - s == 1 && s >= it.start && e <= it.end;
                            if part && e < it.end {
                                self.half = true;
                            }
                            matches!(tok, tk::Token::LineTerminator(_)) && (whole || part)
                        }
                        PK::Line | PK::Block | PK::BlockLt => whole && matches!(tok, tk::Token::Comment(_)),
                    },
                };
                if ok {
                    let c = self.cursor as i32;
                    if self.half {
                        self.half = false;
                    } else {
                        self.cursor += 1;
                    }
                    c
                } else {
                    OTHER
                }
            };
            if got == OTHER {
                let t = plan.lay.text.get(s..e).unwrap_or("?").to_string();
                self.rec.borrow_mut().odd.get_or_insert(t);
                // resynchronise, so that later requests are judged against what is due there
                while self.cursor < plan.lay.items.len() && plan.lay.items[self.cursor].start < e {
                    self.cursor += 1;
                }
            }
        } else if due == EOF {
            *out.0 = tk::EOFToken {}.into();
            let p = if end < plan.lay.items.len() { plan.lay.items[end].from } else { plan.lay.eof };
            *out.1 = TokenRange { start: p, end: p };
            got = EOF;
        } else {
            let it = &plan.lay.items[self.cursor];
            let text = &plan.lay.text[it.start..it.end];
            *out.0 = match it.tok {
                Some(t) => stub_token(plan.lay.toks[t].k, text),
                None => stub_trivia(it.pk, text),
            };
            let mut r = TokenRange { start: it.from, end: it.to };
            got = self.cursor as i32;
            if it.pk == PK::Lt && text == "\r\n" && it.tok.is_none() && plan.ex.split_crlf && !self.half {
                r.end = r.start;
                r.end.offset += 1;
                r.end.column += 1;
                self.half = true;
            } else {
                if self.half {
                    r.start.offset += 1;
                    r.start.column += 1;
                    self.half = false;
                }
                self.cursor += 1;
            }
            *out.1 = r;
        }
        let mut r = self.rec.borrow_mut();
        r.reqs.last_mut().unwrap().got = got;
        r.t_last = inter::MONO.load(SeqCst);
    }
}

pub struct Into<'c> {
    plan: &'c Plan<'c>,
    rec: &'c RefCell<Rec>,
    ctl: Option<(&'c Ctl, usize)>,
    depth: u32,
}
impl<'c> IntoTokenizer<'c> for Into<'c> {
    type Item = Src<'c>;
    fn into_tokenizer(self) -> Src<'c> {
        self.rec.borrow_mut().into += 1;
        inter::tick(self.plan.ex.into_delay);
        inter::WRITE_DELAY.store(self.plan.ex.write_delay, SeqCst);
        Src {
            plan: self.plan,
            rec: self.rec,
            ctl: self.ctl,
            depth: self.depth,
            cursor: 0,
            half: false,
            inner: self.plan.lay.text[..].into_tokenizer(),
        }
    }
}

// ---- one parse ---------------------------------------------------------------------

pub fn is_internal(m: &str) -> bool {
    const BAD: &[&str] = &[
        "with overflow",
        "index out of bounds",
        "unreachable",
        "on a `None` value",
        "byte index",
        "char boundary",
        "already borrowed",
        "already mutably borrowed",
        "out of range",
        "slice index",
        "divide by zero",
        "divisor of zero",
        "assertion",
        "capacity overflow",
        "range start index",
        "range end index",
        "stack overflow",
        "PoisonError",
        "begin > end",
        "begin <= end",
        "called `Option::",
        "called `Result::unwrap_err",
        "Utf8Error",
        "InvalidDigit",
        "ParseIntError",
        "ParseFloatError",
        "mid > len",
    ];
    BAD.iter().any(|b| m.contains(b))
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "payload of another type".into()
    }
}

pub fn classify(p: Box<dyn Any + Send>) -> Verdict {
    if p.downcast_ref::<SimCap>().is_some() {
        return Verdict::Cap;
    }
    if let Some(f) = p.downcast_ref::<SimFault>() {
        return Verdict::Fault(f.0);
    }
    // the first line only: what follows is a backtrace when the environment asks for one
    let m = payload_text(&*p).lines().next().unwrap_or("").trim_end().to_string();
    if is_internal(&m) {
        return Verdict::Internal(m);
    }
    if m.starts_with("called `Result::unwrap()`") {
        return Verdict::Reject(m);
    }
    Verdict::Lexical(m)
}

static NEXT_FAULT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub fn run_parse<'c>(plan: &'c Plan<'c>, ctl: Option<(&'c Ctl, usize)>) -> Outcome {
    run_parse_at(plan, ctl, 0)
}

fn run_parse_at<'c>(plan: &'c Plan<'c>, ctl: Option<(&'c Ctl, usize)>, depth: u32) -> Outcome {
    let rec = RefCell::new(Rec::default());
    let id = NEXT_FAULT.fetch_add(1, SeqCst);
    rec.borrow_mut().fault_id = id;
    inter::cap_push();
    // The record outlives the parse: everything that borrows it is gone when parse_root returns.
    let res = {
        let r: &RefCell<Rec> = &rec;
        let r: &'c RefCell<Rec> = unsafe { std::mem::transmute(r) };
        let into = Into { plan, rec: r, ctl, depth };
        panic::catch_unwind(AssertUnwindSafe(move || jsparse::parser::parse_root::<_, ()>(into)))
    };
    let out = inter::cap_pop();
    let rec = rec.into_inner();
    let verdict = match res {
        Ok(()) => Verdict::Accept,
        Err(p) => {
            let text = payload_text(&*p);
            let v = classify(p);
            match (plan.ex.fault, rec.failed, &v) {
                (Some((_, FaultKind::Text)), true, Verdict::Lexical(_)) if text == format!("sim source failure {}", id) => Verdict::Fault(id),
                (Some(_), true, Verdict::Fault(i)) if *i != id => Verdict::Lost("another failure's payload".into()),
                (Some(_), true, Verdict::Fault(_)) => v,
                (_, true, Verdict::Cap) => v,
                (Some(_), true, _) => Verdict::Lost(text),
                _ => v,
            }
        }
    };
    // the identity is per process; what matters is that it is its own
    let verdict = match verdict {
        Verdict::Fault(_) => Verdict::Fault(0),
        v => v,
    };
    Outcome {
        verdict,
        reqs: rec.reqs,
        out,
        t_first: rec.t_first.unwrap_or(0),
        t_last: rec.t_last,
        after_fault: rec.after_fault,
        into: rec.into,
        nested: rec.nested,
        odd: rec.odd,
        clones: rec.clones,
    }
}

// ---- oracles that several properties share ----------------------------------------------

/// Number of requests after end of input was first delivered.
pub fn after_eof(o: &Outcome) -> usize {
    match o.reqs.iter().position(|r| r.got == EOF) {
        Some(p) => o.reqs.len() - p - 1,
        None => 0,
    }
}

/// First request whose goal does not fit the token that was due.
pub fn goal_error(o: &Outcome, lay: &Layout) -> Option<(usize, usize, u8)> {
    for (n, r) in o.reqs.iter().enumerate() {
        if r.due >= 0 {
            let (m, v) = goal(lay, r.due as usize);
            if r.hint & m != v {
                return Some((n, r.due as usize, r.hint));
            }
        }
    }
    None
}

/// The non-trivia deliveries of a parse, as token numbers.
pub fn delivered(o: &Outcome, lay: &Layout) -> Vec<i32> {
    o.reqs
        .iter()
        .filter_map(|r| match r.got {
            g if g >= 0 => lay.items[g as usize].tok.map(|t| t as i32),
            g => Some(g),
        })
        .collect()
}

/// The goals under which slash and closing curly tokens were requested.
pub fn goals(o: &Outcome, lay: &Layout) -> Vec<(i32, u8)> {
    o.reqs
        .iter()
        .filter_map(|r| {
            if r.due < 0 {
                return None;
            }
            let (m, _) = goal(lay, r.due as usize);
            if m == 0 {
                None
            } else {
                Some((lay.items[r.due as usize].tok.unwrap() as i32, r.hint & m))
            }
        })
        .collect()
}
