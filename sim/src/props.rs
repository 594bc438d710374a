//! One run of each in-process property: draw a workload, faults and a schedule
//! from the choice sequence, execute the real code, judge the history.

use crate::choice::{hash_bytes, mix, Ch, F, S, T, W};
use crate::grammar;
use crate::gen::{self, GTok, Gap, K};
use crate::inter;
use crate::model;
use crate::src::*;
use crate::text::*;
use std::collections::BTreeMap;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Debug)]
pub struct Violation {
    /// what kind of violation: minimisation keeps it
    pub class: String,
    pub msg: String,
}
pub type R = Result<(), Violation>;
pub fn bad(class: &str, msg: String) -> R {
    Err(Violation { class: class.into(), msg })
}

/// What a run reports besides its verdict.
#[derive(Default)]
pub struct Ctx {
    pub counts: BTreeMap<String, u64>,
    pub digest: u64,
    pub case_hash: u64,
    pub nontrivial: bool,
    pub sched_hash: u64,
    pub sim_ns: u64,
    pub log: Vec<String>,
    pub verbose: bool,
    pub harness_error: Option<String>,
}
impl Ctx {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn mix(&mut self, v: u64) {
        self.digest = mix(self.digest, v);
    }
    pub fn say<S: FnOnce() -> String>(&mut self, f: S) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    fn note(&mut self, o: &Outcome, lay: &Layout) {
        self.mix(o.reqs.len() as u64);
        for r in &o.reqs {
            self.mix((r.hint as u64) << 40 ^ (r.due as u32 as u64) << 20 ^ (r.got as u32 as u64));
        }
        self.mix(hash_bytes(o.verdict.tag().as_bytes()));
        self.mix(hash_bytes(&o.out));
        self.add("token requests", o.reqs.len() as u64);
        if o.reqs.len() > 2000 {
            let toks = lay.toks.len();
            if lay.items.len() > toks + 250 && lay.items.len() > 2 * toks {
                self.hit("flood of trivia");
            }
            if toks > 60_000 {
                self.hit("program of more than 60000 tokens");
            }
        }
        let deep = lay.toks.iter().map(|t| t.depth).max().unwrap_or(0);
        if deep >= 100 {
            self.hit(if deep >= 1000 { "nested 1000 levels and more" } else if deep >= 256 { "nested 256 levels and more" } else { "nested 100 levels and more" });
        }
        self.add(&format!("verdict {}", o.verdict.tag()), 1);
        self.sim_ns += o.t_last - o.t_first.min(o.t_last);
        self.add("source clones", o.clones as u64);
        if self.verbose {
            self.log.push(format!("text: {:?}", lay.text));
            self.log.push(format!("verdict: {:?}, printed {:?}", o.verdict, String::from_utf8_lossy(&o.out)));
            for (n, r) in o.reqs.iter().enumerate() {
                let show = |i: i32| -> String {
                    match i {
                        EOF => "end of input".into(),
                        OTHER => format!("ANOTHER TOKEN {:?}", o.odd.as_ref().map(|s| &s[..]).unwrap_or("")),
                        NONE => "nothing: failed".into(),
                        i => {
                            let it = &lay.items[i as usize];
                            format!("{:?}", &lay.text[it.start..it.end])
                        }
                    }
                };
                let h = format!("{}{}", if r.hint & 1 != 0 { "E" } else { "-" }, if r.hint & 2 != 0 { "T" } else { "-" });
                if r.due == r.got {
                    self.log.push(format!("  request {} goal {} -> {}", n, h, show(r.got)));
                } else {
                    self.log.push(format!("  request {} goal {} due {} -> {}", n, h, show(r.due), show(r.got)));
                }
            }
            for n in &o.nested {
                self.log.push(format!("  nested: {:?} after {} requests", n.verdict, n.reqs.len()));
            }
        }
    }
}

/// Starts simulated time and puts the clocks somewhere.
fn boot(ch: &mut Ch) {
    let mono = *ch.pick(F, &[5_000_000_000u64, 1, 1_000_000_000_000_000, 999_999_999, 31_536_000_000_000_000]);
    let real = *ch.pick(F, &[1_500_000_000_000_000_000i64, 0, -1_000_000_000, 2_147_483_647_999_999_999, 4_102_444_800_000_000_000]);
    inter::MONO.store(mono, SeqCst);
    inter::REAL.store(real, SeqCst);
    inter::CPU.store(123_456, SeqCst);
    inter::WRITE_DELAY.store(0, SeqCst);
    inter::ACTIVE.store(true, SeqCst);
}

fn cap_for(lay: &Layout) -> u32 {
    (2 * lay.items.len() + 200) as u32
}

fn reals(ch: &mut Ch) -> bool {
    ch.draw(W, 5) < 3
}

fn draw_extra(ch: &mut Ch, ex: &mut Extra, reqs: u64, time: bool, cx: &mut Ctx) {
    if !time {
        return;
    }
    let unit = *ch.pick(F, &[1u64, 1_000, 1_000_000, 999_999_937, 86_400_000_000_000]);
    if ch.chance(F, 1, 3) {
        for k in 0..reqs {
            ex.delays.push((k as u32, unit * ch.draw(F, 1000) / 7));
        }
    } else {
        let n = ch.draw(F, 6);
        for _ in 0..n {
            let k = ch.draw(F, reqs) as u32;
            ex.delays.push((k, unit * (1 + ch.draw(F, 1000)) / 7));
        }
    }
    let n = ch.draw(F, 4);
    for _ in 0..n {
        let k = ch.draw(F, reqs) as u32;
        let j = (ch.draw(F, 2_000_001) as i64 - 1_000_000) * 1_000_000_007;
        ex.jumps.push((k, j));
    }
    if ch.chance(F, 1, 3) {
        ex.into_delay = unit * ch.draw(F, 1000);
    }
    if ch.chance(F, 1, 4) {
        ex.write_delay = unit * ch.draw(F, 100);
    }
    cx.add("fault: stalled request", ex.delays.iter().filter(|d| d.1 > 0).count() as u64);
    cx.add("fault: wall clock jump", ex.jumps.len() as u64);
    cx.add("fault: stall before the first request", (ex.into_delay > 0) as u64);
    cx.add("fault: stalled output", (ex.write_delay > 0) as u64);
}

fn report_value(o: &Outcome) -> Result<f64, String> {
    let s = String::from_utf8_lossy(&o.out).to_string();
    let lines: Vec<&str> = s.split('\n').collect();
    if lines.len() != 3 || lines[0] != "starting" || !lines[2].is_empty() {
        return Err(format!("the report is {:?}", s));
    }
    let v = lines[1].strip_prefix("Total parsing time: ").and_then(|x| x.strip_suffix("ms"));
    match v.and_then(|x| x.parse::<f64>().ok()) {
        Some(x) => Ok(x),
        None => Err(format!("the completion line is {:?}", lines[1])),
    }
}

fn check_time(o: &Outcome, prop: &str, who: &str) -> R {
    if o.verdict != Verdict::Accept {
        return Ok(());
    }
    match report_value(o) {
        Err(e) => bad(&format!("{}:report", prop), format!("{}: {}", who, e)),
        Ok(ms) => {
            let want = (o.t_last - o.t_first) as f64 / 1e6;
            let tol = 1.5e-6 + want * 1e-12;
            if (ms - want).abs() > tol {
                return bad(&format!("{}:time", prop), format!("{}: printed {} ms, {} ms passed", who, ms, want));
            }
            Ok(())
        }
    }
}

/// A parse of a valid program, undisturbed: accepted, every token once, every goal right.
fn check_valid(o: &Outcome, lay: &Layout, prop: &str, who: &str) -> R {
    if let Some((n, i, h)) = goal_error(o, lay) {
        let it = &lay.items[i];
        return bad(
            &format!("{}:goal", prop),
            format!("{}: request {} asked for {:?} with expression={} template={}", who, n, &lay.text[it.start..it.end], h & 1 != 0, h & 2 != 0),
        );
    }
    let d = delivered(o, lay);
    let n = lay.toks.len();
    for (i, &t) in d.iter().enumerate() {
        let want = if i < n { i as i32 } else { EOF };
        if t != want {
            return bad(
                &format!("{}:token", prop),
                format!("{}: instead of token {} ({:?}) came {:?}", who, i, lay.toks.get(i).map(|t| &t.text[..]).unwrap_or("end of input"), o.odd),
            );
        }
    }
    if o.verdict != Verdict::Accept {
        return bad(&format!("{}:refused", prop), format!("{}: valid program refused: {:?}; text {:?}", who, o.verdict, lay.text));
    }
    if d.len() <= n {
        return bad(&format!("{}:unread", prop), format!("{}: accepted after {} of {} tokens", who, d.len(), n));
    }
    Ok(())
}

pub fn tok_hash(toks: &[GTok]) -> u64 {
    let mut h = 7;
    for t in toks {
        h = mix(h, hash_bytes(t.text.as_bytes()));
    }
    h
}

fn rates(ch: &mut Ch) -> u64 {
    *ch.pick(S, &[0, 1, 4, 16])
}

/// Runs several plans on real threads under the seeded scheduler.
fn overlapped<'c>(ch: &mut Ch, plans: &'c [Plan<'c>], cx: &mut Ctx) -> Vec<Outcome> {
    let rate = rates(ch);
    let owned = std::mem::replace(ch, Ch::replay(vec![vec![]; 4]));
    let ctl = Ctl::new(owned, plans.len(), rate);
    let ctl_ref: &Ctl = &ctl;
    let outs: Vec<Outcome> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..plans.len())
            .map(|i| {
                let p = &plans[i];
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        // plans outlive the scope
                        let c: &'c Ctl = unsafe { std::mem::transmute(ctl_ref) };
                        c.wait_turn(i);
                        let o = run_parse(p, Some((c, i)));
                        c.done(i);
                        o
                    })
                    .unwrap()
            })
            .collect();
        ctl_ref.start();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (c, trace, sw) = ctl.finish();
    *ch = c;
    cx.sched_hash = mix(cx.sched_hash, hash_bytes(&trace));
    cx.mix(hash_bytes(&trace));
    cx.add("context switches", sw);
    cx.say(|| format!("schedule: {:?}", trace));
    outs
}

fn big_programs(ch: &mut Ch, max: i64) -> Vec<GTok> {
    let p = gen::profile(ch, max);
    gen::program(ch, p)
}

/// The same, but now and then far deeper or longer. Only where the stack is big.
fn scaled_programs(ch: &mut Ch, max: i64, long: bool) -> Vec<GTok> {
    let p = gen::Profile { deep: true, long, ..gen::profile(ch, max) };
    gen::program(ch, p)
}

// ---- L01 -------------------------------------------------------------------------

pub fn l01(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let n = 1 + ch.draw(W, 3) as usize;
    let mut lays = vec![];
    for _ in 0..n {
        let toks = big_programs(ch, 30);
        let st = Style { flood: 2000, ..style(ch) }; // every request may change threads
        let gaps = if ch.chance(W, 1, 2) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
        lays.push(layout(&toks, &gaps));
    }
    let inner_lay = {
        let toks = big_programs(ch, 10);
        layout(&toks, &plain_gaps(&toks))
    };
    let mut inner = Plan::of(&inner_lay, reals(ch));
    inner.ex.cap = cap_for(&inner_lay);
    draw_extra(ch, &mut inner.ex, inner_lay.items.len() as u64 + 1, true, cx);
    let mut plans = vec![];
    for l in &lays {
        let mut p = Plan::of(l, reals(ch));
        p.ex.cap = cap_for(l);
        draw_extra(ch, &mut p.ex, l.items.len() as u64 + 1, true, cx);
        if ch.chance(F, 1, 4) {
            p.nested.push((ch.draw(F, l.items.len() as u64 + 1) as u32, &inner));
            cx.hit("nested parse inside a request");
        }
        plans.push(p);
    }
    // still clock: the same programs are accepted
    let outs = overlapped(ch, &plans, cx);
    for (i, o) in outs.iter().enumerate() {
        cx.note(o, &lays[i]);
        cx.case_hash = mix(cx.case_hash, tok_hash(&lays[i].toks) ^ o.t_last.wrapping_sub(o.t_first));
        let who = format!("parse {}", i);
        for x in &o.nested {
            check_time(x, "L01", "nested parse")?;
        }
        if o.t_last > o.t_first {
            cx.nontrivial = true;
        }
        check_time(o, "L01", &who)?;
        if o.verdict != Verdict::Accept {
            // was it the clocks?
            let mut q = Plan::of(&lays[i], plans[i].real);
            q.ex.cap = plans[i].ex.cap;
            let b = run_parse(&q, None);
            if b.verdict == Verdict::Accept {
                return bad("L01:verdict", format!("{}: {:?} with these delays and jumps, accepted with still clocks", who, o.verdict));
            }
        } else if o.nested.iter().any(|x| x.verdict != Verdict::Accept) {
            cx.hit("nested refused");
        }
    }
    Ok(())
}

// ---- L02 -------------------------------------------------------------------------

fn same_history(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.verdict != b.verdict {
        return Some(format!("verdict {:?} alone, {:?} overlapped", a.verdict, b.verdict));
    }
    for (n, (x, y)) in a.reqs.iter().zip(b.reqs.iter()).enumerate() {
        if x != y {
            return Some(format!("request {} was {:?} alone, {:?} overlapped", n, x, y));
        }
    }
    if a.reqs.len() != b.reqs.len() {
        return Some(format!("{} requests alone, {} overlapped", a.reqs.len(), b.reqs.len()));
    }
    let shape = |o: &Outcome| -> Vec<String> {
        String::from_utf8_lossy(&o.out)
            .split('\n')
            .map(|l| if l.starts_with("Total parsing time: ") && l.ends_with("ms") { "Total".to_string() } else { l.to_string() })
            .collect()
    };
    if shape(a) != shape(b) {
        return Some(format!("printed {:?} alone, {:?} overlapped", shape(a), shape(b)));
    }
    None
}

pub fn l02(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let n = 2 + ch.draw(W, 3) as usize;
    let mut lays: Vec<Layout> = vec![];
    let mut valid = vec![];
    for i in 0..n {
        if i > 0 && ch.chance(W, 1, 4) {
            // the very same program again
            let l = lays[i - 1].clone();
            let v = valid[i - 1];
            lays.push(l);
            valid.push(v);
            continue;
        }
        let mut toks = big_programs(ch, 40);
        let st = Style { flood: 2000, ..style(ch) }; // every request may change threads
        let mut ok = true;
        if ch.chance(F, 1, 5) {
            let k = model::damage(ch, &mut toks);
            cx.hit(&format!("fault: {} token", k));
            ok = false;
        }
        let gaps = if ch.chance(W, 1, 2) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
        lays.push(layout(&toks, &gaps));
        valid.push(ok);
    }
    let inner_lay = {
        let toks = big_programs(ch, 12);
        layout(&toks, &plain_gaps(&toks))
    };
    let mut inner = Plan::of(&inner_lay, reals(ch));
    inner.ex.cap = cap_for(&inner_lay);
    let inner_fail = ch.chance(F, 1, 4);
    if inner_fail {
        inner.ex.fault = Some((ch.draw(F, inner_lay.items.len() as u64 + 1) as u32, FaultKind::Panic));
    }
    let mut plans: Vec<Plan> = vec![];
    let mut solo_plans: Vec<Plan> = vec![];
    let mut disturbed = vec![];
    for (i, l) in lays.iter().enumerate() {
        // damaged streams only make sense for the stub source
        let real = reals(ch) && valid[i];
        let mk = || {
            let mut p = Plan::of(l, real);
            p.ex.cap = cap_for(l);
            p
        };
        let mut p = mk();
        let mut q = mk();
        let reqs = l.items.len() as u64 + 1;
        let mut d = !valid[i];
        if ch.chance(F, 1, 5) {
            let k = *ch.pick(F, &[FaultKind::Panic, FaultKind::Unwind, FaultKind::Text]);
            let f = Some((ch.draw(F, reqs) as u32, k));
            p.ex.fault = f;
            q.ex.fault = f;
            d = true;
            cx.hit("fault: source failure");
        } else if !real && ch.chance(F, 1, 6) {
            let c = Some(ch.draw(F, reqs) as usize);
            p.cut = c;
            q.cut = c;
            d = true;
            cx.hit("fault: early end of input");
        }
        if ch.chance(F, 1, 4) {
            draw_extra(ch, &mut p.ex, reqs, true, cx);
        }
        if ch.chance(F, 1, 5) {
            p.nested.push((ch.draw(F, reqs) as u32, &inner));
            cx.hit("nested parse inside a request");
        }
        disturbed.push(d);
        plans.push(p);
        solo_plans.push(q);
    }
    let solo: Vec<Outcome> = solo_plans.iter().map(|p| run_parse(p, None)).collect();
    let inner_solo = run_parse(&inner, None);
    let outs = overlapped(ch, &plans, cx);
    cx.nontrivial = n > 1;
    for (i, o) in outs.iter().enumerate() {
        cx.note(o, &lays[i]);
        cx.case_hash = mix(cx.case_hash, tok_hash(&lays[i].toks));
        if let Some(e) = same_history(&solo[i], o) {
            return bad("L02:differs", format!("parse {}: {}", i, e));
        }
        for x in &o.nested {
            if let Some(e) = same_history(&inner_solo, x) {
                return bad("L02:nested", format!("nested in parse {}: {}", i, e));
            }
        }
        if o.verdict == Verdict::Accept {
            if let Err(e) = report_value(o) {
                return bad("L02:report", format!("parse {}: {}", i, e));
            }
        }
        if !disturbed[i] {
            // what it does alone is what the program calls for, so the comparison is not vacuous
            if solo[i].verdict == Verdict::Accept {
                check_valid(o, &lays[i], "L02", &format!("parse {}", i))?;
            } else {
                cx.hit("valid program refused");
            }
        }
    }
    cx.case_hash = mix(cx.case_hash, cx.sched_hash);
    Ok(())
}

// ---- L03 -------------------------------------------------------------------------

/// Fixed programs and their histories, recorded before anything else happened in the process.
pub struct Probe {
    lay: Layout,
    real: bool,
    fresh: Outcome,
}
static PROBES: std::sync::OnceLock<Vec<Probe>> = std::sync::OnceLock::new();

pub fn record_probes() {
    PROBES.get_or_init(|| {
        let mut v = vec![];
        for i in 0..14u64 {
            let mut ch = Ch::seeded(mix(0x70726f6265, i));
            boot(&mut ch);
            let mut toks = big_programs(&mut ch, 40);
            let real = i % 2 == 0;
            if i >= 10 {
                // a program that is refused
                toks.insert(
                    toks.len() / 2,
                    GTok { text: ")".into(), k: K::Punct, gap: Gap::Free, dangle: false, end: false, plain: false, depth: 0 },
                );
            }
            let lay = layout(&toks, &plain_gaps(&toks));
            v.push((lay, real));
        }
        v.into_iter()
            .map(|(lay, real)| {
                let fresh = {
                    let mut p = Plan::of(&lay, real);
                    p.ex.cap = cap_for(&lay);
                    run_parse(&p, None)
                };
                Probe { lay, real, fresh }
            })
            .collect()
    });
    inter::ACTIVE.store(false, SeqCst);
}

fn probe(i: usize, other_thread: bool) -> R {
    let probes = PROBES.get().unwrap();
    let p = &probes[i % probes.len()];
    let run = || {
        let mut q = Plan::of(&p.lay, p.real);
        q.ex.cap = cap_for(&p.lay);
        run_parse(&q, None)
    };
    let o = if other_thread {
        std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, run).unwrap().join().unwrap())
    } else {
        run()
    };
    if let Some(e) = same_history(&p.fresh, &o) {
        return bad("L03:aftermath", format!("a later parse of {:?} differs from a fresh one: {}", p.lay.text, e));
    }
    Ok(())
}

/// Far more parses, one after another, than anyone counts on; most of them fail.
fn marathon(ch: &mut Ch, cx: &mut Ctx) -> R {
    let n = if ch.chance(F, 1, 6) { 66_000 } else { 1500 + ch.draw(F, 3000) };
    cx.hit("fault: thousands of failed parses");
    let lays: Vec<Layout> = (0..3)
        .map(|_| {
            let p = gen::profile(ch, 2);
            let mut toks = gen::program(ch, gen::Profile { budget: 1, stmts: 1, ..p });
            toks.truncate(6);
            let gaps = plain_gaps(&toks);
            layout(&toks, &gaps)
        })
        .collect();
    let mut plans: Vec<Plan> = lays.iter().map(|l| Plan::of(l, false)).collect();
    for (p, l) in plans.iter_mut().zip(&lays) {
        p.ex.cap = cap_for(l);
        p.ex.fault = Some((ch.draw(F, l.items.len() as u64 + 1) as u32, *ch.pick(F, &[FaultKind::Panic, FaultKind::Unwind, FaultKind::Text])));
    }
    // one of them ends with the parser's own failure
    plans[2].ex.fault = None;
    plans[2].cut = Some(ch.draw(F, lays[2].items.len() as u64 + 1) as usize);
    let first: Vec<Outcome> = plans.iter().map(|p| run_parse(p, None)).collect();
    for i in 0..n {
        let k = i as usize % 3;
        let o = run_parse(&plans[k], None);
        if let Some(e) = same_history(&first[k], &o) {
            return bad("L03:aftermath", format!("parse {} of {:?} differs from the first one: {}", i, lays[k].text, e));
        }
    }
    cx.nontrivial = true;
    for _ in 0..2 {
        let i = ch.draw(W, 14) as usize;
        probe(i, ch.chance(S, 1, 2))?;
    }
    Ok(())
}

pub fn l03(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let n = 1 + ch.draw(W, 5) as usize;
    let storm = ch.chance(F, 1, 24);
    if ch.chance(F, 1, 8000) {
        marathon(ch, cx)?;
    }
    for step in 0..n {
        let mut toks = big_programs(ch, 40);
        let kind = ch.draw(F, 6);
        if kind == 4 {
            let k = model::damage(ch, &mut toks);
            cx.hit(&format!("fault: {} token", k));
        }
        let st = Style { flood: 2000, ..style(ch) }; // every request may change threads
        let gaps = if ch.chance(W, 1, 2) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
        let mut lay = layout(&toks, &gaps);
        let mut real = reals(ch) && kind != 4;
        if kind == 3 {
            // damage to the text itself: the real tokenizer reports lexical failures
            real = true;
            let bytes = lay.text.len();
            let mut at = ch.draw(F, bytes as u64 + 1) as usize;
            while !lay.text.is_char_boundary(at) {
                at -= 1;
            }
            let junk = *ch.pick(F, &["'", "#", "`", "/*", "\"\n", "@", "}", "\u{1}", "/", "é", "${", "\\"]);
            let mut t = lay.text.clone();
            if ch.chance(F, 1, 2) {
                t.insert_str(at, junk);
            } else {
                t.truncate(at);
            }
            cx.hit("fault: corrupted text");
            lay = Layout { text: t, items: vec![], toks: vec![], eof: lay.eof };
            lay.items.clear();
        }
        let reqs = lay.items.len() as u64 + 1;
        let inner_lay = {
            let toks = big_programs(ch, 8);
            layout(&toks, &plain_gaps(&toks))
        };
        let mut inner = Plan::of(&inner_lay, false);
        inner.ex.cap = cap_for(&inner_lay);
        inner.ex.fault = Some((ch.draw(F, inner_lay.items.len() as u64 + 1) as u32, FaultKind::Panic));
        let mut p = Plan::of(&lay, real);
        p.ex.cap = cap_for(&lay) + 4 * lay.text.len() as u32;
        let fk = *ch.pick(F, &[FaultKind::Panic, FaultKind::Unwind, FaultKind::Text]);
        match kind {
            0 | 1 => {
                // bias: some right at the first requests, some at the last
                let at = match ch.draw(F, 4) {
                    0 => ch.draw(F, 3.min(reqs)),
                    1 => reqs - 1 - ch.draw(F, 3.min(reqs)),
                    _ => ch.draw(F, reqs),
                };
                p.ex.fault = Some((at as u32, fk));
            }
            2 => {
                if !real {
                    p.cut = Some(ch.draw(F, reqs) as usize);
                    cx.hit("fault: early end of input");
                }
            }
            5 => {
                p.nested.push((ch.draw(F, reqs) as u32, &inner));
                cx.hit("nested parse that fails");
            }
            _ => {}
        }
        let reps = if storm { 60 } else { 1 };
        for _ in 0..reps {
            let other = ch.chance(S, 1, 3);
            let run = || run_parse(&p, None);
            let o = if other && !storm {
                std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, run).unwrap().join().unwrap())
            } else {
                run()
            };
            cx.note(&o, &lay);
            cx.case_hash = mix(cx.case_hash, tok_hash(&lay.toks) ^ mix(kind, o.reqs.len() as u64));
            let who = format!("parse {}", step);
            if o.after_fault > 0 {
                return bad("L03:asked again", format!("{}: {} more requests after the source failed", who, o.after_fault));
            }
            match &o.verdict {
                Verdict::Lost(m) => return bad("L03:payload", format!("{}: the source's failure arrived as {:?}", who, m)),
                Verdict::Internal(m) => return bad("L03:internal", format!("{}: {:?} on {:?}", who, m, lay.text)),
                Verdict::Cap => return bad("L03:endless", format!("{}: more than {} requests", who, p.ex.cap)),
                _ => {}
            }
            if let Some((at, _)) = p.ex.fault {
                if o.reqs.len() as u32 > at {
                    cx.hit("fault: source failure");
                    cx.nontrivial = true;
                    if o.verdict != Verdict::Fault(0) {
                        return bad("L03:swallowed", format!("{}: the source failed at request {}, the parse ended with {:?}", who, at, o.verdict));
                    }
                    let expect = b"starting\n";
                    if &o.out[..] != &expect[..] {
                        return bad("L03:report", format!("{}: printed {:?} for a parse that failed", who, String::from_utf8_lossy(&o.out)));
                    }
                }
            }
            if o.verdict != Verdict::Accept {
                cx.nontrivial = true;
            }
            for x in &o.nested {
                if x.after_fault > 0 {
                    return bad("L03:asked again", format!("{}: nested parse asked on", who));
                }
            }
            if ch.chance(W, 1, 2) || storm {
                let i = ch.draw(W, 14) as usize;
                probe(i, ch.chance(S, 1, 4))?;
            }
        }
    }
    for _ in 0..3 {
        let i = ch.draw(W, 14) as usize;
        probe(i, ch.chance(S, 1, 4))?;
    }
    Ok(())
}

// ---- L04 -------------------------------------------------------------------------

pub fn l04(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let toks = scaled_programs(ch, 60, true);
    let st = style(ch);
    let gaps = if ch.chance(W, 1, 3) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
    let lay = layout(&toks, &gaps);
    let real = reals(ch);
    let mut must: Option<bool> = None; // Some(true): accept
    let why;
    let end_lay;
    let mut plan;
    // state after `n` whole tokens
    let state = |n: usize| -> (Option<bool>, &'static str) {
        if n == 0 {
            return (Some(true), "nothing has been read");
        }
        let t = &toks[n - 1];
        if t.depth > 0 {
            (Some(false), "inside an open bracket or substitution")
        } else if t.dangle {
            (Some(false), "where a statement requires more")
        } else if t.end {
            (Some(true), "right after a complete statement")
        } else {
            let v = grammar::recognise(&toks[..n], &lts_of(&toks, &gaps)[..n + 1], false);
            if v.dead.is_some() || !v.whole[n] {
                (Some(false), "where no program ends")
            } else {
                (None, "between")
            }
        }
    };
    if real {
        let len = lay.text.len();
        // bias to cuts inside and right after tokens
        let mut at = if !lay.items.is_empty() && ch.chance(F, 2, 3) {
            let it = ch.pick(F, &lay.items);
            match ch.draw(F, 3) {
                0 => it.end,
                1 => it.start + ch.draw(F, (it.end - it.start) as u64 + 1) as usize,
                _ => it.end.saturating_sub(1).max(it.start),
            }
        } else {
            ch.draw(F, len as u64 + 1) as usize
        };
        while !lay.text.is_char_boundary(at) {
            at += 1;
        }
        let whole = lay.items.iter().filter(|i| i.tok.is_some() && i.end <= at).count();
        let inside = lay.items.iter().find(|i| i.start < at && at < i.end);
        let (m, w) = state(whole);
        must = m;
        why = match inside {
            None => w.to_string(),
            Some(it) => {
                let part = &lay.text[it.start..at];
                match it.tok {
                    Some(t) => match toks[t].k {
                        K::Str | K::TplNoSub | K::TplHead | K::TplMid | K::TplTail => {
                            must = Some(false);
                            "inside a string or template".to_string()
                        }
                        K::Regex => {
                            let close = toks[t].text.rfind('/').unwrap();
                            if part.len() <= close {
                                must = Some(false);
                                "inside a regular expression".to_string()
                            } else {
                                // among the flags: a shorter regular expression
                                must = if toks[t].depth > 0 { Some(false) } else { None };
                                "among flags".to_string()
                            }
                        }
                        _ => {
                            let open_before = if t == 0 { 0 } else { toks[t - 1].depth };
                            must = if open_before > 0 && toks[t].depth > 0 { Some(false) } else { None };
                            "inside a word, number or operator".to_string()
                        }
                    },
                    None => match it.pk {
                        PK::Block | PK::BlockLt => {
                            must = Some(false);
                            "inside a block comment".to_string()
                        }
                        PK::Line if part.len() == 1 => {
                            must = Some(false);
                            "after the first slash of a comment".to_string()
                        }
                        _ => w.to_string(),
                    },
                }
            }
        };
        let text = lay.text[..at].to_string();
        cx.say(|| format!("cut at byte {}: {}", at, why));
        let items: Vec<Item> = lay.items.iter().filter(|i| i.end <= at).cloned().collect();
        end_lay = Layout { text, items, toks: lay.toks.clone(), eof: lay.eof };
        plan = Plan::of(&end_lay, true);
        plan.ex.cap = cap_for(&end_lay) + 200;
        cx.hit(&format!("cut {}", why));
    } else {
        let at = ch.draw(F, lay.items.len() as u64 + 1) as usize;
        let whole = lay.items[..at].iter().filter(|i| i.tok.is_some()).count();
        let (m, w) = state(whole);
        must = m.or(must);
        why = w.to_string();
        cx.say(|| format!("end of input in place of item {}: {}", at, why));
        end_lay = lay.clone();
        plan = Plan::of(&end_lay, false);
        plan.cut = Some(at);
        plan.ex.cap = cap_for(&end_lay) + 200;
        cx.hit(&format!("cut {}", why));
    }
    cx.hit("fault: early end of input");
    let o = run_parse(&plan, None);
    cx.note(&o, &end_lay);
    cx.case_hash = mix(hash_bytes(end_lay.text.as_bytes()), plan.cut.unwrap_or(0) as u64);
    cx.nontrivial = must.is_some() && !end_lay.text.is_empty();
    let n = after_eof(&o);
    if n > 64 || o.verdict == Verdict::Cap {
        return bad("L04:asks on", format!("{} requests after end of input", n));
    }
    if let Verdict::Internal(m) = &o.verdict {
        return bad("L04:internal", format!("{} on {:?}", m, end_lay.text));
    }
    match must {
        Some(false) if o.verdict == Verdict::Accept => bad("L04:accepted", format!("accepted although it ends {}: {:?}", why, shown(&end_lay, &plan))),
        Some(true) if o.verdict != Verdict::Accept => {
            bad("L04:refused", format!("{:?} although it ends {}: {:?}", o.verdict, why, shown(&end_lay, &plan)))
        }
        _ => Ok(()),
    }
}

fn shown(lay: &Layout, p: &Plan) -> String {
    match p.cut {
        Some(c) if c < lay.items.len() => lay.text[..lay.items[c].start].to_string(),
        _ => lay.text.clone(),
    }
}

// ---- L05 -------------------------------------------------------------------------

pub fn l05(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let mut prof = gen::profile(ch, 40);
    let mode = ch.weighted(W, &[4, 3, 2, 2, 4]);
    if mode == 4 {
        return l05_anywhere(ch, cx, prof);
    }
    if mode == 1 || mode == 2 {
        prof.asi = 6;
    }
    let toks = gen::program(ch, prof);
    let real = reals(ch);
    let split = ch.chance(T, 1, 2);
    let st = Style { burst: (*ch.pick(T, &[2u64, 8, 16])).max(1), ..style(ch) };
    let run = |lay: &Layout| -> Outcome {
        let mut p = Plan::of(lay, real);
        p.ex.cap = cap_for(lay);
        p.ex.split_crlf = split;
        run_parse(&p, None)
    };
    let base_lay = layout(&toks, &plain_gaps(&toks));
    let base = run(&base_lay);
    cx.note(&base, &base_lay);
    cx.hit(if real { "real tokenizer" } else { "stub source" });
    let sites = |g: Gap| -> Vec<usize> { (0..toks.len()).filter(|&i| toks[i].gap == g).collect() };
    let asi = sites(Gap::Asi);
    let reject = sites(Gap::NoLtReject);
    let mut gaps = burst_gaps(ch, &toks, st);
    match mode {
        2 if !asi.is_empty() => {
            // no line break where a statement has to end: refused, whatever else stands there
            let i = *ch.pick(W, &asi);
            let mut g = if ch.chance(T, 1, 2) { flat_pieces(ch, st) } else { vec![] };
            if g.is_empty() && i > 0 && needs_sep(&toks[i - 1], &toks[i]) {
                g.push(Piece { pk: PK::Ws, text: " ".into() });
            }
            glue(if i > 0 { &toks[i - 1].text } else { "" }, &mut g);
            gaps[i] = g;
            let lay = layout(&toks, &gaps);
            let o = run(&lay);
            cx.note(&o, &lay);
            cx.hit("no line break where a statement ends");
            cx.nontrivial = true;
            cx.case_hash = hash_bytes(lay.text.as_bytes());
            if let Verdict::Internal(m) = &o.verdict {
                return bad("L05:internal", m.clone());
            }
            if base.verdict == Verdict::Accept && o.verdict == Verdict::Accept {
                return bad("L05:no break needed", format!("accepted without a line break before token {} ({:?}): {:?}", i, toks[i].text, lay.text));
            }
        }
        3 if !reject.is_empty() => {
            let i = *ch.pick(W, &reject);
            let mut g = vec![];
            if ch.chance(T, 1, 2) {
                g.extend(flat_pieces(ch, st));
            }
            g.extend(lt_piece(ch));
            if ch.chance(T, 1, 2) {
                g.extend(flat_pieces(ch, st));
            }
            glue(&toks[i - 1].text, &mut g);
            gaps[i] = g;
            let lay = layout(&toks, &gaps);
            let o = run(&lay);
            cx.note(&o, &lay);
            cx.hit("line break where it is forbidden");
            cx.nontrivial = true;
            cx.case_hash = hash_bytes(lay.text.as_bytes());
            if base.verdict == Verdict::Accept && o.verdict == Verdict::Accept {
                return bad("L05:forbidden break", format!("accepted with a line break before token {} ({:?}): {:?}", i, toks[i].text, lay.text));
            }
        }
        1 if !asi.is_empty() => {
            // the same place, every form of line break
            let i = *ch.pick(W, &asi);
            for form in 0..15u64 {
                let mut fixed = Ch::replay(vec![vec![], vec![form, ch.draw(T, 14), ch.draw(T, 18)], vec![], vec![]]);
                let mut g = lt_piece(&mut fixed);
                glue(&toks[i - 1].text, &mut g);
                let mut gs = gaps.clone();
                gs[i] = g;
                let lay = layout(&toks, &gs);
                let o = run(&lay);
                cx.note(&o, &lay);
                cx.case_hash = mix(cx.case_hash, hash_bytes(lay.text.as_bytes()));
                compare_trivia(&base, &base_lay, &o, &lay)?;
            }
            cx.hit("every form of line break at one place");
            cx.nontrivial = true;
        }
        _ => {
            let lay = layout(&toks, &gaps);
            let o = run(&lay);
            cx.note(&o, &lay);
            cx.add("trivia delivered", lay.items.iter().filter(|i| i.tok.is_none()).count() as u64);
            cx.nontrivial = lay.items.len() > toks.len() && !toks.is_empty();
            cx.case_hash = hash_bytes(lay.text.as_bytes());
            compare_trivia(&base, &base_lay, &o, &lay)?;
        }
    }
    Ok(())
}

/// Line breaks anywhere, whatever they do there: the reference grammar says what becomes of
/// the program, and how the breaks are written changes nothing.
fn l05_anywhere(ch: &mut Ch, cx: &mut Ctx, prof: gen::Profile) -> R {
    let toks = gen::program(ch, prof);
    let split = ch.chance(T, 1, 2);
    let st = Style { burst: (*ch.pick(T, &[2u64, 8, 16])).max(1), ..style(ch) };
    let dense = *ch.pick(T, &[1u64, 4, 12]);
    let mut lts: Vec<bool> = toks.iter().map(|t| rule_of(t.gap) == Rule::Require).collect();
    lts.push(false);
    if ch.chance(T, 1, 2) && !toks.is_empty() {
        // one place only
        let i = ch.draw(T, toks.len() as u64) as usize;
        lts[i] = !lts[i];
    } else {
        for i in 0..toks.len() {
            if ch.chance(T, dense, 16) {
                lts[i] = !lts[i];
            }
        }
    }
    let mut plain: Gaps = vec![];
    let mut rich: Gaps = vec![];
    for i in 0..=toks.len() {
        let sep = i > 0 && i < toks.len() && needs_sep(&toks[i - 1], &toks[i]);
        let brk = lts[i];
        plain.push(if brk {
            vec![Piece { pk: PK::Lt, text: "\n".into() }]
        } else if sep {
            vec![Piece { pk: PK::Ws, text: " ".into() }]
        } else {
            vec![]
        });
        let mut g = gap(ch, st, if brk { Rule::Require } else { Rule::Forbid }, sep);
        glue(if i > 0 { &toks[i - 1].text } else { "" }, &mut g);
        rich.push(g);
    }
    let run = |lay: &Layout| -> Outcome {
        let mut p = Plan::of(lay, false);
        p.ex.cap = cap_for(lay);
        p.ex.split_crlf = split;
        run_parse(&p, None)
    };
    let (base_lay, lay) = (layout(&toks, &plain), layout(&toks, &rich));
    let (base, o) = (run(&base_lay), run(&lay));
    cx.note(&o, &lay);
    cx.nontrivial = toks.len() > 2;
    cx.case_hash = hash_bytes(lay.text.as_bytes());
    let v = grammar::judge(&toks, &lts);
    cx.hit(if v.sure { "line breaks anywhere: still a program" } else if !v.maybe { "line breaks anywhere: no program" } else { "line breaks anywhere: undecided" });
    if v.sure && o.verdict != Verdict::Accept {
        return bad("L05:refused", format!("{:?} on the program {:?}", o.verdict, base_lay.text));
    }
    if !v.maybe && o.verdict == Verdict::Accept {
        return bad(
            "L05:accepted",
            format!("accepted although a line break before token {:?} makes it invalid: {:?}", v.dead.map(|d| &toks[d].text), base_lay.text),
        );
    }
    compare_trivia(&base, &base_lay, &o, &lay)
}

fn compare_trivia(base: &Outcome, bl: &Layout, o: &Outcome, lay: &Layout) -> R {
    if let Verdict::Internal(m) = &o.verdict {
        return bad("L05:internal", format!("{} on {:?}", m, lay.text));
    }
    if goals(base, bl) != goals(o, lay) {
        return bad("L05:goals", format!("other goals than without the trivia, text {:?}, plain {:?}", lay.text, bl.text));
    }
    if delivered(base, bl) != delivered(o, lay) {
        return bad("L05:tokens", format!("other tokens than without the trivia ({:?}), text {:?}, plain {:?}", o.odd, lay.text, bl.text));
    }
    if (base.verdict == Verdict::Accept) != (o.verdict == Verdict::Accept) {
        return bad("L05:verdict", format!("{:?}, but {:?} without the trivia; text {:?}, plain {:?}", o.verdict, base.verdict, lay.text, bl.text));
    }
    Ok(())
}

// ---- L06 -------------------------------------------------------------------------

pub fn l06(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let mut prof = gen::profile(ch, 90);
    prof.deep = true;
    prof.long = true;
    prof.slashy = ch.draw(W, 4) != 1;
    prof.templates = ch.draw(W, 3) != 1;
    let toks = gen::program(ch, prof);
    let st = style(ch);
    let gaps = if ch.chance(W, 1, 3) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
    let lay = layout(&toks, &gaps);
    let real = reals(ch);
    let mut p = Plan::of(&lay, real);
    p.ex.cap = cap_for(&lay);
    p.ex.split_crlf = ch.chance(T, 1, 2);
    let o = run_parse(&p, None);
    cx.note(&o, &lay);
    cx.hit(if real { "real tokenizer" } else { "stub source" });
    cx.case_hash = hash_bytes(lay.text.as_bytes());
    for (t, g) in goals(&o, &lay) {
        let tk = &toks[t as usize];
        let what = match tk.k {
            K::Regex => "goal: regular expression",
            K::Punct if tk.text == "}" => "goal: closing curly",
            K::Punct => "goal: slash operator",
            _ => "goal: template continuation",
        };
        let _ = g;
        cx.hit(what);
        cx.nontrivial = true;
    }
    if let Some((n, i, h)) = goal_error(&o, &lay) {
        let it = &lay.items[i];
        let s = it.start.saturating_sub(30);
        let s = (s..=it.start).find(|&x| lay.text.is_char_boundary(x)).unwrap();
        return bad(
            if lay.toks[it.tok.unwrap()].text.starts_with('/') { "L06:slash" } else { "L06:curly" },
            format!(
                "request {} asked for {:?} with expression={} template={}, after {:?}",
                n,
                &lay.text[it.start..it.end],
                h & 1 != 0,
                h & 2 != 0,
                &lay.text[s..it.start]
            ),
        );
    }
    Ok(())
}

// ---- L07 -------------------------------------------------------------------------

fn lts_of(toks: &[GTok], gaps: &Gaps) -> Vec<bool> {
    (0..=toks.len()).map(|i| has_lt(&gaps[i])).collect()
}

pub fn l07(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    if ch.chance(F, 1, 12) {
        return l07_malformed(ch, cx);
    }
    let near = ch.chance(F, 1, 2);
    let mut toks;
    if near {
        // derived from a grammar that is slightly wrong in one or two places
        let size = *ch.pick(F, &[40, 40, 40, 120]);
        let p = gen::profile(ch, size);
        let wrong = *ch.pick(F, &[1, 4, 16]);
        let slips = 1 + ch.draw(F, 2) as u32;
        let (v, marks) = grammar::near_miss(ch, p.budget, p.asi, wrong, slips);
        toks = v;
        for m in marks {
            if m < toks.len() {
                toks[m].gap = Gap::Asi;
            }
        }
        cx.hit("fault: rule broken");
    } else {
        toks = scaled_programs(ch, 60, false);
    }
    let st = style(ch);
    let dmg = if near {
        u64::from(ch.chance(F, 1, 8))
    } else if ch.chance(F, 1, 6) { 0 } else { 1 + ch.draw(F, 2) };
    if dmg == 0 && !near {
        let gaps = burst_gaps(ch, &toks, st);
        let lay = layout(&toks, &gaps);
        if let Some((w, i)) = model::must_reject(&toks, &lts_of(&toks, &gaps)) {
            cx.harness_error = Some(format!("the model refuses a valid program: {} at {} in {:?}", w, i, lay.text));
            return Ok(());
        }
        let v = grammar::recognise(&toks, &lts_of(&toks, &gaps), true);
        if v.dead.is_some() || !v.whole[toks.len()] {
            cx.harness_error = Some(format!("the grammar refuses a valid program at {:?} ({:?}): {:?}", v.dead, v.dead.map(|d| &toks[d].text), lay.text));
            return Ok(());
        }
        let real = reals(ch);
        let mut p = Plan::of(&lay, real);
        p.ex.cap = cap_for(&lay);
        let o = run_parse(&p, None);
        cx.note(&o, &lay);
        cx.hit("undamaged");
        cx.case_hash = hash_bytes(lay.text.as_bytes());
        cx.nontrivial = toks.len() > 4;
        return check_valid(&o, &lay, "L07", "undamaged");
    }
    let mut kinds = vec![];
    for _ in 0..dmg {
        let k = model::damage(ch, &mut toks);
        kinds.push(k);
        cx.hit(&format!("fault: {} token", k));
    }
    let gaps = if ch.chance(W, 1, 2) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
    let lay = layout(&toks, &gaps);
    let mut p = Plan::of(&lay, false);
    p.ex.cap = cap_for(&lay);
    let o = run_parse(&p, None);
    cx.note(&o, &lay);
    cx.case_hash = hash_bytes(lay.text.as_bytes());
    let why = model::must_reject(&toks, &lts_of(&toks, &gaps));
    cx.say(|| format!("damage {:?}, must reject: {:?}", kinds, why));
    if let Some((w, i)) = why {
        cx.hit(&format!("must reject: {}", w));
        cx.nontrivial = true;
        if o.verdict == Verdict::Accept {
            return bad(
                "L07:accepted",
                format!("accepted although {} at token {} ({:?}): {:?}", w, i, toks.get(i).map(|t| &t.text[..]).unwrap_or("end"), lay.text),
            );
        }
    }
    let v = grammar::judge(&toks, &lts_of(&toks, &gaps));
    if o.verdict == Verdict::Accept && !v.maybe {
        return bad(
            "L07:accepted",
            match v.dead {
                Some(d) => format!("accepted although {:?}, token {}, cannot stand there: {:?}", toks[d].text, d, lay.text),
                None => format!("accepted although incomplete: {:?}", lay.text),
            },
        );
    }
    if !v.maybe || v.sure {
        cx.nontrivial = true;
    }
    if v.dead.is_some() {
        cx.hit("no program goes on like this");
    }
    if v.sure {
        cx.hit("still a program");
        if why.is_some() {
            cx.harness_error = Some(format!("the model refuses what the grammar accepts: {:?} in {:?}", why, lay.text));
            return Ok(());
        }
        if o.verdict != Verdict::Accept {
            return bad("L07:refused", format!("{:?} on the program {:?}", o.verdict, lay.text));
        }
    }
    // read-ahead past a token that no program contains
    if let Some(pos) = toks.iter().position(|t| t.k == K::Punct && model::ALIEN.contains(&t.text.as_str())) {
        let mut seen = None;
        let mut more = 0;
        for t in delivered(&o, &lay) {
            if seen.is_some() {
                more += 1;
            } else if t == pos as i32 {
                seen = Some(());
            }
        }
        if more > 2 {
            return bad("L07:read-ahead", format!("{} more tokens requested after {:?}: {:?}", more, toks[pos].text, lay.text));
        }
    }
    if o.verdict == Verdict::Accept && !o.reqs.iter().any(|r| r.got == EOF) {
        return bad("L07:unread", format!("accepted without reading to the end: {:?}", lay.text));
    }
    Ok(())
}

/// One token of a real text is spelled in a way that no token is.
fn l07_malformed(ch: &mut Ch, cx: &mut Ctx) -> R {
    const BAD: &[&str] = &[
        "'a\nb'", "\"a\rb\"", "'a\\\rb\nc'", "'a\\\n\nc'", "'a\r\nb'", "0x ", "0b ", "0o ", "0xg", "1e+ ", "1e- ", "3.5e ;", "2e;", ".5e+ ", "@", "#",
        "\\", "#!", "#!a ", "0b2", "0o8", "0b102", "'\\1'", "0.5e!",
    ];
    const BAD_RE: &[&str] = &["/a\nb/", "/a\\\n/", "/[\r]/", "/a\u{2028}/g", "/\u{2029}b/", "/\r\n/"];
    let mut toks = big_programs(ch, 40);
    if toks.is_empty() {
        return Ok(());
    }
    let i = ch.draw(F, toks.len() as u64) as usize;
    let bad_text = if toks[i].k == K::Regex && ch.chance(F, 3, 4) { *ch.pick(F, BAD_RE) } else { *ch.pick(F, BAD) };
    toks[i].text = bad_text.to_string();
    toks[i].k = match bad_text.as_bytes()[0] {
        b'0'..=b'9' | b'.' => K::Num,
        b'/' => K::Regex,
        b'@' | b'#' | b'\\' => K::Punct,
        _ => K::Str,
    };
    cx.hit("fault: malformed token");
    let gaps = if ch.chance(W, 1, 2) { plain_gaps(&toks) } else { let st = style(ch); burst_gaps(ch, &toks, st) };
    let lay = layout(&toks, &gaps);
    if lay.text.starts_with("#!") {
        // at the very start this is a comment of a later language level
        return Ok(());
    }
    let mut p = Plan::of(&lay, true);
    p.ex.cap = cap_for(&lay);
    let o = run_parse(&p, None);
    cx.note(&o, &lay);
    cx.case_hash = hash_bytes(lay.text.as_bytes());
    cx.nontrivial = true;
    if o.verdict == Verdict::Accept {
        return bad("L07:accepted", format!("accepted although {:?} is no token: {:?}", bad_text, lay.text));
    }
    Ok(())
}

// ---- L08 -------------------------------------------------------------------------

pub fn l08(ch: &mut Ch, cx: &mut Ctx) -> R {
    boot(ch);
    let mode = ch.draw(W, 4);
    let mut toks: Vec<GTok>;
    if mode == 0 {
        let n = ch.draw(F, 40);
        toks = (0..n).map(|_| model::any_token(ch, true)).collect();
        cx.hit("arbitrary tokens");
        if n > 0 && ch.chance(F, 1, 300) {
            // a few of them over and over
            let a = ch.draw(F, n) as usize;
            let b = (a + 1 + ch.draw(F, 3) as usize).min(toks.len());
            let some = toks[a..b].to_vec();
            for _ in 0..*ch.pick(F, &[100, 255, 256, 600]) {
                toks.splice(a..a, some.iter().cloned());
            }
            cx.hit("fault: repeated tokens");
        }
    } else {
        if ch.chance(F, 1, 4) {
            let p = gen::profile(ch, 40);
            let (wrong, slips) = (*ch.pick(F, &[1, 4, 16]), 1 + ch.draw(F, 4) as u32);
            toks = grammar::near_miss(ch, p.budget, p.asi, wrong, slips).0;
            cx.hit("fault: rule broken");
        } else {
            toks = scaled_programs(ch, 60, true);
        }
        let n = 1 + ch.draw(F, if mode == 1 { 2 } else { 12 });
        for _ in 0..n {
            let k = model::damage(ch, &mut toks);
            cx.hit(&format!("fault: {} token", k));
        }
        if ch.chance(F, 1, 4) {
            let at = ch.draw(F, toks.len() as u64 + 1) as usize;
            toks.truncate(at);
            cx.hit("fault: early end of input");
        }
    }
    let st = style(ch);
    // trivia anywhere, whatever it does to the program
    let mut gaps: Gaps = vec![];
    for _ in 0..=toks.len() {
        let r = if ch.chance(T, 1, 8) { Rule::Require } else { Rule::Free };
        gaps.push(gap(ch, st, r, false));
    }
    let lay = layout(&toks, &gaps);
    let mut p = Plan::of(&lay, false);
    p.ex.cap = (2 * lay.items.len() + 64) as u32;
    p.ex.split_crlf = ch.chance(T, 1, 2);
    let o = run_parse(&p, None);
    cx.note(&o, &lay);
    cx.case_hash = hash_bytes(lay.text.as_bytes());
    cx.nontrivial = toks.len() > 1;
    let n = after_eof(&o);
    match &o.verdict {
        Verdict::Internal(m) => bad("L08:internal", format!("{:?} on tokens {:?}", m, words(&toks))),
        Verdict::Cap => bad("L08:endless", format!("still asking after {} requests on tokens {:?}", p.ex.cap, words(&toks))),
        Verdict::Fault(_) | Verdict::Lost(_) => bad("L08:failure", format!("{:?}", o.verdict)),
        _ if n > 64 => bad("L08:asks on", format!("{} requests after end of input", n)),
        _ => Ok(()),
    }
}

fn words(t: &[GTok]) -> String {
    t.iter().map(|t| t.text.clone()).collect::<Vec<_>>().join(" ")
}

// ---- T01, T02 ----------------------------------------------------------------------

use jsparse::sim_seam::{tokens as tk, Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};

const SOUP: &[&str] = &[
    "a", "0", "1", ".", "/", "*", "`", "${", "}", "{", "'", "\"", "\\", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", " ", "\t", "\u{a0}", "\u{feff}",
    "é", "漢", "😀", "#", "@", "\0", "\u{7f}", "e", "E", "x", "0x", "0b", "0o", "0b2", "0o8", "0xg", "1e", "1e+", "1e999999999999", "08", "0e9",
    "<!--", "-->", "//", "/*", "*/", "[", "]", "=", "=>", "...", "..", "-", "+", "<<", ">>>=", "\\u", "\\x4", "\\u{", "\u{c2}", "\u{e2}", "\u{ef}",
    "\u{2003}", "\u{3000}", "\u{85}", "\u{200b}", "\u{1680}", "_", "$", ";", "!", "~", "in", "99999999999999999999999", "0.0000000000000000000000000001",
];

fn damaged_text(ch: &mut Ch, cx: &mut Ctx) -> String {
    let mut text = if ch.chance(W, 1, 4) {
        let n = ch.draw(W, 30);
        (0..n).map(|_| *ch.pick(W, SOUP)).collect::<String>()
    } else {
        let toks = big_programs(ch, 30);
        let st = style(ch);
        let gaps = burst_gaps(ch, &toks, st);
        layout(&toks, &gaps).text
    };
    let n = ch.draw(F, 4);
    for _ in 0..n {
        let mut at = ch.draw(F, text.len() as u64 + 1) as usize;
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        match ch.draw(F, 4) {
            0 => {
                let s = *ch.pick(F, SOUP);
                text.insert_str(at, s);
                cx.hit("fault: inserted text");
            }
            1 => {
                text.truncate(at);
                cx.hit("fault: truncated text");
            }
            2 => {
                if at < text.len() {
                    text.remove(at);
                    cx.hit("fault: lost character");
                }
            }
            _ => {
                let t2 = text.split_off(at);
                let mut b = ch.draw(F, t2.len() as u64 + 1) as usize;
                while !t2.is_char_boundary(b) {
                    b -= 1;
                }
                text.push_str(&t2[b..]);
                cx.hit("fault: lost span");
            }
        }
    }
    if ch.chance(W, 1, 8000) {
        // longer than a small counter holds: one token, one line, or very many of them
        let mut at = ch.draw(W, text.len() as u64 + 1) as usize;
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        let n = *ch.pick(W, &[256, 1000, 65_536, 66_000, 70_000]);
        let s = ["a", "\n", "é", " ", "\t", ";", "\r\n", "x ", "1", "\u{2028}", "\u{feff}", "😀", "\\n"][ch.draw(W, 13) as usize].repeat(n);
        let s = match ch.draw(W, 6) {
            0 => format!("'{}'", s),
            1 => format!("`{}`", s),
            2 => format!("/*{}*/", s),
            3 => format!("//{}", s),
            _ => s,
        };
        text.insert_str(at, &s);
        cx.hit("very long text");
    }
    text
}

pub fn goal_seq(ch: &mut Ch) -> (u64, u64) {
    // how the client picks its goals
    (ch.draw(F, 4), ch.draw(F, 4))
}
fn next_goal(ch: &mut Ch, mode: (u64, u64)) -> Hint {
    let pick = |ch: &mut Ch, m: u64| match m {
        0 => false,
        1 => true,
        _ => ch.chance(F, 1, 2),
    };
    let e = pick(ch, mode.0);
    let t = pick(ch, mode.1);
    Hint::default().expression(e).template(t)
}

/// One step: None when the tokenizer failed; the failure's text is judged.
fn step<'c, X: Tokenizer<'c>>(t: &mut X, h: &Hint) -> Result<(tk::Token<'c>, TokenRange), String> {
    let mut tok = tk::Token::default();
    let mut r = TokenRange::default();
    match panic::catch_unwind(AssertUnwindSafe(|| t.next_token(h, (&mut tok, &mut r)))) {
        Ok(()) => Ok((tok, r)),
        Err(p) => Err(payload_text(&*p)),
    }
}

fn is_space(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}')
        || matches!(c as u32, 0x1680 | 0x2000..=0x200a | 0x202f | 0x205f | 0x3000)
}

pub fn t01(ch: &mut Ch, cx: &mut Ctx) -> R {
    inter::ACTIVE.store(false, SeqCst);
    let text = damaged_text(ch, cx);
    let mode = goal_seq(ch);
    let mut t = text[..].into_tokenizer();
    let mut pos = Pos::new(&text);
    let mut last = 0usize;
    let mut n = 0usize;
    let limit = text.len() + 1;
    cx.case_hash = hash_bytes(text.as_bytes());
    cx.nontrivial = text.len() > 3;
    cx.say(|| format!("text: {:?}", text));
    loop {
        let h = next_goal(ch, mode);
        n += 1;
        if n > limit {
            return bad("T01:endless", format!("no end after {} requests on {:?}", limit, text));
        }
        match step(&mut t, &h) {
            Err(m) => {
                cx.hit("lexical failure");
                cx.mix(n as u64);
                cx.say(|| format!("request {}: failure {:?}", n, m));
                if is_internal(&m) {
                    return bad("T01:internal", format!("{:?} on {:?}", m, text));
                }
                return Ok(());
            }
            Ok((tok, r)) => {
                cx.hit("token requests");
                let (a, b) = (r.start.offset, r.end.offset);
                cx.mix((a as u64) << 32 | b as u64);
                cx.say(|| format!("request {} goal {}: {:?} at {:?}..{:?}", n, hint_bits(&h), tok, r.start, r.end));
                if a < last || b < a || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                    return bad("T01:range", format!("range {}..{} after {} in {:?}", a, b, last, text));
                }
                if let Some(c) = text[last..a].chars().find(|c| !is_space(*c)) {
                    return bad("T01:skipped", format!("{:?} skipped between tokens ({}..{}) in {:?}", c, last, a, text));
                }
                for p in &[r.start, r.end] {
                    let want = pos.at(p.offset);
                    let between = p.offset > 0 && text[..p.offset].ends_with('\r') && text[p.offset..].starts_with('\n');
                    let alt = between && p.line == want.line + 1 && p.column == 0;
                    if *p != want && !alt {
                        return bad("T01:position", format!("reported {:?}, the text has {:?}; text {:?}", p, want, text));
                    }
                }
                if let tk::Token::EOF(_) = tok {
                    if a != text.len() || b != text.len() {
                        return bad("T01:early end", format!("end of input at {}..{} of {} in {:?}", a, b, text.len(), text));
                    }
                    // and it stays there
                    for _ in 0..4 {
                        let h = next_goal(ch, mode);
                        match step(&mut t, &h) {
                            Ok((tk::Token::EOF(_), r2)) if r2.start.offset == text.len() && r2.end.offset == text.len() => {
                                if r2.start != r.start || r2.end != r.end {
                                    return bad("T01:end moves", format!("{:?} then {:?}", r, r2));
                                }
                            }
                            Ok((tok, _)) => return bad("T01:after end", format!("{:?} after the end of {:?}", tok, text)),
                            Err(m) => return bad("T01:after end", format!("failure {:?} after the end of {:?}", m, text)),
                        }
                    }
                    cx.hit("reached the end");
                    return Ok(());
                }
                if a == b {
                    return bad("T01:empty", format!("empty token {:?} at {} in {:?}", tok, a, text));
                }
                last = b;
            }
        }
    }
}

/// Hands a stream to another thread that is joined at once, also should the stream's type not allow
/// that by itself: only one thread touches it at a time.
struct Held<T>(T);
unsafe impl<T> Send for Held<T> {}
impl<'t, X> Held<&'t mut X> {
    fn advance<'c>(self, h: &Hint) -> Held<Result<(tk::Token<'c>, TokenRange), String>>
    where
        X: Tokenizer<'c>,
    {
        Held(step(self.0, h))
    }
}

pub fn t02(ch: &mut Ch, cx: &mut Ctx) -> R {
    inter::ACTIVE.store(false, SeqCst);
    let text = if ch.chance(W, 1, 2) {
        damaged_text(ch, cx)
    } else {
        let toks = big_programs(ch, 30);
        let st = style(ch);
        let gaps = burst_gaps(ch, &toks, st);
        layout(&toks, &gaps).text
    };
    cx.case_hash = hash_bytes(text.as_bytes());
    cx.say(|| format!("text: {:?}", text));
    type Ev<'c> = Result<(tk::Token<'c>, TokenRange), String>;
    struct Stream<'c, X> {
        t: X,
        goals: Vec<Hint>,
        seen: Vec<Ev<'c>>,
        dead: bool,
        from: usize,
    }
    let mode = goal_seq(ch);
    let mut v = vec![Stream { t: text[..].into_tokenizer(), goals: vec![], seen: vec![], dead: false, from: 0 }];
    let steps = 4 + ch.draw(S, 80);
    for _ in 0..steps {
        let who = ch.draw(S, v.len() as u64) as usize;
        if v.len() < 6 && ch.chance(S, 1, 6) && !v[who].dead {
            let made = panic::catch_unwind(AssertUnwindSafe(|| v[who].t.clone()));
            cx.hit("clones");
            cx.say(|| format!("clone {} -> {}", who, v.len()));
            match made {
                Err(p) => return bad("T02:clone fails", format!("clone failed: {}", payload_text(&*p))),
                Ok(t) => {
                    let (goals, seen) = (v[who].goals.clone(), v[who].seen.clone());
                    let from = seen.len();
                    v.push(Stream { t, goals, seen, dead: false, from });
                    cx.nontrivial = true;
                }
            }
            continue;
        }
        let burst = 1 + ch.draw(S, 3);
        for _ in 0..burst {
            let s = &mut v[who];
            if s.dead {
                break;
            }
            let h = next_goal(ch, mode);
            s.goals.push(h);
            let e = if ch.chance(S, 1, 12) {
                // on another thread
                let t = Held(&mut s.t);
                std::thread::scope(|sc| sc.spawn(move || t.advance(&h)).join().unwrap().0)
            } else {
                step(&mut s.t, &h)
            };
            cx.hit("token requests");
            cx.sched_hash = mix(cx.sched_hash, who as u64);
            s.dead = e.is_err();
            cx.say(|| format!("stream {} goal {}: {:?}", who, hint_bits(&h), e));
            s.seen.push(e);
        }
    }
    for (i, s) in v.iter().enumerate() {
        let mut t = text[..].into_tokenizer();
        for (n, h) in s.goals.iter().enumerate() {
            let e = step(&mut t, h);
            cx.mix(match &e {
                Ok((_, r)) => r.end.offset as u64,
                Err(_) => 1 << 40,
            });
            let same = match (&e, &s.seen[n]) {
                (Ok((a, ra)), Ok((b, rb))) => (a == b || format!("{:?}", a) == format!("{:?}", b)) && ra == rb,
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            if !same {
                return bad(
                    "T02:differs",
                    format!("stream {} (copied after {} tokens), token {}: {:?}, never copied: {:?}; text {:?}", i, s.from, n, s.seen[n], e, text),
                );
            }
        }
    }
    cx.case_hash = mix(cx.case_hash, cx.sched_hash);
    Ok(())
}
