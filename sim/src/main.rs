//! Seeded search over simulated runs: workers, attribution, minimisation, replay, evidence.
#![allow(dead_code)]

mod choice;
mod cli;
mod gen;
mod grammar;
mod inter;
mod model;
mod props;
mod src;
mod text;

use choice::*;
use props::{Ctx, Violation};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub const NWORK: usize = 8;

type RunFn = fn(&mut Ch, &mut Ctx) -> props::R;
struct Prop {
    id: &'static str,
    f: RunFn,
    quick: u64,
    thorough: u64,
    rule: &'static str,
    real: &'static str,
    stub: &'static str,
    assume: &'static str,
}

const LIB_REAL: &str = "parser and tokenizer of /repo (real code); report printing and elapsed-time code (real); OS threads (real, released one at a time)";
const LIB_STUB: &str = "token source in the runs marked stub (generated tokens delivered at the Tokenizer seam); clocks and file descriptor 1 (interposed)";
const CLI_REAL: &str = "the whole jsparse executable and the Rust standard library (real code), the file system underneath an unfaulted call";
const CLI_STUB: &str = "results of open, statx/fstat, lseek, read, write, clock_gettime and the malloc family, as scripted by the simulator";

fn props_table() -> Vec<Prop> {
    let l = |id, f: RunFn, quick, thorough, rule| Prop {
        id,
        f,
        quick,
        thorough,
        rule,
        real: LIB_REAL,
        stub: LIB_STUB,
        assume: "the workload generator emits only valid programs of the language level the parser supports; its annotations (goals, depths, statement ends) are right",
    };
    let c = |id, f: RunFn, quick, thorough, rule| Prop {
        id,
        f,
        quick,
        thorough,
        rule,
        real: CLI_REAL,
        stub: CLI_STUB,
        assume: "the program reaches the operating system through libc; faults below that (page cache, kernel) are represented by the results libc returns",
    };
    vec![
        c("C01", cli::c01, 40_000, 1_000_000, "a run is one process execution: generated file content, scripted read/stat/clock results; non-trivial: at least one scripted deviation fired; distinct by content and script"),
        c("C02", cli::c02, 60_000, 1_500_000, "a run is one process execution with an open, read, stat, allocation or encoding failure; non-trivial: the failure fired; distinct by content and script"),
        c("C03", cli::c03, 40_000, 1_000_000, "a run is one process execution with scripted results of writes; non-trivial: at least one deviation fired; distinct by content and script"),
        l("L01", props::l01, 150_000, 3_000_000, "1-3 overlapping parses with per-request delays and wall clock jumps; non-trivial: time passed during a parse; distinct by programs and elapsed times"),
        l("L02", props::l02, 120_000, 2_500_000, "2-4 overlapping parses, each compared with its solo history; every run is non-trivial; distinct by programs and schedule"),
        l("L03", props::l03, 120_000, 2_500_000, "a history of 1-5 parses, most of which fail, with probe parses in between; non-trivial: a failure reached the caller; distinct by programs and failure points"),
        l("L04", props::l04, 1_200_000, 14_000_000, "one program ended early at a drawn character or token; non-trivial: the annotation decides the verdict; distinct by delivered text"),
        l("L05", props::l05, 800_000, 10_000_000, "one program with trivia bursts against the same program without; non-trivial: trivia was delivered; distinct by text"),
        l("L06", props::l06, 1_000_000, 14_000_000, "one program; every slash and closing curly request is judged; non-trivial: at least one such token; distinct by text"),
        l("L07", props::l07, 1_600_000, 14_000_000, "one program with 0-2 damages to its tokens, or derived from a grammar broken in 1-2 places; non-trivial: the model or the grammar decides the verdict, or undamaged and longer than 4 tokens; distinct by text"),
        l("L08", props::l08, 1_200_000, 24_000_000, "an arbitrary or heavily damaged token sequence, then end of input; non-trivial: more than one token; distinct by text"),
        l("T01", props::t01, 2_000_000, 40_000_000, "a text, possibly damaged, pulled under a drawn goal sequence to its end; non-trivial: longer than 3 bytes; distinct by text"),
        l("T02", props::t02, 300_000, 6_000_000, "a text, streams cloned and advanced in a drawn order, each compared with a never-cloned stream; non-trivial: at least one clone; distinct by text and order"),
    ]
}

// ---- plumbing -------------------------------------------------------------------

fn die(m: &str) -> ! {
    eprintln!("jsim: {}", m);
    std::process::exit(2)
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn map_file(p: &Path, len: usize) -> *mut u8 {
    use std::os::unix::io::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(p).unwrap_or_else(|e| die(&format!("{:?}: {}", p, e)));
    if f.metadata().unwrap().len() < len as u64 {
        f.set_len(len as u64).unwrap();
    }
    let m = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if m == libc::MAP_FAILED {
        die("mmap failed");
    }
    m as *mut u8
}

#[repr(C)]
struct Shared {
    min_fail: AtomicU64,
    cur: [AtomicU64; NWORK],
}

fn run_seed(base: u64, id: &str, idx: u64) -> u64 {
    mix(mix(base, hash_str(id)), idx)
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = at);
    }));
}

/// One run, in this process. A panic of the harness itself is a harness error.
fn one(p: &Prop, ch: &mut Ch, cx: &mut Ctx) -> props::R {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(ch, cx)));
    inter::ACTIVE.store(false, SeqCst);
    match r {
        Ok(r) => r,
        Err(e) => {
            cx.harness_error = Some(format!("harness panic: {} at {}", src::payload_text(&*e), LAST.with(|x| x.borrow().clone())));
            Ok(())
        }
    }
}

/// Nesting needs stack, length must not: where only the latter is explored, there is little.
fn on_stack<R: Send>(p: &Prop, f: impl FnOnce() -> R + Send) -> R {
    let mb = if p.id == "L05" { 4 } else { 512 };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(mb << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

// ---- worker -----------------------------------------------------------------------

fn worker(p: &Prop, base: u64, w: usize, n: u64, dir: &Path) {
    limit_memory();
    quiet();
    let sh = unsafe { &*(map_file(&dir.join("shared"), 4096) as *const Shared) };
    // if the parser dies over these, the first run is to blame
    sh.cur[w].store(w as u64 + 1, SeqCst);
    if p.id == "L03" {
        props::record_probes();
    }
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut cases: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let (mut runs, mut digest, mut sim) = (0u64, 0u64, 0u128);
    let mut out = String::new();
    let mut idx = w as u64;
    while idx < n && idx < sh.min_fail.load(SeqCst) {
        sh.cur[w].store(idx + 1, SeqCst);
        let mut ch = Ch::seeded(run_seed(base, p.id, idx));
        let mut cx = Ctx::default();
        let t0 = own_cpu();
        let r = one(p, &mut ch, &mut cx);
        if let Ok(f) = std::env::var("JSIM_SLOW") {
            let t = own_cpu() - t0;
            if t > 0.4 {
                use std::io::Write;
                let _ = fs::OpenOptions::new().create(true).append(true).open(f).map(|mut f| writeln!(f, "{} {} {:.2}", p.id, idx, t));
            }
        }
        runs += 1;
        for (k, v) in cx.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        if cx.nontrivial {
            cases.insert(cx.case_hash);
        }
        if cx.sched_hash != 0 {
            scheds.insert(cx.sched_hash);
        }
        sim += cx.sim_ns as u128;
        digest = digest.wrapping_add(mix(idx, cx.digest ^ cx.case_hash));
        if let Some(h) = cx.harness_error {
            out.push_str(&format!("E {} {}\n", idx, h.replace('\n', " ")));
            break;
        }
        if let Err(v) = r {
            out.push_str(&format!("V {} {}\t{}\n", idx, v.class, v.msg.replace('\n', "\\n")));
            sh.min_fail.fetch_min(idx, SeqCst);
            break;
        }
        idx += NWORK as u64;
    }
    sh.cur[w].store(0, SeqCst);
    cli::cleanup();
    out.push_str(&format!("R {}\nD {}\nS {}\n", runs, digest, sim));
    for (k, v) in counts {
        out.push_str(&format!("C {} {}\n", v, k));
    }
    let mut b: Vec<u8> = vec![];
    for h in cases {
        b.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("cases{}", w)), b).unwrap();
    let mut b: Vec<u8> = vec![];
    for h in scheds {
        b.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("scheds{}", w)), b).unwrap();
    fs::write(dir.join(format!("out{}", w)), out).unwrap();
}

// ---- executing one case in a fresh process --------------------------------------------

/// What to execute: the runs that came before in the same process, then one case.
#[derive(Clone, Default)]
struct Case {
    history: Vec<u64>, // run seeds
    seed: Option<u64>,
    lanes: Vec<Vec<u64>>,
}

struct Res {
    violation: Option<Violation>,
    harness: Option<String>,
    lanes: Vec<Vec<u64>>,
    log: Vec<String>,
    digest: u64,
}

fn exec_child(p: &Prop, case_file: &Path, verbose: bool, mirror: Option<&Path>) {
    limit_memory();
    quiet();
    let c = read_case(&fs::read_to_string(case_file).unwrap());
    if p.id == "L03" {
        props::record_probes();
    }
    for &s in &c.history {
        let mut ch = Ch::seeded(s);
        let mut cx = Ctx::default();
        let _ = one(p, &mut ch, &mut cx);
    }
    let mut ch = match c.seed {
        Some(s) => Ch::seeded(s),
        None => Ch::replay(c.lanes.clone()),
    };
    if let Some(m) = mirror {
        choice::mirror_to(m);
    }
    let mut cx = Ctx { verbose, ..Ctx::default() };
    let r = one(p, &mut ch, &mut cx);
    let mut out = String::new();
    for l in &cx.log {
        out.push_str("| ");
        out.push_str(&l.replace('\n', "\\n"));
        out.push('\n');
    }
    for l in ch.recorded() {
        out.push_str("LANE");
        for v in l {
            out.push_str(&format!(" {}", v));
        }
        out.push('\n');
    }
    out.push_str(&format!("DIGEST {}\n", mix(cx.digest, cx.case_hash)));
    match (cx.harness_error, r) {
        (Some(h), _) => out.push_str(&format!("HARNESS {}\n", h.replace('\n', " "))),
        (None, Ok(())) => out.push_str("HELD\n"),
        (None, Err(v)) => out.push_str(&format!("VIOL {}\t{}\n", v.class, v.msg.replace('\n', "\\n"))),
    }
    cli::cleanup();
    inter::out(&out);
}

fn own_cpu() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 / 1e6
    }
}

fn cpu_of(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = match s.rfind(')') {
        Some(i) => &s[i + 1..],
        None => return 0.0,
    };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    t / 100.0
}

/// Whether every thread of the process waits for something. Nothing in a run of the library does so for long,
/// and a process that is merely kept from running is not waiting.
fn all_wait(pid: u32) -> bool {
    let mut n = 0;
    for t in fs::read_dir(format!("/proc/{}/task", pid)).into_iter().flatten().flatten() {
        let s = fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let rest = s.rfind(')').map_or("", |i| s[i + 1..].trim_start());
        if !rest.starts_with('S') {
            return false;
        }
        n += 1;
    }
    n > 0
}

/// Watches one process for a deadlock: all of its threads wait, for seconds, and use no processor at all.
struct Deadlock {
    since: f64,
    cpu: f64,
}
impl Deadlock {
    fn new() -> Deadlock {
        Deadlock { since: -1.0, cpu: -1.0 }
    }
    fn seen(&mut self, p: &Prop, pid: u32, now: f64, long: f64) -> bool {
        if p.id.starts_with('C') {
            // those wait for a process of their own, which has limits of its own
            return false;
        }
        let cpu = cpu_of(pid);
        if cpu != self.cpu || !all_wait(pid) {
            self.since = now;
            self.cpu = cpu;
            return false;
        }
        now - self.since > long
    }
}

fn abort_class(id: &str, st: &std::process::ExitStatus) -> Violation {
    let how = match (st.signal(), st.code()) {
        (Some(s), _) => format!("signal {}", s),
        (_, Some(c)) => format!("status {}", c),
        _ => "unknown".into(),
    };
    Violation { class: format!("{}:abort", id), msg: format!("the process that runs the parser died: {}", how) }
}

fn exec(p: &Prop, c: &Case, verbose: bool, dir: &Path, patience: (f64, f64)) -> Res {
    static N: AtomicU64 = AtomicU64::new(0);
    let k = N.fetch_add(1, SeqCst);
    let cf = dir.join(format!("case{}", k));
    let mf = dir.join(format!("mirror{}", k));
    fs::write(&cf, write_case(c)).unwrap();
    let mut cmd = Command::new("/proc/self/exe");
    cmd.arg("exec").arg(p.id).arg(&cf).arg(if verbose { "v" } else { "q" });
    if c.seed.is_some() {
        cmd.arg(&mf);
    }
    cmd.env("JSIM_SCRATCH", dir);
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = cmd.spawn().unwrap_or_else(|e| die(&format!("cannot start: {}", e)));
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t0 = inter::wall();
    let mut hang = None;
    let mut nap = 200;
    let mut dead = Deadlock::new();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        let w = inter::wall() - t0;
        if w > 1.0 && (cpu_of(ch.id()) > patience.0 || w > patience.1 || dead.seen(p, ch.id(), w, 3.0)) {
            hang = Some(Violation { class: format!("{}:hang", p.id), msg: "the run does not end".into() });
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    };
    let text = String::from_utf8_lossy(&rd.join().unwrap()).to_string();
    let mut r = Res { violation: None, harness: None, lanes: vec![], log: vec![], digest: 0 };
    let mut ended = false;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("| ") {
            r.log.push(x.to_string());
        } else if let Some(x) = l.strip_prefix("LANE") {
            r.lanes.push(x.split_whitespace().map(|v| v.parse().unwrap()).collect());
        } else if let Some(x) = l.strip_prefix("DIGEST ") {
            r.digest = x.parse().unwrap_or(0);
        } else if let Some(x) = l.strip_prefix("HARNESS ") {
            r.harness = Some(x.to_string());
            ended = true;
        } else if l == "HELD" {
            ended = true;
        } else if let Some(x) = l.strip_prefix("VIOL ") {
            let (a, b) = x.split_once('\t').unwrap_or((x, ""));
            r.violation = Some(Violation { class: a.into(), msg: b.into() });
            ended = true;
        }
    }
    if !ended {
        r.lanes = match c.seed {
            Some(_) => read_mirror(&mf),
            None => c.lanes.clone(),
        };
        r.violation = Some(hang.unwrap_or_else(|| abort_class(p.id, &st)));
    }
    let _ = fs::remove_file(&cf);
    let _ = fs::remove_file(&mf);
    r
}

fn read_mirror(p: &Path) -> Vec<Vec<u64>> {
    let b = fs::read(p).unwrap_or_default();
    let mut v = vec![vec![]; NLANES];
    for c in b.chunks_exact(9) {
        let mut x = [0u8; 8];
        x.copy_from_slice(&c[1..]);
        v[(c[0] as usize).min(NLANES - 1)].push(u64::from_le_bytes(x));
    }
    v
}

fn write_case(c: &Case) -> String {
    let list = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut s = String::new();
    s.push_str(&format!("\"history\": [{}],\n", list(&c.history)));
    match c.seed {
        Some(x) => s.push_str(&format!("\"run_seed\": [{}],\n", x)),
        None => {
            for (i, n) in ["workload", "trivia", "faults", "schedule"].iter().enumerate() {
                s.push_str(&format!("\"{}\": [{}],\n", n, list(c.lanes.get(i).map(|v| &v[..]).unwrap_or(&[]))));
            }
        }
    }
    s
}
fn read_case(s: &str) -> Case {
    let get = |k: &str| -> Option<Vec<u64>> {
        for l in s.lines() {
            if let Some(r) = l.trim().strip_prefix(&format!("\"{}\": [", k)) {
                let e = r.find(']')?;
                return Some(r[..e].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect());
            }
        }
        None
    };
    Case {
        history: get("history").unwrap_or_default(),
        seed: get("run_seed").map(|v| v[0]),
        lanes: ["workload", "trivia", "faults", "schedule"].iter().map(|k| get(k).unwrap_or_default()).collect(),
    }
}

// ---- minimisation ------------------------------------------------------------------

fn minimise(p: &Prop, start: &Case, class: &str, dir: &Path, budget: f64) -> (Case, u64) {
    let t0 = inter::wall();
    let budget = if class.ends_with(":hang") { budget.min(30.0) } else { budget };
    let patience = if class.ends_with(":hang") { (8.0, 40.0) } else { (30.0, 120.0) };
    let mut tried = 0u64;
    let mut best = start.clone();
    // several candidates at once; the first that fails the same way wins, so the result does not depend on timing
    let try_all = |cands: &[Case], tried: &mut u64| -> Option<usize> {
        let res: Vec<bool> = std::thread::scope(|s| {
            let hs: Vec<_> = cands
                .iter()
                .map(|c| {
                    s.spawn(move || {
                        let r = exec(p, c, false, dir, patience);
                        matches!(&r.violation, Some(v) if v.class == class)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        *tried += cands.len() as u64;
        res.iter().position(|&b| b)
    };
    let left = |b: f64| inter::wall() - t0 < b;
    // the runs before it
    let mut step = best.history.len();
    while step > 0 && !best.history.is_empty() && left(budget * 0.5) {
        let mut cands = vec![];
        let mut i = 0;
        while i < best.history.len() && cands.len() < 64 {
            let mut c = best.clone();
            let e = (i + step).min(c.history.len());
            c.history.drain(i..e);
            cands.push(c);
            i += step;
        }
        let mut hit = false;
        for chunk in cands.chunks(8) {
            if let Some(k) = try_all(chunk, &mut tried) {
                best = chunk[k].clone();
                hit = true;
                break;
            }
        }
        if !hit {
            step /= 2;
        } else {
            step = step.min(best.history.len());
        }
    }
    // cut every lane where later choices no longer matter, then delete runs, then reduce values
    let order = [F, S, T, W];
    loop {
        let before = best.lanes.iter().map(|l| l.iter().filter(|&&v| v > 0).count() + l.len()).sum::<usize>();
        for &l in &order {
            let mut size = best.lanes[l].len();
            while size > 0 && left(budget) {
                let mut i = 0;
                while i < best.lanes[l].len() && left(budget) {
                    let mut cands = vec![];
                    let mut j = i;
                    while j < best.lanes[l].len() && cands.len() < 4 {
                        let e = (j + size).min(best.lanes[l].len());
                        let mut c = best.clone();
                        c.lanes[l].drain(j..e);
                        cands.push(c);
                        if best.lanes[l][j..e].iter().any(|&v| v > 0) {
                            let mut c = best.clone();
                            for v in &mut c.lanes[l][j..e] {
                                *v = 0;
                            }
                            cands.push(c);
                        }
                        j = e;
                    }
                    match try_all(&cands, &mut tried) {
                        Some(k) => best = cands[k].clone(),
                        None => i = j,
                    }
                }
                size /= 2;
            }
        }
        for &l in &order {
            let mut i = 0;
            while i < best.lanes[l].len() && left(budget) {
                let v = best.lanes[l][i];
                let mut cands = vec![];
                for nv in [v / 2, v.saturating_sub(1)] {
                    if nv < v {
                        let mut c = best.clone();
                        c.lanes[l][i] = nv;
                        cands.push(c);
                    }
                }
                match try_all(&cands, &mut tried) {
                    Some(k) => best = cands[k].clone(),
                    None => i += 1,
                }
            }
        }
        for l in &mut best.lanes {
            while l.last() == Some(&0) {
                l.pop();
            }
        }
        let after = best.lanes.iter().map(|l| l.iter().filter(|&&v| v > 0).count() + l.len()).sum::<usize>();
        if after >= before || !left(budget) {
            break;
        }
    }
    (best, tried)
}

// ---- check -----------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x2028 || c as u32 == 0x2029 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

struct Batch {
    viol: Option<(u64, Violation)>,
    harness: Option<String>,
    runs: u64,
    digest: u64,
    sim: u128,
    counts: BTreeMap<String, u64>,
    cases: HashSet<u64>,
    scheds: HashSet<u64>,
    wall: f64,
}

fn batch(p: &Prop, base: u64, n: u64, dir: &Path) -> Batch {
    let t0 = inter::wall();
    let sh = unsafe { &*(map_file(&dir.join("shared"), 4096) as *const Shared) };
    sh.min_fail.store(u64::MAX, SeqCst);
    let mut kids: Vec<Option<Child>> = vec![];
    for w in 0..NWORK {
        sh.cur[w].store(0, SeqCst);
        let _ = fs::remove_file(dir.join(format!("out{}", w)));
        let d = dir.join(format!("w{}", w));
        fs::create_dir_all(&d).unwrap();
        let c = Command::new("/proc/self/exe")
            .args(["worker", p.id, &base.to_string(), &w.to_string(), &n.to_string()])
            .arg(dir)
            .env("JSIM_SCRATCH", &d)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start a worker: {}", e)));
        kids.push(Some(c));
    }
    let mut viol: Option<(u64, Violation)> = None;
    let mut note = |v: &mut Option<(u64, Violation)>, idx: u64, x: Violation| {
        if v.as_ref().map_or(true, |(i, _)| idx < *i) {
            *v = Some((idx, x));
        }
    };
    let mut harness = None;
    let mut since: Vec<(u64, f64, f64)> = vec![(0, 0.0, 0.0); NWORK];
    let mut dead: Vec<Deadlock> = (0..NWORK).map(|_| Deadlock::new()).collect();
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(std::time::Duration::from_millis(10));
        let now = inter::wall();
        for w in 0..NWORK {
            let mut over = false;
            if let Some(k) = &mut kids[w] {
                let cur = sh.cur[w].load(SeqCst);
                if let Some(st) = k.try_wait().unwrap() {
                    over = true;
                    if !st.success() {
                        if cur > 0 {
                            sh.min_fail.fetch_min(cur - 1, SeqCst);
                            note(&mut viol, cur - 1, abort_class(p.id, &st));
                        } else {
                            harness = Some(format!("worker {} died outside of a run: {:?}", w, st));
                        }
                    }
                } else if cur != since[w].0 {
                    since[w] = (cur, now, -1.0);
                    dead[w] = Deadlock::new();
                } else if cur > 0 && now - since[w].1 > 2.0 {
                    let cpu = cpu_of(k.id());
                    if since[w].2 < 0.0 {
                        since[w].2 = cpu;
                    }
                    let (busy, long, stuck) = (cpu - since[w].2 > 30.0, now - since[w].1 > 240.0, dead[w].seen(p, k.id(), now, 8.0));
                    if busy || long || stuck {
                        eprintln!(
                            "jsim: run {} was stopped after {:.1} s, {:.1} s of them on a processor: {}",
                            cur - 1,
                            now - since[w].1,
                            cpu - since[w].2,
                            if stuck { "every thread waits" } else if busy { "it goes on computing" } else { "it takes too long" }
                        );
                        let _ = k.kill();
                        let _ = k.wait();
                        over = true;
                        sh.min_fail.fetch_min(cur - 1, SeqCst);
                        note(&mut viol, cur - 1, Violation { class: format!("{}:hang", p.id), msg: "the run does not end".into() });
                    }
                }
            }
            if over {
                kids[w] = None;
            }
        }
    }
    let mut b = Batch {
        viol: None,
        harness,
        runs: 0,
        digest: 0,
        sim: 0,
        counts: BTreeMap::new(),
        cases: HashSet::new(),
        scheds: HashSet::new(),
        wall: 0.0,
    };
    for w in 0..NWORK {
        let s = fs::read_to_string(dir.join(format!("out{}", w))).unwrap_or_default();
        for l in s.lines() {
            let (k, x) = l.split_at(2);
            match k {
                "V " => {
                    let (i, r) = x.split_once(' ').unwrap();
                    let (a, m) = r.split_once('\t').unwrap_or((r, ""));
                    note(&mut viol, i.parse().unwrap(), Violation { class: a.into(), msg: m.into() });
                }
                "E " => b.harness = Some(x.to_string()),
                "R " => b.runs += x.parse::<u64>().unwrap(),
                "D " => b.digest = b.digest.wrapping_add(x.parse().unwrap()),
                "S " => b.sim += x.parse::<u128>().unwrap(),
                "C " => {
                    let (v, k) = x.split_once(' ').unwrap();
                    *b.counts.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                _ => {}
            }
        }
        for (f, set) in [("cases", &mut b.cases), ("scheds", &mut b.scheds)] {
            for c in fs::read(dir.join(format!("{}{}", f, w))).unwrap_or_default().chunks_exact(8) {
                let mut x = [0u8; 8];
                x.copy_from_slice(c);
                set.insert(u64::from_le_bytes(x));
            }
        }
    }
    b.viol = viol;
    b.wall = inter::wall() - t0;
    b
}

fn check(p: &Prop, seed: u64, thorough: bool, root: &Path, n: Option<u64>) -> i32 {
    let t0 = inter::wall();
    let dir = root.join(format!(".build/tmp/{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let n = n.unwrap_or(if thorough { p.thorough } else { p.quick });
    println!("property {} seed {} runs {}", p.id, seed, n);
    // addresses are the same in every process from here on, where the system lets us
    unsafe {
        libc::personality(0x0040000);
    }
    let b = batch(p, seed, n, &dir);
    let mut code = 0;
    let mut nviol = 0;
    if let (Some(h), None) = (&b.harness, &b.viol) {
        eprintln!("jsim: harness error: {}", h);
        code = 2;
    }
    let mut samples: Vec<String> = vec![];
    let mut agree = (0u64, 0u64);
    if let Some((idx, v)) = &b.viol {
        code = 1;
        nviol = 1;
        println!("run {}: {}: {}", idx, v.class, clip(&v.msg, 2000));
        match report(p, seed, *idx, v, root, &dir) {
            Some((path, r)) => {
                println!("VIOLATION property={} replay={}", p.id, path.display());
                samples.push(clip(&r, 3000));
            }
            None => {
                eprintln!("jsim: run {} could not be reproduced in a fresh process, not even after the same runs", idx);
                code = 2;
            }
        }
    } else if code == 0 {
        // a few of the runs again, each in its own process: the samples, and a check of determinism
        for i in 0..4u64 {
            let idx = if i < 3 { i * (n / 3).max(1) } else { n.saturating_sub(1) };
            let c = Case { seed: Some(run_seed(seed, p.id, idx)), ..Case::default() };
            let r = exec(p, &c, true, &dir, (60.0, 300.0));
            let again = exec(p, &Case { lanes: r.lanes.clone(), ..Case::default() }, false, &dir, (60.0, 300.0));
            agree.1 += 1;
            if again.digest == r.digest && again.violation.is_none() && r.violation.is_none() {
                agree.0 += 1;
            }
            samples.push(clip(&format!("run {}: {}", idx, r.log.join(" | ")), 1500));
        }
        if agree.0 != agree.1 {
            eprintln!("jsim: replaying a run from its recorded choices gave another history");
            code = 2;
        }
    }
    let wall = inter::wall() - t0;
    let mut faults = String::new();
    let mut other = String::new();
    for (k, v) in &b.counts {
        let (dst, k) = match k.strip_prefix("fault: ") {
            Some(k) => (&mut faults, k),
            None => (&mut other, &k[..]),
        };
        if !dst.is_empty() {
            dst.push_str(", ");
        }
        dst.push_str(&format!("{}: {}", js(k), v));
    }
    let per_h = b.runs as f64 / b.wall.max(0.001) * 3600.0;
    let ev = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {dist},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"simulated_runs_per_hour\": {ph:.0},\n  \"seeds_per_hour\": {ph:.0},\n  \"seeds\": \"run i uses seed mix(VERIF_SEED, property, i), i < {n}\",\n  \"simulated_time_s\": {sim:.3},\n  \"faults_injected\": {{{faults}}},\n  \"probes\": {{{other}}},\n  \"distinct_schedules\": {sched},\n  \"distinct_measure\": \"distinct_nontrivial counts distinct case hashes (inputs, faults and outcome-relevant choices); distinct_schedules counts distinct sequences of scheduling decisions\",\n  \"replays_agreeing\": \"{a0} of {a1} sampled runs replayed from their recorded choices in a fresh process with an identical history\",\n  \"history_digest\": \"{digest:016x}\",\n  \"real_code\": {real},\n  \"stubs\": {stub}\n }},\n \"assumptions\": [{assume}],\n \"wall_s\": {wall:.2},\n \"violations\": {nv}\n}}\n",
        id = js(p.id),
        tier = if thorough { "\"thorough\"" } else { "\"quick\"" },
        seed = seed,
        runs = b.runs,
        dist = b.cases.len(),
        rule = js(p.rule),
        samples = samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
        ph = per_h,
        n = n,
        sim = b.sim as f64 / 1e9,
        faults = faults,
        other = other,
        sched = b.scheds.len(),
        a0 = agree.0,
        a1 = agree.1,
        digest = b.digest,
        real = js(p.real),
        stub = js(p.stub),
        assume = js(p.assume),
        wall = wall,
        nv = nviol
    );
    fs::create_dir_all(root.join("evidence")).unwrap();
    fs::write(root.join(format!("evidence/{}.json", p.id)), ev).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!("{} runs, {} distinct non-trivial, {:.1} s, digest {:016x}, exit {}", b.runs, b.cases.len(), wall, b.digest, code);
    code
}

/// Reproduce in a fresh process, minimise, write the replay file, replay it.
fn report(p: &Prop, seed: u64, idx: u64, v: &Violation, root: &Path, dir: &Path) -> Option<(PathBuf, String)> {
    let rs = run_seed(seed, p.id, idx);
    let mut c = Case { seed: Some(rs), ..Case::default() };
    let slow = (30.0, 240.0);
    let mut r = exec(p, &c, false, dir, slow);
    if r.violation.is_none() {
        // it takes what the runs before it left behind
        c.history = (0..idx).filter(|i| i % NWORK as u64 == idx % NWORK as u64).map(|i| run_seed(seed, p.id, i)).collect();
        for _ in 0..2 {
            r = exec(p, &c, false, dir, (300.0, 300.0));
            if r.violation.is_some() {
                break;
            }
        }
    }
    let once = r.violation.is_none();
    if once && v.class.ends_with(":hang") {
        return None;
    }
    let got = match r.violation {
        Some(x) => x,
        // It happened, but depends on something that is not the simulator's: say so, with all that led to it.
        None => {
            let path = root.join(format!("replays/{}-{}.json", p.id, seed));
            fs::create_dir_all(root.join("replays")).unwrap();
            let s = format!(
                "{{\n\"property\": {},\n\"seed\": {},\n\"run\": {},\n\"class\": {},\n\"message\": {},\n\"note\": \"seen once; the same choices gave another history in a fresh process\",\n{}\"trace\": []\n}}\n",
                js(p.id), seed, idx, js(&v.class), js(&v.msg), write_case(&c)
            );
            fs::write(&path, s).unwrap();
            println!("not minimised: the same choices gave another history in a fresh process");
            return Some((path, format!("{}: {}", v.class, v.msg)));
        }
    };
    let c = Case { history: c.history, seed: None, lanes: r.lanes };
    let (best, tried) = minimise(p, &c, &got.class, dir, 75.0);
    let mut best = best;
    let mut fin = exec(p, &best, true, dir, slow);
    if fin.violation.is_none() {
        best = c;
        fin = exec(p, &best, true, dir, slow);
    }
    let fv = fin.violation.clone().unwrap_or(got);
    fs::create_dir_all(root.join("replays")).unwrap();
    let path = root.join(format!("replays/{}-{}.json", p.id, seed));
    let trace: Vec<String> = fin.log.iter().take(400).map(|l| format!("  {}", js(&clip(l, 4000)))).collect();
    let s = format!(
        "{{\n\"property\": {},\n\"seed\": {},\n\"run\": {},\n\"run_seed_original\": {},\n\"class\": {},\n\"message\": {},\n\"original_message\": {},\n\"minimisation_candidates\": {},\n{}\"trace\": [\n{}\n]\n}}\n",
        js(p.id),
        seed,
        idx,
        rs,
        js(&fv.class),
        js(&fv.msg),
        js(&v.msg),
        tried,
        write_case(&best),
        trace.join(",\n")
    );
    fs::write(&path, s).unwrap();
    println!("minimised: {}: {}", fv.class, clip(&fv.msg, 2000));
    Some((path, format!("{}: {}", fv.class, fv.msg)))
}

fn find<'a>(t: &'a [Prop], id: &str) -> &'a Prop {
    t.iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {}", id)))
}

fn main() {
    // what a failure prints must not depend on the caller's environment
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let t = props_table();
    let root = PathBuf::from(std::env::var("JSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let num = |i: usize| -> u64 { a.get(i).and_then(|x| x.parse().ok()).unwrap_or_else(|| die("number expected")) };
    match a.get(1).map(|s| &s[..]) {
        Some("check") => {
            // check ID SEED TIER [RUNS]
            let p = find(&t, &a[2]);
            let c = check(p, num(3), a[4] == "thorough", &root, a.get(5).and_then(|x| x.parse().ok()));
            std::process::exit(c)
        }
        Some("worker") => {
            let p = find(&t, &a[2]);
            let (base, w, n) = (num(3), num(4) as usize, num(5));
            on_stack(p, || worker(p, base, w, n, Path::new(&a[6])));
        }
        Some("exec") => {
            let p = find(&t, &a[2]);
            on_stack(p, || exec_child(p, Path::new(&a[3]), a[4] == "v", a.get(5).map(Path::new)));
        }
        Some("one") => {
            // one ID SEED IDX: a single run, verbosely
            let p = find(&t, &a[2]);
            let dir = root.join(format!(".build/tmp/one-{}", std::process::id()));
            fs::create_dir_all(&dir).unwrap();
            let c = Case { seed: Some(run_seed(num(3), p.id, num(4))), ..Case::default() };
            let r = exec(p, &c, true, &dir, (60.0, 300.0));
            for l in r.log {
                println!("{}", l);
            }
            println!("{:?} {:?}", r.violation, r.harness);
            let _ = fs::remove_dir_all(&dir);
        }
        Some("replay") => {
            let f = &a[2];
            let s = fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{}: {}", f, e)));
            let id = s.lines().find_map(|l| l.trim().strip_prefix("\"property\": \"").map(|x| x.trim_end_matches(|c| c == ',' || c == '"').to_string()));
            let p = find(&t, &id.unwrap_or_else(|| die("no property in the file")));
            let dir = root.join(format!(".build/tmp/replay-{}", std::process::id()));
            fs::create_dir_all(&dir).unwrap();
            let r = exec(p, &read_case(&s), true, &dir, (60.0, 600.0));
            let _ = fs::remove_dir_all(&dir);
            for l in r.log {
                println!("{}", l);
            }
            if let Some(h) = r.harness {
                die(&h);
            }
            match r.violation {
                Some(v) => {
                    println!("{}: {}", v.class, v.msg);
                    println!("VIOLATION property={} replay={}", p.id, f);
                    std::process::exit(1)
                }
                None => println!("held"),
            }
        }
        _ => die("usage: jsim check ID SEED TIER [RUNS] | one ID SEED IDX | replay FILE"),
    }
}
