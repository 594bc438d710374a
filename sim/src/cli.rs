//! The shipped program, executed as its own process under the shim (cli/shim/shim.c):
//! every result libc gives it on the source, the standard streams, the clock and the heap
//! comes from a script drawn here, and what it did is judged from the log it leaves.

use crate::choice::{hash_bytes, mix, Ch, F, W};
use crate::gen;
use crate::inter;
use crate::model;
use crate::props::*;
use crate::text::*;
use std::cell::RefCell;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;

const NOPS: usize = 512;
const NLOG: usize = 8192;
const NOUT: usize = 8192;

const PASS: u32 = 0;
const SHORT: u32 = 1;
const FAIL: u32 = 2;
const ZERO: u32 = 3;

const OPEN: u8 = 1;
const STAT: u8 = 2;
const SEEK: u8 = 3;
const READ: u8 = 4;
const WRITE1: u8 = 5;
const WRITE2: u8 = 6;
const ALLOC: u8 = 7;
const CLOCK: u8 = 8;

#[repr(C)]
#[derive(Clone, Copy)]
struct Op {
    kind: u32,
    arg: u32,
}
#[repr(C)]
struct Seq {
    n: u32,
    rest: Op,
    op: [Op; NOPS],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Log {
    call: u8,
    fired: u8,
    pad: [u8; 2],
    fd: i32,
    arg: i64,
    ret: i64,
    err: i32,
    pad2: u32,
}
#[repr(C)]
struct Script {
    magic: u64,
    path: [u8; 512],
    open: Seq,
    stat: Seq,
    seek: Seq,
    read: Seq,
    w1: Seq,
    w2: Seq,
    size: i64,
    alloc_min: u64,
    alloc_skip: u32,
    alloc_once: u32,
    clock_start: u64,
    nclock: u32,
    mode: u32,
    clock: [u64; 64],
    io_delay: u64,
    rt_jump: i64,
    cap: u32,
    calls: u32,
    runaway: u32,
    opened: u32,
    nlog: u32,
    skipped: u32,
    delivered: u64,
    log: [Log; NLOG],
    nout: [u32; 2],
    out: [[u8; NOUT]; 2],
}

impl Seq {
    fn clear(&mut self) {
        self.n = 0;
        self.rest = Op { kind: PASS, arg: 0 };
    }
    fn push(&mut self, kind: u32, arg: u32) {
        if (self.n as usize) < NOPS {
            self.op[self.n as usize] = Op { kind, arg };
            self.n += 1;
        }
    }
}

struct Bench {
    script: *mut Script,
    script_path: PathBuf,
    /// the directory the program runs in
    home: PathBuf,
    cli: PathBuf,
    shim: PathBuf,
}

thread_local! {
    static BENCH: RefCell<Option<Bench>> = const { RefCell::new(None) };
}

fn bench<T>(f: impl FnOnce(&Bench) -> T) -> T {
    BENCH.with(|b| {
        let mut b = b.borrow_mut();
        let b = b.get_or_insert_with(|| {
            let dir = PathBuf::from(std::env::var("JSIM_SCRATCH").expect("JSIM_SCRATCH"));
            let var = |n: &str, d: &str| PathBuf::from(std::env::var(n).unwrap_or_else(|_| d.to_string()));
            let pid = std::process::id();
            let script_path = dir.join(format!("script-{}", pid));
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&script_path).expect("script file");
            let len = std::mem::size_of::<Script>();
            f.set_len(len as u64).expect("script size");
            let m = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
            assert!(m != libc::MAP_FAILED, "mmap");
            Bench {
                script: m as *mut Script,
                script_path,
                home: {
                    let h = dir.join(format!("home-{}", pid));
                    std::fs::create_dir_all(&h).expect("directory");
                    h
                },
                cli: var("JSIM_CLI", "/verif/.build/cli/debug/jsparse"),
                shim: var("JSIM_SHIM", "/verif/.build/shim.so"),
            }
        });
        f(b)
    })
}

/// Removes what this process put into the scratch directory.
pub fn cleanup() {
    BENCH.with(|b| {
        if let Some(b) = b.borrow_mut().take() {
            let _ = std::fs::remove_file(&b.script_path);
            let _ = std::fs::remove_dir_all(&b.home);
        }
    })
}

/// What the file is called and how the program is told.
#[derive(Clone)]
struct Place {
    file: Vec<u8>,
    /// what stands before the name in the argument; `None`: the absolute path
    lead: Option<&'static str>,
    /// the name is a symbolic link to where the content is
    link: bool,
}

fn place(ch: &mut Ch, cx: &mut Ctx) -> Place {
    let mut p = Place { file: b"source.js".to_vec(), lead: None, link: false };
    if !ch.chance(F, 1, 3) {
        return p;
    }
    let name: &[u8] = match ch.draw(F, 6) {
        0 => b"source.js",
        1 => ch.pick(F, &[&b"a b  c.js"[..], b"it's \"quoted\" $HOME `x` *?.js", b"tab\there\nnewline", b"semi;colon&amp", b"back\\slash", b"%s%n%d", b" ", b"{}", b"~"]),
        2 => ch.pick(F, &[&"caf\u{e9}-\u{1f600}.js"[..], "\u{feff}x.js", "\u{202e}sj.x", "\u{fffd}.js", "e\u{301}.js"]).as_bytes(),
        3 => ch.pick(F, &[&b"\xff.js"[..], b"caf\xe9.js", b"\xc3", b"x\xed\xa0\x80y", b"\xf0\x9f\x98"]),
        4 => ch.pick(F, &[&b"x"[..], b"x.mjs", b"x.JS", b"x.json", b"x.ts", b".js", b".hidden", b"x.js.gz", b"x.", b"...", b"index.html", b"0", b"null", b"true"]),
        _ => ch.pick(F, &[&b"-"[..], b"--", b"-h", b"--help", b"--version", b"-e", b"-x.js", b"@x.js", b"+x", b"/dev/stdin"]),
    };
    p.file = name.iter().copied().filter(|&c| c != b'/').collect();
    if ch.chance(F, 1, 8) {
        // as long as a name can be
        while p.file.len() < 250 {
            p.file.push(b'n');
        }
    }
    p.lead = *ch.pick(F, &[None, Some(""), Some(""), Some("./"), Some("../HOME/"), Some("././/"), Some(".//./")]);
    p.link = ch.chance(F, 1, 4);
    cx.hit(if std::str::from_utf8(&p.file).is_err() {
        "file name: not UTF-8"
    } else if p.file.starts_with(b"-") && p.lead == Some("") {
        "file name: begins like an option"
    } else {
        "file name: unusual"
    });
    if p.link {
        cx.hit("file name: a symbolic link");
    }
    p
}

enum Arg {
    File(Vec<u8>, Place),
    /// nothing is there
    Missing,
    /// the scratch directory
    Dir,
    /// no argument at all
    None,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: usize,
    log: Vec<Log>,
    lost: usize,
    delivered: i64,
    runaway: bool,
}

fn name(c: u8) -> &'static str {
    match c {
        OPEN => "open",
        STAT => "stat",
        SEEK => "seek",
        READ => "read",
        WRITE1 => "write stdout",
        WRITE2 => "write stderr",
        ALLOC => "alloc",
        CLOCK => "clock",
        _ => "close",
    }
}

fn ran(arg: &Arg, set: impl FnOnce(&mut Script), cx: &mut Ctx) -> Ran {
    inter::ACTIVE.store(false, SeqCst);
    bench(|b| {
        let s = unsafe { &mut *b.script };
        s.magic = 0x4a53_494d_5349_4d31;
        for q in [&mut s.open, &mut s.stat, &mut s.seek, &mut s.read, &mut s.w1, &mut s.w2] {
            q.clear();
        }
        s.size = -1;
        s.alloc_min = 0;
        s.alloc_skip = 0;
        s.alloc_once = 0;
        s.clock_start = 5_000_000_000;
        s.nclock = 0;
        s.io_delay = 0;
        s.mode = 0;
        s.rt_jump = 0;
        // a reader may take the content byte by byte
        let len = match arg {
            Arg::File(c, _) => c.len(),
            _ => 0,
        };
        s.cap = 7000 + (2 * len).min(400_000) as u32 + (len / 16) as u32;
        s.calls = 0;
        s.runaway = 0;
        s.opened = 0;
        s.nlog = 0;
        s.skipped = 0;
        s.delivered = 0;
        s.nout = [0, 0];
        use std::os::unix::ffi::{OsStrExt, OsStringExt};
        let plain = b.home.join("source.js");
        let mut made = vec![];
        let given: Option<Vec<u8>> = match arg {
            Arg::File(c, pl) => {
                let at = b.home.join(std::ffi::OsString::from_vec(pl.file.clone()));
                if pl.link {
                    let data = b.home.join("the content");
                    std::fs::write(&data, c).expect("source file");
                    let _ = std::fs::remove_file(&at);
                    std::os::unix::fs::symlink("the content", &at).expect("link");
                    made.push(data);
                } else {
                    std::fs::write(&at, c).expect("source file");
                }
                made.push(at.clone());
                Some(match pl.lead {
                    None => at.as_os_str().as_bytes().to_vec(),
                    Some(l) => {
                        let home = b.home.file_name().unwrap().to_str().unwrap();
                        let mut v = l.replace("HOME", home).into_bytes();
                        v.extend_from_slice(&pl.file);
                        v
                    }
                })
            }
            Arg::Missing => Some(plain.as_os_str().as_bytes().to_vec()),
            Arg::Dir => Some(b.home.as_os_str().as_bytes().to_vec()),
            Arg::None => None,
        };
        s.path = [0; 512];
        if let Some(p) = &given {
            s.path[..p.len()].copy_from_slice(p);
        }
        set(s);
        let mut cmd = Command::new(&b.cli);
        cmd.env_clear().env("LD_PRELOAD", &b.shim).env("JSIM_SCRIPT", &b.script_path);
        if let Some(p) = &given {
            cmd.arg(std::ffi::OsStr::from_bytes(p));
        }
        cmd.current_dir(&b.home);
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        if let (Some(p), true) = (&given, cx.verbose) {
            let home = b.home.to_string_lossy().to_string();
            cx.log.push(format!("argument {:?}", std::ffi::OsStr::from_bytes(p)).replace(&home, "HOME"));
        }
        let st = cmd.status().expect("cannot start the program");
        for m in made {
            let _ = std::fs::remove_file(m);
        }
        let k = s.nlog as usize;
        let r = Ran {
            code: st.code(),
            signal: st.signal(),
            out: s.out[0][..s.nout[0] as usize].to_vec(),
            err: s.nout[1] as usize,
            log: s.log[..k.min(NLOG)].to_vec(),
            lost: k.saturating_sub(NLOG) + s.skipped as usize,
            delivered: s.delivered as i64,
            runaway: s.runaway != 0,
        };
        if r.code == Some(98) {
            cx.harness_error = Some("the shim could not use its script".into());
        }
        if r.code == Some(0) && k == 0 {
            cx.harness_error = Some("the shim saw no call".into());
        }
        cx.mix(st.code().unwrap_or(-1) as u64);
        cx.mix(st.signal().unwrap_or(0) as u64);
        cx.mix(hash_bytes(&r.out));
        let mut h = 0u64;
        for l in &r.log {
            // the number of clock readings and the sizes asked for are the program's business, but deterministic
            h = mix(h, (l.call as u64) << 56 ^ (l.ret as u64) << 8 ^ l.fired as u64);
        }
        cx.mix(h);
        cx.add("system calls", s.calls as u64);
        let first = r.log.iter().find(|l| l.call == CLOCK).map(|l| (l.ret - l.arg) as u64);
        let last = r.log.iter().rev().find(|l| l.call == CLOCK).map(|l| l.ret as u64);
        cx.sim_ns += last.unwrap_or(0).saturating_sub(first.unwrap_or(0));
        cx.add("process executions", 1);
        if cx.verbose {
            let mut prev = String::new();
            let mut rep = 0;
            let mut lines = vec![];
            for l in &r.log {
                let t = format!("  {}({}) -> {}{}{}", name(l.call), l.arg, l.ret, if l.err != 0 { format!(" errno {}", l.err) } else { String::new() }, if l.fired != 0 { " [scripted]" } else { "" });
                if t == prev {
                    rep += 1;
                } else {
                    if rep > 0 {
                        lines.push(format!("    repeated {} times", rep));
                    }
                    rep = 0;
                    lines.push(t.clone());
                    prev = t;
                }
            }
            cx.log.extend(lines);
            cx.log.push(format!("status {:?} signal {:?}, stdout {:?}, {} bytes on stderr", r.code, r.signal, String::from_utf8_lossy(&r.out), r.err));
        }
        r
    })
}

// ---- workload ----------------------------------------------------------------------

struct Content {
    bytes: Vec<u8>,
    what: &'static str,
}

/// What a file holds: valid, cut off, damaged, tiny or large programs.
fn content(ch: &mut Ch, utf8_only_large: bool) -> Content {
    let kind = ch.weighted(W, &[30, 12, 12, 4, 14]);
    if kind == 3 {
        let s = *ch.pick(W, &["", ";", " ", "\u{feff}", "\u{feff};", "//", "/*", "/**/", "a", "'", "\u{2028}", "1", "{", "é", "// é", "#!x"]);
        return Content { bytes: s.into(), what: "tiny" };
    }
    let pf = gen::profile(ch, 40);
    let mut toks = gen::program(ch, pf);
    let st = style(ch);
    let mut what = "valid";
    if kind == 2 {
        model::damage(ch, &mut toks);
        what = "damaged";
    }
    let gaps = if ch.chance(W, 1, 2) { plain_gaps(&toks) } else { burst_gaps(ch, &toks, st) };
    let lay = layout(&toks, &gaps);
    let mut t = lay.text;
    if ch.chance(W, 1, 8) {
        t.insert(0, '\u{feff}');
    }
    if ch.chance(W, 1, 12) {
        // what some tools strip or stop at is content like any other
        what = "odd ends";
        if ch.chance(W, 1, 3) {
            t.insert_str(0, *ch.pick(W, &["#!/usr/bin/env node\n", "#!", "\0", "\u{feff}\u{feff}", "\u{fffd}", "\u{200b}", "\u{1a}", "\\\n", "<!--\n", "\r"]));
        } else {
            t.push_str(*ch.pick(W, &["\0", "\0\0\0\0", "\u{1a}", "\n\u{1a}\n", "\u{4}", "\u{7f}", "\u{85}", "\u{200b}", "\u{feff}", "\u{fffd}", "\\", "\n-->", "\r", "\u{2028}", "\n#"]));
        }
    }
    if kind == 1 {
        what = "cut";
        let mut at = ch.draw(W, t.len() as u64 + 1) as usize;
        while !t.is_char_boundary(at) {
            at += 1;
        }
        t.truncate(at);
    }
    if kind == 4 {
        what = "large";
        // several times the buffers in between; what decides the verdict may be at the very end
        let unit = *ch.pick(W, &[";a=b/1;", "/*é✓😀*/f(`x`);\n", ";{let q='é😀'}", ";[1,2,{a:3}];\n"]);
        let huge = ch.chance(W, 1, 60);
        let size = if huge {
            // past the round sizes something might stop at
            what = "huge";
            (1usize << (20 + ch.draw(W, 6))) + ch.draw(W, 1 << 19) as usize
        } else if utf8_only_large || ch.chance(W, 1, 8) { (200_000 + ch.draw(W, 300_000)) as usize } else { (8_000 + ch.draw(W, 60_000)) as usize };
        let mut s = String::with_capacity(size + 4096);
        let head = if huge { 1 } else { ch.draw(W, 4) };
        if head == 1 {
            s.push_str("/*");
        }
        if head == 2 {
            s.push_str("(function(){");
        }
        // the generated program comes first, or last
        if head == 0 {
            s.push_str(&t);
            s.push('\n');
        }
        while s.len() < size {
            if head == 1 {
                s.push_str("abc é✓ 😀 ** \n");
            } else {
                s.push_str(unit);
            }
        }
        match head {
            1 => s.push_str(if ch.chance(W, 1, 2) { "*/" } else { "*" }),
            2 => s.push_str(*ch.pick(W, &["});", "}", "}));", "})", "}}"])),
            3 => {
                s.push_str(";\n");
                s.push_str(&t);
            }
            _ => s.push_str(*ch.pick(W, &["", ";", ";)", ";'", ";a b", ";a", "/*", "//"])),
        }
        t = s;
    }
    Content { bytes: t.into_bytes(), what }
}

/// What the library says about the whole content.
fn library_accepts(text: &str) -> bool {
    inter::ACTIVE.store(true, SeqCst);
    inter::cap_push();
    let r = std::panic::catch_unwind(|| {
        let _: () = jsparse::parser::parse_root(text);
    });
    inter::cap_pop();
    inter::ACTIVE.store(false, SeqCst);
    r.is_ok()
}

fn benign_reads(ch: &mut Ch, q: &mut Seq, len: usize, cx: &mut Ctx) -> u32 {
    // at most about 2500 reads in all
    let least = (len / 1200 + 1) as u64;
    let mut n = 0;
    match ch.draw(F, 6) {
        0 => {}
        1 => {
            let k = least + ch.draw(F, 3);
            q.rest = Op { kind: SHORT, arg: k as u32 };
            cx.hit("fault: every read short");
        }
        2 => {
            let k = least.max(1 + ch.draw(F, 64));
            q.rest = Op { kind: SHORT, arg: k as u32 };
            cx.hit("fault: every read short");
        }
        _ => {
            let m = 1 + ch.draw(F, 40);
            for _ in 0..m {
                match ch.draw(F, 4) {
                    0 => q.push(PASS, 0),
                    1 => {
                        q.push(FAIL, libc::EINTR as u32);
                        n += 1;
                    }
                    2 => q.push(SHORT, 1 + ch.draw(F, 8) as u32),
                    _ => q.push(SHORT, 1 + ch.draw(F, 9000) as u32),
                }
            }
        }
    }
    if ch.chance(F, 1, 6) {
        // a storm of interruptions, then peace
        let at = ch.draw(F, q.n as u64 + 1) as usize;
        let k = 1 + ch.draw(F, 60) as usize;
        for _ in 0..k {
            if (q.n as usize) < NOPS {
                let e = q.n as usize;
                q.op.copy_within(at..e, at + 1);
                q.op[at] = Op { kind: FAIL, arg: libc::EINTR as u32 };
                q.n += 1;
                n += 1;
            }
        }
    }
    n
}

fn size_lie(ch: &mut Ch, s: &mut Script, len: usize) {
    if ch.chance(F, 1, 2) {
        let len = len as i64;
        s.size = *ch.pick(F, &[len, 0, 1, len / 2, (len - 1).max(0), len + 1, 2 * len + 7, len + 8192, 1 << 20, 48 << 20]);
    }
    if ch.chance(F, 1, 12) {
        // a pipe, a terminal or a socket, which have neither size nor position
        s.mode = *ch.pick(F, &[libc::S_IFIFO, libc::S_IFCHR, libc::S_IFSOCK, libc::S_IFBLK]);
        s.size = 0;
        s.seek.rest = Op { kind: FAIL, arg: libc::ESPIPE as u32 };
    }
}

fn benign_rest(ch: &mut Ch, s: &mut Script) {
    if ch.chance(F, 1, 6) {
        for _ in 0..1 + ch.draw(F, 4) {
            s.open.push(FAIL, libc::EINTR as u32);
        }
    }
    if ch.chance(F, 1, 6) {
        s.stat.rest = Op { kind: FAIL, arg: *ch.pick(F, &[libc::EIO, libc::ENOSYS, libc::EOVERFLOW, libc::EACCES]) as u32 };
    }
    if ch.chance(F, 1, 6) {
        s.seek.rest = Op { kind: FAIL, arg: *ch.pick(F, &[libc::ESPIPE, libc::EINVAL, libc::EIO]) as u32 };
    }
    clocks(ch, s);
}

fn clocks(ch: &mut Ch, s: &mut Script) {
    if ch.chance(F, 1, 3) {
        s.clock_start = *ch.pick(F, &[5_000_000_000u64, 0, 1, 999_999_999, 1 << 60]);
        let unit = *ch.pick(F, &[1u64, 1_000, 1_000_000, 1_000_000_000, 86_400_000_000_000]);
        s.nclock = 1 + ch.draw(F, 6) as u32;
        for i in 0..s.nclock as usize {
            s.clock[i] = unit * ch.draw(F, 1000) / 7;
        }
        if ch.chance(F, 1, 2) {
            s.io_delay = unit * ch.draw(F, 100);
        }
        if ch.chance(F, 1, 2) {
            // the wall clock is set, forward or back, while the program runs
            s.rt_jump = (unit * (1 + ch.draw(F, 1000))) as i64 * if ch.chance(F, 1, 2) { -1 } else { 1 };
        }
    }
}

fn note_fired(r: &Ran, cx: &mut Ctx) -> u64 {
    let mut n = 0;
    for l in &r.log {
        if l.fired == 0 {
            continue;
        }
        n += 1;
        let what = match (l.call, l.err) {
            (CLOCK, _) => "clock advanced".to_string(),
            (STAT, 0) => "wrong file size or type".to_string(),
            (ALLOC, _) => "allocation refused".to_string(),
            (c, 0) if l.ret == 0 => format!("{} gives 0", name(c)),
            (c, 0) => format!("{} short", name(c)),
            (c, e) if e == libc::EINTR => format!("{} interrupted", name(c)),
            (c, e) => format!("{} fails with errno {}", name(c), e),
        };
        cx.hit(&format!("fault: {}", what));
    }
    n
}

fn sched_hash(r: &Ran) -> u64 {
    let mut h = 3;
    for l in &r.log {
        if l.call != CLOCK {
            h = mix(h, (l.call as u64) << 40 ^ (l.fired as u64) << 32 ^ (l.err as u32 as u64) ^ (l.ret as u64) << 8);
        }
    }
    h
}

// ---- judging ----------------------------------------------------------------------

/// The report, as far as it came: `Ok(true)` complete, `Ok(false)` a proper prefix.
fn report(out: &[u8]) -> Result<bool, String> {
    let show = || String::from_utf8_lossy(out).to_string();
    let a: &[u8] = b"starting\n";
    let b: &[u8] = b"Total parsing time: ";
    let n = out.len().min(a.len());
    if out[..n] != a[..n] {
        return Err(format!("standard output begins with {:?}", show()));
    }
    if out.len() <= a.len() {
        return Ok(false);
    }
    let t = &out[a.len()..];
    let n = t.len().min(b.len());
    if t[..n] != b[..n] {
        return Err(format!("standard output is {:?}", show()));
    }
    if t.len() <= b.len() {
        return Ok(false);
    }
    let t = &t[b.len()..];
    match t.iter().position(|&c| c == b'\n') {
        None => {
            let s = String::from_utf8_lossy(t).to_string();
            let num = s.trim_end_matches(|c| c == 'm' || c == 's');
            if num.bytes().all(|c| c.is_ascii_digit() || matches!(c, b'.' | b'e' | b'E' | b'-' | b'+')) {
                Ok(false)
            } else {
                Err(format!("standard output is {:?}", show()))
            }
        }
        Some(e) => {
            let s = String::from_utf8_lossy(&t[..e]).to_string();
            let v = s.strip_suffix("ms").and_then(|x| x.parse::<f64>().ok());
            if e + 1 != t.len() || !v.map_or(false, |v| v.is_finite() && v >= 0.0) {
                return Err(format!("standard output is {:?}", show()));
            }
            Ok(true)
        }
    }
}

fn value(out: &[u8]) -> f64 {
    let s = String::from_utf8_lossy(out).to_string();
    s.lines().nth(1).and_then(|l| l.strip_prefix("Total parsing time: ")).and_then(|x| x.strip_suffix("ms")).and_then(|x| x.parse().ok()).unwrap_or(-1.0)
}

fn has_total(out: &[u8]) -> bool {
    String::from_utf8_lossy(out).contains("Total")
}

fn ended(r: &Ran, id: &str) -> R {
    if r.runaway {
        return bad(&format!("{}:runaway", id), "the program goes on making system calls without end".to_string());
    }
    match r.signal {
        Some(libc::SIGXCPU) | Some(libc::SIGKILL) | Some(libc::SIGALRM) => bad(&format!("{}:hang", id), "the program does not end".to_string()),
        Some(s) if matches!(s, libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE) => bad(&format!("{}:crash", id), format!("the program died of signal {}", s)),
        _ => Ok(()),
    }
}

fn data_reads(r: &Ran) -> (i64, bool) {
    let failed = r.log.iter().any(|l| l.call == READ && l.ret < 0 && l.err != libc::EINTR);
    (r.delivered, failed)
}

fn show_content(c: &[u8]) -> String {
    let s = String::from_utf8_lossy(c).to_string();
    if s.chars().count() <= 300 {
        format!("{:?}", s)
    } else {
        let a: String = s.chars().take(120).collect();
        let mut b: Vec<char> = s.chars().rev().take(120).collect();
        b.reverse();
        format!("{:?} ... {} bytes ... {:?}", a, c.len(), b.into_iter().collect::<String>())
    }
}

// ---- C01 -------------------------------------------------------------------------

pub fn c01(ch: &mut Ch, cx: &mut Ctx) -> R {
    let c = content(ch, false);
    let text = String::from_utf8(c.bytes.clone()).unwrap();
    let ok = library_accepts(&text);
    cx.hit(&format!("content: {}, {}", c.what, if ok { "accepted" } else { "rejected" }));
    cx.say(|| format!("content: {}; the library {} it", show_content(&c.bytes), if ok { "accepts" } else { "rejects" }));
    let len = c.bytes.len();
    let case = hash_bytes(&c.bytes);
    let arg = Arg::File(c.bytes, place(ch, cx));
    let mut cc = std::mem::take(cx);
    let mut extra = Ctx::default();
    let r = ran(
        &arg,
        |s| {
            benign_reads(ch, &mut s.read, len, &mut extra);
            size_lie(ch, s, len);
            benign_rest(ch, s);
        },
        &mut cc,
    );
    *cx = cc;
    for (k, v) in extra.counts {
        cx.add(&k, v);
    }
    let fired = note_fired(&r, cx);
    cx.case_hash = mix(case, sched_hash(&r));
    cx.sched_hash = sched_hash(&r);
    cx.nontrivial = fired > 0;
    let (got, _) = data_reads(&r);
    cx.add("source bytes delivered", got as u64);
    if cx.harness_error.is_some() {
        return Ok(());
    }
    ended(&r, "C01")?;
    if (r.code == Some(0)) != ok {
        return bad(
            "C01:verdict",
            format!("the library {} the content, the program ended with {:?}/{:?} after {} of {} bytes were delivered", if ok { "accepts" } else { "rejects" }, r.code, r.signal, got, len),
        );
    }
    match report(&r.out) {
        Err(e) => return bad("C01:report", e),
        Ok(full) => {
            if full != ok {
                return bad("C01:report", format!("source {}, but standard output is {:?}", if ok { "accepted" } else { "rejected" }, String::from_utf8_lossy(&r.out)));
            }
        }
    }
    if ok && r.lost == 0 {
        // the report cannot count more time than passed
        let first = r.log.iter().find(|l| l.call == CLOCK).map(|l| l.ret);
        let last = r.log.iter().rev().find(|l| l.call == CLOCK).map(|l| l.ret);
        if let (Some(a), Some(b)) = (first, last) {
            let max = (b - a) as f64 / 1e6;
            let v = value(&r.out);
            if v > max + 1.5e-6 + max * 1e-12 {
                return bad("C01:time", format!("{} ms reported, {} ms passed", v, max));
            }
        }
    }
    Ok(())
}

// ---- C02 -------------------------------------------------------------------------

const READ_ERRS: [i32; 8] = [libc::EIO, libc::EAGAIN, libc::EISDIR, libc::EINVAL, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT, libc::EOVERFLOW];
const OPEN_ERRS: [i32; 9] = [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EIO, libc::ELOOP, libc::ETXTBSY, libc::EAGAIN];

pub fn c02(ch: &mut Ch, cx: &mut Ctx) -> R {
    let mode = ch.weighted(F, &[10, 40, 25, 15, 3, 3, 2]);
    let mut big = false;
    if mode == 3 {
        big = ch.chance(W, 1, 3);
    }
    let mut c = content(ch, big);
    let mut must = true; // must fail
    let mut how = "open fails";
    let arg;
    let len0 = c.bytes.len();
    match mode {
        2 => {
            how = "invalid UTF-8";
            let seq: &[u8] = *ch.pick(W, &[&b"\xff"[..], b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe9", b"\xfe\xff"]);
            // in place of nothing at a character boundary, so that nothing around it completes it
            let at = match ch.draw(W, 4) {
                0 => c.bytes.len(),
                1 => 0,
                2 => {
                    // inside a comment of its own: text that no token depends on
                    let mut at = c.bytes.len();
                    if ch.chance(W, 1, 2) {
                        at = 0;
                    }
                    let open: &[u8] = if at == 0 { b"/*" } else { b"\n/*" };
                    let mut w = open.to_vec();
                    w.extend_from_slice(b"*/");
                    let k = w.len() - 2;
                    for (i, b) in w.iter().enumerate() {
                        c.bytes.insert(at + i, *b);
                    }
                    at + k
                }
                _ => {
                    let mut at = ch.draw(W, c.bytes.len() as u64 + 1) as usize;
                    while at < c.bytes.len() && (c.bytes[at] & 0xc0) == 0x80 {
                        at += 1;
                    }
                    at
                }
            };
            let tail = c.bytes.split_off(at);
            c.bytes.extend_from_slice(seq);
            c.bytes.extend_from_slice(&tail);
            must = std::str::from_utf8(&c.bytes).is_err();
            arg = Arg::File(c.bytes.clone(), place(ch, cx));
        }
        4 => {
            how = "nothing there";
            arg = Arg::Missing;
        }
        5 => {
            how = "a directory";
            arg = Arg::Dir;
        }
        6 => {
            how = "no argument";
            arg = Arg::None;
        }
        _ => arg = Arg::File(c.bytes.clone(), place(ch, cx)),
    }
    let len = c.bytes.len();
    if mode == 1 {
        how = "read fails";
    }
    if mode == 3 {
        how = "no memory";
    }
    let mut extra = Ctx::default();
    let mut cc = std::mem::take(cx);
    let r = ran(
        &arg,
        |s| {
            match mode {
                0 => {
                    let e = *ch.pick(F, &OPEN_ERRS) as u32;
                    for _ in 0..ch.draw(F, 3) {
                        s.open.push(FAIL, libc::EINTR as u32);
                    }
                    if ch.chance(F, 1, 2) {
                        s.open.push(FAIL, e);
                    } else {
                        s.open.rest = Op { kind: FAIL, arg: e };
                    }
                    clocks(ch, s);
                }
                1 => {
                    // good reads first, then the failure: at any read, also the one that would report the end
                    benign_reads(ch, &mut s.read, len, &mut extra);
                    let e = *ch.pick(F, &READ_ERRS) as u32;
                    let sticky = ch.chance(F, 1, 2);
                    let rest = s.read.rest;
                    let at = match ch.draw(F, 3) {
                        0 => ch.draw(F, 4) as usize,
                        1 => ch.draw(F, 12) as usize,
                        _ => ch.draw(F, (s.read.n as u64).max(1) + 1) as usize,
                    };
                    while (s.read.n as usize) < at {
                        s.read.push(rest.kind, rest.arg);
                    }
                    s.read.n = s.read.n.min(at as u32);
                    s.read.push(FAIL, e);
                    if sticky {
                        s.read.rest = Op { kind: FAIL, arg: e };
                    }
                    size_lie(ch, s, len);
                    clocks(ch, s);
                }
                2 => {
                    benign_reads(ch, &mut s.read, len, &mut extra);
                    size_lie(ch, s, len);
                    benign_rest(ch, s);
                }
                3 => {
                    s.alloc_min = *ch.pick(F, &[(len0 as u64 / 2).max(64), 4096, 65_536, (len0 as u64).max(64), 512]);
                    s.alloc_skip = ch.draw(F, 4) as u32;
                    s.alloc_once = ch.draw(F, 2) as u32;
                    benign_reads(ch, &mut s.read, len, &mut extra);
                    size_lie(ch, s, len);
                }
                _ => clocks(ch, s),
            }
        },
        &mut cc,
    );
    *cx = cc;
    for (k, v) in extra.counts {
        cx.add(&k, v);
    }
    note_fired(&r, cx);
    cx.say(|| format!("content: {}; {}", show_content(&c.bytes), how));
    cx.case_hash = mix(hash_bytes(&c.bytes), sched_hash(&r));
    cx.sched_hash = sched_hash(&r);
    let (got, rfail) = data_reads(&r);
    let ofail = r.log.iter().any(|l| l.call == OPEN && l.fired != 0 && l.err != libc::EINTR);
    let refused = r.log.iter().any(|l| l.call == ALLOC);
    // did it reach the program?
    let hit = match mode {
        0 => ofail,
        1 => rfail,
        3 => refused && (got as usize) < len,
        2 => must,
        _ => true,
    };
    cx.hit(&format!("{}: {}", how, if hit { "reached the program" } else { "not reached" }));
    cx.nontrivial = hit;
    if cx.harness_error.is_some() {
        return Ok(());
    }
    ended(&r, "C02")?;
    if hit {
        if r.code == Some(0) {
            return bad("C02:success", format!("{}, and the program ended with status 0; {} of {} bytes were delivered", how, got, len));
        }
        if has_total(&r.out) {
            return bad("C02:report", format!("{}, and the program printed {:?}", how, String::from_utf8_lossy(&r.out)));
        }
    } else if r.code == Some(0) {
        // nothing was withheld, so success is fine, if the report says so
        if mode == 3 && report(&r.out) != Ok(true) {
            return bad("C02:report", format!("status 0 with standard output {:?}", String::from_utf8_lossy(&r.out)));
        }
    }
    Ok(())
}

// ---- C03 -------------------------------------------------------------------------

const WRITE_ERRS: [i32; 7] = [libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EFBIG, libc::ECONNRESET, libc::EDQUOT];

fn writes(ch: &mut Ch, q: &mut Seq, storm: bool) {
    let e = *ch.pick(F, &WRITE_ERRS) as u32;
    match ch.draw(F, 7) {
        0 => q.rest = Op { kind: SHORT, arg: 1 + ch.draw(F, 12) as u32 },
        1 => q.rest = Op { kind: FAIL, arg: e },
        2 => {
            // after some good ones
            for _ in 0..ch.draw(F, 30) {
                if ch.chance(F, 1, 4) {
                    q.push(FAIL, libc::EINTR as u32);
                } else {
                    q.push(SHORT, 1 + ch.draw(F, 10) as u32);
                }
            }
            q.push(FAIL, e);
            if ch.chance(F, 2, 3) {
                q.rest = Op { kind: FAIL, arg: e };
            }
        }
        3 => {
            for _ in 0..ch.draw(F, 6) {
                q.push(SHORT, 1 + ch.draw(F, 20) as u32);
            }
            q.push(ZERO, 0);
            if ch.chance(F, 1, 2) {
                q.rest = Op { kind: ZERO, arg: 0 };
            }
        }
        4 => {
            // whole lines pass, a later one is refused
            for _ in 0..ch.draw(F, 4) {
                q.push(PASS, 0);
            }
            q.rest = Op { kind: FAIL, arg: e };
        }
        _ => {
            for _ in 0..1 + ch.draw(F, if storm { 60 } else { 12 }) {
                match ch.draw(F, 3) {
                    0 => q.push(PASS, 0),
                    1 => q.push(FAIL, libc::EINTR as u32),
                    _ => q.push(SHORT, 1 + ch.draw(F, 16) as u32),
                }
            }
        }
    }
}

pub fn c03(ch: &mut Ch, cx: &mut Ctx) -> R {
    let c = content(ch, false);
    let text = String::from_utf8(c.bytes.clone()).unwrap();
    let ok = library_accepts(&text);
    cx.hit(if ok { "source accepted" } else { "source rejected" });
    cx.say(|| format!("content: {}; the library {} it", show_content(&c.bytes), if ok { "accepts" } else { "rejects" }));
    let case = hash_bytes(&c.bytes);
    let arg = Arg::File(c.bytes, place(ch, cx));
    let mut cc = std::mem::take(cx);
    let r = ran(
        &arg,
        |s| {
            let w = ch.draw(F, 8);
            if w < 7 {
                writes(ch, &mut s.w1, true);
            }
            if w >= 5 {
                writes(ch, &mut s.w2, true);
            }
            clocks(ch, s);
        },
        &mut cc,
    );
    *cx = cc;
    let fired = note_fired(&r, cx);
    cx.case_hash = mix(case, sched_hash(&r));
    cx.sched_hash = sched_hash(&r);
    cx.nontrivial = fired > 0;
    if cx.harness_error.is_some() {
        return Ok(());
    }
    ended(&r, "C03")?;
    let full = match report(&r.out) {
        Err(e) => return bad("C03:report", e),
        Ok(f) => f,
    };
    // anything but success or an interruption, on a call that had data
    let refused = r.log.iter().any(|l| l.call == WRITE1 && l.arg > 0 && ((l.ret < 0 && l.err != libc::EINTR) || l.ret == 0));
    cx.hit(if refused { "standard output refused data" } else { "standard output took everything" });
    if r.code == Some(0) {
        if !ok {
            return bad("C03:success", "status 0 for a source that is not accepted".to_string());
        }
        if !full {
            return bad("C03:incomplete", format!("status 0 with standard output {:?}", String::from_utf8_lossy(&r.out)));
        }
        if refused {
            return bad("C03:refused", format!("standard output refused data, yet the status is 0; it got {:?}", String::from_utf8_lossy(&r.out)));
        }
    } else {
        if !ok && has_total(&r.out) {
            return bad("C03:completion", format!("a source that is not accepted, and standard output {:?}", String::from_utf8_lossy(&r.out)));
        }
        if ok && !refused {
            return bad("C03:failure", format!("an accepted source, every byte written, and the program ended with {:?}/{:?}; standard output {:?}", r.code, r.signal, String::from_utf8_lossy(&r.out)));
        }
    }
    Ok(())
}
