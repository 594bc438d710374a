//! The seams below the library: clocks and file descriptor 1, replaced by
//! symbol interposition inside this process. Simulated only while a run is active.

use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static MONO: AtomicU64 = AtomicU64::new(0);
pub static REAL: AtomicI64 = AtomicI64::new(0);
pub static CPU: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static WRITE_DELAY: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static CAP: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

pub fn cap_push() {
    CAP.with(|c| c.borrow_mut().push(Vec::new()));
}
pub fn cap_pop() -> Vec<u8> {
    CAP.with(|c| c.borrow_mut().pop().unwrap_or_default())
}

unsafe fn set(ts: *mut libc::timespec, ns: i128) {
    (*ts).tv_sec = ns.div_euclid(1_000_000_000) as _;
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as _;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !ACTIVE.load(SeqCst) {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    }
    CLOCK_READS.fetch_add(1, SeqCst);
    let v: i128 = match clk {
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => MONO.load(SeqCst) as i128,
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => REAL.load(SeqCst) as i128,
        _ => CPU.load(SeqCst) as i128,
    };
    set(ts, v);
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> libc::c_int {
    if !ACTIVE.load(SeqCst) {
        return libc::syscall(libc::SYS_gettimeofday, tv, tz) as libc::c_int;
    }
    let v = REAL.load(SeqCst) as i128;
    (*tv).tv_sec = v.div_euclid(1_000_000_000) as _;
    (*tv).tv_usec = (v.rem_euclid(1_000_000_000) / 1000) as _;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let s = if ACTIVE.load(SeqCst) {
        (REAL.load(SeqCst) as i128).div_euclid(1_000_000_000) as libc::time_t
    } else {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_REALTIME, &mut ts);
        ts.tv_sec
    };
    if !t.is_null() {
        *t = s;
    }
    s
}

fn captured(data: &[u8]) -> bool {
    CAP.try_with(|c| match c.try_borrow_mut() {
        Ok(mut s) => match s.last_mut() {
            Some(b) => {
                b.extend_from_slice(data);
                true
            }
            None => false,
        },
        Err(_) => false,
    })
    .unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if fd == 1 && ACTIVE.load(SeqCst) && captured(std::slice::from_raw_parts(buf as *const u8, n)) {
        tick(WRITE_DELAY.load(SeqCst));
        return n as _;
    }
    let r = libc::syscall(libc::SYS_write, fd, buf, n);
    r as _
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    if fd == 1 && ACTIVE.load(SeqCst) {
        let v = std::slice::from_raw_parts(iov, n as usize);
        let mut all = vec![];
        for x in v {
            all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        if captured(&all) {
            tick(WRITE_DELAY.load(SeqCst));
            return all.len() as _;
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as _
}

pub fn tick(ns: u64) {
    MONO.fetch_add(ns, SeqCst);
    REAL.fetch_add(ns as i64, SeqCst);
    CPU.fetch_add(ns / 3, SeqCst);
}

/// Real time for the harness only, in seconds.
pub fn wall() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

pub fn out(s: &str) {
    unsafe {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let r = libc::syscall(libc::SYS_write, 1, b.as_ptr(), b.len());
            if r <= 0 {
                break;
            }
            b = &b[r as usize..];
        }
    }
}
