//! The one source of randomness: a recorded choice sequence, in four lanes.
//! A run is a pure function of the lanes and of the code under test.

pub const W: usize = 0; // workload: programs, texts, file contents
pub const T: usize = 1; // trivia between tokens
pub const F: usize = 2; // faults and delays
pub const S: usize = 3; // schedule: who advances next
pub const NLANES: usize = 4;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &b in s {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, s.len() as u64)
}

#[derive(Clone)]
pub struct Lane {
    pub vals: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

#[derive(Clone)]
pub struct Ch {
    pub lanes: Vec<Lane>,
}

impl Ch {
    pub fn seeded(seed: u64) -> Ch {
        Ch {
            lanes: (0..NLANES)
                .map(|i| Lane { vals: vec![], pos: 0, rng: Some(Rng::new(mix(seed, i as u64 + 1))) })
                .collect(),
        }
    }
    pub fn replay(vals: Vec<Vec<u64>>) -> Ch {
        Ch { lanes: vals.into_iter().map(|v| Lane { vals: v, pos: 0, rng: None }).collect() }
    }
    pub fn recorded(&self) -> Vec<Vec<u64>> {
        self.lanes.iter().map(|l| l.vals[..l.pos.min(l.vals.len())].to_vec()).collect()
    }
    /// Uniform in 0..n. Exhausted replays give 0, the simplest choice everywhere.
    pub fn draw(&mut self, lane: usize, n: u64) -> u64 {
        let l = &mut self.lanes[lane];
        if n <= 1 {
            return 0;
        }
        let v = if l.pos < l.vals.len() {
            l.vals[l.pos] % n
        } else if let Some(r) = &mut l.rng {
            let v = r.next() % n;
            l.vals.push(v);
            mirror(lane, v);
            v
        } else {
            l.pos += 1;
            return 0;
        };
        l.pos += 1;
        v
    }
    /// True with probability num/den; 0 drawn (the simplest) means false.
    pub fn chance(&mut self, lane: usize, num: u64, den: u64) -> bool {
        let v = self.draw(lane, den);
        v >= den - num.min(den)
    }
    /// Index by weight. Index 0 is the simplest.
    pub fn weighted(&mut self, lane: usize, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut v = self.draw(lane, tot.max(1));
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        0
    }
    pub fn pick<'a, X>(&mut self, lane: usize, xs: &'a [X]) -> &'a X {
        let i = self.draw(lane, xs.len() as u64) as usize;
        &xs[i]
    }
}

// ---- mirror: the choices of a run that may kill its process --------------------

static MIRROR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

pub fn mirror_to(p: &std::path::Path) {
    use std::os::unix::io::IntoRawFd;
    if let Ok(f) = std::fs::File::create(p) {
        MIRROR.store(f.into_raw_fd(), std::sync::atomic::Ordering::SeqCst);
    }
}
fn mirror(lane: usize, v: u64) {
    let fd = MIRROR.load(std::sync::atomic::Ordering::Relaxed);
    if fd >= 0 {
        let mut b = [lane as u8; 9];
        b[1..].copy_from_slice(&v.to_le_bytes());
        unsafe {
            libc::syscall(libc::SYS_write, fd, b.as_ptr(), 9usize);
        }
    }
}
