//! Random numbers, failures, per-case context.
use std::collections::{BTreeMap, HashSet};
use std::io;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % (n as u64)) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

#[derive(Debug)]
pub enum Fail {
    /// the code under test broke the property
    Viol(String),
    /// the environment or the harness could not do its part
    Harness(String),
    /// an error reported by the library while calls are made to fail
    Io(String),
}
/// Whether file system calls are being made to fail, so that errors are legitimate.
pub static FAULTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub type R<T> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($arg:tt)*) => { return Err($crate::util::Fail::Viol(format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::util::Fail::Viol(format!($($arg)*))); } };
}

pub trait OpExt<T> {
    fn op(self, what: &str) -> R<T>;
    fn env(self, what: &str) -> R<T>;
}
pub fn env_errno(e: &io::Error) -> bool {
    matches!(
        e.raw_os_error(),
        Some(libc::ENOSPC) | Some(libc::EMFILE) | Some(libc::ENFILE) | Some(libc::ENOMEM) | Some(libc::EDQUOT)
    )
}
impl<T> OpExt<T> for io::Result<T> {
    /// An operation of the library that has to succeed here.
    fn op(self, what: &str) -> R<T> {
        self.map_err(|e| {
            if FAULTS.load(std::sync::atomic::Ordering::SeqCst) {
                Fail::Io(format!("{what}: {e}"))
            } else if env_errno(&e) {
                Fail::Harness(format!("{what}: {e}"))
            } else {
                Fail::Viol(format!("{what} failed although nothing is wrong: {:?}: {e}", e.kind()))
            }
        })
    }
    /// An action of the harness itself.
    fn env(self, what: &str) -> R<T> {
        self.map_err(|e| Fail::Harness(format!("harness: {what}: {e}")))
    }
}

/// What a run observed.
#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub rng: Rng,
    pub rt: std::sync::Arc<tokio::runtime::Runtime>,
    pub thorough: bool,
    pub scratch: std::path::PathBuf,
    pub trace: Vec<String>,
    pub stats: Stats,
    pub nontrivial: bool,
    /// the hash that makes this case distinct (trace hash if None)
    pub shape: Option<u64>,
    pub worker: usize,
    pub case_no: u64,
}
impl Ctx {
    pub fn t(&mut self, s: String) {
        self.trace.push(s);
    }
    pub fn fresh_dir(&mut self, tag: &str) -> R<std::path::PathBuf> {
        let p = self.scratch.join(format!("{tag}{}", self.rng.next() % 1_000_000_007));
        crate::fsx::own(|| std::fs::create_dir_all(&p)).env("creating scratch")?;
        Ok(p)
    }
}

pub fn hexname(n: [u32; 5]) -> String {
    terminus_store::storage::name_to_string(n)
}
pub fn short(n: [u32; 5]) -> String {
    hexname(n)[..8].to_string()
}

/// A reader that gives its bytes in small pieces.
pub struct Dribble {
    data: Vec<u8>,
    at: usize,
    most: usize,
    rng: Rng,
}
impl Dribble {
    pub fn new(data: &[u8], rng: &mut Rng) -> Dribble {
        Dribble { data: data.to_vec(), at: 0, most: *rng.pick(&[1, 2, 7, 64, 513, 1 << 20]), rng: rng.fork() }
    }
}
impl io::Read for Dribble {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.rng.range(1, self.most).min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
