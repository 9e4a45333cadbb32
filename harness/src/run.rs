//! Running one case of the code under test: panics become data, the case in
//! progress is on disk should the process die, and a watchdog ends a case
//! that does not return.
use crate::term::Term;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static BUSY: [AtomicU64; SLOTS] = [Z; SLOTS];
static T0: Mutex<Option<Instant>> = Mutex::new(None);

fn now() -> u64 {
    T0.lock().unwrap().unwrap().elapsed().as_millis() as u64 + 1
}

pub struct Runner {
    cur: File,
    slot: usize,
}

/// Call once, before anything else.
pub fn init(out: &str, limit_s: u64) {
    *T0.lock().unwrap() = Some(Instant::now());
    std::panic::set_hook(Box::new(|_| {}));
    let out = out.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        for (k, b) in BUSY.iter().enumerate() {
            let s = b.load(Ordering::Relaxed);
            if s != 0 && now() > s + limit_s * 1000 {
                let _ = std::fs::write(format!("{}.hang", out), format!("{}", k));
                eprintln!("HANG slot {}", k);
                std::process::exit(97);
            }
        }
    });
}

impl Runner {
    pub fn new(out: &str, slot: usize) -> Runner {
        Runner { cur: File::create(format!("{}.cur{}", out, slot)).unwrap(), slot }
    }
    /// Note what is about to run, run it, and return None if it panicked.
    pub fn case<R>(&self, what: &[u8], f: impl FnOnce() -> R) -> Option<R> {
        let mut m = (what.len() as u64).to_le_bytes().to_vec();
        m.extend_from_slice(&what[..what.len().min(1 << 20)]);
        self.cur.write_all_at(&m, 0).unwrap();
        BUSY[self.slot].store(now(), Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f)).ok();
        BUSY[self.slot].store(0, Ordering::Relaxed);
        r
    }
}

pub struct Out {
    w: BufWriter<File>,
    pub n: usize,
    buf: String,
}
impl Out {
    pub fn new(path: &str) -> Out {
        Out { w: BufWriter::with_capacity(1 << 20, File::create(path).unwrap()), n: 0, buf: String::new() }
    }
    pub fn put(&mut self, t: &Term) {
        self.buf.clear();
        t.write(&mut self.buf);
        self.buf.push('\n');
        self.w.write_all(self.buf.as_bytes()).unwrap();
        self.n += 1;
    }
    pub fn done(mut self) {
        self.w.flush().unwrap();
    }
}

/// Command line: --name value pairs.
pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    let k = format!("--{}", name);
    a.iter().position(|x| *x == k).and_then(|p| a.get(p + 1).cloned())
}
pub fn num(name: &str, default: u64) -> u64 {
    arg(name).map_or(default, |x| x.parse().unwrap())
}
