//! Recording: JSON text, guarded calls, jobs, shards.
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, salt: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            ' '..='~' => o.push(c),
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
        }
    }
    o.push('"');
    o
}

/// u32 in two's complement.
pub fn n(x: u32) -> i32 {
    x as i32
}
/// usize, saturated to what TLC can hold.
pub fn nz(x: usize) -> i32 {
    i32::try_from(x).unwrap_or(i32::MAX)
}

pub fn list<T, F: Fn(&T) -> String>(xs: &[T], f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}
pub fn ivs(xs: &[(u32, u32)]) -> String {
    let mut o = String::with_capacity(xs.len() * 14 + 2);
    o.push('[');
    for (i, (a, b)) in xs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},{}]", n(*a), n(*b));
    }
    o.push(']');
    o
}
pub fn ints<T: Copy + Into<i64>>(xs: &[T]) -> String {
    list(xs, |x| (*x).into().to_string())
}
pub fn cps(s: &str) -> String {
    let v: Vec<i64> = s.chars().map(|c| i64::from(c as u32)).collect();
    ints(&v)
}
pub fn opt(x: Option<u32>) -> String {
    match x {
        None => "[]".into(),
        Some(v) => format!("[{}]", n(v)),
    }
}
pub fn ok(s: String) -> String {
    format!("{{\"ok\":{s}}}")
}

// ---------------------------------------------------------------- guarded calls

const WORKERS: usize = 64;
/// One cache line per worker.
#[repr(align(128))]
struct Pulse {
    beat: AtomicU64,
    busy: AtomicBool,
}
static PULSE: [Pulse; WORKERS] = [const { Pulse { beat: AtomicU64::new(0), busy: AtomicBool::new(false) } }; WORKERS];
static WHAT: [Mutex<String>; WORKERS] = [const { Mutex::new(String::new()) }; WORKERS];
static NEXT_WORKER: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
static CAREFUL: Mutex<Option<std::fs::File>> = Mutex::new(None);
static IS_CAREFUL: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: usize = NEXT_WORKER.fetch_add(1, Ordering::Relaxed) % WORKERS;
}

/// Text of the operation under way, kept for the case that it does not return.
pub fn about(what: impl FnOnce() -> String) {
    ME.with(|&me| {
        let w = what();
        if IS_CAREFUL.load(Ordering::Relaxed) {
            if let Some(f) = CAREFUL.lock().expect("lock").as_mut() {
                let _ = f.write_all(format!("{w}\n").as_bytes());
                let _ = f.flush();
            }
        }
        *WHAT[me].lock().expect("lock") = w;
    });
}

/// One call into the library: its value, or the panic message.
#[inline]
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    ME.with(|&me| {
        let p = &PULSE[me];
        p.beat.store(p.beat.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        p.busy.store(true, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        p.busy.store(false, Ordering::Relaxed);
        r.map_err(|p| {
            if let Some(s) = p.downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            }
        })
    })
}
/// Is this thread inside a guarded call?
pub fn in_call() -> bool {
    ME.with(|&me| PULSE[me].busy.load(Ordering::Relaxed))
}
pub fn total_calls() -> u64 {
    PULSE.iter().map(|p| p.beat.load(Ordering::Relaxed)).sum()
}

pub fn panicked(m: &str) -> String {
    format!("{{\"panic\":{}}}", esc(&m.chars().take(300).collect::<String>()))
}

/// Kills the process with a record of the operation when a call does not return.
pub fn watchdog(dir: String, limit: Duration) {
    std::thread::spawn(move || {
        let mut last = [(0u64, Instant::now()); WORKERS];
        loop {
            std::thread::sleep(Duration::from_millis(250));
            for i in 0..WORKERS {
                let b = PULSE[i].beat.load(Ordering::Relaxed);
                if b != last[i].0 || !PULSE[i].busy.load(Ordering::Relaxed) {
                    last[i] = (b, Instant::now());
                } else if last[i].1.elapsed() > limit {
                    let w = WHAT[i].lock().map(|s| s.clone()).unwrap_or_default();
                    let _ = std::fs::write(
                        format!("{dir}/stuck.ndjson"),
                        format!("{{\"op\":\"hang\",\"what\":{}}}\n", esc(&w)),
                    );
                    std::process::exit(3);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- jobs and shards

/// Lines that belong together, in order.
pub struct Block {
    pub lines: Vec<String>,
    /// Expected time of the check, in microseconds.
    pub cost: u64,
}
impl Block {
    pub fn new() -> Block {
        Block { lines: vec![], cost: 0 }
    }
    pub fn put(&mut self, line: String, cost: u64) {
        self.cost += cost + line.len() as u64 / 10;
        self.lines.push(line);
    }
}

pub type Job<'a> = Box<dyn FnOnce() -> Vec<Block> + Send + 'a>;

pub struct Cfg {
    pub out: String,
    pub shards: usize,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
}

pub fn run_jobs(cfg: &Cfg, jobs: Vec<Job>) {
    if let Ok(p) = std::env::var("CAREFUL") {
        *CAREFUL.lock().expect("lock") = std::fs::File::create(p).ok();
        IS_CAREFUL.store(true, Ordering::Relaxed);
    }
    let count = jobs.len();
    let queue: Vec<Mutex<Option<Job>>> = jobs.into_iter().map(|j| Mutex::new(Some(j))).collect();
    let done: Vec<Mutex<Vec<Block>>> = (0..count).map(|_| Mutex::new(vec![])).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= count {
                    break;
                }
                let j = queue[i].lock().expect("lock").take().expect("job");
                *done[i].lock().expect("lock") = j();
            });
        }
    });
    let mut blocks: Vec<Block> = done.into_iter().flat_map(|m| m.into_inner().expect("lock")).collect();
    blocks.retain(|b| !b.lines.is_empty());
    let nblocks = blocks.len();
    let mut order: Vec<usize> = (0..nblocks).collect();
    order.sort_by_key(|&i| std::cmp::Reverse(blocks[i].cost));
    let mut load = vec![(0u64, vec![]); cfg.shards];
    for i in order {
        let k = (0..cfg.shards).min_by_key(|&k| load[k].0).expect("shards");
        load[k].0 += blocks[i].cost;
        load[k].1.push(i);
    }
    let mut lines = 0;
    for (k, (_, mut ids)) in load.into_iter().enumerate() {
        if ids.is_empty() {
            continue;
        }
        ids.sort_unstable();
        let f = std::fs::File::create(format!("{}/shard{k:02}.ndjson", cfg.out)).expect("create");
        let mut w = std::io::BufWriter::new(f);
        for i in ids {
            for l in &blocks[i].lines {
                w.write_all(l.as_bytes()).expect("write");
                w.write_all(b"\n").expect("write");
                lines += 1;
            }
        }
        w.flush().expect("flush");
    }
    println!("{{\"blocks\":{nblocks},\"lines\":{lines},\"calls\":{}}}", total_calls() + CALLS.load(Ordering::Relaxed));
}

// ---------------------------------------------------------------- traits of types

/// Does a type implement a trait?  Known at compile time, without requiring it.
#[macro_export]
macro_rules! probe {
    ($t:ty: $($b:tt)+) => {{
        #[allow(dead_code)]
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Otherwise {
            const YES: bool = false;
        }
        impl<T: ?Sized> Otherwise for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> Probe<T> {
            const YES: bool = true;
        }
        <Probe<$t>>::YES
    }};
}

/// Shares a value between threads; the caller has looked whether its type allows it.
pub struct Shared<T>(pub T);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}
