//! Stateless exploration: a *space* is a function of a sequence of choices; every
//! sequence is enumerated depth first, simplest alternative first, and executed.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

/// Why an execution ended without a verdict.
pub enum Stop { NotMine, Skip }

/// The choices of one execution.
pub struct Ch {
    pub picks: Vec<u32>,
    pub arity: Vec<u32>,
    pos: usize,
    product: u64,
    shard: Option<(u32, u32)>,
    decided: bool,
    pub cut: usize, //< Number of choices that decided ownership.
    pub edges: u64,
}

fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h.wrapping_mul(0xff51afd7ed558ccd)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    mix(h, bytes.len() as u64)
}

impl Ch {
    pub fn replay(picks: Vec<u32>) -> Self {
        Ch { picks, arity: vec![], pos: 0, product: 1, shard: None, decided: true, cut: 0, edges: 0 }
    }

    /// Choose one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice among nothing");
        let i = self.pos;
        self.pos += 1;
        if i >= self.picks.len() {
            self.picks.push(0);
        }
        if i < self.arity.len() {
            assert_eq!(self.arity[i], n as u32, "divergence: choice {} changed its arity while replaying", i);
        } else {
            self.arity.push(n as u32);
            self.edges += 1;
        }
        let v = self.picks[i];
        assert!((v as usize) < n, "divergence: choice {} out of range while replaying", i);
        // Publish the choice, so that a crash or hang can be attributed to it.
        if let Some(sh) = SHARED.get() {
            if i < sh.picks.len() { sh.picks[i].store(v, Relaxed); sh.len.store(i as u32 + 1, Release); }
        }
        if !self.decided {
            self.product = self.product.saturating_mul(n as u64);
            if self.product >= 512 { self.decide(); }
        }
        v as usize
    }

    fn decide(&mut self) {
        self.decided = true;
        self.cut = self.pos;
        let Some((me, of)) = self.shard else { return };
        let mut h = 1;
        for p in &self.picks[..self.pos] { h = mix(h, *p as u64 + 1); }
        if (h >> 20) % of as u64 != me as u64 { resume_unwind(Box::new(Stop::NotMine)); }
    }

    /// All choices that matter for distribution are made: anything after this runs on one worker.
    pub fn commit(&mut self) { if !self.decided { self.decide(); } }

    pub fn of<T: Clone>(&mut self, items: &[T]) -> T { let i = self.pick(items.len()); items[i].clone() }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
    /// Not a behaviour of interest (redundant with another one).
    pub fn skip(&mut self) -> ! { resume_unwind(Box::new(Stop::Skip)) }
}

/// What one worker reports.
#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub edges: u64,
    pub skipped: u64,
    pub unspecified: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub per_space: Vec<u64>,
    /// Known findings met: how often, and the simplest example.
    pub known: std::collections::BTreeMap<&'static str, (u64, String)>,
}

thread_local! {
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    pub static VERBOSE: RefCell<bool> = RefCell::new(false);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

/// A violated property, as an unwinding payload.
pub struct Violation(pub String);

pub fn violation(msg: impl Into<String>) -> ! { resume_unwind(Box::new(Violation(msg.into()))) }
pub fn verbose() -> bool { VERBOSE.with(|v| *v.borrow()) }

/// Record the outcome of one validated execution.
pub fn outcome(bytes: &[u8]) { STATS.with(|s| { s.borrow_mut().outcomes.insert(hash_bytes(bytes)); }) }
pub fn unspecified() { STATS.with(|s| s.borrow_mut().unspecified += 1) }
pub fn known_finding(id: &'static str, example: &str) {
    STATS.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.known.entry(id).or_insert_with(|| (0, example.to_string()));
        k.0 += 1;
        if example.len() < k.1.len() { k.1 = example.to_string() }
    })
}

thread_local! { static LISTED: String = std::fs::read_to_string(std::env::var("MC_KNOWN").unwrap_or_else(|_| "known_findings.txt".into())).unwrap_or_default(); }
/// Whether the file of known findings lists this one.
pub fn is_known(id: &str) -> bool { LISTED.with(|l| l.lines().any(|l| l.starts_with("finding:") && l.split_whitespace().any(|w| w.strip_prefix("id=") == Some(id)))) }
pub fn known_text(id: &str) -> String { LISTED.with(|l| l.lines().find(|l| l.starts_with("finding:") && l.contains(&format!("id={id} "))).map_or(String::new(), |l| l["finding:".len()..].trim().to_string())) }

pub fn sample(f: impl FnOnce() -> String) {
    STATS.with(|s| {
        let mut s = s.borrow_mut();
        // Keep executions number 1, 10, 100, ... of each worker.
        let n = s.executions + 1;
        if s.samples.len() < 8 && 10u64.pow(s.samples.len() as u32 % 8) <= n { let t = f(); s.samples.push(t); }
    })
}

/// Memory shared between a worker and its supervisor.
#[repr(C)]
pub struct Shared {
    pub beat: AtomicU64,
    pub in_real: AtomicBool,
    pub space: AtomicU32,
    pub len: AtomicU32,
    pub picks: [AtomicU32; 4096],
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); } }
pub fn no_core() { unsafe { setrlimit(4, &[0, 0]); } }

pub fn shared(path: &str) -> &'static Shared {
    use std::os::fd::AsRawFd;
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared file");
    let len = std::mem::size_of::<Shared>();
    file.set_len(len as u64).unwrap();
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0);
        assert!(!p.is_null() && p as isize != -1, "mmap");
        std::mem::forget(file);
        &*(p as *const Shared)
    }
}

static SHARED: std::sync::OnceLock<&'static Shared> = std::sync::OnceLock::new();

thread_local! { /// Whether to run the code under test in a new thread.
    pub static FRESH: std::cell::Cell<bool> = std::cell::Cell::new(false); }

fn in_thread<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    // Nothing else happens until the thread ends.
    struct Moved<A>(A);
    unsafe impl<A> Send for Moved<A> {}
    let f = Moved(f);
    let (r, p) = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
        let f = f;
        let r = Moved(catch_unwind(AssertUnwindSafe(f.0)));
        (r, PANIC.with(|p| p.borrow_mut().take()))
    }).unwrap().join().unwrap());
    PANIC.with(|x| *x.borrow_mut() = p);
    r.0
}

/// Run code under test: a panic in there is a violation of whatever property is checked.
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    let sh = SHARED.get();
    if let Some(s) = sh { s.beat.fetch_add(1, Relaxed); s.in_real.store(true, Release); }
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = if FRESH.with(|f| f.get()) { in_thread(f) } else { catch_unwind(AssertUnwindSafe(f)) };
    if let Some(s) = sh { s.in_real.store(false, Release); }
    match r {
        Ok(v) => v,
        Err(payload) => {
            if payload.is::<Violation>() || payload.is::<Stop>() { resume_unwind(payload); }
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into());
            violation(format!("the code under test panicked: {m}"))
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(msg));
    }));
}

pub struct Space {
    pub name: &'static str,
    pub bounds: String,
    pub run: Box<dyn Fn(&mut Ch)>,
}

pub fn space(name: &'static str, bounds: impl Into<String>, run: impl Fn(&mut Ch) + 'static) -> Space {
    Space { name, bounds: bounds.into(), run: Box::new(run) }
}

#[derive(Debug)]
pub enum End { Done, Violation { space: usize, picks: Vec<u32>, msg: String }, Broken(String) }

/// One execution. Ok(None): ran; Ok(Some(stop)).
fn once(sp: &Space, ch: &mut Ch) -> Result<Option<Stop>, Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(|| (sp.run)(ch))) {
        Ok(()) => Ok(None),
        Err(p) => {
            let p = match p.downcast::<Stop>() { Ok(s) => return Ok(Some(*s)), Err(p) => p };
            match p.downcast::<Violation>() {
                Ok(v) => Err(Ok(v.0)),
                Err(_) => Err(Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "harness panic".into()))),
            }
        }
    }
}

/// Enumerate every choice sequence of every space owned by this worker.
pub fn explore(spaces: &[Space], me: u32, of: u32, sh: &'static Shared, only: Option<&str>) -> End {
    let _ = SHARED.set(sh);
    for (si, sp) in spaces.iter().enumerate() {
        if let Some(o) = only { if sp.name != o { continue } }
        sh.space.store(si as u32, Relaxed);
        let mut picks: Vec<u32> = vec![];
        let mut arity: Vec<u32> = vec![];
        let mut probe = true; // Check that executions are a function of their choices.
        loop {
            sh.beat.fetch_add(1, Relaxed);
            sh.len.store(0, Relaxed);
            let edges = !picks.is_empty() as u64;
            let mut ch = Ch { picks, arity, pos: 0, product: 1, shard: Some((me, of)), decided: false, cut: 0, edges };
            let r = once(sp, &mut ch);
            let mut keep = ch.pos;
            match r {
                Ok(None) => {
                    if !ch.decided && !ch.mine() {
                        // Too few choices to be distributed; executed by everybody, counted once.
                    } else {
                        STATS.with(|s| { let mut s = s.borrow_mut(); s.executions += 1; s.edges += ch.edges; if s.per_space.len() <= si { s.per_space.resize(si + 1, 0) } s.per_space[si] += 1; });
                    }
                    if probe {
                        probe = false;
                        let mut again = Ch::replay(ch.picks.clone());
                        if once(sp, &mut again).is_err() || again.arity != ch.arity {
                            return End::Broken(format!("space {} is not a function of its choices", sp.name));
                        }
                    }
                }
                Ok(Some(Stop::NotMine)) => keep = ch.cut,
                Ok(Some(Stop::Skip)) => STATS.with(|s| s.borrow_mut().skipped += 1),
                Err(Ok(msg)) => return End::Violation { space: si, picks: ch.picks, msg },
                Err(Err(msg)) => return End::Broken(format!("space {} choices {:?}: {}", sp.name, ch.picks, msg)),
            }
            picks = ch.picks; arity = ch.arity;
            picks.truncate(keep); arity.truncate(keep);
            loop {
                let Some(last) = picks.last_mut() else { break };
                if *last + 1 < *arity.last().unwrap() { *last += 1; break }
                picks.pop(); arity.pop();
            }
            if picks.is_empty() { break }
        }
    }
    End::Done
}

impl Ch {
    fn mine(&self) -> bool {
        let Some((me, of)) = self.shard else { return true };
        let mut h = 1;
        for p in &self.picks { h = mix(h, *p as u64 + 1); }
        (h >> 20) % of as u64 == me as u64
    }
}

pub fn run_one(sp: &Space, picks: Vec<u32>) -> Result<(), Result<String, String>> {
    let mut ch = Ch::replay(picks);
    match once(sp, &mut ch) { Ok(_) => Ok(()), Err(e) => Err(e) }
}
