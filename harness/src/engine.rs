//! The exploration engine: deterministic enumeration of cases, split over worker processes.
//!
//! Each check is a program which enumerates *scenarios*, each a finite sequence of *cases* in a fixed order.
//! A case runs the real code on one input / history / schedule and compares it with a reference. The case
//! about to run is noted in a shared-memory slot so that a crash or a hang is attributed to it, and any
//! case can be run alone (`--only scenario:index`).

use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        drop_payload(p);
        LAST_PANIC.with(|l| l.borrow().clone())
    })
}

fn drop_payload(p: Box<dyn std::any::Any + Send>) {
    drop(p);
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_VERBOSE_PANIC").is_some() {
            eprintln!("panic: {msg}{loc}");
        }
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{msg}{loc}");
            }
        });
    }));
}

#[repr(C)]
struct Slot {
    index: u64,
    started: u64,
    name_len: u64,
    name: [u8; 128],
}

pub struct Violation {
    pub scenario: String,
    pub index: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<(String, u64)>,
    out: Option<String>,
    slot: *mut Slot,
    scn: String,
    idx: u64,
    active: bool,
    scn_cases: u64,
    scns: Vec<(String, u64, u64)>,
    cases: u64,
    states: u64,
    transitions: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    start: Instant,
    deadline: Option<Duration>,
    capped: Vec<String>,
    stop_scn: bool,
    notes: Vec<(String, u64)>,
    verbose: bool,
    /// Runs each case in a thread of its own.
    pub own_thread: bool,
}

/// Counters of one case.
pub struct Cx {
    pub states: u64,
    pub transitions: u64,
    pub outcome: Option<u64>,
}

impl Cx {
    /// Another distinct state of the system under test was reached.
    #[inline]
    pub fn st(&mut self) {
        self.states += 1;
    }
    /// `n` operations of the system under test were executed and compared.
    #[inline]
    pub fn tr(&mut self, n: u64) {
        self.transitions += n;
    }
    #[inline]
    pub fn out(&mut self, o: u64) {
        self.outcome = Some(self.outcome.unwrap_or(0xcbf2_9ce4_8422_2325).wrapping_mul(0x0100_0000_01b3) ^ o);
    }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

impl Ctx {
    pub fn from_args() -> Self {
        install_quiet_panic_hook();
        let args: Vec<String> = std::env::args().collect();
        let tier = match arg(&args, "--tier").as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let (shard, nshards) = arg(&args, "--shard")
            .and_then(|s| {
                let (a, b) = s.split_once('/')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            })
            .unwrap_or((0, 1));
        let only = arg(&args, "--only").map(|s| {
            let (a, b) = s.rsplit_once(':').expect("scenario:index");
            (a.to_string(), b.parse().expect("index"))
        });
        let slot = arg(&args, "--slot").map_or(std::ptr::null_mut(), |p| map_slot(&p));
        Self {
            tier,
            shard,
            nshards,
            verbose: only.is_some(),
            own_thread: false,
            only,
            out: arg(&args, "--out"),
            slot,
            scn: String::new(),
            idx: 0,
            active: false,
            scn_cases: 0,
            scns: Vec::new(),
            cases: 0,
            states: 0,
            transitions: 0,
            outcomes: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            start: Instant::now(),
            deadline: arg(&args, "--deadline").and_then(|d| d.parse().ok()).map(Duration::from_secs),
            capped: Vec::new(),
            stop_scn: false,
            notes: Vec::new(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    /// Runs one scenario.
    pub fn scenario(&mut self, name: &str, f: impl FnOnce(&mut Self)) {
        self.scn = name.to_string();
        self.idx = 0;
        self.scn_cases = 0;
        self.stop_scn = false;
        self.active = self.only.as_ref().map_or(true, |(s, _)| s == name);
        if self.active {
            if !self.slot.is_null() {
                let b = name.as_bytes();
                assert!(b.len() < 128);
                unsafe {
                    let slot = &mut *self.slot;
                    slot.name[..b.len()].copy_from_slice(b);
                    slot.name_len = b.len() as u64;
                    slot.index = u64::MAX;
                }
            }
            let t = Instant::now();
            f(self);
            if std::env::var_os("MC_TIMES").is_some() {
                eprintln!("shard {} scenario {} cases {}/{} {:?}", self.shard, name, self.scn_cases, self.idx, t.elapsed());
            }
            self.scns.push((name.to_string(), self.scn_cases, self.idx));
        }
    }

    /// True when nothing else of the current scenario needs to be enumerated.
    pub fn done(&self) -> bool {
        self.stop_scn || self.violations.len() >= 3
    }

    pub fn note(&mut self, name: &str, n: u64) {
        if let Some(e) = self.notes.iter_mut().find(|e| e.0 == name) {
            e.1 += n;
        } else {
            self.notes.push((name.to_string(), n));
        }
    }

    /// Runs one case, if it belongs to this worker.
    pub fn case(&mut self, desc: impl Fn() -> String, body: impl FnOnce(&mut Cx) -> R) {
        let idx = self.idx;
        self.idx += 1;
        if let Some((_, i)) = &self.only {
            if *i != idx {
                return;
            }
        } else if idx % self.nshards != self.shard || self.done() {
            return;
        }
        if idx & 0xff < self.nshards {
            if let Some(d) = self.deadline {
                if self.start.elapsed() > d {
                    self.stop_scn = true;
                    self.capped.push(self.scn.clone());
                    return;
                }
            }
        }
        if !self.slot.is_null() {
            unsafe {
                std::ptr::write_volatile(&mut (*self.slot).index, idx);
                std::ptr::write_volatile(&mut (*self.slot).started, (*self.slot).started.wrapping_add(1));
            }
        }
        if cfg!(miri) {
            eprintln!("@{}:{} {}", self.scn, idx, if std::env::var_os("MC_DESC").is_some() { desc() } else { String::new() });
        }
        if self.verbose {
            eprintln!("case {}:{} {}", self.scn, idx, desc());
        }
        let mut cx = Cx { states: 0, transitions: 0, outcome: None };
        let run = || match catch(|| body(&mut cx)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {p}")),
        };
        let r = if self.own_thread {
            // the standard library's random hash keys are a function of the thread and of the number of
            // hashers it made before: this way the case does not depend on the ones before it
            struct Alone<F>(F);
            // SAFETY: this thread does nothing until the other one is done
            unsafe impl<F> Send for Alone<F> {}
            impl<F: FnOnce() -> R> Alone<F> {
                fn go(self) -> R {
                    (self.0)()
                }
            }
            let job = Alone(run);
            std::thread::scope(|s| s.spawn(move || job.go()).join()).unwrap_or_else(|_| Err("thread died".to_string()))
        } else {
            run()
        };
        self.cases += 1;
        self.scn_cases += 1;
        self.states += cx.states.max(1);
        self.transitions += cx.transitions;
        if let Some(o) = cx.outcome {
            if self.outcomes.len() < 200_000 {
                self.outcomes.insert(o);
            }
        }
        if self.scn_cases == 3 && self.samples.len() < 12 {
            let mut d = desc();
            d.truncate(d.char_indices().nth(400).map_or(d.len(), |(i, _)| i));
            self.samples.push(format!("{}:{} {}", self.scn, idx, d));
        }
        if let Err(msg) = r {
            if self.verbose {
                eprintln!("VIOLATED {msg}");
            }
            let mut d = desc();
            d.truncate(d.char_indices().nth(6000).map_or(d.len(), |(i, _)| i));
            self.violations.push(Violation { scenario: self.scn.clone(), index: idx, desc: d, msg });
            self.stop_scn = true;
        }
    }

    pub fn finish(self) -> ! {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"cases\":{},\"states\":{},\"transitions\":{},\"outcomes\":{},\"scenarios\":[",
            self.cases,
            self.states,
            self.transitions,
            self.outcomes.len()
        );
        for (i, (n, c, t)) in self.scns.iter().enumerate() {
            let _ = write!(s, "{}[{},{},{}]", if i > 0 { "," } else { "" }, js(n), c, t);
        }
        s.push_str("],\"samples\":[");
        for (i, n) in self.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(n));
        }
        s.push_str("],\"capped\":[");
        for (i, n) in self.capped.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(n));
        }
        s.push_str("],\"notes\":[");
        for (i, (n, c)) in self.notes.iter().enumerate() {
            let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, js(n), c);
        }
        s.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            let _ = write!(
                s,
                "{}{{\"scenario\":{},\"index\":{},\"desc\":{},\"msg\":{}}}",
                if i > 0 { "," } else { "" },
                js(&v.scenario),
                v.index,
                js(&v.desc),
                js(&v.msg)
            );
        }
        s.push_str("]}\n");
        if let Some(o) = &self.out {
            std::fs::write(o, &s).expect("write result");
        } else {
            print!("{s}");
        }
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[cfg(not(miri))]
fn map_slot(path: &str) -> *mut Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot");
    f.set_len(4096).expect("slot size");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    p.cast()
}

#[cfg(miri)]
fn map_slot(_: &str) -> *mut Slot {
    std::ptr::null_mut()
}
