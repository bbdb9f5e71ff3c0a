//! A scheduler for two threads with switches at instruction granularity: the processor's trap flag stops a thread
//! after each of its instructions, and the trap handler hands control to the other thread.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

thread_local!(static ROLE: Cell<u8> = const { Cell::new(9) });

static STEP: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
/// Where the role is interrupted (0: nowhere).
static TARGET: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
/// The first thread is interrupted after each of its instructions.
static EACH: AtomicBool = AtomicBool::new(false);
static GO: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicU64 = AtomicU64::new(0);
/// The second thread stays where it is until it gets this number.
static RESUME: AtomicU64 = AtomicU64::new(0);
static PAUSED: AtomicU64 = AtomicU64::new(0);
static QUIT: AtomicBool = AtomicBool::new(false);
static ANSWER: AtomicU64 = AtomicU64::new(0);
static EXPECT: AtomicU64 = AtomicU64::new(0);
static WRONG: AtomicBool = AtomicBool::new(false);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static JOB: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

fn spin(mut until: impl FnMut() -> bool, limit: Option<Duration>) -> bool {
    let mut n = 0u32;
    let mut t = None;
    while !until() {
        n += 1;
        if n > 4000 {
            std::thread::yield_now();
            if let Some(l) = limit {
                if n % 64 == 0 && t.get_or_insert_with(Instant::now).elapsed() > l {
                    return false;
                }
            }
        } else {
            std::hint::spin_loop();
        }
    }
    true
}

/// Lets the second thread run, until it is done or pauses, or waits for something this thread holds.
fn hand_over() {
    let n = GO.fetch_add(1, SeqCst) + 1;
    if !spin(|| DONE.load(SeqCst) == n || PAUSED.load(SeqCst) == n, Some(Duration::from_millis(300))) {
        BLOCKED.fetch_add(1, SeqCst);
    }
}

const TF: i64 = 0x100;

extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let r = ROLE.with(Cell::get) as usize;
    let uc = uc.cast::<libc::ucontext_t>();
    if r > 1 {
        // SAFETY: the context is this signal's
        unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF };
        return;
    }
    let s = STEP[r].fetch_add(1, SeqCst) + 1;
    let t = TARGET[r].load(SeqCst);
    if r == 0 && EACH.load(SeqCst) {
        hand_over();
    } else if t != 0 && s == t {
        // SAFETY: as above; it runs freely from here on
        unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF };
        if r == 0 {
            hand_over();
        } else {
            let n = GO.load(SeqCst);
            PAUSED.store(n, SeqCst);
            spin(|| RESUME.load(SeqCst) == n, None);
        }
    }
}

/// Runs the job with all its instructions trapped.
#[inline(never)]
fn traced(f: &dyn Fn() -> u64) -> u64 {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
        r
    }
}

unsafe fn job<'a>(i: usize) -> &'a dyn Fn() -> u64 {
    *(JOB[i].load(SeqCst) as *const &dyn Fn() -> u64)
}

pub struct Sched {
    second: Option<std::thread::JoinHandle<()>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Plan {
    /// The second thread's operation runs after each instruction of the first one's.
    Each,
    /// After the n-th instruction only.
    At(u64),
    /// After the n-th instruction, but only m instructions of it; the rest when the first one's is done.
    AtFor(u64, u64),
}

#[derive(Debug, Clone, Copy)]
pub struct Ran {
    pub first: u64,
    pub second: u64,
    /// Some answer in between was wrong.
    pub wrong: bool,
    /// Instructions of the first thread until it was no longer traced.
    pub steps: u64,
    /// Instructions of the second thread, if it was traced.
    pub steps2: u64,
    /// Whether the switches happened.
    pub switched: bool,
}

impl Sched {
    pub fn new() -> Self {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as extern "C" fn(_, _, _) as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
        ROLE.with(|r| r.set(0));
        // jobs of earlier schedulers are none of the new thread's business
        let mut last = GO.load(SeqCst);
        let second = std::thread::spawn(move || {
            ROLE.with(|r| r.set(1));
            loop {
                spin(|| GO.load(SeqCst) != last || QUIT.load(SeqCst), None);
                if QUIT.load(SeqCst) {
                    return;
                }
                last = GO.load(SeqCst);
                let j = unsafe { job(1) };
                let a = if TARGET[1].load(SeqCst) != 0 { traced(j) } else { j() };
                ANSWER.store(a, SeqCst);
                if a != EXPECT.load(SeqCst) {
                    WRONG.store(true, SeqCst);
                }
                DONE.store(last, SeqCst);
            }
        });
        Self { second: Some(second) }
    }

    /// Runs two operations; `expect` is what the second one is to answer.
    pub fn run(&self, plan: Plan, first: &dyn Fn() -> u64, second: &dyn Fn() -> u64, expect: u64) -> Ran {
        let (f1, f2) = (&first, &second);
        // SAFETY: used by the other thread in this function only
        JOB[0].store(f1 as *const &dyn Fn() -> u64 as usize, SeqCst);
        JOB[1].store(f2 as *const &dyn Fn() -> u64 as usize, SeqCst);
        EXPECT.store(expect, SeqCst);
        WRONG.store(false, SeqCst);
        BLOCKED.store(0, SeqCst);
        STEP[0].store(0, SeqCst);
        STEP[1].store(0, SeqCst);
        let before = GO.load(SeqCst);
        let (each, n, m) = match plan {
            Plan::Each => (true, 0, 0),
            Plan::At(n) => (false, n, 0),
            Plan::AtFor(n, m) => (false, n, m),
        };
        EACH.store(each, SeqCst);
        TARGET[0].store(n, SeqCst);
        TARGET[1].store(m, SeqCst);
        let a = traced(first);
        let steps = STEP[0].load(SeqCst);
        if steps == 0 {
            eprintln!("the trap flag does not stop this processor");
            std::process::exit(3);
        }
        let g = GO.load(SeqCst);
        let switched = g != before;
        if switched {
            RESUME.store(g, SeqCst);
            spin(|| DONE.load(SeqCst) == g, None);
        }
        let paused = PAUSED.load(SeqCst) == g;
        Ran {
            first: a,
            second: ANSWER.load(SeqCst),
            wrong: WRONG.load(SeqCst),
            steps,
            steps2: STEP[1].load(SeqCst),
            switched: switched && (m == 0 || paused),
        }
    }

    pub fn blocked(&self) -> u64 {
        BLOCKED.load(SeqCst)
    }
}

impl Drop for Sched {
    fn drop(&mut self) {
        QUIT.store(true, SeqCst);
        if let Some(h) = self.second.take() {
            let _ = h.join();
        }
        QUIT.store(false, SeqCst);
    }
}
