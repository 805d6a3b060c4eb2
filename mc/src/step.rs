//! Run a closure one machine instruction at a time (x86-64 trap flag), and do something before
//! chosen instructions. What is done must not be visible to the stepped thread except through
//! shared memory, and must be safe in a signal handler: here it is handing over to another thread.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Once};
use std::time::Duration;

/// What the two threads share. The worker runs its operation once for every request.
#[derive(Default)]
pub struct Hand {
    request: AtomicU64,
    done: AtomicU64,
    /// first run of the worker whose result differed (1 + count)
    pub wrong: AtomicU64,
    pub quit: AtomicU32,
}
#[derive(Clone, Copy)]
struct Plan {
    hand: *const Hand,
    period: u64,
    phase: u64,
    /// instructions so far
    n: u64,
    requested: u64,
    /// stop stepping after this instruction
    last: u64,
    waits: u64,
}
const IDLE: Plan = Plan { hand: std::ptr::null(), period: 1, phase: 0, n: 0, requested: 0, last: u64::MAX, waits: 0 };
thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(IDLE) };
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn sched_yield() -> i32;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: extern "C" fn(i32, *mut u8, *mut u8),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
fn now() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(1, &mut t) };
    t[0] * 1_000_000_000 + t[1]
}
/// How long a request may take before the stepped thread goes on: it may hold a lock.
const BLOCKED: Duration = Duration::from_millis(60);
fn wait_done(h: &Hand, upto: u64, limit: Duration) -> bool {
    let mut t0 = 0;
    let mut i = 0u32;
    while h.done.load(Acquire) < upto {
        i += 1;
        if i > 200 {
            unsafe { sched_yield() };
            if t0 == 0 {
                t0 = now();
            } else if i % 16 == 0 && now() - t0 > limit.as_nanos() as i64 {
                return false;
            }
        } else {
            std::hint::spin_loop();
        }
    }
    true
}
extern "C" fn trap(_: i32, _: *mut u8, ctx: *mut u8) {
    let mut p = PLAN.get();
    let efl = unsafe { &mut *(ctx.add(40 + 17 * 8) as *mut i64) };
    if p.hand.is_null() {
        *efl &= !0x100;
        return;
    }
    let h = unsafe { &*p.hand };
    if p.n % p.period == p.phase && h.done.load(Acquire) == p.requested {
        p.requested += 1;
        h.request.store(p.requested, Release);
        p.waits += !wait_done(h, p.requested, BLOCKED) as u64;
    }
    p.n += 1;
    if p.n > p.last {
        *efl &= !0x100;
    }
    PLAN.set(p);
}
fn install() {
    static O: Once = Once::new();
    O.call_once(|| {
        let a = SigAction { handler: trap, mask: [0; 16], flags: 4 /* SA_SIGINFO */, restorer: 0 };
        unsafe { sigaction(5, &a, std::ptr::null_mut()) };
    });
}
pub struct Stepped {
    pub instructions: u64,
    pub handovers: u64,
    pub waits: u64,
}
/// Step through `f`, handing over before every instruction i with i % period == phase, and not
/// after instruction `last`.
#[cfg(target_arch = "x86_64")]
pub fn stepped<R>(h: &Arc<Hand>, period: u64, phase: u64, last: u64, f: impl FnOnce() -> R) -> (R, Stepped) {
    install();
    let base = h.done.load(Acquire);
    PLAN.set(Plan { hand: Arc::as_ptr(h), period, phase, n: 0, requested: base, last, waits: 0 });
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    let p = PLAN.replace(IDLE);
    wait_done(h, p.requested, Duration::from_secs(10));
    (r, Stepped { instructions: p.n, handovers: p.requested - base, waits: p.waits })
}
/// What is done here is not stepped through.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let p = PLAN.get();
    if p.hand.is_null() {
        return f();
    }
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    let on = PLAN.get().n <= PLAN.get().last;
    let r = f();
    if on {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    }
    r
}
/// The worker: answers requests until told to quit. `f` says whether its result was as it should be.
pub fn serve(h: Arc<Hand>, mut f: impl FnMut() -> bool) {
    let mut served = 0;
    let mut idle = 0u32;
    while h.quit.load(Acquire) == 0 {
        if h.request.load(Acquire) > served {
            idle = 0;
            served += 1;
            if !f() {
                let _ = h.wrong.compare_exchange(0, served, AcqRel, Relaxed);
            }
            h.done.store(served, Release);
        } else {
            idle += 1;
            if idle > 2000 {
                unsafe { sched_yield() };
            } else {
                std::hint::spin_loop();
            }
        }
    }
}
