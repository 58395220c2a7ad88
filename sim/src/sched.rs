//! Baton scheduler: tasks are OS threads, exactly one of which runs at any time. Which one is
//! decided by the run's choice source, at yield points only.
use crate::ctx::{self, C};
use std::cell::Cell;
use std::ptr::addr_of_mut;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const MAX: usize = 8;
const MAIN: usize = MAX;
static WORD: [AtomicU32; MAX + 1] = [const { AtomicU32::new(0) }; MAX + 1];

struct S {
    n: usize,
    alive: [bool; MAX],
    countdown: i64,
    blocked_streak: u32,
    switches: u64,
}
static mut ST: S = S { n: 0, alive: [false; MAX], countdown: i64::MAX, blocked_streak: 0, switches: 0 };
fn st() -> &'static mut S {
    unsafe { &mut *addr_of_mut!(ST) }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// Task number for the log; main is 99.
pub fn me() -> usize {
    let m = ME.with(|c| c.get());
    if m == usize::MAX { 99 } else { m }
}

fn wait(i: usize) {
    while WORD[i].load(SeqCst) == 0 {
        unsafe { crate::os::raw_futex_wait(&WORD[i], 0) };
    }
    WORD[i].store(0, SeqCst);
}
fn wake(i: usize) {
    WORD[i].store(1, SeqCst);
    unsafe { crate::os::raw_futex_wake(&WORD[i]) };
}

fn runnable_other(me: usize) -> Vec<usize> {
    let s = st();
    (0..s.n).filter(|&i| s.alive[i] && i != me).collect()
}
fn next_gap() -> i64 {
    let g = ctx::below(48) as i64;
    if g == 0 { 1 << 40 } else { 1 + g * g * g / 24 }
}

/// A point at which another task may be scheduled.
pub fn yield_point(what: &str, weight: i64) {
    let m = ME.with(|c| c.get());
    if m == usize::MAX { return; }
    let s = st();
    s.blocked_streak = 0;
    s.countdown -= weight;
    if s.countdown > 0 { return; }
    let others = runnable_other(m);
    if others.is_empty() {
        s.countdown = i64::MAX;
        return;
    }
    let _g = ctx::harness();
    let t = *ctx::pick(&others);
    s.countdown = next_gap();
    ctx::cnt(C::f_preempt);
    ctx::fev(match what { "alloc" => "preempt@alloc", "read" => "preempt@read", "clone" => "preempt@clone", _ => "preempt" }, m as u64, t as u64);
    s.switches += 1;
    wake(t);
    wait(m);
}

/// Called instead of a futex wait by a task: lets another task run, then reports a (spurious) wake-up.
/// Returns false if the caller is not a task.
pub fn blocked() -> bool {
    let m = ME.with(|c| c.get());
    if m == usize::MAX { return false; }
    let _g = ctx::harness();
    let s = st();
    s.blocked_streak += 1;
    let others = runnable_other(m);
    if others.is_empty() || s.blocked_streak > 10_000 {
        ctx::violate("deadlock", "every task waits for another");
        unsafe { libc::_exit(0) }
    }
    ctx::cnt(C::f_futex);
    // Round robin, so that whoever holds what this task waits for gets to run.
    let t = *others.iter().find(|&&t| t > m).unwrap_or(&others[0]);
    ctx::fev("futex-wait", m as u64, t as u64);
    wake(t);
    wait(m);
    true
}

/// Runs the tasks to completion under the seeded schedule.
pub fn run(tasks: Vec<Box<dyn FnOnce() + Send>>) {
    if tasks.len() == 1 {
        for t in tasks { t(); }
        return;
    }
    run_fresh(tasks)
}
/// Same, always on fresh threads (whose hash seeds come from the simulated entropy).
pub fn run_fresh(tasks: Vec<Box<dyn FnOnce() + Send>>) {
    let n = tasks.len();
    assert!(n <= MAX);
    if n > 1 { ctx::cnt(C::p_sessions); }
    let s = st();
    s.n = n;
    s.countdown = if n > 1 { next_gap() } else { i64::MAX };
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        s.alive[i] = true;
        handles.push(Some(
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                wait(i);
                ME.with(|c| c.set(i));
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(t)).is_err() {
                    ctx::harness_error(&format!("panic in the harness: {}", ctx::last_panic()));
                }
                ME.with(|c| c.set(usize::MAX));
                st().alive[i] = false;
                DONE.store(i as u32, SeqCst);
                wake(MAIN);
            }).expect("spawn"),
        ));
    }
    for left in (1..=n).rev() {
        let alive: Vec<usize> = (0..n).filter(|&i| st().alive[i]).collect();
        debug_assert_eq!(alive.len(), left);
        let t = *ctx::pick(&alive);
        ctx::ev("dispatch", t as u64, 0);
        wake(t);
        wait(MAIN);
        // The finished thread's destructors run before anyone else does.
        let d = DONE.load(SeqCst) as usize;
        handles[d].take().unwrap().join().ok();
    }
}

struct AnySend<T>(T);
unsafe impl<T> Send for AnySend<T> {}
impl<T> AnySend<T> { fn into(self) -> T { self.0 } }
static GO: AtomicU32 = AtomicU32::new(0);
/// Runs `f` on another OS thread, as the same task, while this one waits.
pub fn hop(f: impl FnOnce()) {
    let m = ME.with(|c| c.get());
    ctx::cnt(C::p_hop);
    let f = AnySend(f);
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || {
            while GO.load(SeqCst) == 0 { unsafe { crate::os::raw_futex_wait(&GO, 0) }; }
            GO.store(0, SeqCst);
            ME.with(|c| c.set(m));
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.into())).is_err() {
                ctx::harness_error(&format!("panic in the harness: {}", ctx::last_panic()));
            }
            ME.with(|c| c.set(usize::MAX));
        }).expect("spawn");
        GO.store(1, SeqCst);
        unsafe { crate::os::raw_futex_wake(&GO) };
        h.join().ok();
    });
}
static DONE: AtomicU32 = AtomicU32::new(0);
