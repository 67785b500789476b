//! Control of the time the system under test sees.
//!
//! Nothing pkstl promises depends on how much time passes between two calls, so in half of the cases
//! the clocks run fast: every look at the time, from the second on, comes milliseconds to years after the one
//! before. This binary defines the symbol `clock_gettime` itself; threads that did not ask for fast
//! clocks, and the clocks of processor time, see what the kernel says.

use std::cell::Cell;

#[derive(Clone, Copy)]
struct Time {
    fast: bool,
    state: u64,
    ahead_ms: u64,
    looks: u64,
}

thread_local! {
    static TIME: Cell<Time> = const { Cell::new(Time { fast: false, state: 0, ahead_ms: 0, looks: 0 }) };
}

/// From now on time runs fast on this thread, in steps that are a function of `seed`.
pub fn fast(seed: u64) {
    TIME.with(|c| c.set(Time { fast: true, state: seed, ahead_ms: 0, looks: 0 }));
}

/// The time of the kernel again.
pub fn off() {
    TIME.with(|c| {
        let mut t = c.get();
        t.fast = false;
        c.set(t);
    });
}

/// How often this thread looked at a fast clock since `fast`.
pub fn looks() -> u64 {
    TIME.with(|c| c.get().looks)
}

fn ahead() -> Option<u64> {
    TIME.try_with(|c| {
        let mut t = c.get();
        if !t.fast {
            return None;
        }
        t.looks += 1;
        t.state = t.state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = t.state >> 33;
        t.ahead_ms += 10u64.pow((r % 12) as u32) * (1 + (r >> 8) % 3);
        c.set(t);
        Some(t.ahead_ms)
    })
    .ok()
    .flatten()
}

/// Replaces libc's `clock_gettime` for this program.
///
/// # Safety
/// As libc's `clock_gettime`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32 {
    const SYS_CLOCK_GETTIME: i64 = 228;
    let r = unsafe { crate::entropy::syscall(SYS_CLOCK_GETTIME, clock as i64, t as i64, 0, 0, 0, 0) };
    // CLOCK_REALTIME, CLOCK_MONOTONIC and their raw, coarse and boot time forms
    if r == 0 && matches!(clock, 0 | 1 | 4..=7 | 11) {
        if let Some(ms) = ahead() {
            unsafe { (*t)[0] += (ms / 1000) as i64 };
        }
    }
    r as i32
}

/// Whether the override reaches the standard library.
pub fn self_test() -> bool {
    use std::time::{Duration, Instant, SystemTime};
    let a = Instant::now();
    fast(7);
    let (b, c) = (Instant::now(), SystemTime::now());
    for _ in 0..20 {
        let _ = Instant::now();
    }
    let (d, e) = (Instant::now(), SystemTime::now());
    off();
    let f = a.elapsed();
    d > b && d - b > Duration::from_secs(86_400) && e.duration_since(c).is_ok_and(|x| x > Duration::from_secs(86_400)) && f < Duration::from_secs(60)
}
