//! Control of the entropy the system under test draws.
//!
//! ring's `SystemRandom` asks the kernel with `syscall(SYS_getrandom, ..)`. This binary
//! defines the symbols `syscall` and `getrandom` itself, so that a thread can serve these
//! requests from a deterministic stream. The ephemeral keys and the random seeds of a case are
//! then a function of the case, a failure replays exactly, and a case can choose the keys.
//! Threads that installed no stream get real kernel randomness.

use std::cell::Cell;

#[derive(Clone, Copy)]
struct Stream {
    on: bool,
    state: u64,
    served: u64,
    calls: u64,
    fixed: [u8; 64],
    fixed_len: usize,
    fixed_pos: usize,
}

thread_local! {
    static STREAM: Cell<Stream> = const { Cell::new(Stream {
        on: false, state: 0, served: 0, calls: 0, fixed: [0; 64], fixed_len: 0, fixed_pos: 0,
    }) };
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// The standard library draws the keys of hash tables once per thread, when the first one is made.
/// That is done with before any stream is served, so that it takes nothing from it.
fn warm_up() {
    drop(std::collections::hash_map::RandomState::new());
}

/// From now on this thread's entropy is the stream of `seed`.
pub fn set(seed: u64) {
    warm_up();
    STREAM.with(|c| {
        c.set(Stream {
            on: true,
            state: seed ^ 0x5EED_5EED_5EED_5EED,
            served: 0,
            calls: 0,
            fixed: [0; 64],
            fixed_len: 0,
            fixed_pos: 0,
        })
    });
}

/// The next bytes served are exactly these (at most 64), then the stream goes on.
pub fn push_fixed(bytes: &[u8]) {
    STREAM.with(|c| {
        let mut s = c.get();
        s.fixed[..bytes.len()].copy_from_slice(bytes);
        s.fixed_len = bytes.len();
        s.fixed_pos = 0;
        c.set(s);
    });
}

/// Real kernel randomness again.
pub fn off() {
    STREAM.with(|c| {
        let mut s = c.get();
        s.on = false;
        c.set(s);
    });
}

/// Number of bytes served to this thread since `set`.
pub fn served() -> u64 {
    STREAM.with(|c| c.get().served)
}

/// The stream of `seed` as bytes (what a thread gets after `set(seed)`).
pub fn bytes_of(seed: u64, n: usize) -> Vec<u8> {
    let mut st = seed ^ 0x5EED_5EED_5EED_5EED;
    (0..n).map(|_| (splitmix(&mut st) >> 24) as u8).collect()
}

/// Serves the request if this thread has a stream.
unsafe fn serve(buf: *mut u8, len: usize) -> bool {
    STREAM
        .try_with(|c| {
            let mut s = c.get();
            if !s.on {
                return false;
            }
            for i in 0..len {
                let b = if s.fixed_pos < s.fixed_len {
                    s.fixed_pos += 1;
                    s.fixed[s.fixed_pos - 1]
                } else {
                    (splitmix(&mut s.state) >> 24) as u8
                };
                unsafe { buf.add(i).write(b) };
            }
            s.served += len as u64;
            s.calls += 1;
            c.set(s);
            true
        })
        .unwrap_or(false)
}

const SYS_GETRANDOM: i64 = 318;

unsafe fn raw(n: i64, a1: i64, a2: i64, a3: i64, a4: i64, a5: i64, a6: i64) -> i64 {
    let ret: i64;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n => ret,
            in("rdi") a1, in("rsi") a2, in("rdx") a3,
            in("r10") a4, in("r8") a5, in("r9") a6,
            lateout("rcx") _, lateout("r11") _,
            options(nostack)
        );
    }
    ret
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = (-r) as i32 };
        -1
    } else {
        r
    }
}

/// Replaces libc's `syscall` for this program.
///
/// # Safety
/// As libc's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a1: i64, a2: i64, a3: i64, a4: i64, a5: i64, a6: i64) -> i64 {
    if n == SYS_GETRANDOM && unsafe { serve(a1 as *mut u8, a2 as usize) } {
        return a2;
    }
    unsafe { ret(raw(n, a1, a2, a3, a4, a5, a6)) }
}

/// Replaces libc's `getrandom` for this program.
///
/// # Safety
/// As libc's `getrandom`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if unsafe { serve(buf, len) } {
        return len as isize;
    }
    unsafe { ret(raw(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize }
}

/// Whether the override really feeds the system under test.
pub fn self_test() -> bool {
    set(12345);
    let a = pkstl::Seed32::random();
    set(12345);
    let b = pkstl::Seed32::random();
    set(12346);
    let c = pkstl::Seed32::random();
    off();
    let d = pkstl::Seed32::random();
    let e = pkstl::Seed32::random();
    a == b && a != c && d != e && d != a
}
