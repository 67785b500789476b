//! The allocator of this program. A thread can have it look for secrets in every block freed
//! while the system under test runs, and in the blocks it allocated then and never freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Scanner;

#[global_allocator]
static ALLOC: Scanner = Scanner;

const MAX_SECRETS: usize = 128;
const MAX_LIVE: usize = 8192;

struct Watch {
    on: bool,
    n: usize,
    /// Windows of eight bytes of secrets, in order, and the number of the window in its secret.
    secrets: [(u64, u8, u8); MAX_SECRETS],
    /// How many consecutive bytes of a secret count in a block of the heap.
    run: usize,
    first: [bool; 256],
    live: [(usize, usize); MAX_LIVE],
    live_n: usize,
    lost: u64,
    scanned: u64,
    blocks: u64,
    /// Which secret, in a block of which size, where.
    hit: Option<(u8, usize, usize)>,
    /// Whether what is allocated and freed counts.
    counting: bool,
    /// Bytes allocated less bytes freed while counting, the most it was, and the largest request.
    held: isize,
    peak: isize,
}

thread_local! {
    static WATCH: UnsafeCell<Watch> = const { UnsafeCell::new(Watch {
        on: false, n: 0, secrets: [(0, 0, 0); MAX_SECRETS], run: 8, first: [false; 256],
        live: [(0, 0); MAX_LIVE], live_n: 0, lost: 0, scanned: 0, blocks: 0, hit: None,
        counting: false, held: 0, peak: 0,
    }) };
}

fn watch<T>(f: impl FnOnce(&mut Watch) -> T) -> Option<T> {
    WATCH.try_with(|w| f(unsafe { &mut *w.get() })).ok()
}

impl Watch {
    /// At least so many consecutive bytes of one secret.
    fn look(&self, p: *const u8, len: usize, run: usize) -> Option<(u8, usize)> {
        if len < 8 || self.n == 0 {
            return None;
        }
        for i in 0..=len - 8 {
            let b = unsafe { p.add(i).read_volatile() };
            if !self.first[b as usize] {
                continue;
            }
            let at = |i: usize| {
                let mut w = [0u8; 8];
                for (k, x) in w.iter_mut().enumerate() {
                    *x = unsafe { p.add(i + k).read_volatile() };
                }
                u64::from_le_bytes(w)
            };
            let first = at(i);
            for k in 0..self.n {
                let (w, id, nth) = self.secrets[k];
                if w != first {
                    continue;
                }
                // the windows that follow, as long as the memory goes on with them
                let mut more = 0;
                while k + more + 1 < self.n
                    && self.secrets[k + more + 1].2 as usize == nth as usize + more + 1
                    && i + more + 1 + 8 <= len
                    && self.secrets[k + more + 1].0 == at(i + more + 1)
                {
                    more += 1;
                }
                if 8 + more >= run {
                    return Some((id, i));
                }
            }
        }
        None
    }
    fn count(&mut self, by: isize) {
        if self.counting {
            self.held += by;
            self.peak = self.peak.max(self.held);
        }
    }
    fn freed(&mut self, p: *mut u8, len: usize) {
        self.count(-(len as isize));
        if self.live_n > 0 {
            if let Some(i) = self.live[..self.live_n].iter().rposition(|x| x.0 == p as usize) {
                self.live_n -= 1;
                self.live[i] = self.live[self.live_n];
            }
        }
        if self.on {
            self.scanned += len as u64;
            self.blocks += 1;
            if self.hit.is_none() {
                if let Some((id, at)) = self.look(p, len, self.run) {
                    self.hit = Some((id, len, at));
                }
            }
        }
    }
    fn made(&mut self, p: *mut u8, len: usize) {
        self.count(len as isize);
        if self.on && !p.is_null() {
            if self.live_n < MAX_LIVE {
                self.live[self.live_n] = (p as usize, len);
                self.live_n += 1;
            } else {
                self.lost += 1;
            }
        }
    }
}

unsafe impl GlobalAlloc for Scanner {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        watch(|w| {
            w.made(p, l.size());
            // what this program left there before is not pkstl's doing
            if w.on && !p.is_null() {
                unsafe { p.write_bytes(0, l.size()) };
            }
        });
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        watch(|w| w.made(p, l.size()));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        watch(|w| w.freed(p, l.size()));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if watch(|w| w.on || w.live_n > 0).unwrap_or(false) {
            let new = unsafe { Layout::from_size_align_unchecked(size, l.align()) };
            let q = unsafe { self.alloc(new) };
            if !q.is_null() {
                unsafe {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
                    self.dealloc(p, l);
                }
            }
            q
        } else {
            watch(|w| w.count(size as isize - l.size() as isize));
            unsafe { System.realloc(p, l, size) }
        }
    }
}

/// Forgets everything.
pub fn reset() {
    watch(|w| {
        w.on = false;
        w.n = 0;
        w.run = 8;
        w.first = [false; 256];
        w.live_n = 0;
        w.lost = 0;
        w.scanned = 0;
        w.blocks = 0;
        w.hit = None;
    });
}

/// Only so many consecutive bytes of a secret count in blocks of the heap. Where pkstl moves a value with
/// padding or an unused variant to the heap, the bytes of the gaps are whatever the stack held.
pub fn only_runs_of(n: usize) {
    watch(|w| w.run = n);
}

/// Looks for all windows of eight bytes of this secret from now on.
pub fn secret(id: u8, s: &[u8]) {
    watch(|w| {
        for (i, x) in s.windows(8).enumerate() {
            if w.n < MAX_SECRETS {
                w.secrets[w.n] = (u64::from_le_bytes(x.try_into().unwrap()), id, i as u8);
                w.n += 1;
                w.first[x[0] as usize] = true;
            }
        }
    });
}

/// Runs a call of the system under test, watched.
pub fn on<T>(f: impl FnOnce() -> T) -> T {
    scrub();
    watch(|w| w.on = true);
    let r = f();
    watch(|w| w.on = false);
    r
}

/// Overwrites the stack below, so that no call finds what earlier ones left there.
#[inline(never)]
fn scrub() {
    let mut a = [0u8; 64 << 10];
    std::hint::black_box(&mut a);
}

/// What was found in a freed block: secret, size of the block, place.
pub fn hit() -> Option<(u8, usize, usize)> {
    watch(|w| w.hit).flatten()
}

/// Bytes and blocks looked at.
pub fn scanned() -> (u64, u64) {
    watch(|w| (w.scanned, w.blocks)).unwrap_or_default()
}

/// At least so many consecutive bytes of a secret in this memory.
pub fn find(p: *const u8, len: usize, run: usize) -> Option<(u8, usize)> {
    watch(|w| w.look(p, len, run)).flatten()
}

/// A secret in a block allocated while watched and not freed.
pub fn find_live() -> Option<(u8, usize, usize)> {
    watch(|w| {
        for i in 0..w.live_n {
            let (p, len) = w.live[i];
            if let Some((id, at)) = w.look(p as *const u8, len, w.run) {
                return Some((id, len, at));
            }
        }
        None
    })
    .flatten()
}

#[repr(C)]
struct PhdrInfo {
    addr: usize,
    name: *const std::ffi::c_char,
    phdr: *const Phdr,
    phnum: u16,
}

#[repr(C)]
struct Phdr {
    kind: u32,
    flags: u32,
    offset: u64,
    vaddr: u64,
    paddr: u64,
    filesz: u64,
    memsz: u64,
    align: u64,
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
    fn dl_iterate_phdr(
        f: extern "C" fn(*const PhdrInfo, usize, *mut (usize, usize)) -> i32,
        data: *mut (usize, usize),
    ) -> i32;
}

/// Size and alignment of the thread-local data of this program, which comes first in the list.
extern "C" fn first_program(info: *const PhdrInfo, _: usize, out: *mut (usize, usize)) -> i32 {
    unsafe {
        for k in 0..(*info).phnum as usize {
            let p = &*(*info).phdr.add(k);
            if p.kind == 7 {
                *out = (p.memsz as usize, (p.align as usize).max(1));
            }
        }
    }
    1
}

/// The variables of this program that live as long as it: the static ones, and those of this
/// thread, but for the ones of this module.
fn variables() -> [(usize, usize); 3] {
    let statics = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
    let mut tls = (0, 1);
    unsafe { dl_iterate_phdr(first_program, &mut tls) };
    let mine = watch(|w| w as *mut Watch as usize).unwrap_or(0);
    let tp: usize;
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("mov {}, fs:0", out(reg) tp)
    }
    #[cfg(not(target_arch = "x86_64"))]
    {
        tp = 0;
    }
    let begin = tp.wrapping_sub((tls.0 + tls.1 - 1) / tls.1 * tls.1);
    if tp == 0 || !(begin..tp).contains(&mine) {
        return [statics, (0, 0), (0, 0)];
    }
    [statics, (begin, mine), (mine + std::mem::size_of::<Watch>(), tp)]
}

/// A secret in a variable of the program or of this thread.
pub fn find_in_variables() -> Option<(u8, usize)> {
    let v = variables();
    watch(|w| v.iter().find_map(|(a, b)| w.look(*a as *const u8, b.saturating_sub(*a), w.run))).flatten()
}

/// How many bytes there are in the variables of the program, and of this thread.
pub fn variables_size() -> (usize, usize) {
    let [a, b, c] = variables();
    (a.1 - a.0, b.1 - b.0 + c.1 - c.0)
}

/// Counting starts at nothing.
pub fn count_from_zero() {
    watch(|w| (w.held, w.peak) = (0, 0));
}

/// Runs a call of the system under test, counted: what it needed at the most beyond what was
/// held before it.
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let before = watch(|w| {
        w.counting = true;
        w.peak = w.held;
        w.held
    })
    .unwrap_or(0);
    let r = f();
    let peak = watch(|w| {
        w.counting = false;
        w.peak
    })
    .unwrap_or(0);
    (r, peak - before)
}

/// Bytes allocated while counting and not freed.
pub fn held() -> isize {
    watch(|w| w.held).unwrap_or(0)
}
