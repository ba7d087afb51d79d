//! Seams below the code under test: the random source, the clock and the allocator.
//!
//! The random source and the clock are intercepted at their libc symbols (`syscall`, `getrandom`,
//! `clock_gettime`), which this executable defines itself; nothing in /repo is changed for that.
//! All of it is thread local and off outside a simulation.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

extern "C" {
    fn __errno_location() -> *mut i32;
    fn alarm(s: u32) -> u32;
}

// ---------------------------------------------------------------- watchdog

static LIMIT: AtomicU32 = AtomicU32::new(0);
/// From here on no single call may take longer than this many seconds (of real time).
pub fn limit(s: u32) {
    LIMIT.store(s, Ordering::Relaxed);
    beat();
}
/// The run makes progress: a run may be as long as it likes, only a call that does not end is a hang.
pub fn beat() {
    let s = LIMIT.load(Ordering::Relaxed);
    if s > 0 {
        unsafe {
            alarm(s);
        }
    }
}

// ---------------------------------------------------------------- entropy

/// One scripted answer of the random source.
pub const E_OK: u8 = 0;
pub const E_EINTR: u8 = 1;
pub const E_SHORT1: u8 = 2;
pub const E_EIO: u8 = 3;
pub const E_ENOSYS: u8 = 4;
pub const E_SHORTHALF: u8 = 5;
pub const E_EAGAIN: u8 = 6;

const SCRIPT_MAX: usize = 24;

thread_local! {
    static ENT_ON: Cell<bool> = const { Cell::new(false) };
    static ENT_SEED: Cell<u64> = const { Cell::new(0) };
    static ENT_POS: Cell<u64> = const { Cell::new(0) };
    static ENT_XPOS: Cell<u64> = const { Cell::new(u64::MAX) };
    static ENT_XBIT: Cell<u8> = const { Cell::new(0) };
    static ENT_SCRIPT: Cell<[u8; SCRIPT_MAX]> = const { Cell::new([0; SCRIPT_MAX]) };
    static ENT_SLEN: Cell<usize> = const { Cell::new(0) };
    static ENT_SPOS: Cell<usize> = const { Cell::new(0) };
    static ENT_FIRED: Cell<[u32; 8]> = const { Cell::new([0; 8]) };
    static ENT_CALLS: Cell<u64> = const { Cell::new(0) };

    static CLK_ON: Cell<bool> = const { Cell::new(false) };
    static CLK_NS: Cell<u64> = const { Cell::new(0) };

    static MEM_ON: Cell<bool> = const { Cell::new(false) };
    static MEM_CUR: Cell<i64> = const { Cell::new(0) };
    static MEM_PEAK: Cell<i64> = const { Cell::new(0) };
    static MEM_BIGGEST: Cell<usize> = const { Cell::new(0) };

    static SCAN_LEN: Cell<usize> = const { Cell::new(0) };
    static SCAN_NEEDLE: Cell<[u8; 64]> = const { Cell::new([0; 64]) };
    static SCAN_BOX: Cell<usize> = const { Cell::new(0) };
    static SCAN_LIVE: Cell<([(usize, usize, usize); 8], usize)> = const { Cell::new(([(0, 0, 0); 8], 0)) };
    static SCAN_HITS: Cell<u32> = const { Cell::new(0) };
    static SCAN_BYTES: Cell<u64> = const { Cell::new(0) };

    static KEY_ON: Cell<bool> = const { Cell::new(false) };
    static KEY: Cell<[u8; 32]> = const { Cell::new([0; 32]) };
    static KEY_FREED: Cell<u32> = const { Cell::new(0) };
    static KEY_N: Cell<usize> = const { Cell::new(0) };
    static KEY_BLOCKS: std::cell::UnsafeCell<[(usize, usize); 256]> = const { std::cell::UnsafeCell::new([(0, 0); 256]) };
}

fn stream_byte(seed: u64, pos: u64) -> u8 {
    let mut x = seed ^ (pos / 8).wrapping_mul(0xA24B_AED4_963E_E407);
    let w = crate::rng::splitmix(&mut x);
    (w >> (8 * (pos % 8))) as u8
}

/// Start serving simulated entropy: a pure function of `seed`, byte by byte.
pub fn entropy_begin(seed: u64, script: &[u8]) {
    ENT_SEED.with(|c| c.set(seed));
    ENT_POS.with(|c| c.set(0));
    ENT_CALLS.with(|c| c.set(0));
    let mut s = [0u8; SCRIPT_MAX];
    let n = script.len().min(SCRIPT_MAX);
    s[..n].copy_from_slice(&script[..n]);
    ENT_SCRIPT.with(|c| c.set(s));
    ENT_SLEN.with(|c| c.set(n));
    ENT_SPOS.with(|c| c.set(0));
    ENT_FIRED.with(|c| c.set([0; 8]));
    ENT_XPOS.with(|c| c.set(u64::MAX));
    ENT_ON.with(|c| c.set(true));
}
/// Flip one bit of one byte of the stream started by `entropy_begin`.
pub fn entropy_flip(pos: u64, bit: u8) {
    ENT_XPOS.with(|c| c.set(pos));
    ENT_XBIT.with(|c| c.set(bit));
}
/// Stop. Returns (bytes served, how often each scripted answer fired).
pub fn entropy_end() -> (u64, [u32; 8]) {
    ENT_ON.with(|c| c.set(false));
    (ENT_POS.with(Cell::get), ENT_FIRED.with(Cell::get))
}

/// None: not simulated. Some(Ok(n)) / Some(Err(errno)).
fn sim_getrandom(buf: *mut u8, len: usize) -> Option<Result<usize, i32>> {
    if !ENT_ON.with(Cell::get) {
        return None;
    }
    ENT_CALLS.with(|c| c.set(c.get() + 1));
    if ENT_CALLS.with(Cell::get) > 100_000 {
        return Some(Err(5)); // a caller that loops for ever on EINTR is broken: let it see EIO
    }
    let sp = ENT_SPOS.with(Cell::get);
    let mut n = len;
    if sp < ENT_SLEN.with(Cell::get) {
        ENT_SPOS.with(|c| c.set(sp + 1));
        let code = ENT_SCRIPT.with(Cell::get)[sp];
        let mut f = ENT_FIRED.with(Cell::get);
        f[code as usize & 7] += 1;
        ENT_FIRED.with(|c| c.set(f));
        match code {
            E_EINTR => return Some(Err(4)),
            E_EIO => return Some(Err(5)),
            E_ENOSYS => return Some(Err(38)),
            E_EAGAIN => return Some(Err(11)),
            E_SHORT1 => n = n.min(1),
            E_SHORTHALF => n = (n + 1) / 2,
            _ => {}
        }
    }
    let seed = ENT_SEED.with(Cell::get);
    let pos = ENT_POS.with(Cell::get);
    let xpos = ENT_XPOS.with(Cell::get);
    let xbit = ENT_XBIT.with(Cell::get);
    for i in 0..n {
        let p = pos + i as u64;
        let mut b = stream_byte(seed, p);
        if p == xpos {
            b ^= 1 << (xbit & 7);
        }
        unsafe { *buf.add(i) = b };
    }
    ENT_POS.with(|c| c.set(pos + n as u64));
    Some(Ok(n))
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}
unsafe fn raw_errno(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

/// libc's `syscall`: ring asks for random bytes through it.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 {
        match sim_getrandom(a as *mut u8, b as usize) {
            Some(Ok(k)) => return k as i64,
            Some(Err(errno)) => {
                *__errno_location() = errno;
                return -1;
            }
            None => {}
        }
    }
    raw_errno(n, a, b, c, d, e, f)
}
/// libc's `getrandom`: std's hash seeds come from it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match sim_getrandom(buf, len) {
        Some(Ok(k)) => k as isize,
        Some(Err(errno)) => {
            *__errno_location() = errno;
            -1
        }
        None => raw_errno(318, buf as i64, len as i64, i64::from(flags), 0, 0, 0) as isize,
    }
}

// ---------------------------------------------------------------- clock

/// libc's `clock_gettime`: the simulated clock while a simulation runs.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if CLK_ON.with(Cell::get) {
        let ns = CLK_NS.with(Cell::get);
        (*ts)[0] = (ns / 1_000_000_000) as i64;
        (*ts)[1] = (ns % 1_000_000_000) as i64;
        return 0;
    }
    raw_errno(228, i64::from(clk), ts as i64, 0, 0, 0, 0) as i32
}
pub fn clock_set(on: bool, ns: u64) {
    CLK_NS.with(|c| c.set(ns));
    CLK_ON.with(|c| c.set(on));
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

/// A single request above this size is refused while a simulated call runs (the sandbox has no swap).
const REFUSE: usize = 3 << 30;

#[inline]
fn account(delta: i64, size: usize) {
    let cur = MEM_CUR.with(|c| {
        let v = c.get() + delta;
        c.set(v);
        v
    });
    MEM_PEAK.with(|c| {
        if cur > c.get() {
            c.set(cur)
        }
    });
    MEM_BIGGEST.with(|c| {
        if size > c.get() {
            c.set(size)
        }
    });
}

/// The longest piece of the needle that must not be found in any released block.
const RUN: usize = 24;

unsafe fn scan(p: *const u8, len: usize) {
    let nlen = SCAN_LEN.with(Cell::get);
    SCAN_BYTES.with(|c| c.set(c.get() + len as u64));
    let needle = SCAN_NEEDLE.with(Cell::get);
    let block = std::slice::from_raw_parts(p, len);
    let mut hits = 0;
    if p as usize == SCAN_BOX.with(Cell::get) {
        // the handle itself: at the places where its key was
        let (live, n) = SCAN_LIVE.with(Cell::get);
        for &(at, off, plen) in &live[..n] {
            let mut o = 0;
            while o + 8 <= plen {
                if at + o + 8 <= len && block[at + o..at + o + 8] == needle[off + o..off + o + 8] {
                    hits += 1;
                }
                o += 4;
            }
        }
    } else if len >= RUN.min(nlen) {
        // anything else: a long enough piece of it anywhere
        let run = RUN.min(nlen);
        for w in block.windows(run) {
            let mut o = 0;
            while o + run <= nlen {
                if w == &needle[o..o + run] {
                    hits += 1;
                }
                o += 1;
            }
        }
    }
    if hits > 0 {
        SCAN_HITS.with(|c| c.set(c.get() + hits));
    }
}

// Copies of a session key on the heap: blocks that hold one when a call on an endpoint of that
// session releases them, or that such a call leaves behind.
const KEPT_MAX: usize = 256;
#[allow(clippy::declare_interior_mutable_const)]
const NOTHING: AtomicUsize = AtomicUsize::new(0);
static KEPT: [AtomicUsize; KEPT_MAX] = [NOTHING; KEPT_MAX];
static KEPT_N: AtomicUsize = AtomicUsize::new(0);

unsafe fn fresh(p: *mut u8, from: usize, to: usize) {
    if !p.is_null() && from < to {
        std::ptr::write_bytes(p.add(from), 0, to - from);
    }
}
unsafe fn has_key(p: usize, len: usize) -> bool {
    let k = KEY.with(Cell::get);
    let b = std::slice::from_raw_parts(p as *const u8, len);
    len >= 24 && b.windows(24).any(|w| w[0] == k[4] && w == &k[4..28])
}
#[inline]
fn key_alloc(p: *mut u8, len: usize) {
    if KEY_ON.with(Cell::get) && MEM_ON.with(Cell::get) && (24..=4096).contains(&len) {
        let n = KEY_N.with(Cell::get);
        if n < 256 {
            // SAFETY: of this thread only, and not kept
            KEY_BLOCKS.with(|t| unsafe { (*t.get())[n] = (p as usize, len) });
            KEY_N.with(|c| c.set(n + 1));
        }
    }
}
#[inline]
unsafe fn key_dealloc(p: *mut u8, len: usize) {
    if KEPT_N.load(Ordering::Relaxed) > 0 {
        for k in &KEPT {
            let _ = k.compare_exchange(p as usize, 0, Ordering::Relaxed, Ordering::Relaxed);
        }
    }
    if KEY_ON.with(Cell::get) && MEM_ON.with(Cell::get) && (24..=4096).contains(&len) {
        let n = KEY_N.with(Cell::get);
        KEY_BLOCKS.with(|t| {
            let t = &mut *t.get();
            if let Some(i) = t[..n].iter().rposition(|x| x.0 == p as usize) {
                t[i] = t[n - 1];
                KEY_N.with(|c| c.set(n - 1));
            }
        });
        if has_key(p as usize, len) {
            KEY_FREED.with(|c| c.set(c.get() + 1));
        }
    }
}
/// From now on watch what simulated calls on this thread do with this key.
pub fn key_watch(k: &[u8]) {
    let mut b = [0; 32];
    b.copy_from_slice(&k[..32]);
    KEY.with(|c| c.set(b));
    KEY_FREED.with(|c| c.set(0));
    KEY_N.with(|c| c.set(0));
    KEY_ON.with(|c| c.set(true));
}
pub fn key_idle() {
    KEY_FREED.with(|c| c.set(0));
    KEY_N.with(|c| c.set(0));
    KEY_ON.with(|c| c.set(false));
}
/// (blocks released with the key in them, blocks with the key in them that are left)
pub fn key_seen() -> (u32, Vec<usize>) {
    KEY_ON.with(|c| c.set(false));
    let n = KEY_N.with(Cell::get);
    // SAFETY: the blocks in the table have not been released
    let v = KEY_BLOCKS.with(|t| unsafe { (*t.get())[..n].iter().filter(|(p, l)| has_key(*p, *l)).map(|x| x.0).collect() });
    (KEY_FREED.with(Cell::get), v)
}
/// Remember that this block is alive.
pub fn kept(p: usize) {
    for k in &KEPT {
        if k.compare_exchange(0, p, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
            KEPT_N.fetch_add(1, Ordering::Relaxed);
            return;
        }
    }
}
/// Is it still alive, and does it still hold the key?
pub fn still_there(p: usize, k: &[u8]) -> bool {
    let mut b = [0; 32];
    b.copy_from_slice(&k[..32]);
    KEY.with(|c| c.set(b));
    let alive = KEPT.iter().any(|k| k.load(Ordering::Relaxed) == p);
    // SAFETY: alive, and long enough: the smallest block of the allocator has 24 bytes
    alive && unsafe { has_key(p, malloc_usable_size(p)) }
}
extern "C" {
    fn malloc_usable_size(p: usize) -> usize;
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MEM_ON.with(Cell::get) {
            if l.size() > REFUSE {
                return std::ptr::null_mut();
            }
            account(l.size() as i64, l.size());
        }
        let p = System.alloc(l);
        if KEY_ON.with(Cell::get) {
            // what the block held before says nothing about its new owner
            fresh(p, 0, l.size());
        }
        key_alloc(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if SCAN_LEN.with(Cell::get) != 0 {
            scan(p, l.size());
        }
        if MEM_ON.with(Cell::get) {
            account(-(l.size() as i64), 0);
        }
        key_dealloc(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MEM_ON.with(Cell::get) {
            if l.size() > REFUSE {
                return std::ptr::null_mut();
            }
            account(l.size() as i64, l.size());
        }
        let p = System.alloc_zeroed(l);
        key_alloc(p, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if SCAN_LEN.with(Cell::get) != 0 {
            scan(p, l.size());
        }
        if MEM_ON.with(Cell::get) {
            if new > REFUSE {
                return std::ptr::null_mut();
            }
            account(new as i64 - l.size() as i64, new);
        }
        key_dealloc(p, l.size());
        let q = System.realloc(p, l, new);
        if KEY_ON.with(Cell::get) {
            fresh(q, l.size(), new);
        }
        key_alloc(q, new);
        q
    }
}

/// Measure allocation made by `f` on this thread: (result, peak bytes above the start).
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64) {
    MEM_CUR.with(|c| c.set(0));
    MEM_PEAK.with(|c| c.set(0));
    MEM_BIGGEST.with(|c| c.set(0));
    MEM_ON.with(|c| c.set(true));
    let r = f();
    MEM_ON.with(|c| c.set(false));
    (r, MEM_PEAK.with(Cell::get).max(0) as u64)
}

/// Look for pieces of `needle` (at most 64 bytes) in the blocks released by `f`: in the block at
/// address `own` at the places `live` (offset in the block, offset in the needle, length) only,
/// because bytes that belong to no live field hold whatever the stack held; anywhere in all the
/// others. Gives (hits, bytes looked at).
pub fn scanned(needle: &[u8], own: usize, live: &[(usize, usize, usize)], f: impl FnOnce()) -> (u32, u64) {
    let mut n = [0u8; 64];
    let len = needle.len().min(64);
    n[..len].copy_from_slice(&needle[..len]);
    let mut l = [(0usize, 0usize, 0usize); 8];
    let k = live.len().min(8);
    l[..k].copy_from_slice(&live[..k]);
    SCAN_NEEDLE.with(|c| c.set(n));
    SCAN_BOX.with(|c| c.set(own));
    SCAN_LIVE.with(|c| c.set((l, k)));
    SCAN_HITS.with(|c| c.set(0));
    SCAN_BYTES.with(|c| c.set(0));
    SCAN_LEN.with(|c| c.set(len));
    f();
    SCAN_LEN.with(|c| c.set(0));
    (SCAN_HITS.with(Cell::get), SCAN_BYTES.with(Cell::get))
}

/// Let ring decide for the getrandom system call once, before any fault can be injected.
pub fn warm_up() {
    use ring::rand::SecureRandom;
    let mut b = [0u8; 8];
    let _ = ring::rand::SystemRandom::new().fill(&mut b);
    warm_thread();
}
/// std draws the seeds of its hash maps once per thread: here, and always the same.
fn warm_thread() {
    entropy_begin(0x4A5, &[]);
    let _ = std::collections::hash_map::RandomState::new();
    entropy_end();
}

// ---------------------------------------------------------------- threads

type Job = Box<dyn FnOnce() + Send>;
static LANES: std::sync::Mutex<Vec<(u32, std::sync::mpsc::Sender<Job>)>> = std::sync::Mutex::new(Vec::new());

struct AnyPtr<T>(*mut T);
// SAFETY: the caller of `on_lane` waits until the other thread is done with it.
unsafe impl<T> Send for AnyPtr<T> {}

/// Run `f` on another thread of this process (a lasting one, number 1 or 2) and wait for it. Which
/// thread does what is the simulator's choice; never do two of them run at a time.
pub fn on_lane<T>(lane: usize, f: &mut dyn FnMut() -> T) -> T {
    let pid = std::process::id();
    let tx = {
        let mut l = LANES.lock().expect("lanes");
        if l.first().map_or(false, |x| x.0 != pid) {
            // forked since: those threads are not ours
            std::mem::forget(std::mem::take(&mut *l));
        }
        while l.len() < lane {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::spawn(move || {
                warm_thread();
                for j in rx {
                    j();
                }
            });
            l.push((pid, tx));
        }
        l[lane - 1].1.clone()
    };
    let (done, wait) = std::sync::mpsc::channel::<std::thread::Result<AnyPtr<T>>>();
    let mut f = f;
    let p = AnyPtr(&mut f as *mut &mut dyn FnMut() -> T as *mut ());
    let job = move || {
        let p = p;
        // SAFETY: see above
        let f = unsafe { &mut *(p.0 as *mut &mut dyn FnMut() -> T) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let _ = done.send(r.map(|v| AnyPtr(Box::into_raw(Box::new(v)))));
    };
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(job);
    // SAFETY: the job has ended before this function returns
    let job: Job = unsafe { std::mem::transmute(job) };
    tx.send(job).expect("lane");
    match wait.recv().expect("lane") {
        Ok(p) => *unsafe { Box::from_raw(p.0) },
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// The same on a thread made for it. (Whether the handles may change threads is not asked of the compiler.)
pub fn on_fresh<T>(f: &mut dyn FnMut() -> T) -> T {
    let mut f = f;
    let p = AnyPtr(&mut f as *mut &mut dyn FnMut() -> T as *mut ());
    let r = std::thread::scope(|sc| {
        sc.spawn(move || {
            warm_thread();
            let p = p;
            // SAFETY: the scope ends before `f` does
            let f = unsafe { &mut *(p.0 as *mut &mut dyn FnMut() -> T) };
            AnyPtr(Box::into_raw(Box::new(f())))
        })
        .join()
    });
    match r {
        Ok(p) => *unsafe { Box::from_raw(p.0) },
        Err(e) => std::panic::resume_unwind(e),
    }
}
