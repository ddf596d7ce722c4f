// Callers on threads of their own, of which exactly one runs at a time: at
// every allocation, release, access to an input and computation of an error
// text, a seeded choice decides who goes on.
use super::*;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

pub const NONE: usize = usize::MAX;
const MAX: usize = 8;

struct Sched {
    rng: u64,
    rate: u64,
    left: u64,
    turn: usize,
    alive: u32,
    switches: u32,
    points: u64,
    run: u64,   // points since the last switch
    waits: u64, // waits since the last point
    hash: u64,
}

static S: Mutex<Sched> = Mutex::new(Sched { rng: 0, rate: 0, left: 0, turn: NONE, alive: 0, switches: 0, points: 0, run: 0, waits: 0, hash: 0 });
static DONE: Condvar = Condvar::new();
static TID: [AtomicU64; MAX] = [const { AtomicU64::new(0) }; MAX];
static C: [Condvar; MAX] = [const { Condvar::new() }; MAX];

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

impl Sched {
    fn draw(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// One that is not this one, if there is one.
    fn other(&mut self, me: usize) -> usize {
        let all = self.alive;
        self.alive &= !(1 << me);
        let k = self.pick();
        self.alive = all;
        if k == NONE {
            me
        } else {
            k
        }
    }
    fn pick(&mut self) -> usize {
        let n = self.alive.count_ones() as u64;
        if n == 0 {
            return NONE;
        }
        let mut k = self.draw() % n;
        for i in 0..MAX {
            if self.alive >> i & 1 == 1 {
                if k == 0 {
                    return i;
                }
                k -= 1;
            }
        }
        NONE
    }
}

impl Sched {
    /// Hands the turn to another caller and waits for it to come back.
    fn pass(mut s: std::sync::MutexGuard<'static, Sched>, me: usize, next: usize) {
        s.switches += 1;
        s.run = 0;
        s.hash = (s.hash ^ s.points ^ (next as u64) << 56).wrapping_mul(0x100000001b3);
        s.turn = next;
        C[next].notify_one();
        while s.turn != me {
            s = C[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
}

/// The caller this thread is, and none while the scheduler works for it.
fn out_of_sight(f: impl FnOnce(usize)) {
    let Ok(me) = ME.try_with(|m| m.replace(NONE)) else { return };
    if me != NONE {
        f(me);
        ME.with(|m| m.set(me));
    }
}

/// A switch point.
pub fn point() {
    out_of_sight(|me| {
        let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
        // it was blocked, and others went on in the meantime
        while s.turn != me {
            s = C[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s.points += 1;
        s.run += 1;
        s.waits = 0;
        // one that goes round and round may be waiting for another
        let forced = s.run > 20000;
        if !forced && (s.left == 0 || s.draw() % s.rate != 0) {
            return;
        }
        let next = if forced { s.other(me) } else { s.pick() };
        if next == me {
            s.run = 0;
            return;
        }
        if !forced {
            s.left -= 1;
        }
        Sched::pass(s, me, next);
    })
}

/// Between the statements of the code under test.
#[no_mangle]
pub extern "C" fn verif_point() {
    point()
}

/// A caller that can go on only when another one has done something.
fn others() {
    out_of_sight(|me| {
        let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
        while s.turn != me {
            s = C[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s.waits += 1;
        if s.waits > 100_000 {
            eprintln!("the callers block each other for ever");
            unsafe { _exit(3) }
        }
        let next = s.other(me);
        if next != me {
            Sched::pass(s, me, next);
        }
    })
}

fn scheduled() -> bool {
    ME.try_with(|m| m.get()).unwrap_or(NONE) != NONE
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// The seam for waiting: locks, conditions and parking of the standard library
/// wait through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 && matches!(b & 127, 0 | 9) && scheduled() {
        let word = &*(a as *const std::sync::atomic::AtomicU32);
        if word.load(Ordering::SeqCst) != c as u32 {
            *__errno_location() = 11;
            return -1;
        }
        others();
        if d != 0 && word.load(Ordering::SeqCst) == c as u32 {
            *__errno_location() = 110;
            return -1;
        }
        return 0;
    }
    let mut r = n;
    std::arch::asm!("syscall", inout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if scheduled() {
        others();
    } else {
        std::arch::asm!("syscall", inout("rax") 24i64 => _, lateout("rcx") _, lateout("r11") _);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: usize, b: usize) -> i32 {
    clock_nanosleep(1, 0, a, b)
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, a: usize, b: usize) -> i32 {
    if scheduled() {
        others();
        return 0;
    }
    let mut r = 230i64;
    std::arch::asm!("syscall", inout("rax") r, in("rdi") clock as i64, in("rsi") flags as i64, in("rdx") a, in("r10") b, lateout("rcx") _, lateout("r11") _);
    -r as i32
}

extern "C" {
    fn gettid() -> i32;
}

fn sleeping(tid: u64) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    t.rsplit(')').next().unwrap_or("").trim_start().starts_with('S')
}

/// Waits until all callers are done. A caller that waits for something another
/// one holds loses its turn.
fn supervise() {
    let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
    let mut seen = (u64::MAX, NONE);
    let mut idle = 0;
    while s.alive != 0 {
        let (n, t) = DONE.wait_timeout(s, std::time::Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner());
        s = n;
        if !t.timed_out() {
            continue;
        }
        if s.turn == NONE || seen != (s.points, s.turn) || !sleeping(TID[s.turn].load(Ordering::SeqCst)) {
            seen = (s.points, s.turn);
            idle = 0;
            continue;
        }
        idle += 1;
        if idle > 500 {
            eprintln!("the callers block each other for ever");
            unsafe { _exit(3) }
        }
        if idle >= 2 && s.alive.count_ones() > 1 {
            let mut k = s.turn;
            loop {
                k = (k + 1) % MAX;
                if s.alive >> k & 1 == 1 {
                    break;
                }
            }
            s.turn = k;
            C[k].notify_one();
            seen.1 = k;
        }
    }
}

fn enter(me: usize) {
    TID[me].store(unsafe { gettid() } as u64, Ordering::SeqCst);
    let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
    while s.turn != me {
        s = C[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
    ME.with(|m| m.set(me));
}

fn leave(me: usize) {
    ME.with(|m| m.set(NONE));
    let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
    s.alive &= !(1 << me);
    if s.turn == me {
        s.turn = s.pick();
        if s.turn != NONE {
            C[s.turn].notify_one();
        }
    }
    if s.alive == 0 {
        DONE.notify_one();
    }
}

/// Input whose owner may be interrupted at every access.
struct Shared(Vec<u8>);
impl AsRef<[u8]> for Shared {
    fn as_ref(&self) -> &[u8] {
        point();
        &self.0
    }
}

#[derive(Debug)]
struct CallerError(String, bool);
impl std::fmt::Display for CallerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        point();
        let k = self.0.len() / 2;
        if self.0.is_char_boundary(k) {
            f.write_str(&self.0[..k])?;
            point();
            if self.1 {
                panic!("the caller's error fails");
            }
            return f.write_str(&self.0[k..]);
        }
        if self.1 {
            panic!("the caller's error fails");
        }
        f.write_str(&self.0)
    }
}
impl std::error::Error for CallerError {}

fn read<T: AsRef<[u8]>>(c: &mut Cursor<T>, wants: &[(u8, u8, u8)], out: &mut Vec<u8>) {
    for w in wants {
        match catch_unwind(AssertUnwindSafe(|| get(c, w.0, w.1, w.2))) {
            Ok(Ok((n, s))) => {
                ok(out);
                out.extend_from_slice(&n.to_le_bytes());
                blob(out, &s)
            }
            Ok(Err(e)) => fail(out, 1, &e),
            Err(p) => fail(out, 2, &panic_text(p)),
        }
    }
}

enum Op {
    Put(u8, u8, u8, u64, Vec<u8>, u8),
    Back(Vec<(u8, u8, u8)>),
    Read(Vec<u8>, Vec<(u8, u8, u8)>, u8),
    Clear,
}

fn wants(m: &mut Msg) -> Vec<(u8, u8, u8)> {
    (0..m.u16()).map(|_| (m.u8(), m.u8(), m.u8())).collect()
}

fn caller(cap: usize, ops: Vec<Op>) -> Vec<u8> {
    let mut out = Vec::new();
    let mut c = Cursor::new(Vec::with_capacity(cap));
    for o in ops {
        match o {
            Op::Put(k, key, sub, n, s, mode) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if k == 6 && mode > 0 {
                        (&mut c).encode_error(Box::new(CallerError(text(s), mode == 2))).map(|_| ()).map_err(|e| format!("{e:?}"))
                    } else {
                        put(&mut c, k, key, sub, n, s)
                    }
                }));
                match r {
                    Ok(Ok(())) => ok(&mut out),
                    Ok(Err(e)) => fail(&mut out, 1, &e),
                    Err(p) => fail(&mut out, 2, &panic_text(p)),
                }
            }
            Op::Back(w) => read(&mut Cursor::new(Shared(c.get_ref().clone())), &w, &mut out),
            Op::Read(b, w, k) => match k {
                0 => read(&mut Cursor::new(Shared(b)), &w, &mut out),
                1 => read(&mut Cursor::new(b), &w, &mut out),
                _ => read(&mut Cursor::new(&b[..]), &w, &mut out),
            },
            Op::Clear => {
                c.set_position(0);
                c.get_mut().clear();
            }
        }
        blob(&mut out, c.get_ref());
    }
    out
}

pub fn command(m: &mut Msg, out: &mut Vec<u8>) {
    let seed = m.u64();
    let rate = m.u32() as u64;
    let left = m.u32() as u64;
    let n = m.u8() as usize;
    let mut scripts = Vec::new();
    for _ in 0..n {
        m.u32(); // length of the script
        let cap = m.u32() as usize;
        let k = m.u16();
        let ops: Vec<Op> = (0..k)
            .map(|_| match m.u8() {
                0 => {
                    let (a, b, c, d) = (m.u8(), m.u8(), m.u8(), m.u64());
                    let s = m.blob();
                    Op::Put(a, b, c, d, s, m.u8())
                }
                1 => Op::Back(wants(m)),
                2 => {
                    let b = m.blob();
                    let w = wants(m);
                    Op::Read(b, w, m.u8())
                }
                _ => Op::Clear,
            })
            .collect();
        scripts.push((cap, ops));
    }
    *S.lock().unwrap_or_else(|e| e.into_inner()) = Sched { rng: seed, rate: rate.max(1), left, turn: NONE, alive: (1 << n) - 1, switches: 0, points: 0, run: 0, waits: 0, hash: 14695981039346656037 };
    let ts: Vec<_> = scripts
        .into_iter()
        .enumerate()
        .map(|(i, (cap, ops))| {
            std::thread::spawn(move || {
                enter(i);
                let r = caller(cap, ops);
                leave(i);
                r
            })
        })
        .collect();
    {
        let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
        s.turn = s.pick();
        C[s.turn].notify_one();
    }
    supervise();
    let rs: Vec<_> = ts.into_iter().map(|t| t.join()).collect();
    ok(out);
    {
        let s = S.lock().unwrap_or_else(|e| e.into_inner());
        out.extend_from_slice(&s.switches.to_le_bytes());
        out.extend_from_slice(&s.hash.to_le_bytes());
    }
    for r in rs {
        match r {
            Ok(b) => blob(out, &b),
            Err(_) => {
                eprintln!("HARNESS: caller thread died");
                unsafe { _exit(9) }
            }
        }
    }
}
