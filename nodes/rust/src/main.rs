// Lock-step node: runs polyglot_rs on behalf of the simulator. Every run of
// the simulator is served by a freshly forked process.
use polyglot_rs::{Decoder, Encoder, Kind};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::{Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

struct Counting;
static TOTAL: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed);
        threads::point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed);
        threads::point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        TOTAL.fetch_add(n.saturating_sub(l.size()) as u64, Ordering::Relaxed);
        threads::point();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        threads::point();
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn total() -> u64 {
    TOTAL.load(Ordering::Relaxed)
}

/// The seam for randomness: std's hash maps seed themselves from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *p.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a;
    }
    n as isize
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn raise(sig: i32) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

fn kind(k: u8) -> Kind {
    Kind::from(k)
}

struct Msg(Vec<u8>, usize);
impl Msg {
    fn more(&self) -> bool {
        self.1 < self.0.len()
    }
    fn take(&mut self, n: usize) -> &[u8] {
        let s = self.1;
        self.1 += n;
        &self.0[s..s + n]
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn blob(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
}

fn blob(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}
fn ok(out: &mut Vec<u8>) {
    out.push(0)
}
fn fail(out: &mut Vec<u8>, code: u8, text: &str) {
    out.push(code);
    blob(out, text.as_bytes())
}

#[derive(Debug)]
struct TextError(String);
impl std::fmt::Display for TextError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TextError {}

fn text(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap_or_else(|_| {
        eprintln!("HARNESS: text is not UTF-8");
        unsafe { _exit(9) }
    })
}

fn put(c: &mut Cursor<Vec<u8>>, k: u8, key: u8, sub: u8, n: u64, s: Vec<u8>) -> Result<(), String> {
    let r = match k {
        0 => c.encode_none().map(|_| ()),
        1 => c.encode_array(n as u32 as usize, kind(sub)).map(|_| ()),
        2 => c.encode_map(n as u32 as usize, kind(key), kind(sub)).map(|_| ()),
        4 => c.encode_bytes(&s).map(|_| ()),
        5 => {
            let t = text(s);
            // both ways of passing text
            if n & 1 == 1 { c.encode_str(&t).map(|_| ()) } else { c.encode_string(&t).map(|_| ()) }
        }
        6 => c.encode_error(Box::new(TextError(text(s)))).map(|_| ()),
        7 => c.encode_bool(n != 0).map(|_| ()),
        8 => c.encode_u8(n as u8).map(|_| ()),
        9 => c.encode_u16(n as u16).map(|_| ()),
        10 => c.encode_u32(n as u32).map(|_| ()),
        11 => c.encode_u64(n).map(|_| ()),
        12 => c.encode_i32(n as i32).map(|_| ()),
        13 => c.encode_i64(n as i64).map(|_| ()),
        14 => c.encode_f32(f32::from_bits(n as u32)).map(|_| ()),
        15 => c.encode_f64(f64::from_bits(n)).map(|_| ()),
        _ => {
            eprintln!("HARNESS: kind");
            unsafe { _exit(9) }
        }
    };
    r.map_err(|e| format!("{e:?}"))
}

fn get<T: AsRef<[u8]>>(c: &mut Cursor<T>, k: u8, key: u8, sub: u8) -> Result<(u64, Vec<u8>), String> {
    let e = |e: polyglot_rs::DecodingError| format!("{e:?}");
    let v = Vec::new();
    Ok(match k {
        0 => {
            if c.decode_none() { (0, v) } else { return Err("not none".into()) }
        }
        1 => (c.decode_array(kind(sub)).map_err(e)? as u64, v),
        2 => (c.decode_map(kind(key), kind(sub)).map_err(e)? as u64, v),
        4 => (0, c.decode_bytes().map_err(e)?),
        5 => (0, c.decode_string().map_err(e)?.into_bytes()),
        6 => (0, c.decode_error().map_err(e)?.to_string().into_bytes()),
        7 => (c.decode_bool().map_err(e)? as u64, v),
        8 => (c.decode_u8().map_err(e)? as u64, v),
        9 => (c.decode_u16().map_err(e)? as u64, v),
        10 => (c.decode_u32().map_err(e)? as u64, v),
        11 => (c.decode_u64().map_err(e)?, v),
        12 => (c.decode_i32().map_err(e)? as i64 as u64, v),
        13 => (c.decode_i64().map_err(e)? as u64, v),
        14 => (c.decode_f32().map_err(e)?.to_bits() as u64, v),
        15 => (c.decode_f64().map_err(e)?.to_bits(), v),
        _ => {
            eprintln!("HARNESS: kind");
            unsafe { _exit(9) }
        }
    })
}

// Inputs of every owner type a caller may use.
enum In {
    Own(Cursor<Vec<u8>>),
    Ref(Cursor<&'static [u8]>),
    Boxed(Cursor<Box<[u8]>>),
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let t = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    format!("panic in Rust: {t}")
}

mod ext;
mod threads;

fn main() {
    unsafe {
        let lim = [3u64 << 30, 3u64 << 30];
        setrlimit(9, &lim); // address space
    }
    std::panic::set_hook(Box::new(|_| {}));
    loop {
        unsafe {
            let pid = fork();
            if pid == 0 {
                serve();
                _exit(1);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if st != 0 {
                if st & 0x7f != 0 {
                    raise(st & 0x7f);
                }
                _exit((st >> 8) & 0xff);
            }
        }
    }
}

fn serve() {
    let mut stdin = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(0) };
    let mut stdout = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1) };
    let mut encs: HashMap<u16, Cursor<Vec<u8>>> = HashMap::new();
    let mut decs: HashMap<u16, In> = HashMap::new();
    let mut st = ext::State::default();
    loop {
        let mut h = [0u8; 4];
        if stdin.read_exact(&mut h).is_err() {
            unsafe { _exit(7) }
        }
        let mut body = vec![0u8; u32::from_le_bytes(h) as usize];
        stdin.read_exact(&mut body).unwrap();
        let mut m = Msg(body, 0);
        let mut out: Vec<u8> = vec![0; 4];
        let mut bye = false;
        let mut base = 0;
        while m.more() {
            match m.u8() {
                1 => {
                    ok(&mut out);
                    bye = true;
                }
                2 => {
                    let h = m.u16();
                    let mode = m.u8();
                    let cap = m.u32() as usize;
                    let c = match mode {
                        0 => Cursor::new(Vec::with_capacity(512)),
                        1 => Cursor::new(Vec::with_capacity(cap)),
                        _ => {
                            // storage that held something before
                            let mut v = vec![0xee; cap];
                            v.clear();
                            Cursor::new(v)
                        }
                    };
                    encs.insert(h, c);
                    ok(&mut out)
                }
                3 => {
                    let h = m.u16();
                    let (k, key, sub, n) = (m.u8(), m.u8(), m.u8(), m.u64());
                    let s = m.blob();
                    let c = encs.get_mut(&h).unwrap();
                    match catch_unwind(AssertUnwindSafe(|| put(c, k, key, sub, n, s))) {
                        Ok(Ok(())) => ok(&mut out),
                        Ok(Err(e)) => fail(&mut out, 1, &e),
                        Err(p) => fail(&mut out, 2, &panic_text(p)),
                    }
                }
                4 => {
                    let h = m.u16();
                    let c = &encs[&h];
                    ok(&mut out);
                    blob(&mut out, c.get_ref())
                }
                5 => {
                    let h = m.u16();
                    encs.remove(&h);
                    ok(&mut out)
                }
                6 => {
                    let h = m.u16();
                    let b = m.blob();
                    let i = match h % 3 {
                        0 => In::Own(Cursor::new(b)),
                        1 => In::Ref(Cursor::new(Box::leak(b.into_boxed_slice()))),
                        _ => In::Boxed(Cursor::new(b.into_boxed_slice())),
                    };
                    decs.insert(h, i);
                    ok(&mut out)
                }
                7 => {
                    let h = m.u16();
                    let (k, key, sub) = (m.u8(), m.u8(), m.u8());
                    let d = decs.get_mut(&h).unwrap();
                    let r = catch_unwind(AssertUnwindSafe(|| match d {
                        In::Own(c) => get(c, k, key, sub),
                        In::Ref(c) => get(c, k, key, sub),
                        In::Boxed(c) => get(c, k, key, sub),
                    }));
                    match r {
                        Ok(Ok((n, s))) => {
                            ok(&mut out);
                            out.extend_from_slice(&n.to_le_bytes());
                            blob(&mut out, &s)
                        }
                        Ok(Err(e)) => fail(&mut out, 1, &e),
                        Err(p) => fail(&mut out, 2, &panic_text(p)),
                    }
                }
                8 => {
                    let h = m.u16();
                    decs.remove(&h);
                    ok(&mut out)
                }
                9 => {
                    ok(&mut out);
                    base = TOTAL.load(Ordering::Relaxed);
                }
                10 => {
                    let t = TOTAL.load(Ordering::Relaxed) - base;
                    ok(&mut out);
                    out.extend_from_slice(&t.to_le_bytes());
                }
                11 => threads::command(&mut m, &mut out),
                20 => {
                    // the caller moves its cursor
                    let h = m.u16();
                    let p = m.u32() as u64;
                    encs.get_mut(&h).unwrap().set_position(p);
                    ok(&mut out)
                }
                21 => {
                    // the caller writes bytes of its own
                    let h = m.u16();
                    let b = m.blob();
                    encs.get_mut(&h).unwrap().write_all(&b).unwrap();
                    ok(&mut out)
                }
                22 => {
                    let h = m.u16();
                    let p = encs[&h].position();
                    ok(&mut out);
                    out.extend_from_slice(&p.to_le_bytes());
                }
                c => ext::command(&mut st, c, &mut m, &mut out),
            }
        }
        let n = (out.len() - 4) as u32;
        out[..4].copy_from_slice(&n.to_le_bytes());
        if stdout.write_all(&out).is_err() {
            unsafe { _exit(7) }
        }
        if bye {
            unsafe { _exit(0) }
        }
    }
}
