//! vreplay: runs a harness natively on concrete inputs found by the symbolic engine.
//!
//! usage: vreplay FILE    cases, each:
//!   case NAME FUNC P1,P2,..|-
//!   s HEX        next vp_sym value
//!   b HEXBYTES   next vp_bytes value
//!   end
//! Output per case: `case NAME`, then OUT/COVER/FAIL/PANIC/MISMATCH lines, then `done`.
#[path = "../../harness/src/codec.rs"]
mod codec;
#[path = "../../harness/src/coder.rs"]
mod coder;
#[path = "../../harness/src/hooks.rs"]
mod hooks;
#[path = "../../harness/src/mac.rs"]
mod mac;
#[path = "../../harness/src/msg.rs"]
mod msg;
#[path = "../../harness/src/small.rs"]
mod small;
#[path = "../../harness/src/spec.rs"]
mod spec;
#[path = "../../harness/src/vp.rs"]
mod vp;

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;

enum In {
    S(u64),
    B(Vec<u8>),
}
/// thrown to leave a case whose assumption does not hold
struct Stop;

static mut INPUTS: Vec<In> = Vec::new();
static mut AT: usize = 0;
static mut PARAMS: Vec<u64> = Vec::new();
static mut LOG: Vec<u8> = Vec::new();
static mut EXPECT: bool = false;

#[allow(static_mut_refs)]
fn say(k: &str, s: &str) {
    // the harness compares live allocation counts: logging must not change them
    let n = LIVE.load(Relaxed);
    unsafe {
        LOG.extend_from_slice(k.as_bytes());
        LOG.push(b' ');
        LOG.extend_from_slice(s.as_bytes());
        LOG.push(b'\n');
    }
    LIVE.store(n, Relaxed);
}
unsafe fn site(p: *const u8, n: usize) -> &'static str {
    std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn vp_sym(bits: u32) -> u64 {
    match INPUTS.get(AT) {
        Some(In::S(v)) => {
            AT += 1;
            if bits >= 64 {
                *v
            } else {
                *v & ((1 << bits) - 1)
            }
        }
        Some(_) => {
            say("MISMATCH", "input kind");
            0
        }
        None => {
            AT += 1;
            0
        }
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn vp_bytes(p: *mut u8, n: usize) {
    let o = std::slice::from_raw_parts_mut(p, n);
    match INPUTS.get(AT) {
        Some(In::B(v)) => {
            AT += 1;
            if v.len() != n {
                say("MISMATCH", "input length");
            }
            for (i, x) in o.iter_mut().enumerate() {
                *x = v.get(i).copied().unwrap_or(0);
            }
        }
        Some(_) => say("MISMATCH", "input kind"),
        None => {
            AT += 1;
            o.fill(0);
        }
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        say("MISMATCH", "assumption does not hold");
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
unsafe extern "C" fn vp_check(c: bool, p: *const u8, n: usize) {
    if !c {
        say("FAIL", site(p, n));
    }
}
#[no_mangle]
unsafe extern "C" fn vp_cover(p: *const u8, n: usize) {
    say("COVER", site(p, n));
}
#[no_mangle]
unsafe extern "C" fn vp_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn vp_param(i: u32) -> u64 {
    PARAMS.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
unsafe extern "C" fn vp_out(v: u64) {
    let n = LIVE.load(Relaxed);
    say("OUT", &v.to_string());
    LIVE.store(n, Relaxed);
}
#[no_mangle]
unsafe extern "C" fn vp_live() -> u64 {
    LIVE.load(Relaxed) as u64
}
#[no_mangle]
unsafe extern "C" fn vp_expect_panic(p: *const u8, n: usize) {
    EXPECT = true;
    say("EXPECT", site(p, n));
}

macro_rules! table {
    ($($m:ident::$f:ident),* $(,)?) => {
        fn lookup(n: &str) -> Option<fn()> {
            match n {
                $(stringify!($f) => Some($m::$f),)*
                _ => None,
            }
        }
    };
}
table!(
    codec::h_total, codec::h_chunk_dec, codec::h_trunc, codec::h_chunk_enc, codec::h_reuse_dec, codec::h_stream, codec::h_stream_enc, msg::h_extend,
    hooks::h_after, hooks::h_before, hooks::h_busy, hooks::h_drop, hooks::h_set_enc,
    coder::h_coder, coder::h_eq, coder::h_ids, mac::h_mi, mac::h_create, mac::h_burst, mac::h_mac_len, msg::h_dec, msg::h_enc, msg::h_header,
    small::h_ctor, small::h_types, small::h_tables, small::h_net, small::h_net_any,
    small::h_dispatch, small::h_single, small::h_big, small::h_big_mac, small::h_display,
);

fn flush() {
    #[allow(static_mut_refs)]
    unsafe {
        let _ = std::io::stdout().write_all(&LOG);
        let _ = std::io::stdout().flush();
        LOG.clear();
    }
}

#[allow(static_mut_refs)]
fn main() {
    let path = std::env::args().nth(1).expect("usage: vreplay FILE");
    let text = std::fs::read_to_string(&path).expect("readable case file");
    std::panic::set_hook(Box::new(|i| {
        let n = LIVE.load(Relaxed);
        if i.payload().downcast_ref::<Stop>().is_none() {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            say("PANIC", &format!("{} {}", at, i.to_string().replace('\n', " | ")));
        }
        LIVE.store(n, Relaxed);
    }));
    let run = move || {
        unsafe { LOG.reserve(1 << 22) };
        let mut func: Option<fn()> = None;
        for l in text.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("case") => unsafe {
                    let name = w.next().unwrap_or("?").to_string();
                    let f = w.next().unwrap_or("");
                    func = lookup(f);
                    PARAMS = match w.next() {
                        None | Some("-") => vec![],
                        Some(p) => p.split(',').map(|x| x.parse().unwrap()).collect(),
                    };
                    INPUTS = Vec::new();
                    AT = 0;
                    EXPECT = false;
                    say("case", &name);
                    if func.is_none() {
                        say("MISMATCH", "no such harness");
                    }
                },
                Some("s") => unsafe { INPUTS.push(In::S(u64::from_str_radix(w.next().unwrap(), 16).unwrap())) },
                Some("b") => unsafe {
                    let h = w.next().unwrap_or("").as_bytes();
                    INPUTS.push(In::B(h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()));
                },
                Some("end") => {
                    flush();
                    if let Some(f) = func {
                        let _ = std::panic::catch_unwind(f);
                    }
                    say("done", "");
                    flush();
                }
                _ => {}
            }
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
