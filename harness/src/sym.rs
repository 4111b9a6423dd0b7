//! Interface between harnesses and the machinery: symbolic inputs and
//! assertions under the engine, recorded inputs under the native player.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_u(bits: u32) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, m: *const u8, n: usize);
        fn sym_reach(id: u32);
        fn sym_out(v: u64);
        fn sym_param(i: u32) -> u64;
        fn sym_live() -> u64;
        fn sym_depth() -> u64;
        fn sym_peak() -> u64;
        fn sym_concrete(v: u64) -> u64;
    }
    #[inline]
    pub fn fill(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    #[inline]
    pub fn u(bits: u32) -> u64 {
        unsafe { sym_u(bits) }
    }
    #[inline]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[inline]
    pub fn check(c: bool, m: &'static str) {
        unsafe { sym_assert(c, m.as_ptr(), m.len()) }
    }
    #[inline]
    pub fn reach(id: u32) {
        unsafe { sym_reach(id) }
    }
    #[inline]
    pub fn out(v: u64) {
        unsafe { sym_out(v) }
    }
    #[inline]
    pub fn param(i: u32) -> u64 {
        unsafe { sym_param(i) }
    }
    #[inline]
    pub fn live() -> u64 {
        unsafe { sym_live() }
    }
    /// Current call depth (frames under the engine, bytes of stack natively).
    #[inline]
    pub fn depth() -> u64 {
        unsafe { sym_depth() }
    }
    /// Deepest stack since the last call.
    #[inline]
    pub fn peak() -> u64 {
        unsafe { sym_peak() }
    }
    /// Forks over all feasible values and returns a concrete one.
    #[inline]
    pub fn concrete(v: u64) -> u64 {
        unsafe { sym_concrete(v) }
    }
    /// Stack growth per level that is tolerated by `C20` (frames).
    pub const STACK_SLACK: u64 = 0;
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx {
        pub inputs: Vec<(u32, u64)>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub out: Vec<u64>,
        pub reach: Vec<u32>,
        pub exhausted: bool,
    }
    thread_local!(pub static CTX: RefCell<Ctx> = RefCell::default());
    pub struct Assumed;
    pub struct Failed(pub &'static str);

    fn next(bits: u32) -> u64 {
        let r = crate::quiet(|| {
            CTX.with(|c| {
                let c = &mut *c.borrow_mut();
                let r = match c.inputs.get(c.pos) {
                    Some(&(w, v)) => {
                        if w != bits {
                            c.exhausted = true;
                        }
                        v
                    }
                    None => {
                        c.exhausted = true;
                        0
                    }
                };
                c.pos += 1;
                r
            })
        });
        if bits >= 64 {
            r
        } else {
            r & ((1u64 << bits) - 1)
        }
    }
    pub fn fill(b: &mut [u8]) {
        for x in b {
            *x = next(8) as u8;
        }
    }
    pub fn u(bits: u32) -> u64 {
        next(bits)
    }
    pub fn assume(c: bool) {
        if !c {
            crate::quiet(|| std::panic::resume_unwind(Box::new(Assumed)));
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            crate::quiet(|| std::panic::resume_unwind(Box::new(Failed(m))));
        }
    }
    pub fn reach(id: u32) {
        crate::quiet(|| CTX.with(|c| c.borrow_mut().reach.push(id)))
    }
    pub fn out(v: u64) {
        crate::quiet(|| CTX.with(|c| c.borrow_mut().out.push(v)))
    }
    pub fn param(i: u32) -> u64 {
        CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    pub fn live() -> u64 {
        crate::live_allocs()
    }
    #[inline(never)]
    pub fn depth() -> u64 {
        let x = 0u8;
        u64::MAX - (std::hint::black_box(&x) as *const u8 as u64)
    }
    /// Bytes of stack used since the last call, found by painting.
    pub fn peak() -> u64 {
        const SIZE: usize = 1 << 20;
        #[inline(never)]
        fn scan() -> usize {
            let mut a = std::mem::MaybeUninit::<[u8; SIZE]>::uninit();
            let p = std::hint::black_box(a.as_mut_ptr() as *mut u8);
            let mut clean = 0;
            unsafe {
                while clean < SIZE && p.add(clean).read_volatile() == 0xa5 {
                    clean += 1;
                }
                for i in 0..SIZE {
                    p.add(i).write_volatile(0xa5);
                }
            }
            std::hint::black_box(&mut a);
            SIZE - clean
        }
        scan() as u64
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
    pub const STACK_SLACK: u64 = 32;
}

pub use imp::{assume, check, concrete, depth, fill, live, out, param, peak, reach, u, STACK_SLACK};

/// One of `0..n`, as a concrete value (forks).
pub fn choose(n: u64) -> u64 {
    let bits = if n <= 2 { 1 } else if n <= 4 { 2 } else if n <= 8 { 3 } else if n <= 16 { 4 } else if n <= 32 { 5 } else { 8 };
    let v = u(bits);
    if n != 1 << bits {
        assume(v < n);
    }
    concrete(v)
}
pub fn boolean() -> bool {
    u(1) != 0
}
pub fn byte() -> u8 {
    u(8) as u8
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
/// A symbolic decimal digit (ASCII), with a structurally bounded encoding.
pub fn digit() -> u8 {
    b'0' + ((u(4) * 10) >> 4) as u8
}
/// `p` with the default `d` when the parameter is not given (0).
pub fn param_or(i: u32, d: u64) -> u64 {
    let p = param(i);
    if p == 0 {
        d
    } else {
        p
    }
}
/// Outputs the bytes of a string (length first).
pub fn out_bytes(b: &[u8]) {
    out(b.len() as u64);
    for &x in b {
        out(x as u64);
    }
}
/// Branch-free logical connectives (no short-circuit, no forks).
pub fn and(a: bool, b: bool) -> bool {
    a & b
}
pub fn or(a: bool, b: bool) -> bool {
    a | b
}
/// Branch-free byte-string equality for strings of concrete length.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// A string of symbolic Unicode scalar values encoded to UTF-8; every scalar
/// value below `limit` is possible for each character.  The encoded length of
/// each character is concrete (forked).
pub fn string(nchars: u64) -> String {
    let mut s = Vec::new();
    for _ in 0..nchars {
        push_char(&mut s);
    }
    unsafe { String::from_utf8_unchecked(s) }
}
pub fn push_char(s: &mut Vec<u8>) {
    match choose(4) {
        0 => {
            let c = u(8);
            assume(c < 0x80);
            s.push(c as u8);
        }
        1 => {
            let c = u(16);
            assume((c >= 0x80) & (c < 0x800));
            s.push((0xc0 | (c >> 6)) as u8);
            s.push((0x80 | (c & 0x3f)) as u8);
        }
        2 => {
            let c = u(16);
            assume((c >= 0x800) & !((c >= 0xd800) & (c < 0xe000)));
            s.push((0xe0 | (c >> 12)) as u8);
            s.push((0x80 | ((c >> 6) & 0x3f)) as u8);
            s.push((0x80 | (c & 0x3f)) as u8);
        }
        _ => {
            let c = u(32);
            assume((c >= 0x10000) & (c < 0x110000));
            s.push((0xf0 | (c >> 18)) as u8);
            s.push((0x80 | ((c >> 12) & 0x3f)) as u8);
            s.push((0x80 | ((c >> 6) & 0x3f)) as u8);
            s.push((0x80 | (c & 0x3f)) as u8);
        }
    }
}
/// A symbolic `char` (any Unicode scalar value).
pub fn character() -> char {
    let c = u(32);
    assume((c < 0xd800) | ((c >= 0xe000) & (c < 0x110000)));
    unsafe { char::from_u32_unchecked(c as u32) }
}
