//! Native player: runs harness entries on concrete inputs against the real
//! code.  Jobs come on stdin, one per line: `entry|p,p,..|w:v,w:v,..`; for each
//! job a line `#i` is printed first, then
//! `status|message|out,out,..|reach,..|flags`.
#![allow(dead_code, static_mut_refs, unused_imports, elided_named_lifetimes, mismatched_lifetime_syntaxes)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

#[path = "../all.rs"]
mod all;
use all::{sym, *};

static LIVE: AtomicI64 = AtomicI64::new(0);
static QUIET: AtomicBool = AtomicBool::new(true);
struct A;
const MAGIC: u64 = 0x51ab_c0de_77aa_1234;
const DEAD: u64 = 0xdead_dead_dead_dead;
fn head(l: Layout) -> usize {
    l.align().max(32)
}
fn bad(m: &str) -> ! {
    let _ = std::io::stdout().flush();
    eprintln!("ALLOCATOR: {}", m);
    std::process::abort()
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let counted = !QUIET.load(SeqCst);
        let b = p.add(h);
        let w = b.sub(32) as *mut u64;
        w.write(MAGIC);
        w.add(1).write(l.size() as u64);
        w.add(2).write(l.align() as u64);
        w.add(3).write(counted as u64);
        if counted {
            LIVE.fetch_add(1, SeqCst);
        }
        b
    }
    unsafe fn dealloc(&self, b: *mut u8, l: Layout) {
        let h = head(l);
        let w = b.sub(32) as *mut u64;
        if w.read() != MAGIC {
            bad(if w.read() == DEAD { "double free" } else { "free of a pointer that is not an allocation" });
        }
        if w.add(1).read() != l.size() as u64 || w.add(2).read() != l.align() as u64 {
            bad("freed with a different layout");
        }
        if w.add(3).read() != 0 {
            LIVE.fetch_sub(1, SeqCst);
        }
        w.write(DEAD);
        System.dealloc(b.sub(h), Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)))
    }
}
#[global_allocator]
static GLOBAL: A = A;

pub fn live_allocs() -> u64 {
    LIVE.load(SeqCst) as u64
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.store(self.0, SeqCst);
        }
    }
    let _g = G(QUIET.swap(true, SeqCst));
    f()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let reg = registry();
    let stdin = std::io::stdin();
    for (i, line) in stdin.lock().lines().enumerate() {
        let line = line.unwrap();
        let mut f = line.split('|');
        let entry = f.next().unwrap_or("").to_string();
        let params: Vec<u64> = f.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let inputs: Vec<(u32, u64)> = f
            .next()
            .unwrap_or("")
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| {
                let (a, b) = s.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        let n = inputs.len();
        println!("#{}", i);
        std::io::stdout().flush().unwrap();
        let func = match reg.iter().find(|x| x.0 == entry) {
            Some(x) => x.1,
            None => {
                println!("noentry||||");
                continue;
            }
        };
        sym::imp::CTX.with(|c| {
            *c.borrow_mut() = sym::imp::Ctx { inputs, params, ..Default::default() };
        });
        QUIET.store(false, SeqCst);
        let r = std::panic::catch_unwind(|| func());
        QUIET.store(true, SeqCst);
        let (st, msg) = match r {
            Ok(()) => ("ok", String::new()),
            Err(e) => {
                if e.is::<sym::imp::Assumed>() {
                    ("assumed", String::new())
                } else if let Some(f) = e.downcast_ref::<sym::imp::Failed>() {
                    ("assert", f.0.to_string())
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    ("panic", s.to_string())
                } else if let Some(s) = e.downcast_ref::<String>() {
                    ("panic", s.clone())
                } else {
                    ("panic", "?".to_string())
                }
            }
        };
        sym::imp::CTX.with(|c| {
            let c = c.borrow();
            let o: Vec<String> = c.out.iter().map(|x| x.to_string()).collect();
            let rr: Vec<String> = c.reach.iter().map(|x| x.to_string()).collect();
            let flags = format!("{}{}", if c.exhausted { "E" } else { "" }, if c.pos < n { "U" } else { "" });
            println!("{}|{}|{}|{}|{}", st, msg.replace('\n', " ").replace('|', "/"), o.join(","), rr.join(","), flags);
        });
        std::io::stdout().flush().unwrap();
    }
}
