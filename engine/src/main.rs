mod exec;
mod expr;
mod ir;
mod mem;
mod selftest;
mod lia;
mod z3;
use exec::*;
use std::collections::VecDeque;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs_js(v: &[(u32, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, v)| format!("[{},\"{}\"]", w, v)).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--selftest").unwrap_or(false) {
        let rounds = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(3000);
        match selftest::run(args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1), rounds) {
            Ok(n) => println!("simplifier self-test: {n} expressions agree"),
            Err(e) => {
                println!("simplifier self-test FAILED: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let mut ll = String::new();
    let mut out = String::new();
    let mut entry = String::new();
    let mut params = vec![];
    let mut time = 600.0f64;
    let mut max_steps = 3_000_000u64;
    let mut samples = 200usize;
    let mut seed = 1u64;
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut timeout_ms = 60_000u32;
    let mut trace = false;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--params" => params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--time" => time = v.parse().unwrap(),
            "--steps" => max_steps = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--threads" => threads = v.parse().unwrap(),
            "--query-timeout-ms" => timeout_ms = v.parse().unwrap(),
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m: &'static ir::Module = match ir::Module::load(&ll) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("cannot load IR: {}", e);
            std::process::exit(2);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let kinds: Arc<Vec<Intr>> = Arc::new(m.funcs.iter().map(|f| classify(&f.name, f.text.is_some())).collect());
    let cfg = Arc::new(Cfg {
        entry: entry.clone(),
        params: params.clone(),
        max_steps,
        deadline: t0 + Duration::from_secs_f64(time),
        samples,
        seed,
        timeout_ms,
        threads,
        trace,
    });
    let sh = Arc::new(Shared {
        queue: Mutex::new(VecDeque::from([Job { model: vec![], dec: vec![] }])),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        qlen: AtomicUsize::new(1),
        stop: AtomicBool::new(false),
        stats: Stats::default(),
        viols: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        reach: (0..256).map(|_| AtomicU64::new(0)).collect(),
        fns: m.funcs.iter().map(|_| AtomicBool::new(false)).collect(),
    });
    let mut hs = vec![];
    for id in 0..threads {
        let (kinds, sh, cfg) = (kinds.clone(), sh.clone(), cfg.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let sh2 = sh.clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut cx = Cx::new(m, kinds, sh, cfg, id as u64);
                        cx.worker();
                    }));
                    if r.is_err() {
                        sh2.errors.lock().map(|mut e| e.push(("engine worker panicked".into(), 1))).ok();
                        sh2.stop.store(true, Ordering::SeqCst);
                        sh2.cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let s = &sh.stats;
    let g = |a: &AtomicU64| a.load(Ordering::Relaxed);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"params\":{:?},\"paths\":{},\"assumed\":{},\"instructions\":{},\"forks\":{},\"decisions\":{},\"queries\":{},\"cached_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"load_s\":{:.3},\"unexplored\":{},\"max_call_depth\":{},\"max_symbols\":{},\"solver\":{}",
        js(&entry), params, g(&s.paths), g(&s.assumed), g(&s.instrs), g(&s.forks), g(&s.decisions), g(&s.queries), g(&s.cached), g(&s.sat), g(&s.unsat), g(&s.unknown),
        g(&s.solver_us) as f64 / 1e6, t0.elapsed().as_secs_f64(), load_s, g(&s.unexplored), g(&s.max_depth), g(&s.max_syms), js(&z3::version())
    );
    let errs = sh.errors.lock().unwrap();
    let e: Vec<String> = errs.iter().map(|(s, n)| format!("[{},{}]", js(s), n)).collect();
    let _ = write!(o, ",\"errors\":[{}]", e.join(","));
    let complete = errs.is_empty() && g(&s.unexplored) == 0 && g(&s.unknown) == 0;
    let _ = write!(o, ",\"complete\":{}", complete);
    let vs = sh.viols.lock().unwrap();
    let v: Vec<String> = vs
        .iter()
        .map(|(v, n)| {
            let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"count\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg), n, st.join(","), inputs_js(&v.inputs))
        })
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", v.join(","));
    let ss = sh.samples.lock().unwrap();
    let v: Vec<String> = ss
        .iter()
        .map(|s| {
            let out: Vec<String> = s.out.iter().map(|x| format!("\"{}\"", x)).collect();
            format!("{{\"inputs\":{},\"out\":[{}]}}", inputs_js(&s.inputs), out.join(","))
        })
        .collect();
    let _ = write!(o, ",\"samples\":[{}]", v.join(","));
    let r: Vec<String> = sh.reach.iter().enumerate().filter(|(_, x)| g(x) > 0).map(|(i, x)| format!("\"{}\":{}", i, g(x))).collect();
    let _ = write!(o, ",\"reach\":{{{}}}", r.join(","));
    let mut f: Vec<String> = m.funcs.iter().filter(|f| sh.fns[f.id as usize].load(Ordering::Relaxed)).map(|f| short(&f.name)).collect();
    f.sort();
    f.dedup();
    let f: Vec<String> = f.iter().map(|s| js(s)).collect();
    let _ = write!(o, ",\"functions\":[{}]}}", f.join(","));
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
