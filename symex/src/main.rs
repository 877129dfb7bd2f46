mod exec;
mod expr;
mod ir;
mod mem;
mod lin;
mod poly;
mod z3;
use exec::*;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    // symex MODULE.ll --harness NAME --params a,b --out FILE --jobs N --time SECS [--real] ...
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new(); let mut harness = String::new(); let mut params = vec![]; let mut out = String::from("/dev/stdout");
    let mut jobs = 1usize; let mut time = 600f64; let mut real = false; let mut rlimit = 30_000_000u32; let mut max_instr = 50_000_000u64; let mut ite = 16usize; let mut every = 1u64; let mut nsamp = 20usize; let mut max_frames = 3000usize;
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--harness" => { harness = nx(); i += 1; }
            "--params" => { params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<i64>().unwrap()).collect(); i += 1; }
            "--out" => { out = nx(); i += 1; }
            "--jobs" => { jobs = nx().parse().unwrap(); i += 1; }
            "--time" => { time = nx().parse().unwrap(); i += 1; }
            "--real" => real = true,
            "--inc-rlimit" => { z3::INC_RLIMIT.store(nx().parse().unwrap(), std::sync::atomic::Ordering::Relaxed); i += 1; }
            "--rlimit" => { rlimit = nx().parse().unwrap(); i += 1; }
            "--max-instr" => { max_instr = nx().parse().unwrap(); i += 1; }
            "--max-frames" => { max_frames = nx().parse().unwrap(); i += 1; }
            "--ite" => { ite = nx().parse().unwrap(); i += 1; }
            "--sample-every" => { every = nx().parse().unwrap(); i += 1; }
            "--samples" => { nsamp = nx().parse().unwrap(); i += 1; }
            "--sat" => { z3::USE_SAT.store(true, std::sync::atomic::Ordering::Relaxed); z3::INC_RLIMIT.store(100_000, std::sync::atomic::Ordering::Relaxed); }
            f => file = f.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("module");
    // deep expression recursion needs a large stack
    let th = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let mut m = ir::parse(&text);
        drop(text);
        let (cp, mem, gaddr, exts, pool) = Exec::prepare(&mut m);
        let load = t0.elapsed().as_secs_f64();
        let tokens = if jobs > 1 { Some(Exec::setup_tokens(jobs - 1)) } else { None };
        let cfg = Config { params, deadline: Instant::now() + Duration::from_secs_f64(time), max_instr, max_frames, ite_limit: ite, real, rlimit, sample_every: every, max_samples: nsamp, tokens, out: out.clone(), conc_limit: 4096 };
        let me = std::process::id();
        let mut ex = Exec::new(&m, cp, pool, gaddr, exts, cfg);
        if let Err(e) = ex.start(&harness, mem) { eprintln!("{}", e); std::process::exit(3); }
        ex.run();
        ex.unused();
        // child processes write their part and leave
        let r = &ex.rep;
        let root = std::process::id() == me;
        let mut s = String::new();
        s.push_str(&format!("{{\"harness\":{},\"root\":{},\"paths\":{},\"killed\":{},\"assume_kills\":{},\"expected_panics\":{},\"instrs\":{},\"forks\":{},\"checks\":{},\"incomplete\":{},\"concretizations\":{},\"ite_access\":{},",
            esc(&harness), root, r.paths, r.killed, r.assume_kills, r.panics_expected, r.instrs, r.forks, r.checks, r.incomplete, r.concretizations, r.ite_access));
        s.push_str(&format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.2},\"wall_s\":{:.2},\"oneshot\":{},\"algebra\":{},\"z3\":{},", ex.s.stats.queries, ex.s.stats.sat, ex.s.stats.unsat, ex.s.stats.unknown, ex.s.stats.time, ex.s.stats.max, load, t0.elapsed().as_secs_f64(), ex.s.stats.oneshot, ex.alg.hits, esc(&z3::version())));
        s.push_str(&format!("\"errors\":{},", arr(&r.errors)));
        s.push_str(&format!("\"covers\":{{{}}},", r.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"labels\":{{{}}},", r.check_labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"violations\":[{}],", r.violations.iter().map(|v| format!("{{\"kind\":{},\"label\":{},\"count\":{},\"inputs\":{},\"trace\":{}}}", esc(&v.kind), esc(&v.label), v.count, arr(&v.inputs), arr(&v.trace))).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"samples\":[{}],", r.samples.iter().map(|v| format!("{{\"outcome\":{},\"inputs\":{},\"obs\":{}}}", esc(&v.outcome), arr(&v.inputs), arr(&v.obs))).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"funcs\":{}}}\n", arr(&r.funcs.iter().map(|&f| m.funcs[f as usize].name.clone()).collect::<Vec<_>>())));
        use std::io::Write;
        {
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&out).expect("out");
            f.write_all(s.as_bytes()).unwrap();
        }
        // return the token this process was started with, then wait for its own children
        if !root { if let Some((_, w)) = ex.cfg.tokens { extern "C" { fn write(fd: i32, b: *const u8, n: usize) -> isize; } unsafe { write(w, b"x".as_ptr(), 1); } } }
        extern "C" { fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
        let mut bad = false;
        for &c in &ex.children { let mut stt = 0i32; unsafe { waitpid(c, &mut stt, 0); } if stt != 0 { bad = true; } }
        unsafe { _exit(if bad { 3 } else { 0 }) }
    }).unwrap();
    th.join().unwrap();
}
