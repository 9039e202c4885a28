//! symex: bounded symbolic execution of LLVM IR with an SMT solver deciding every branch and assertion.
mod exec;
mod expr;
mod intrin;
mod ir;
mod mem;
mod solver;
mod state;

use exec::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jm(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, x)| format!("{}:{}", js(k), x)).collect();
    format!("{{{}}}", v.join(","))
}
fn jv(v: &[u64]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn report(x: &Exec, wall: f64) -> String {
    let s = &x.stats;
    let viols: Vec<String> = s
        .viols
        .iter()
        .map(|v| format!("{{\"id\":{},\"msg\":{},\"trace\":{},\"vars\":{}}}", js(&v.id), js(&v.msg), js(&v.trace), jv(&v.vars)))
        .collect();
    let samples: Vec<String> = s.samples.iter().map(|p| format!("{{\"vars\":{},\"obs\":{}}}", jv(&p.vars), jv(&p.obs))).collect();
    let mut funcs = vec![];
    for (i, c) in x.called.iter().enumerate() {
        if *c {
            let f = &x.prog.funcs.borrow()[i];
            funcs.push(format!("{}", js(&format!("{}|{}", x.prog.modules[f.module as usize].name, f.name))));
        }
    }
    format!(
        "{{\"wall\":{:.3},\"paths\":{},\"infeasible\":{},\"instrs\":{},\"forks\":{},\"checks_const\":{},\"checks_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"pending\":{},\"maxpc\":{},\"nviol\":{},\"unsup\":{},\"incomplete\":{},\"covers\":{},\"assumptions\":{},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}",
        wall,
        s.paths,
        s.infeasible,
        s.instrs,
        s.forks,
        s.checks_const,
        s.checks_solver,
        x.solver.queries,
        x.solver.sat,
        x.solver.unsat,
        x.solver.unknown,
        x.solver.nanos as f64 / 1e9,
        s.pending,
        s.maxpc,
        s.nviol,
        jm(&s.unsup),
        jm(&s.incomplete),
        jm(&s.covers),
        jm(&s.assumptions),
        viols.join(","),
        samples.join(","),
        funcs.join(",")
    )
}

fn main() {
    let mut ir: Vec<String> = vec![];
    let mut entry = String::new();
    let mut params = vec![];
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut timeout = 600.0f64;
    let mut frontier = 1200usize;
    let mut max_instrs = 200_000_000u64;
    let mut samples = 8;
    let mut seed = 1;
    let mut progs: Vec<(String, String)> = vec![];
    let mut verbose = false;
    let mut dump = None;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--ir" => ir.extend(std::fs::read_to_string(v()).unwrap().lines().map(|s| s.to_string())),
            "--entry" => entry = v(),
            "--param" => params.push(v().parse().unwrap()),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--frontier" => frontier = v().parse().unwrap(),
            "--max-instrs" => max_instrs = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--prog" => {
                let s = v();
                let (n, p) = s.split_once('=').unwrap();
                progs.push((n.to_string(), p.to_string()));
            }
            "-v" => verbose = true,
            x => panic!("argument {}", x),
        }
    }
    let t0 = Instant::now();
    for (_, p) in &progs {
        if !ir.contains(p) {
            ir.push(p.clone());
        }
    }
    let prog = ir::Program::load(&ir);
    let mut pm = HashMap::new();
    for (n, p) in &progs {
        let i = ir.iter().position(|x| x == p).unwrap();
        pm.insert(n.clone(), i as u32);
    }
    let e = match prog.ext_funcs.borrow().get(entry.as_str()) {
        Some(&e) => e,
        None => panic!("no entry {}", entry),
    };
    let load = t0.elapsed().as_secs_f64();
    let cfg = Config {
        params,
        max_instrs,
        deadline: t0 + Duration::from_secs_f64(timeout),
        samples,
        seed,
        progs: pm,
        dump_dir: dump,
        verbose,
    };
    let mut x = Exec::new(prog, cfg);
    let st = x.initial(e);
    x.work.push_back(st);
    let mut parts: Vec<String> = vec![];
    if jobs <= 1 {
        x.explore(None);
        x.stats.pending = x.work.len() as u64;
        parts.push(report(&x, t0.elapsed().as_secs_f64()));
    } else {
        x.explore(Some(frontier));
        let n = x.work.len();
        if n == 0 || Instant::now() > x.cfg.deadline {
            x.stats.pending = n as u64;
            parts.push(report(&x, t0.elapsed().as_secs_f64()));
        } else {
            let items: Vec<state::State> = x.work.drain(..).collect();
            let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
            let counter = unsafe { &*(shared as *const std::sync::atomic::AtomicUsize) };
            let base = format!("{}.part", out);
            let mut kids = vec![];
            for j in 0..jobs.min(n) {
                let pid = unsafe { fork() };
                if pid == 0 {
                    // the child reports only its own share
                    let keep = std::mem::take(&mut x.stats);
                    if j == 0 {
                        x.stats = keep;
                    } else {
                        x.solver.queries = 0;
                        x.solver.sat = 0;
                        x.solver.unsat = 0;
                        x.solver.unknown = 0;
                        x.solver.nanos = 0;
                    }
                    x.rng = x.rng.wrapping_add(j as u64 * 0x9E37_79B9_7F4A_7C15) | 1;
                    loop {
                        let i = counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        if Instant::now() > x.cfg.deadline {
                            x.stats.pending += 1;
                            continue;
                        }
                        // spread neighbouring states
                        let k = (i * 7919) % n;
                        let k = if gcd(7919, n) == 1 { k } else { i };
                        x.work.push_back(items[k].clone());
                        x.explore(None);
                        x.stats.pending += x.work.len() as u64;
                        x.work.clear();
                    }
                    let r = report(&x, t0.elapsed().as_secs_f64());
                    let p = format!("{}{}", base, j);
                    std::fs::write(&p, r).unwrap();
                    unsafe { _exit(0) };
                }
                kids.push(pid);
            }
            for (j, pid) in kids.iter().enumerate() {
                let mut stt = 0;
                unsafe { waitpid(*pid, &mut stt, 0) };
                let p = format!("{}{}", base, j);
                match std::fs::read_to_string(&p) {
                    Ok(s) => parts.push(s),
                    Err(_) => parts.push(format!("{{\"crashed\":{}}}", stt)),
                }
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    let mut f: Box<dyn Write> = if out.is_empty() { Box::new(std::io::stdout()) } else { Box::new(std::fs::File::create(&out).unwrap()) };
    writeln!(f, "{{\"load_s\":{:.3},\"wall\":{:.3},\"parts\":[{}]}}", load, t0.elapsed().as_secs_f64(), parts.join(",\n")).unwrap();
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
