//! Native runner: replays one assignment of a harness against the real library and the real tools
//! (ordinary dev-profile builds), to confirm counterexamples and to cross-check sampled paths.
//!
//! usage: vxn CASES   (one case per line: entry|param,param,..|value,value,..)
//! environment: VXN_BINS directory of the tools, VXN_RBINS directory of the tools built with the
//! replayable random source, VXN_SHIM read shim, VXN_TMP scratch directory.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Default)]
struct Ctx {
    vars: Vec<u64>,
    pos: usize,
    params: Vec<u64>,
    obs: Vec<u64>,
    fails: Vec<String>,
    args: Vec<Vec<u8>>,
    files: Vec<String>,
    stdin: Vec<u8>,
    plan: Vec<u8>,
    wplan: Vec<u8>,
    evars: Vec<Vec<u8>>,
    out: Vec<u8>,
    err: Vec<u8>,
    assume_failed: bool,
    timeout: bool,
}
thread_local! { static C: RefCell<Ctx> = RefCell::new(Ctx::default()); }
struct Stop;

fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        return &[];
    }
    unsafe { std::slice::from_raw_parts(p, n) }
}
fn name(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(bytes(p, n)).into_owned()
}
fn tmp() -> PathBuf {
    PathBuf::from(std::env::var("VXN_TMP").expect("VXN_TMP")).join("work")
}
fn clean() {
    let t = tmp();
    let _ = std::fs::create_dir_all(&t);
    for e in std::fs::read_dir(&t).unwrap() {
        let _ = std::fs::remove_file(e.unwrap().path());
    }
}

#[no_mangle]
pub extern "C" fn __vx_sym(width: u32) -> u64 {
    C.with(|c| {
        let mut c = c.borrow_mut();
        let v = c.vars.get(c.pos).copied().unwrap_or(0);
        c.pos += 1;
        if width >= 64 {
            v
        } else {
            v & ((1u64 << width) - 1)
        }
    })
}
#[no_mangle]
pub extern "C-unwind" fn __vx_assume(b: bool) {
    if !b {
        C.with(|c| c.borrow_mut().assume_failed = true);
        std::panic::panic_any(Stop);
    }
}
#[no_mangle]
pub extern "C-unwind" fn __vx_check(b: bool, p: *const u8, n: usize) {
    if !b {
        C.with(|c| c.borrow_mut().fails.push(name(p, n)));
        std::panic::panic_any(Stop);
    }
}
#[no_mangle]
pub extern "C" fn __vx_cover(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn __vx_observe(v: u64) {
    C.with(|c| c.borrow_mut().obs.push(v));
}
#[no_mangle]
pub extern "C" fn __vx_param(i: u32) -> u64 {
    C.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn __vx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn __vx_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn __vx_print(p: *const u8, n: usize) {
    if std::env::var_os("VXN_VERBOSE").is_some() {
        eprintln!("{}", String::from_utf8_lossy(bytes(p, n)));
    }
}
#[no_mangle]
pub extern "C" fn __vx_reset() {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.args.clear();
        c.files.clear();
        c.stdin.clear();
        c.plan.clear();
        c.wplan.clear();
        c.evars.clear();
        c.out.clear();
    });
    clean();
}
#[no_mangle]
pub extern "C" fn __vx_arg(p: *const u8, n: usize) {
    C.with(|c| c.borrow_mut().args.push(bytes(p, n).to_vec()));
}
#[no_mangle]
pub extern "C" fn __vx_file(np: *const u8, nl: usize, p: *const u8, n: usize) {
    std::fs::write(tmp().join(name(np, nl)), bytes(p, n)).unwrap();
}
#[no_mangle]
pub extern "C" fn __vx_stdin(p: *const u8, n: usize) {
    C.with(|c| c.borrow_mut().stdin = bytes(p, n).to_vec());
}
#[no_mangle]
pub extern "C" fn __vx_plan(p: *const u8, n: usize) {
    C.with(|c| c.borrow_mut().plan = bytes(p, n).to_vec());
}
#[no_mangle]
pub extern "C" fn __vx_wplan(p: *const u8, n: usize) {
    C.with(|c| c.borrow_mut().wplan = bytes(p, n).to_vec());
}
#[no_mangle]
pub extern "C" fn __vx_env(p: *const u8, n: usize) {
    C.with(|c| c.borrow_mut().evars.push(bytes(p, n).to_vec()));
}
/// Hash values differ from run to run by themselves.
#[no_mangle]
pub extern "C" fn __vx_hash(_: u64) {}
#[no_mangle]
pub extern "C" fn __vx_rng(_: u64, _: u64) {}
#[no_mangle]
pub extern "C-unwind" fn __vx_exec(p: *const u8, n: usize) -> u32 {
    use std::os::unix::ffi::OsStringExt;
    use std::os::unix::process::ExitStatusExt;
    let tool = name(p, n);
    let (args, stdin, plan, wplan, vars, rest) = C.with(|c| {
        let c = c.borrow();
        let rest = if c.pos <= c.vars.len() { c.vars[c.pos..].to_vec() } else { vec![] };
        (c.args.clone(), c.stdin.clone(), c.plan.clone(), c.wplan.clone(), c.evars.clone(), rest)
    });
    let rb = std::env::var("VXN_RBINS").ok().map(|d| PathBuf::from(d).join(&tool)).filter(|f| f.exists());
    let mut exe = PathBuf::from(std::env::var("VXN_BINS").expect("VXN_BINS")).join(&tool);
    let mut cmd;
    if let (Some(r), "randomstring") = (rb, tool.as_str()) {
        exe = r;
        cmd = Command::new(&exe);
        let s: Vec<String> = rest.iter().map(|x| x.to_string()).collect();
        cmd.env("VX_RNG", s.join(","));
    } else {
        cmd = Command::new(&exe);
    }
    cmd.args(args.into_iter().map(std::ffi::OsString::from_vec));
    cmd.current_dir(tmp()).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    if !plan.is_empty() {
        let s: String = plan.iter().map(|x| format!("{:02x}", x)).collect();
        cmd.env("VX_PLAN", s).env("LD_PRELOAD", std::env::var("VXN_SHIM").expect("VXN_SHIM"));
    }
    if !wplan.is_empty() {
        let s: String = wplan.iter().map(|x| format!("{:02x}", x)).collect();
        cmd.env("VX_WPLAN", s).env("LD_PRELOAD", std::env::var("VXN_SHIM").expect("VXN_SHIM"));
    }
    for v in vars {
        let s = String::from_utf8(v).unwrap();
        let (k, v) = s.split_once('=').unwrap();
        cmd.env(k, v);
    }
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = cmd.spawn().expect("tool starts");
    let mut si = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&stdin);
    });
    let mut so = ch.stdout.take().unwrap();
    let r = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = (&mut so).take(1 << 26).read_to_end(&mut v);
        v
    });
    let mut se = ch.stderr.take().unwrap();
    let re = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = (&mut se).take(1 << 26).read_to_end(&mut v);
        v
    });
    let t0 = std::time::Instant::now();
    let lim = std::env::var("VXN_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed().as_secs_f64() > lim {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    };
    let _ = w.join();
    let out = r.join().unwrap();
    let err = re.join().unwrap();
    match st {
        None => {
            C.with(|c| c.borrow_mut().timeout = true);
            std::panic::panic_any(Stop)
        }
        Some(s) => {
            C.with(|c| c.borrow_mut().out = out);
            C.with(|c| c.borrow_mut().err = err);
            match s.code() {
                Some(c) => c as u32,
                None => 128 + s.signal().unwrap_or(0) as u32,
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn __vx_out_len() -> usize {
    C.with(|c| c.borrow().out.len())
}
#[no_mangle]
pub extern "C" fn __vx_out(p: *mut u8) {
    C.with(|c| {
        let c = c.borrow();
        unsafe { std::ptr::copy_nonoverlapping(c.out.as_ptr(), p, c.out.len()) }
    })
}
#[no_mangle]
pub extern "C" fn __vx_err_len() -> usize {
    C.with(|c| c.borrow().err.len())
}
#[no_mangle]
pub extern "C" fn __vx_err(p: *mut u8) {
    C.with(|c| {
        let c = c.borrow();
        unsafe { std::ptr::copy_nonoverlapping(c.err.as_ptr(), p, c.err.len()) }
    })
}
#[no_mangle]
pub extern "C" fn __vx_outfile_len(np: *const u8, nl: usize) -> usize {
    match std::fs::read(tmp().join(name(np, nl))) {
        Ok(v) => v.len(),
        Err(_) => usize::MAX,
    }
}
#[no_mangle]
pub extern "C" fn __vx_outfile(np: *const u8, nl: usize, p: *mut u8) {
    if let Ok(v) = std::fs::read(tmp().join(name(np, nl))) {
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()) }
    }
}
#[no_mangle]
pub extern "C-unwind" fn __vx_catch(f: extern "C-unwind" fn(*mut u8), a: *mut u8) -> u32 {
    let p = a as usize;
    match std::panic::catch_unwind(move || f(p as *mut u8)) {
        Ok(()) => 0,
        Err(e) if e.is::<Stop>() => std::panic::resume_unwind(e),
        Err(_) => 1,
    }
}

fn nums(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let cases = std::fs::read_to_string(std::env::args().nth(1).expect("cases")).unwrap();
    let so = std::io::stdout();
    for line in cases.lines() {
        let p: Vec<&str> = line.split('|').collect();
        let f = match vxh::ENTRIES.iter().find(|e| e.0 == p[0]) {
            Some(e) => e.1,
            None => {
                println!("{{\"result\":\"noentry\"}}");
                continue;
            }
        };
        C.with(|c| *c.borrow_mut() = Ctx { params: nums(p[1]), vars: nums(p[2]), ..Ctx::default() });
        clean();
        let r = std::panic::catch_unwind(|| f());
        let s = C.with(|c| {
            let c = c.borrow();
            let res = if c.assume_failed {
                "assume".to_string()
            } else if c.timeout {
                "timeout".into()
            } else if !c.fails.is_empty() {
                format!("fail: {}", c.fails[0])
            } else if let Err(e) = &r {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                format!("panic: {}", m.unwrap_or_default())
            } else {
                "ok".into()
            };
            let o: Vec<String> = c.obs.iter().map(|x| x.to_string()).collect();
            format!("{{\"result\":{:?},\"obs\":[{}]}}", res.replace(|c: char| !c.is_ascii() || c.is_control(), "?"), o.join(","))
        });
        let mut l = so.lock();
        writeln!(l, "{}", s).unwrap();
        l.flush().unwrap();
    }
    clean();
}
