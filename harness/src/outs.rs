//! C27, C28, C29: the output is complete or the failure is told; logging changes nothing; the whole input is
//! read or the failure is told.
use crate::text::*;
use crate::vx::*;

struct Kind {
    name: &'static str,
    args: &'static [&'static [u8]],
    /// takes an input; letter 0 allowed
    input: bool,
    zero: bool,
    /// 0 no -o, 1 -o redirects the output, 2 -o writes something else
    o: usize,
    /// the output carries the elapsed time
    time: bool,
}
const fn k(name: &'static str, args: &'static [&'static [u8]], input: bool, zero: bool, o: usize, time: bool) -> Kind {
    Kind { name, args, input, zero, o, time }
}
const KINDS: &[Kind] = &[
    k("bwt", &[], true, false, 1, false),
    k("count_lexparse", &[], true, true, 2, true),
    k("count_r", &[], true, false, 0, true),
    k("count_sigma", &[], true, true, 0, true),
    k("count_z", &[], true, true, 2, true),
    k("entropy", &[b"-o", b"1"], true, false, 0, true),
    k("entropy_kmer", &[b"-o", b"1"], true, false, 0, true),
    k("escape", &[b"-e", b"98", b"-f", b"97", b"-t", b"1"], true, true, 1, false),
    k("is_stringattractor", &[b"-a", b"0"], true, false, 0, false),
    k("lyndonfactorization", &[], true, true, 2, true),
    k("mus", &[], true, false, 0, true),
    k("reverse", &[], true, true, 1, false),
    k("rle", &[], true, true, 1, false),
    k("rle", &[b"-z"], true, true, 1, false),
    k("rle", &[b"--human"], true, true, 1, false),
    k("mtf", &[], true, true, 1, false),
    k("count_runs", &[], true, true, 0, false),
    k("word", &[b"-k", b"3", b"-n", b"fibonacci"], false, false, 1, false),
    k("lyndonwords", &[b"-l", b"2"], false, false, 1, false),
    k("enumerate", &[b"2", b"1", b"2"], false, false, 0, false),
    k("bwt", &[b"-u", b"-n"], true, true, 1, false),
    k("escape", &[b"-e", b"98", b"-f", b"97", b"-t", b"1", b"--is-reversion"], true, true, 1, false),
];
/// Takes the value of the time out of a result line.
fn plain(o: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < o.len() {
        v.push(o[i]);
        let k = b"time_ms=";
        i += 1;
        if v.len() >= k.len() && &v[v.len() - k.len()..] == k {
            while i < o.len() && o[i] != b' ' && o[i] != b'\n' {
                i += 1;
            }
        }
    }
    v
}
struct Res {
    status: u32,
    out: Vec<u8>,
    file: Option<Vec<u8>>,
}
fn go(k: &Kind, t: &[u8], way: usize, to_file: bool, old: usize, wplan: &[u8], log: &[u8]) -> Res {
    let mut c = Tool::new(k.name);
    if k.input {
        c = c.input(way, t);
    }
    if !wplan.is_empty() {
        c = c.wplan(wplan);
    }
    if !log.is_empty() {
        c = c.env(log);
    }
    for a in k.args {
        c = c.arg(a);
    }
    if to_file {
        if old > 0 {
            c = c.file("out", &vec![7; old]);
        }
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    let file = if to_file { outfile("out") } else { None };
    Res { status: o.status, out: if k.time { plain(&o.out) } else { o.out }, file }
}
fn equal(a: &Res, b: &Res) -> bool {
    // what a failing tool has written by then is not compared
    a.status == b.status
        && (a.status != 0
            || same(&a.out, &b.out)
                && match (&a.file, &b.file) {
                    (None, None) => true,
                    (Some(x), Some(y)) => same(x, y),
                    _ => false,
                })
}
fn watch(a: &Res) {
    observe(a.status as u64);
    // a panicking tool is left at once there, but its buffers are written here
    if a.status == 0 {
        observe(a.out.len() as u64);
        observe_bytes(a.file.as_deref().unwrap_or(&[]));
    }
}
fn entries(len: usize, errs: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..len {
        v.push(match choose(0, 2 + errs) {
            0 => 0,
            1 => 1,
            2 => 254,
            _ => 255,
        });
    }
    v
}
fn input(k: &Kind) -> Vec<u8> {
    if k.input {
        text(param(1), nparam(2), param(3), k.zero)
    } else {
        vec![]
    }
}
/// Every sequence of write outcomes. params: kind mode n q file entries errors
pub fn c27_write() {
    let k = &KINDS[param(0)];
    let t = input(k);
    let f = param(4) == 1;
    let plan = entries(param(5), param(6));
    let b = go(k, &t, 0, f, 0, &[], &[]);
    check(!f || b.file.is_some(), "the output file is made");
    let a = go(k, &t, 0, f, 0, &plan, &[]);
    if plan.contains(&255) {
        check(a.status != 0 || equal(&a, &b), "a write error is not lost");
    } else {
        check(equal(&a, &b), "partial and interrupted writes lose nothing");
    }
    cover("end");
    watch(&a);
}
/// The named file holds just what standard output would. params: kind mode n q way
pub fn c27_file() {
    let k = &KINDS[param(0)];
    let t = input(k);
    let a = go(k, &t, param(4), true, 0, &[], &[]);
    if k.o == 1 {
        let b = go(k, &t, param(4), false, 0, &[], &[]);
        check(a.status == b.status, "same status");
        check(a.status != 0 || a.out.is_empty(), "nothing on standard output");
        check(a.status != 0 || a.file.is_some() && same(a.file.as_deref().unwrap_or(&[]), &b.out), "the file holds what standard output gets");
    }
    for old in [1usize, 3, 200] {
        let c = go(k, &t, param(4), true, old, &[], &[]);
        check(equal(&a, &c), "what the file held before does not matter");
    }
    cover("end");
    watch(&a);
}
/// params: p entries errors file
pub fn c27_random() {
    let p = param(0);
    let plan = entries(param(1), param(2));
    let mut c = Tool::new("randomstring").arg(b"-a").num(2).arg(b"-p").num(p).draws(p + 3, 0).wplan(&plan);
    if param(3) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    let r = if param(3) == 1 { outfile("out").unwrap_or_default() } else { o.out };
    if plan.contains(&255) {
        check(o.status != 0 || r.len() == p, "a write error is not lost");
    } else {
        check(o.status == 0 && r.len() == p, "partial and interrupted writes lose nothing");
    }
    cover("end");
    if o.status == 0 {
        observe(r.len() as u64);
    }
}
/// params: kind mode n q way file level
pub fn c28_log() {
    let k = &KINDS[param(0)];
    let t = input(k);
    let f = param(5) == 1;
    let log: &[u8] = match param(6) {
        0 => b"RUST_LOG=info",
        1 => b"RUST_LOG=debug",
        2 => b"RUST_LOG=trace",
        _ => b"RUST_LOG=off",
    };
    let a = go(k, &t, param(4), f, 0, &[], log);
    let b = go(k, &t, param(4), f, 0, &[], &[]);
    check(equal(&a, &b), "logging does not change the result");
    cover("end");
    watch(&a);
}
/// Every sequence of read outcomes with errors among them. params: kind mode n q way entries
pub fn c29_read() {
    let k = &KINDS[param(0)];
    let t = input(k);
    let mut plan = vec![];
    for _ in 0..param(5) {
        plan.push(match choose(0, 3) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 255,
        });
    }
    let mut c = Tool::new(k.name).input(param(4), &t).plan(&plan);
    for a in k.args {
        c = c.arg(a);
    }
    let a = c.run();
    let mut m = 0;
    for &p in &plan {
        if p == 255 {
            check(m >= t.len() || a.status != 0, "an input that cannot be read to its end is told");
            break;
        }
        m += p as usize;
    }
    cover("end");
    observe(a.status as u64);
}
/// Files that cannot be opened. params: kind (0 the input, 1 the output)
pub fn c29_open() {
    let k = &KINDS[param(0)];
    let mut c = Tool::new(k.name);
    if param(1) == 0 {
        c = c.arg(b"-i").arg(b"missing");
    } else {
        c = c.stdin(b"abaab").arg(b"-o").arg(b"missing/out");
    }
    for a in k.args {
        c = c.arg(a);
    }
    let a = c.run();
    check(a.status != 0, "a file that cannot be opened is told");
    cover("end");
    observe(a.status as u64);
}
