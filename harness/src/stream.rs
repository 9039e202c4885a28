//! C18, C19: which part of the input is read, and how it arrives.
use crate::text::*;
use crate::vx::*;

struct Kind {
    name: &'static str,
    args: &'static [&'static [u8]],
    /// letter 0 allowed
    zero: bool,
    /// output carries the elapsed time and the file name
    result: bool,
    file: bool,
}
const KINDS: &[Kind] = &[
    Kind { name: "bwt", args: &[], zero: false, result: false, file: false },
    Kind { name: "count_lexparse", args: &[b"-o", b"out"], zero: true, result: true, file: true },
    Kind { name: "count_r", args: &[], zero: false, result: true, file: false },
    Kind { name: "count_sigma", args: &[], zero: true, result: true, file: false },
    Kind { name: "count_z", args: &[b"-o", b"out"], zero: true, result: true, file: true },
    Kind { name: "entropy", args: &[b"-o", b"1"], zero: false, result: true, file: false },
    Kind { name: "entropy_kmer", args: &[b"-o", b"1"], zero: false, result: true, file: false },
    Kind { name: "escape", args: &[b"-e", b"98", b"-f", b"97", b"-t", b"1"], zero: true, result: false, file: false },
    Kind { name: "is_stringattractor", args: &[b"-a", b"0"], zero: false, result: false, file: false },
    Kind { name: "lyndonfactorization", args: &[b"-o", b"out"], zero: true, result: true, file: true },
    Kind { name: "mus", args: &[], zero: false, result: true, file: false },
    Kind { name: "reverse", args: &[], zero: true, result: false, file: false },
    Kind { name: "rle", args: &[], zero: true, result: false, file: false },
    Kind { name: "rle", args: &[b"-z"], zero: true, result: false, file: false },
    Kind { name: "rle", args: &[b"--human"], zero: true, result: false, file: false },
    Kind { name: "mtf", args: &[], zero: true, result: false, file: false },
    Kind { name: "count_runs", args: &[], zero: true, result: false, file: false },
    Kind { name: "bwt", args: &[b"-u", b"-n"], zero: true, result: false, file: false },
    Kind { name: "count_r", args: &[b"-u", b"-n"], zero: true, result: true, file: false },
    Kind { name: "reverse", args: &[b"-o", b"out"], zero: true, result: false, file: true },
    Kind { name: "escape", args: &[b"-e", b"98", b"-f", b"97", b"-t", b"1", b"-o", b"out"], zero: true, result: false, file: true },
];
/// Takes the values of the time and input name out of a result line.
fn plain(o: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < o.len() {
        v.push(o[i]);
        let mut cut = false;
        for k in ["time_ms=", "file=", "input="] {
            let k = k.as_bytes();
            if v.len() >= k.len() && &v[v.len() - k.len()..] == k {
                cut = true;
            }
        }
        i += 1;
        if cut {
            while i < o.len() && o[i] != b' ' && o[i] != b'\n' {
                i += 1;
            }
        }
    }
    v
}
struct Res {
    status: u32,
    out: Vec<u8>,
    file: Vec<u8>,
}
fn go(k: &Kind, t: &[u8], way: usize, p: Option<usize>, plan: &[u8]) -> Res {
    let mut c = Tool::new(k.name).input(way, t);
    if let Some(p) = p {
        c = c.arg(b"-p").num(p);
    }
    if !plan.is_empty() {
        c = c.plan(plan);
    }
    for a in k.args {
        c = c.arg(a);
    }
    let o = c.run();
    let file = if k.file { outfile("out").unwrap_or_default() } else { vec![] };
    Res { status: o.status, out: if k.result { plain(&o.out) } else { o.out }, file }
}
fn equal(a: &Res, b: &Res) -> bool {
    a.status == b.status && same(&a.out, &b.out) && same(&a.file, &b.file)
}
fn watch(a: &Res) {
    observe(a.status as u64);
    observe(a.out.len() as u64);
    observe_bytes(&a.file);
}
/// params: tool mode n q way
pub fn c18_tool() {
    let k = &KINDS[param(0)];
    let n = nparam(2);
    let t = text(param(1), n, param(3), k.zero);
    let p = match choose(0, n + 3) {
        p if p <= n + 1 => p,
        p if p == n + 2 => 1 << 33,
        _ => usize::MAX,
    };
    let m = if p == 0 || p > n { n } else { p };
    let a = go(k, &t, param(4), Some(p), &[]);
    let b = go(k, &t[..m], 0, None, &[]);
    check(equal(&a, &b), "the tool works on exactly the requested prefix");
    cover("end");
    watch(&a);
}
/// A file and standard input give the same. params: tool mode n q
pub fn c18_way() {
    let k = &KINDS[param(0)];
    let n = nparam(2);
    let t = text(param(1), n, param(3), k.zero);
    let a = go(k, &t, 0, None, &[]);
    let b = go(k, &t, 1, None, &[]);
    check(equal(&a, &b), "a file and standard input give the same result");
    let c = go(k, &t, 2, None, &[]);
    check(equal(&a, &c), "a pipe given by name gives the same result");
    cover("end");
    watch(&a);
}
/// params: mode n q way dst(0 standard output, 1 file) prefix(0 none, 1 chosen, else near that size)
pub fn c18_reverse() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let mut c = Tool::new("reverse").input(param(3), &t);
    if param(4) == 1 {
        // something longer is there already
        c = c.file("out", &[7; 9]).arg(b"-o").arg(b"out");
    }
    let mut m = n;
    if param(5) > 0 {
        let p = if param(5) == 1 { choose(0, n + 2) } else { choose(param(5) - 1, param(5) + 1) };
        c = c.arg(b"-p").num(p);
        if p > 0 && p < n {
            m = p;
        }
    }
    let o = c.run();
    ok(&o);
    let mut e = t[..m].to_vec();
    e.reverse();
    if param(4) == 1 {
        check(o.out.is_empty(), "nothing on standard output");
        let f = outfile("out");
        check(f.is_some(), "output file");
        check(same(&f.unwrap_or_default(), &e), "the input reversed");
    } else {
        check(same(&o.out, &e), "the input reversed");
    }
    cover("end");
    observe_bytes(&e);
}

fn plan_entries(len: usize, errs: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..len {
        v.push(match choose(0, 2 + errs) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 255,
        });
    }
    v
}
/// params: tool mode n q way entries errors
pub fn c19_tool() {
    let k = &KINDS[param(0)];
    let n = nparam(2);
    let t = text(param(1), n, param(3), k.zero);
    let plan = plan_entries(param(5), param(6));
    let a = go(k, &t, param(4), None, &plan);
    let mut m = 0;
    let mut err = false;
    for &p in &plan {
        if p == 255 {
            err = true;
            break;
        }
        m += p as usize;
    }
    if !err || m > n {
        m = n;
    }
    let b = go(k, &t[..m], param(4), None, &[]);
    if err {
        check(a.status != 0 || equal(&a, &b), "a read error adds or repeats nothing");
    } else {
        check(equal(&a, &b), "chunks and interruptions do not matter");
    }
    cover("end");
    watch(&a);
}

/// A reader that follows a plan: 0 interrupted, 255 error, else bytes delivered.
struct Planned<'a> {
    t: &'a [u8],
    plan: &'a [u8],
    at: usize,
}
impl std::io::Read for Planned<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut m = if b.len() < self.t.len() { b.len() } else { self.t.len() };
        if self.at < self.plan.len() {
            let p = self.plan[self.at];
            self.at += 1;
            if p == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            if p == 255 {
                return Err(std::io::ErrorKind::Other.into());
            }
            if (p as usize) < m {
                m = p as usize;
            }
        }
        b[..m].copy_from_slice(&self.t[..m]);
        self.t = &self.t[m..];
        Ok(m)
    }
}
/// params: n entries errors
pub fn c19_read_char() {
    let n = param(0);
    let t = bytes(n);
    let plan = plan_entries(param(1), param(2));
    let mut r = Planned { t: &t, plan: &plan, at: 0 };
    let mut got = vec![];
    let mut errs = 0;
    let e = plan.iter().filter(|&&p| p == 255).count();
    for _ in 0..n + e + 1 {
        match stringology::io::read_char(&mut r) {
            Ok(c) => got.push(c),
            Err(_) => errs += 1,
        }
    }
    check(got.len() == n, "every byte arrives once");
    check(same(&got, &t), "the bytes arrive in order");
    check(errs == e + 1, "errors and the end are told");
    cover("end");
    observe_bytes(&got);
}
/// params: n entries errors
pub fn c19_runs() {
    let n = param(0);
    let t = bytes(n);
    let plan = plan_entries(param(1), param(2));
    let mut m = 0;
    let mut err = false;
    for &p in &plan {
        if p == 255 {
            err = true;
            break;
        }
        if p > 0 {
            m += 1;
        }
    }
    if !err || m > n {
        m = n;
    }
    let mut runs = 0;
    for i in 0..m {
        if i == 0 || t[i] != t[i - 1] {
            runs += 1;
        }
    }
    let mut r = Planned { t: &t, plan: &plan, at: 0 };
    let mut g = usize::MAX;
    let failed = panics(|| g = stringology::core::number_of_runs(&mut r));
    check(if failed { err } else { g == runs }, "number of runs of what was read");
    cover("end");
    observe(g as u64);
}
