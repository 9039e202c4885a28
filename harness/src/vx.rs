//! Harness interface. Under the symbolic executor every `__vx_*` function is intercepted; the
//! native runner (`/verif/native`) implements them to replay one concrete assignment against the
//! real tools and library.
#![allow(dead_code)]

extern "C-unwind" {
    fn __vx_sym(width: u32) -> u64;
    fn __vx_assume(c: bool);
    fn __vx_check(c: bool, p: *const u8, n: usize);
    fn __vx_cover(p: *const u8, n: usize);
    fn __vx_observe(v: u64);
    fn __vx_param(i: u32) -> u64;
    fn __vx_concretize(v: u64) -> u64;
    fn __vx_ite(c: bool, a: u64, b: u64) -> u64;
    fn __vx_print(p: *const u8, n: usize);
    fn __vx_reset();
    fn __vx_arg(p: *const u8, n: usize);
    fn __vx_file(np: *const u8, nl: usize, p: *const u8, n: usize);
    fn __vx_stdin(p: *const u8, n: usize);
    fn __vx_plan(p: *const u8, n: usize);
    fn __vx_wplan(p: *const u8, n: usize);
    fn __vx_env(p: *const u8, n: usize);
    fn __vx_hash(h: u64);
    fn __vx_rng(n: u64, free: u64);
    fn __vx_exec(p: *const u8, n: usize) -> u32;
    fn __vx_out_len() -> usize;
    fn __vx_out(p: *mut u8);
    fn __vx_err_len() -> usize;
    fn __vx_err(p: *mut u8);
    fn __vx_outfile_len(np: *const u8, nl: usize) -> usize;
    fn __vx_outfile(np: *const u8, nl: usize, p: *mut u8);
    fn __vx_catch(f: extern "C-unwind" fn(*mut u8), a: *mut u8) -> u32;
}

/// A fresh unconstrained value.
pub fn sym8() -> u8 {
    unsafe { __vx_sym(8) as u8 }
}
pub fn sym64() -> u64 {
    unsafe { __vx_sym(64) }
}
pub fn sym1() -> bool {
    unsafe { __vx_sym(1) & 1 == 1 }
}
/// A fresh value below `n` (n <= 256).
pub fn below(n: usize) -> usize {
    let v = sym8();
    assume((v as usize) < n);
    v as usize
}
/// A fresh value in `lo..=hi`, fixed to one concrete value per path.
pub fn choose(lo: usize, hi: usize) -> usize {
    if lo == hi {
        return lo;
    }
    let w = if hi - lo > 255 { 16 } else { 8 };
    let v = unsafe { __vx_sym(w) } as usize & 0xffff;
    assume(v <= hi - lo);
    for k in 0..hi - lo {
        if v == k {
            return lo + k;
        }
    }
    hi
}
/// Splits the path on the value of a byte.
pub fn fix(v: usize) -> usize {
    for k in 0..=255usize {
        if v == k {
            return k;
        }
    }
    v
}
/// Parameter `i`, or any value of a range given as lo * 100000 + hi.
pub fn nparam(i: u32) -> usize {
    let v = param(i);
    if v < 100000 {
        v
    } else {
        choose(v / 100000, v % 100000)
    }
}
pub fn assume(c: bool) {
    unsafe { __vx_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { __vx_check(c, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { __vx_cover(m.as_ptr(), m.len()) }
}
pub fn observe(v: u64) {
    unsafe { __vx_observe(v) }
}
pub fn observe_bytes(v: &[u8]) {
    observe(v.len() as u64);
    for &x in v {
        observe(x as u64);
    }
}
pub fn observe_all(v: &[usize]) {
    observe(v.len() as u64);
    for &x in v {
        observe(x as u64);
    }
}
pub fn param(i: u32) -> usize {
    unsafe { __vx_param(i) as usize }
}
/// Branch-free selection.
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __vx_ite(c, a, b) }
}
pub fn print(s: &[u8]) {
    unsafe { __vx_print(s.as_ptr(), s.len()) }
}

/// Equality of two byte strings as one formula (lengths are concrete on a path).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = r & (a[i] == b[i]);
    }
    r
}

// ------------------------------------------------------------------ texts

/// `n` unconstrained bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for _ in 0..n {
        t.push(sym8());
    }
    t
}
/// `n` unconstrained non-zero bytes.
pub fn bytes1(n: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for _ in 0..n {
        let c = sym8();
        assume(c != 0);
        t.push(c);
    }
    t
}
/// `n` letters drawn from `al`.
pub fn letters(n: usize, al: &[u8]) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for _ in 0..n {
        let c = sym8();
        let mut ok = false;
        for &a in al {
            ok = ok | (c == a);
        }
        assume(ok);
        t.push(c);
    }
    t
}

// ------------------------------------------------------------------ tools

pub struct Out {
    pub status: u32,
    pub out: Vec<u8>,
}
pub struct Tool {
    name: &'static str,
}
impl Tool {
    pub fn new(name: &'static str) -> Tool {
        unsafe { __vx_reset() };
        Tool { name }
    }
    pub fn arg(self, a: &[u8]) -> Tool {
        unsafe { __vx_arg(a.as_ptr(), a.len()) };
        self
    }
    pub fn num(self, v: usize) -> Tool {
        let s = dec(v);
        self.arg(&s)
    }
    pub fn stdin(self, a: &[u8]) -> Tool {
        unsafe { __vx_stdin(a.as_ptr(), a.len()) };
        self
    }
    /// Read plan: 0 = interrupted, 255 = I/O error, else the largest number of bytes delivered.
    pub fn plan(self, a: &[u8]) -> Tool {
        unsafe { __vx_plan(a.as_ptr(), a.len()) };
        self
    }
    /// Write plan (standard output and files): 0 = interrupted, 255 = no space left, else the largest number of
    /// bytes taken.
    pub fn wplan(self, a: &[u8]) -> Tool {
        unsafe { __vx_wplan(a.as_ptr(), a.len()) };
        self
    }
    /// An environment variable, `NAME=value`.
    pub fn env(self, a: &[u8]) -> Tool {
        unsafe { __vx_env(a.as_ptr(), a.len()) };
        self
    }
    /// The value every key of a hash map hashes to; it turns the order in which maps are listed.
    pub fn hash(self, h: u64) -> Tool {
        unsafe { __vx_hash(h) };
        self
    }
    /// At most `n` words are drawn from the random source; outcomes needing more are not followed.
    /// The first `free` draws are arbitrary, the others are one of two letters.
    pub fn draws(self, n: usize, free: usize) -> Tool {
        unsafe { __vx_rng(n as u64, free as u64) };
        self
    }
    pub fn file(self, name: &str, a: &[u8]) -> Tool {
        unsafe { __vx_file(name.as_ptr(), name.len(), a.as_ptr(), a.len()) };
        self
    }
    /// Input as standard input (`way` 0), as the file `in` (`way` 1), or as a pipe given by name (`way` 2).
    pub fn input(self, way: usize, a: &[u8]) -> Tool {
        if way == 0 {
            self.stdin(a)
        } else if way == 2 {
            self.stdin(a).arg(b"-i").arg(b"/dev/stdin")
        } else {
            self.file("in", a).arg(b"-i").arg(b"in")
        }
    }
    pub fn run(self) -> Out {
        unsafe {
            let status = __vx_exec(self.name.as_ptr(), self.name.len());
            let n = __vx_out_len();
            let mut out = vec![0u8; n];
            __vx_out(out.as_mut_ptr());
            Out { status, out }
        }
    }
}
/// What the last tool run wrote to its standard error.
pub fn stderr() -> Vec<u8> {
    unsafe {
        let n = __vx_err_len();
        let mut err = vec![0u8; n];
        __vx_err(err.as_mut_ptr());
        err
    }
}
/// Contents of a file left behind by the last tool run.
pub fn outfile(name: &str) -> Option<Vec<u8>> {
    unsafe {
        let n = __vx_outfile_len(name.as_ptr(), name.len());
        if n == usize::MAX {
            return None;
        }
        let mut out = vec![0u8; n];
        __vx_outfile(name.as_ptr(), name.len(), out.as_mut_ptr());
        Some(out)
    }
}
/// Runs `f`, reporting whether it panicked.
pub fn panics<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn go<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take().unwrap() };
        f()
    }
    let mut o = Some(f);
    unsafe { __vx_catch(go::<F>, &mut o as *mut Option<F> as *mut u8) != 0 }
}

pub fn dec(mut v: usize) -> Vec<u8> {
    let mut s = vec![];
    loop {
        s.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    s.reverse();
    s
}

/// The value of `key=` in a RESULT line, as bytes up to the next blank or line end.
pub fn field<'a>(out: &'a [u8], key: &str) -> Option<&'a [u8]> {
    let k = key.as_bytes();
    let mut i = 0;
    while i + k.len() + 1 <= out.len() {
        let start = i == 0 || out[i - 1] == b' ' || out[i - 1] == b'\n';
        if start && &out[i..i + k.len()] == k && out[i + k.len()] == b'=' {
            let a = i + k.len() + 1;
            let mut b = a;
            while b < out.len() && out[b] != b' ' && out[b] != b'\n' {
                b += 1;
            }
            return Some(&out[a..b]);
        }
        i += 1;
    }
    None
}
pub fn num_field(out: &[u8], key: &str) -> Option<usize> {
    let f = field(out, key)?;
    parse(f)
}
pub fn parse(f: &[u8]) -> Option<usize> {
    if f.is_empty() || f.len() > 19 {
        return None;
    }
    let mut v = 0usize;
    for &c in f {
        if c < b'0' || c > b'9' {
            return None;
        }
        v = v * 10 + (c - b'0') as usize;
    }
    Some(v)
}
/// Checks that the tool ended with status 0.
pub fn ok(o: &Out) {
    check(o.status == 0, "tool ends with status 0");
}
