//! LLVM intrinsics, modelled libc, intercepted std functions and the harness API.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::solver::Res;
use crate::state::*;
use std::collections::HashMap;
use std::rc::Rc;

pub enum Ret {
    V(V),
    Void,
    Done, // control transferred, nothing left to do
}

const NATIVE: &[&str] = &[
    "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "bcmp",
    "strlen", "memchr", "memrchr", "read", "write", "writev", "open", "open64", "close", "fstat64", "stat64", "lstat64", "statx",
    "lseek64", "getenv", "dlsym", "getrandom", "clock_gettime", "poll", "sigaction", "signal", "sigaltstack", "isatty", "ioctl",
    "exit", "_exit", "abort", "__errno_location", "pthread_key_create", "pthread_key_delete", "pthread_setspecific",
    "pthread_self", "pthread_getspecific", "getpid", "gettid", "syscall", "sysconf", "getauxval", "__cxa_thread_atexit_impl",
    "divsufsort", "fcntl", "fsync", "fdatasync", "ftruncate64", "mmap64", "mmap", "munmap", "mprotect", "readlink", "getcwd",
    "realpath", "unlink", "sched_yield", "pthread_mutex_lock", "pthread_mutex_unlock", "getuid", "flock", "__xpg_strerror_r", "readv",
    "sched_getaffinity", "copy_file_range", "strnlen", "pthread_atfork", "pread64",
];

fn native_name(n: &'static str) -> Option<&'static str> {
    if n.starts_with("__vx_") {
        return Some(n);
    }
    if NATIVE.contains(&n) {
        return Some(n);
    }
    if !n.starts_with("_R") {
        return None;
    }
    if n.contains("_7___rustc") {
        for (s, k) in [
            ("12___rust_alloc", "rust_alloc"),
            ("14___rust_dealloc", "rust_dealloc"),
            ("14___rust_realloc", "rust_realloc"),
            ("19___rust_alloc_zeroed", "rust_alloc"),
            ("35___rust_no_alloc_shim_is_unstable_v2", "nop"),
            ("11___rdl_alloc", "rust_alloc"),
            ("10rust_panic", "panic"),
            ("17rust_begin_unwind", "panic"),
        ] {
            if n.ends_with(s) {
                return Some(k);
            }
        }
        return None;
    }
    if n.contains("_4core9panicking") && !n.contains("AssertKind") {
        return Some("panic");
    }
    if n.starts_with("_RNvNtCs") && n.contains("_4core9panicking") {
        return Some("panic");
    }
    if n.contains("_3std9panicking11begin_panic") || n.contains("_3std9panicking15begin_panic_fmt") {
        return Some("panic");
    }
    if n.contains("18handle_alloc_error") {
        return Some("panic");
    }
    if n.starts_with("_RNvNtCs") && n.ends_with("_3std2rt4init") {
        return Some("nop");
    }
    if n.contains("8hash_one") && n.contains("BuildHasher") && n.starts_with("_R") && !n.starts_with("_RNC") && !n.contains("drop") {
        return Some("hash_one");
    }
    if n.starts_with("_RNvNtNtCs") && n.ends_with("_4core5slice6memchr7memrchr") {
        return Some("rust_memrchr");
    }
    if n.starts_with("_RNvNtNtCs")
        && (n.ends_with("_4core5slice6memchr6memchr") || n.ends_with("_4core5slice6memchr14memchr_aligned") || n.ends_with("_4core5slice6memchr12memchr_naive"))
    {
        return Some("rust_memchr");
    }
    if n.starts_with("_RNv") && n.ends_with("4rngs6thread10thread_rng") {
        return Some("thread_rng");
    }
    if n.contains("9ThreadRng") && n.contains("7RngCore") && n.starts_with("_RNvX") {
        if n.ends_with("8next_u32") {
            return Some("rng_u32");
        }
        if n.ends_with("8next_u64") {
            return Some("rng_u64");
        }
        if n.ends_with("10fill_bytes") {
            return Some("rng_fill");
        }
    }
    None
}

impl Exec {
    pub fn icept_kind(&mut self, fid: u32) -> u16 {
        let i = fid as usize;
        if self.icept.len() <= i {
            self.icept.resize(i + 256, 0);
        }
        if self.icept[i] != 0 {
            return self.icept[i];
        }
        let n = self.prog.fname(fid);
        let k = match native_name(n) {
            Some(_) => 2,
            None => 1,
        };
        self.icept[i] = k;
        k
    }
    fn note(&mut self, s: &str) {
        if let Some(x) = self.stats.assumptions.get_mut(s) {
            *x += 1;
        } else {
            self.stats.assumptions.insert(s.to_string(), 1);
        }
    }
    pub fn native(&mut self, st: &mut State, _kind: u16, fid: u32, args: Vec<V>, dst: u32) -> R<()> {
        let full = self.prog.fname(fid);
        let n = native_name(full).unwrap();
        if n == "panic" {
            let s = short(full);
            return self.panic_at(st, &s);
        }
        let r = self.native_call(st, n, &args, dst)?;
        match r {
            Ret::Done => Ok(()),
            Ret::Void => {
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                Ok(())
            }
            Ret::V(v) => {
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if dst != NONE {
                    fr.regs[dst as usize] = v;
                }
                fr.pc += 1;
                Ok(())
            }
        }
    }
    fn panic_at(&mut self, st: &mut State, what: &str) -> R<()> {
        self.panic(st, what)
    }
    pub fn heap(&mut self, st: &mut State, n: usize) -> u64 {
        let id = self.alloc(st, n);
        st.mem.get_mut(id).unwrap().heap = true;
        (id as u64) << 32
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as u32;
        match st.mem.get(id) {
            Some(o) if o.heap && p & 0xffff_ffff == 0 => {}
            _ => return Err(Stop::Violation("memory".into(), format!("invalid free {:#x}", p))),
        }
        st.mem.free(id);
        Ok(())
    }
    fn realloc(&mut self, st: &mut State, p: u64, n: usize) -> R<u64> {
        let np = self.heap(st, n);
        if p != 0 {
            let old = match st.mem.get((p >> 32) as u32) {
                Some(o) => o.data.len(),
                None => return Err(Stop::Violation("memory".into(), "invalid realloc".into())),
            };
            self.memcpy(st, np, p, old.min(n))?;
            self.free(st, p)?;
        }
        Ok(np)
    }
    fn errno(&mut self, st: &mut State, e: u64) -> R<Ret> {
        let id = st.errno;
        let a = if st.mem.get(id).is_some() { id } else { self.alloc(st, 8) };
        st.errno = a;
        self.store_bytes(st, &V::I((a as u64) << 32), 4, &V::I(e))?;
        Ok(Ret::V(V::I(u64::MAX)))
    }
    /// memcmp-like comparison decided byte by byte: -1, 0, 1
    fn cmp_bytes(&mut self, st: &mut State, a: u64, b: u64, n: usize) -> R<i32> {
        let x = self.read_vec(st, a, n)?;
        let y = self.read_vec(st, b, n)?;
        for i in 0..n {
            match (&x[i], &y[i]) {
                (V::I(p), V::I(q)) => {
                    if p != q {
                        return Ok(if p < q { -1 } else { 1 });
                    }
                }
                (p, q) => {
                    let pe = self.e(p, 8)?;
                    let qe = self.e(q, 8)?;
                    let c = self.ex.eq(pe, qe);
                    if !self.decide(st, c)? {
                        let l = self.ex.ult(pe, qe);
                        return Ok(if self.decide(st, l)? { -1 } else { 1 });
                    }
                }
            }
        }
        Ok(0)
    }
    fn bytes_equal(&mut self, st: &mut State, a: u64, b: u64, n: usize) -> R<V> {
        // as one conjunction: the caller branches on it
        let x = self.read_vec(st, a, n)?;
        let y = self.read_vec(st, b, n)?;
        let mut c = self.ex.cst(1, 1);
        for i in 0..n {
            let pe = self.e(&x[i], 8)?;
            let qe = self.e(&y[i], 8)?;
            let q = self.ex.eq(pe, qe);
            match self.kn(st, q) {
                Some(true) => {}
                Some(false) => return Ok(V::I(0)),
                None => c = self.ex.bin(O::And, c, q),
            }
        }
        Ok(self.mk(c))
    }
    fn find_file(st: &State, name: &[u8]) -> Option<usize> {
        let name = name.strip_prefix(b"./").unwrap_or(name);
        st.env.files.iter().position(|f| f.0 == name)
    }
    fn fd<'a>(st: &'a State, fd: u64) -> Option<&'a Fd> {
        st.env.fds.get(fd as usize).and_then(|x| x.as_ref())
    }
    fn do_write(&mut self, st: &mut State, fd: u64, data: &[V]) -> R<Ret> {
        let f = match Self::fd(st, fd) {
            Some(f) => f.clone(),
            None => return self.errno(st, 9),
        };
        let mut data = data;
        if !data.is_empty() && matches!(f.kind, FdK::Stdout | FdK::File(_)) && st.env.wplan_pos < st.env.wplan.len() {
            let p = st.env.wplan[st.env.wplan_pos].clone();
            let p = self.concretize(st, &p)? as usize;
            Rc::make_mut(&mut st.env).wplan_pos += 1;
            if p == 0 {
                return self.errno(st, 4); // EINTR
            }
            if p == 255 {
                return self.errno(st, 28); // ENOSPC
            }
            data = &data[..data.len().min(p)];
        }
        let env = Rc::make_mut(&mut st.env);
        match f.kind {
            FdK::Stdout => env.out.extend_from_slice(data),
            FdK::Stderr => {
                env.err.extend_from_slice(data)
            }
            FdK::Stdin => return self.errno(st, 9),
            FdK::File(i) => {
                let c = Rc::make_mut(&mut env.files[i].1);
                let pos = if f.append { c.len() } else { f.pos };
                if c.len() < pos + data.len() {
                    c.resize(pos + data.len(), V::I(0));
                }
                for (j, v) in data.iter().enumerate() {
                    c[pos + j] = v.clone();
                }
                env.fds[fd as usize].as_mut().unwrap().pos = pos + data.len();
            }
        }
        Ok(Ret::V(V::I(data.len() as u64)))
    }
    /// Rust io: stat buffer
    fn fill_stat(&mut self, st: &mut State, buf: u64, size: u64, kind: u64) -> R<()> {
        // struct stat64 (x86_64): st_mode at 24, st_size at 48
        let z = vec![V::I(0); 144];
        self.write_vec(st, buf, &z)?;
        self.store_bytes(st, &V::I(buf + 24), 4, &V::I(kind))?;
        self.store_bytes(st, &V::I(buf + 48), 8, &V::I(size))?;
        self.store_bytes(st, &V::I(buf + 56), 8, &V::I(4096))?;
        Ok(())
    }
    /// Standard input by name: a pipe.
    fn is_stdin(n: &[u8]) -> bool {
        n == b"/dev/stdin" || n == b"/proc/self/fd/0" || n == b"/dev/fd/0"
    }
    fn fill_statx(&mut self, st: &mut State, buf: u64, size: u64, kind: u64) -> R<()> {
        // struct statx: stx_mask 0, stx_blksize 4, stx_mode at 28 (u16), stx_size at 40
        let z = vec![V::I(0); 256];
        self.write_vec(st, buf, &z)?;
        self.store_bytes(st, &V::I(buf), 4, &V::I(0x7ff))?;
        self.store_bytes(st, &V::I(buf + 4), 4, &V::I(4096))?;
        self.store_bytes(st, &V::I(buf + 28), 2, &V::I(kind))?;
        self.store_bytes(st, &V::I(buf + 40), 8, &V::I(size))?;
        Ok(())
    }
    fn native_call(&mut self, st: &mut State, n: &'static str, args: &[V], dst: u32) -> R<Ret> {
        macro_rules! c {
            ($i:expr) => {
                match &args[$i] {
                    V::I(x) => *x,
                    v => {
                        let v = v.clone();
                        self.concretize(st, &v)?
                    }
                }
            };
        }
        if n.starts_with("__vx_") {
            return self.vx(st, n, args, dst);
        }
        Ok(match n {
            "nop" => Ret::V(V::I(0)),
            "hash_one" => {
                self.note("hash values of std hash maps are modelled as one constant (iteration order of hash maps is insertion order, rotated where the harness asks for it)");
                Ret::V(V::I(st.env.hash))
            }
            "rust_alloc" | "malloc" => {
                let k = c!(0) as usize;
                if k > 1 << 31 {
                    return Err(Stop::Violation("memory".into(), format!("allocation of {} bytes", k)));
                }
                let p = self.heap(st, k);
                Ret::V(V::I(p))
            }
            "calloc" => {
                let k = (c!(0) * c!(1)) as usize;
                let p = self.heap(st, k);
                Ret::V(V::I(p))
            }
            "aligned_alloc" => {
                let k = c!(1) as usize;
                let p = self.heap(st, k);
                Ret::V(V::I(p))
            }
            "posix_memalign" => {
                let k = c!(2) as usize;
                let out = c!(0);
                let p = self.heap(st, k);
                self.store_bytes(st, &V::I(out), 8, &V::I(p))?;
                Ret::V(V::I(0))
            }
            "rust_dealloc" | "free" => {
                let p = c!(0);
                self.free(st, p)?;
                Ret::Void
            }
            "rust_realloc" => {
                let p = c!(0);
                let k = c!(3) as usize;
                let np = self.realloc(st, p, k)?;
                Ret::V(V::I(np))
            }
            "realloc" => {
                let p = c!(0);
                let k = c!(1) as usize;
                let np = self.realloc(st, p, k)?;
                Ret::V(V::I(np))
            }
            "memcpy" | "memmove" => {
                let (d, s, k) = (c!(0), c!(1), c!(2));
                self.memcpy(st, d, s, k as usize)?;
                Ret::V(V::I(d))
            }
            "memset" => {
                let (d, k) = (c!(0), c!(2));
                self.memset(st, d, &args[1], k as usize)?;
                Ret::V(V::I(d))
            }
            "memcmp" => {
                let (a, b, k) = (c!(0), c!(1), c!(2));
                let r = self.cmp_bytes(st, a, b, k as usize)?;
                Ret::V(V::I(r as u32 as u64))
            }
            "bcmp" => {
                let (a, b, k) = (c!(0), c!(1), c!(2));
                let v = self.bytes_equal(st, a, b, k as usize)?;
                match v {
                    V::I(x) => Ret::V(V::I(1 - x)),
                    V::S(e) => {
                        let ne = self.ex.not(e);
                        let z = self.ex.zext(ne, 32);
                        Ret::V(V::S(z))
                    }
                    _ => unreachable!(),
                }
            }
            "strlen" => {
                let a = c!(0);
                let s = self.cstr(st, a)?;
                Ret::V(V::I(s.len() as u64))
            }
            "memchr" | "memrchr" => {
                let (a, ch, k) = (c!(0), c!(1) & 0xff, c!(2) as usize);
                let x = self.read_vec(st, a, k)?;
                let ce = self.ex.cst(ch, 8);
                let it: Vec<usize> = if n == "memchr" { (0..k).collect() } else { (0..k).rev().collect() };
                for i in it {
                    let e = self.e(&x[i], 8)?;
                    let q = self.ex.eq(e, ce);
                    if self.decide(st, q)? {
                        return Ok(Ret::V(V::I(a + i as u64)));
                    }
                }
                Ret::V(V::I(0))
            }
            "rust_memchr" | "rust_memrchr" => {
                // fn(needle: u8, haystack: &[u8]) -> Option<usize>
                let (ch, a, k) = (c!(0), c!(1), c!(2) as usize);
                let x = self.read_vec(st, a, k)?;
                if n == "rust_memrchr" && ch == 10 && x.iter().any(|v| matches!(v, V::S(_))) {
                    // only decides when the line-buffered writer flushes, never what it writes
                    self.note("line-buffer flush points do not depend on symbolic output bytes");
                    return Ok(Ret::V(V::A(Rc::new(vec![V::I(0), V::I(0)]))));
                }
                let ce = self.ex.cst(ch, 8);
                let it: Vec<usize> = if n == "rust_memchr" { (0..k).collect() } else { (0..k).rev().collect() };
                for i in it {
                    let e = self.e(&x[i], 8)?;
                    let q = self.ex.eq(e, ce);
                    if self.decide(st, q)? {
                        return Ok(Ret::V(V::A(Rc::new(vec![V::I(1), V::I(i as u64)]))));
                    }
                }
                Ret::V(V::A(Rc::new(vec![V::I(0), V::I(0)])))
            }
            "divsufsort" => {
                let (t, sa, k) = (c!(0), c!(1), c!(2) as u32 as i32);
                if k < 0 {
                    return Ok(Ret::V(V::I((-1i32) as u32 as u64)));
                }
                self.note("libdivsufsort returns the sorted suffix array (modelled, not executed)");
                let x = self.read_vec(st, t, k as usize)?;
                let ord = self.sort_suffixes(st, &x)?;
                for (i, p) in ord.iter().enumerate() {
                    self.store_bytes(st, &V::I(sa + 4 * i as u64), 4, &V::I(*p as u64))?;
                }
                Ret::V(V::I(0))
            }
            "thread_rng" => {
                // a shared handle that is never the last one
                let a = (self.alloc(st, 512) as u64) << 32;
                for i in 0..2 {
                    self.store_bytes(st, &V::I(a + 8 * i), 8, &V::I(1 << 20))?;
                }
                Ret::V(V::I(a))
            }
            "rng_u32" | "rng_u64" => {
                self.note("every value of the random source is possible at every call");
                let v = self.rng_word(st, if n == "rng_u32" { 32 } else { 64 })?;
                Ret::V(v)
            }
            "rng_fill" => {
                let (a, k) = (c!(1), c!(2) as usize);
                self.note("every value of the random source is possible at every call");
                let mut vs = vec![];
                for _ in 0..k {
                    let v = self.newvar(st, 8);
                    vs.push(v);
                }
                self.write_vec(st, a, &vs)?;
                Ret::Void
            }
            "__errno_location" => {
                if st.mem.get(st.errno).is_none() {
                    st.errno = self.alloc(st, 8);
                }
                Ret::V(V::I((st.errno as u64) << 32))
            }
            "read" => {
                let (fd, buf, k) = (c!(0), c!(1), c!(2) as usize);
                self.do_read(st, fd, buf, k)?
            }
            "readv" => {
                let (fd, iov, cnt) = (c!(0), c!(1), c!(2));
                for i in 0..cnt {
                    let b = self.load(st, &Ty::Ptr, &V::I(iov + 16 * i))?;
                    let l = self.load(st, &Ty::I(64), &V::I(iov + 16 * i + 8))?;
                    let b = self.concretize(st, &b)?;
                    let l = self.concretize(st, &l)?;
                    if l > 0 {
                        return self.do_read(st, fd, b, l as usize);
                    }
                }
                Ret::V(V::I(0))
            }
            "write" => {
                let (fd, buf, k) = (c!(0), c!(1), c!(2) as usize);
                let d = self.read_vec(st, buf, k)?;
                self.do_write(st, fd, &d)?
            }
            "writev" => {
                let (fd, iov, cnt) = (c!(0), c!(1), c!(2));
                let mut all = vec![];
                for i in 0..cnt {
                    let b = self.load(st, &Ty::Ptr, &V::I(iov + 16 * i))?;
                    let l = self.load(st, &Ty::I(64), &V::I(iov + 16 * i + 8))?;
                    let b = self.concretize(st, &b)?;
                    let l = self.concretize(st, &l)?;
                    all.extend(self.read_vec(st, b, l as usize)?);
                }
                self.do_write(st, fd, &all)?
            }
            "open" | "open64" => {
                let (p, flags) = (c!(0), c!(1));
                let mut name = self.cstr(st, p)?;
                if Self::is_stdin(&name) {
                    let env = Rc::make_mut(&mut st.env);
                    env.fds.push(Some(Fd { kind: FdK::Stdin, pos: 0, append: false }));
                    let i = env.fds.len() as u64 - 1;
                    return Ok(Ret::V(V::I(i)));
                }
                if name.starts_with(b"./") {
                    name = name[2..].to_vec();
                }
                let wr = flags & 3 != 0;
                let i = match Self::find_file(st, &name) {
                    Some(i) => {
                        if flags & 0o300 == 0o300 {
                            return self.errno(st, 17);
                        }
                        i
                    }
                    None => {
                        // there are no directories
                        if flags & 0o100 == 0 || name.contains(&b'/') {
                            return self.errno(st, 2);
                        }
                        let env = Rc::make_mut(&mut st.env);
                        env.files.push((name.clone(), Rc::new(vec![])));
                        env.files.len() - 1
                    }
                };
                let env = Rc::make_mut(&mut st.env);
                if wr && flags & 0o1000 != 0 {
                    env.files[i].1 = Rc::new(vec![]);
                }
                env.fds.push(Some(Fd { kind: FdK::File(i), pos: 0, append: flags & 0o2000 != 0 }));
                Ret::V(V::I(env.fds.len() as u64 - 1))
            }
            "close" => {
                let fd = c!(0) as usize;
                let env = Rc::make_mut(&mut st.env);
                if fd < env.fds.len() {
                    env.fds[fd] = None;
                }
                Ret::V(V::I(0))
            }
            "fstat64" => {
                let (fd, buf) = (c!(0), c!(1));
                let (sz, kind) = match Self::fd(st, fd).map(|f| f.kind.clone()) {
                    Some(FdK::File(i)) => (st.env.files[i].1.len() as u64, 0o100644),
                    Some(_) => (0, 0o010600),
                    None => return self.errno(st, 9),
                };
                self.fill_stat(st, buf, sz, kind)?;
                Ret::V(V::I(0))
            }
            "stat64" | "lstat64" => {
                let (p, buf) = (c!(0), c!(1));
                let name = self.cstr(st, p)?;
                if Self::is_stdin(&name) {
                    self.fill_stat(st, buf, 0, 0o010600)?;
                    return Ok(Ret::V(V::I(0)));
                }
                match Self::find_file(st, &name) {
                    Some(i) => {
                        let sz = st.env.files[i].1.len() as u64;
                        self.fill_stat(st, buf, sz, 0o100644)?;
                        Ret::V(V::I(0))
                    }
                    None => return self.errno(st, 2),
                }
            }
            "statx" => {
                let (fd, p, buf) = (c!(0), c!(1), c!(4));
                let name = if p == 0 { vec![] } else { self.cstr(st, p)? };
                if name.is_empty() {
                    let (sz, kind) = match Self::fd(st, fd & 0xffff_ffff).map(|f| f.kind.clone()) {
                        Some(FdK::File(i)) => (st.env.files[i].1.len() as u64, 0o100644),
                        Some(_) => (0, 0o010600),
                        None => return self.errno(st, 9),
                    };
                    self.fill_statx(st, buf, sz, kind)?;
                    Ret::V(V::I(0))
                } else if Self::is_stdin(&name) {
                    self.fill_statx(st, buf, 0, 0o010600)?;
                    Ret::V(V::I(0))
                } else {
                    match Self::find_file(st, &name) {
                        Some(i) => {
                            let sz = st.env.files[i].1.len() as u64;
                            self.fill_statx(st, buf, sz, 0o100644)?;
                            Ret::V(V::I(0))
                        }
                        None => return self.errno(st, 2),
                    }
                }
            }
            "lseek64" => {
                let (fd, off, wh) = (c!(0), c!(1) as i64, c!(2));
                let f = match Self::fd(st, fd) {
                    Some(f) => f.clone(),
                    None => return self.errno(st, 9),
                };
                match f.kind {
                    FdK::File(i) => {
                        let len = st.env.files[i].1.len() as i64;
                        let p = match wh & 0xff {
                            0 => off,
                            1 => f.pos as i64 + off,
                            _ => len + off,
                        };
                        if p < 0 {
                            return self.errno(st, 22);
                        }
                        Rc::make_mut(&mut st.env).fds[fd as usize].as_mut().unwrap().pos = p as usize;
                        Ret::V(V::I(p as u64))
                    }
                    _ => return self.errno(st, 29),
                }
            }
            "pread64" => return self.errno(st, 38),
            "copy_file_range" => return self.errno(st, 38),
            "getenv" => {
                let p = c!(0);
                let mut name = self.cstr(st, p)?;
                name.push(b'=');
                match st.env.vars.iter().find(|v| v.starts_with(&name)).map(|v| v[name.len()..].to_vec()) {
                    Some(v) => {
                        let v: Vec<V> = v.into_iter().map(|b| V::I(b as u64)).collect();
                        let p = self.new_cstr(st, &v);
                        Ret::V(V::I(p))
                    }
                    None => Ret::V(V::I(0)),
                }
            }
            "dlsym" => Ret::V(V::I(0)),
            "ftruncate64" => {
                let (fd, len) = (c!(0), c!(1));
                match Self::fd(st, fd).map(|f| f.kind.clone()) {
                    Some(FdK::File(i)) => {
                        let env = Rc::make_mut(&mut st.env);
                        Rc::make_mut(&mut env.files[i].1).resize(len as usize, V::I(0));
                        Ret::V(V::I(0))
                    }
                    Some(_) => return self.errno(st, 22),
                    None => return self.errno(st, 9),
                }
            }
            "getrandom" => {
                let (buf, k) = (c!(0), c!(1) as usize);
                let z = vec![V::I(0x5a); k];
                self.write_vec(st, buf, &z)?;
                Ret::V(V::I(k as u64))
            }
            "clock_gettime" => {
                let buf = c!(1);
                self.store_bytes(st, &V::I(buf), 8, &V::I(1_700_000_000))?;
                self.store_bytes(st, &V::I(buf + 8), 8, &V::I(5))?;
                Ret::V(V::I(0))
            }
            "syscall" => {
                // getrandom (318) and futex (202) only
                let nr = c!(0);
                match nr {
                    318 => {
                        let (buf, k) = (c!(1), c!(2) as usize);
                        let z = vec![V::I(0x5a); k];
                        self.write_vec(st, buf, &z)?;
                        Ret::V(V::I(k as u64))
                    }
                    202 => Ret::V(V::I(0)),
                    _ => return Err(Stop::Unsup(format!("syscall {}", nr))),
                }
            }
            "sysconf" => {
                let k = c!(0);
                Ret::V(V::I(if k == 30 { 4096 } else { 1024 }))
            }
            "isatty" => {
                self.errno(st, 25)?;
                Ret::V(V::I(0))
            }
            "ioctl" => return self.errno(st, 25),
            "fcntl" => Ret::V(V::I(1)),
            "pthread_key_create" => {
                let p = c!(0);
                self.store_bytes(st, &V::I(p), 4, &V::I(7))?;
                Ret::V(V::I(0))
            }
            "pthread_getspecific" => Ret::V(V::I(0)),
            "pthread_self" => Ret::V(V::I(1)),
            "getpid" | "gettid" => Ret::V(V::I(77)),
            "mmap64" | "mmap" => {
                let k = c!(1) as usize;
                let p = self.heap(st, k);
                Ret::V(V::I(p))
            }
            "poll" | "sigaction" | "signal" | "sigaltstack" | "pthread_key_delete" | "pthread_setspecific" | "getauxval"
            | "__cxa_thread_atexit_impl" | "fsync" | "fdatasync" | "munmap" | "mprotect" | "sched_yield"
            | "pthread_mutex_lock" | "pthread_mutex_unlock" | "getuid" | "flock" | "pthread_atfork" => Ret::V(V::I(0)),
            "unlink" => {
                let p = c!(0);
                let name = self.cstr(st, p)?;
                match Self::find_file(st, &name) {
                    Some(i) => {
                        Rc::make_mut(&mut st.env).files[i].0 = b"\0deleted".to_vec();
                        Ret::V(V::I(0))
                    }
                    None => return self.errno(st, 2),
                }
            }
            "__xpg_strerror_r" => {
                let (b, k) = (c!(1), c!(2));
                if k > 4 {
                    self.write_vec(st, b, &[V::I(b'e' as u64), V::I(b'r' as u64), V::I(b'r' as u64), V::I(0)])?;
                }
                Ret::V(V::I(0))
            }
            "exit" | "_exit" => {
                let s = match &args[0] {
                    V::I(x) => V::I(x & 0xff),
                    V::S(e) => {
                        let b = self.ex.extract(*e, 0, 8);
                        self.mk(b)
                    }
                    _ => V::I(0),
                };
                self.end_run(st, s)?;
                Ret::Done
            }
            "abort" => {
                if st.run.is_some() {
                    self.end_run(st, V::I(134))?;
                    Ret::Done
                } else {
                    return Err(Stop::Violation("abort".into(), "abort".into()));
                }
            }
            n => return Err(Stop::Unsup(format!("native {}", n))),
        })
    }
    fn rng_word(&mut self, st: &mut State, w: u32) -> R<V> {
        if st.env.rng_left == 1 {
            self.note("outcomes of the random source that need more draws than the bound are left out");
            return Err(Stop::Infeasible);
        }
        if st.env.rng_left > 1 {
            Rc::make_mut(&mut st.env).rng_left -= 1;
        }
        // top byte separately: samplers use the high bits
        let hi = self.newvar(st, 8);
        let lo = self.newvar(st, w - 8);
        let (h, l) = match (hi, lo) {
            (V::S(h), V::S(l)) => (h, l),
            _ => unreachable!(),
        };
        if st.env.rng_left > 0 {
            if st.env.rng_free == 0 {
                self.note("later draws of the random source take one of two top bytes");
                let t = (0..256).map(|x| (x == 0 || x == 4) as u64).collect();
                let c = self.ex.table(h, t, 1);
                self.assume(st, c);
            } else {
                Rc::make_mut(&mut st.env).rng_free -= 1;
            }
        }
        let e = self.ex.concat(h, l);
        Ok(V::S(e))
    }
    pub fn memset(&mut self, st: &mut State, d: u64, v: &V, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (id, off) = match self.resolve(st, &V::I(d), n)? {
            Addr::C(a, b) => (a, b),
            _ => unreachable!(),
        };
        let b = match v {
            V::I(x) => V::I(x & 0xff),
            V::S(e) => {
                let x = if self.ex.w(*e) > 8 { self.ex.extract(*e, 0, 8) } else { *e };
                self.mk(x)
            }
            _ => return Err(Stop::Unsup("memset".into())),
        };
        let sz = st.mem.get(id).unwrap().data.len();
        if off == 0 && n == sz {
            st.mem.get_mut(id).unwrap().upd.clear();
        } else {
            self.flatten(st, id)?;
        }
        let o = st.mem.get_mut(id).unwrap();
        if o.ro {
            return Err(Stop::Violation("memory".into(), "write to constant memory".into()));
        }
        o.fill(off, n, &b);
        Ok(())
    }
    fn do_read(&mut self, st: &mut State, fd: u64, buf: u64, k: usize) -> R<Ret> {
        let f = match Self::fd(st, fd) {
            Some(f) => f.clone(),
            None => return self.errno(st, 9),
        };
        let content: Rc<Vec<V>> = match &f.kind {
            FdK::Stdin => st.env.stdin.clone(),
            FdK::File(i) => st.env.files[*i].1.clone(),
            _ => return self.errno(st, 9),
        };
        let pos = f.pos.min(content.len());
        let mut m = k.min(content.len() - pos);
        if st.env.plan_pos < st.env.plan.len() {
            let p = st.env.plan[st.env.plan_pos].clone();
            let p = self.concretize(st, &p)? as usize;
            Rc::make_mut(&mut st.env).plan_pos += 1;
            if p == 0 {
                return self.errno(st, 4); // EINTR
            }
            if p == 255 {
                return self.errno(st, 5); // EIO
            }
            m = m.min(p);
        }
        let d: Vec<V> = content[pos..pos + m].to_vec();
        if m > 0 {
            self.write_vec(st, buf, &d)?;
        }
        // duplicated descriptors of standard input share the position
        let env = Rc::make_mut(&mut st.env);
        let isin = f.kind == FdK::Stdin;
        for (i, x) in env.fds.iter_mut().enumerate() {
            if let Some(x) = x {
                if i == fd as usize || (isin && x.kind == FdK::Stdin) {
                    x.pos = pos + m;
                }
            }
        }
        Ok(Ret::V(V::I(m as u64)))
    }
    pub fn sort_suffixes(&mut self, st: &mut State, x: &[V]) -> R<Vec<usize>> {
        let n = x.len();
        // compare two suffixes, deciding byte comparisons on the way
        let mut es = vec![];
        for v in x {
            es.push(self.e(v, 8)?);
        }
        let conc: Vec<Option<u64>> = es.iter().map(|&e| self.ex.isc(e)).collect();
        if conc.iter().all(|c| c.is_some()) {
            let b: Vec<u8> = conc.iter().map(|c| c.unwrap() as u8).collect();
            let mut o: Vec<usize> = (0..n).collect();
            // by prefix doubling
            let mut r: Vec<u32> = b.iter().map(|&c| c as u32 + 1).collect();
            let mut k = 1;
            loop {
                let key = |i: usize| (r[i], if i + k < n { r[i + k] } else { 0 });
                o.sort_by_key(|&i| key(i));
                let mut q = vec![0u32; n];
                let mut m = 0;
                for x in 0..n {
                    if x == 0 || key(o[x]) != key(o[x - 1]) {
                        m += 1;
                    }
                    q[o[x]] = m;
                }
                r = q;
                if m as usize == n {
                    break;
                }
                k *= 2;
            }
            return Ok(o);
        }
        // insert from the right end, binary search; suffixes that begin with equal letters are compared by the
        // ranks of their rests, which are there already
        let mut ord: Vec<usize> = vec![];
        let mut rank: Vec<u32> = vec![0; n + 1];
        let mut seen: HashMap<(E, E), (bool, bool)> = HashMap::new();
        for i in (0..n).rev() {
            let mut lo = 0;
            let mut hi = ord.len();
            while lo < hi {
                let mid = (lo + hi) / 2;
                let o = ord[mid];
                let (a, b) = (es[o], es[i]);
                let (eq, lt) = match seen.get(&(a, b)) {
                    Some(&r) => r,
                    None => {
                        let c = self.ex.eq(a, b);
                        let eq = self.decide(st, c)?;
                        let lt = !eq && {
                            let l = self.ex.ult(a, b);
                            self.decide(st, l)?
                        };
                        seen.insert((a, b), (eq, lt));
                        (eq, lt)
                    }
                };
                // rank 0 is the empty rest
                let less = if eq { rank[o + 1] < rank[i + 1] } else { lt };
                if less {
                    lo = mid + 1;
                } else {
                    hi = mid;
                }
            }
            ord.insert(lo, i);
            let r = lo as u32 + 1;
            for x in &mut rank[i + 1..n] {
                *x += (*x >= r) as u32;
            }
            rank[i] = r;
        }
        Ok(ord)
    }

    // ---------------------------------------------------------------- harness API
    fn vx(&mut self, st: &mut State, n: &'static str, args: &[V], dst: u32) -> R<Ret> {
        macro_rules! c {
            ($i:expr) => {
                match &args[$i] {
                    V::I(x) => *x,
                    v => {
                        let v = v.clone();
                        self.concretize(st, &v)?
                    }
                }
            };
        }
        Ok(match n {
            "__vx_sym" => {
                let w = c!(0) as u32;
                let v = self.newvar(st, w);
                Ret::V(match v {
                    V::S(e) if w < 64 => {
                        let z = self.ex.zext(e, 64);
                        V::S(z)
                    }
                    v => v,
                })
            }
            "__vx_assume" => {
                let b = self.as_bool(&args[0])?;
                match b {
                    V::I(0) => return Err(Stop::Infeasible),
                    V::I(_) => {}
                    V::S(e) => match self.kn(st, e) {
                        Some(true) => {}
                        Some(false) => return Err(Stop::Infeasible),
                        None => {
                            if self.ex.eval(e, &st.model) == 0 {
                                match self.feasible_pub(st, e) {
                                    Res::Sat(m) => st.model = Rc::new(m),
                                    Res::Unsat => return Err(Stop::Infeasible),
                                    Res::Unknown => return Err(Stop::Incomplete("solver returned unknown on an assumption".into())),
                                }
                            }
                            self.assume(st, e);
                        }
                    },
                    _ => unreachable!(),
                }
                Ret::Void
            }
            "__vx_check" => {
                let b = self.as_bool(&args[0])?;
                let (p, l) = (c!(1), c!(2));
                match b {
                    V::I(1) => self.stats.checks_const += 1,
                    V::I(_) => {
                        self.stats.checks_const += 1;
                        let id = String::from_utf8_lossy(&self.read_conc(st, p, l as usize)?).into_owned();
                        let m = (*st.model).clone();
                        self.violation(st, id, "assertion is false on this path".into(), m);
                        return Err(Stop::Infeasible);
                    }
                    V::S(e) => match self.kn(st, e) {
                        Some(true) => self.stats.checks_const += 1,
                        k => {
                            let ne = self.ex.not(e);
                            self.stats.checks_solver += 1;
                            self.maybe_dump(st, ne);
                            let r = if k == Some(false) { Res::Sat((*st.model).clone()) } else { self.feasible_pub(st, ne) };
                            match r {
                                Res::Unsat => self.learn_pub(st, e),
                                Res::Unknown => {
                                    return Err(Stop::Incomplete("solver returned unknown on an assertion".into()));
                                }
                                Res::Sat(m) => {
                                    let id = String::from_utf8_lossy(&self.read_conc(st, p, l as usize)?).into_owned();
                                    self.violation(st, id, "assertion can fail".into(), m);
                                    // continue under the assertion if possible
                                    if self.ex.eval(e, &st.model) == 0 {
                                        match self.feasible_pub(st, e) {
                                            Res::Sat(m) => st.model = Rc::new(m),
                                            _ => return Err(Stop::Infeasible),
                                        }
                                    }
                                    self.assume(st, e);
                                }
                            }
                        }
                    },
                    _ => unreachable!(),
                }
                Ret::Void
            }
            "__vx_cover" => {
                let (p, l) = (c!(0), c!(1));
                let id = String::from_utf8_lossy(&self.read_conc(st, p, l as usize)?).into_owned();
                *self.stats.covers.entry(id).or_insert(0) += 1;
                Ret::Void
            }
            "__vx_observe" => {
                Rc::make_mut(&mut st.obs).push(args[0].clone());
                Ret::Void
            }
            "__vx_param" => {
                let i = c!(0) as usize;
                Ret::V(V::I(self.cfg.params.get(i).copied().unwrap_or(0)))
            }
            "__vx_concretize" => Ret::V(V::I(c!(0))),
            "__vx_known" => {
                // 1 = true on the path, 0 = false, 2 = open
                let b = self.as_bool(&args[0])?;
                Ret::V(V::I(match b {
                    V::I(x) => x,
                    V::S(e) => match self.kn(st, e) {
                        Some(true) => 1,
                        Some(false) => 0,
                        None => 2,
                    },
                    _ => 2,
                }))
            }
            "__vx_ite" => {
                // branch-free selection
                let b = self.as_bool(&args[0])?;
                match b {
                    V::I(x) => Ret::V(if x != 0 { args[1].clone() } else { args[2].clone() }),
                    V::S(e) => {
                        let x = self.e(&args[1], 64)?;
                        let y = self.e(&args[2], 64)?;
                        let r = self.ex.ite(e, x, y);
                        Ret::V(self.mk(r))
                    }
                    _ => unreachable!(),
                }
            }
            "__vx_print" => {
                let (p, l) = (c!(0), c!(1));
                let v = self.read_vec(st, p, l as usize)?;
                if self.cfg.verbose {
                    let s: Vec<u8> = v
                        .iter()
                        .map(|x| match x {
                            V::I(x) => *x as u8,
                            V::S(e) => self.ex.eval(*e, &st.model) as u8,
                            _ => 0,
                        })
                        .collect();
                    eprintln!("[print] {}", String::from_utf8_lossy(&s));
                }
                Ret::Void
            }
            "__vx_reset" => {
                st.env = Rc::new(Env::default());
                Ret::Void
            }
            "__vx_arg" => {
                let (p, l) = (c!(0), c!(1));
                let v = self.read_vec(st, p, l as usize)?;
                Rc::make_mut(&mut st.env).args.push(v);
                Ret::Void
            }
            "__vx_file" => {
                let (np, nl, p, l) = (c!(0), c!(1), c!(2), c!(3));
                let name = self.read_conc(st, np, nl as usize)?;
                let v = self.read_vec(st, p, l as usize)?;
                let name = name.strip_prefix(b"./").unwrap_or(&name).to_vec();
                let env = Rc::make_mut(&mut st.env);
                env.files.retain(|f| f.0 != name);
                env.files.push((name, Rc::new(v)));
                Ret::Void
            }
            "__vx_stdin" => {
                let (p, l) = (c!(0), c!(1));
                let v = self.read_vec(st, p, l as usize)?;
                Rc::make_mut(&mut st.env).stdin = Rc::new(v);
                Ret::Void
            }
            "__vx_plan" => {
                let (p, l) = (c!(0), c!(1));
                let v = self.read_vec(st, p, l as usize)?;
                Rc::make_mut(&mut st.env).plan = Rc::new(v);
                Ret::Void
            }
            "__vx_wplan" => {
                let (p, l) = (c!(0), c!(1));
                let v = self.read_vec(st, p, l as usize)?;
                Rc::make_mut(&mut st.env).wplan = Rc::new(v);
                Ret::Void
            }
            "__vx_env" => {
                let (p, l) = (c!(0), c!(1));
                let v = self.read_vec(st, p, l as usize)?;
                let mut b = vec![];
                for x in &v {
                    b.push(self.concretize(st, x)? as u8);
                }
                Rc::make_mut(&mut st.env).vars.push(b);
                Ret::Void
            }
            "__vx_rng" => {
                let (n, f) = (c!(0), c!(1));
                let e = Rc::make_mut(&mut st.env);
                e.rng_left = n + 1;
                e.rng_free = f;
                Ret::Void
            }
            "__vx_hash" => {
                let h = c!(0);
                Rc::make_mut(&mut st.env).hash = h;
                Ret::Void
            }
            "__vx_out_len" => Ret::V(V::I(st.env.out.len() as u64)),
            "__vx_out" => {
                let p = c!(0);
                let v = st.env.out.clone();
                self.write_vec(st, p, &v)?;
                Ret::Void
            }
            "__vx_err_len" => Ret::V(V::I(st.env.err.len() as u64)),
            "__vx_err" => {
                let p = c!(0);
                let v = st.env.err.clone();
                self.write_vec(st, p, &v)?;
                Ret::Void
            }
            "__vx_outfile_len" => {
                let (np, nl) = (c!(0), c!(1));
                let name = self.read_conc(st, np, nl as usize)?;
                Ret::V(V::I(match Self::find_file(st, &name) {
                    Some(i) => st.env.files[i].1.len() as u64,
                    None => u64::MAX,
                }))
            }
            "__vx_outfile" => {
                let (np, nl, p) = (c!(0), c!(1), c!(2));
                let name = self.read_conc(st, np, nl as usize)?;
                if let Some(i) = Self::find_file(st, &name) {
                    let v = (*st.env.files[i].1).clone();
                    self.write_vec(st, p, &v)?;
                }
                Ret::Void
            }
            "__vx_exec" => {
                let (np, nl) = (c!(0), c!(1));
                let name = String::from_utf8_lossy(&self.read_conc(st, np, nl as usize)?).into_owned();
                let mi = match self.cfg.progs.get(&name) {
                    Some(&m) => m,
                    None => return Err(Stop::Unsup(format!("no tool {}", name))),
                };
                if st.run.is_some() {
                    return Err(Stop::Unsup("nested tool run".into()));
                }
                let main = match self.prog.find_func(mi, "main") {
                    Some(f) => f,
                    None => return Err(Stop::Unsup("no main".into())),
                };
                // the run starts from pristine global memory
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                let run = Run { mem: std::mem::take(&mut st.mem), depth: st.frames.len(), dst };
                st.run = Some(Rc::new(run));
                st.errno = self.alloc(st, 8);
                let mut argv: Vec<Vec<V>> = vec![name.bytes().map(|b| V::I(b as u64)).collect()];
                argv.extend(st.env.args.iter().cloned());
                let arr = self.alloc(st, 8 * (argv.len() + 1));
                for (i, a) in argv.iter().enumerate() {
                    let p = self.new_cstr(st, a);
                    self.store_bytes(st, &V::I(((arr as u64) << 32) + 8 * i as u64), 8, &V::I(p))?;
                }
                let envp = self.alloc(st, 8);
                if let Some(&g) = self.prog.ext_globs.get("environ") {
                    let a = self.alloc(st, 8);
                    let _ = a;
                    self.store_bytes(st, &V::I((g as u64) << 32), 8, &V::I((envp as u64) << 32))?;
                }
                {
                    let env = Rc::make_mut(&mut st.env);
                    env.plan_pos = 0;
                    env.wplan_pos = 0;
                    env.out.clear();
                    env.err.clear();
                    env.fds = vec![
                        Some(Fd { kind: FdK::Stdin, pos: 0, append: false }),
                        Some(Fd { kind: FdK::Stdout, pos: 0, append: false }),
                        Some(Fd { kind: FdK::Stderr, pos: 0, append: false }),
                    ];
                }
                let av = vec![V::I(argv.len() as u64), V::I((arr as u64) << 32), V::I((envp as u64) << 32)];
                self.push_frame(st, main, av[..2].to_vec(), dst, FK::RunMain)?;
                if let Some(f) = self.argv_init() {
                    self.push_frame(st, f, av, NONE, FK::Normal)?;
                }
                Ret::Done
            }
            "__vx_catch" => {
                let (f, a) = (c!(0), args[1].clone());
                if f < FN_BASE {
                    return Err(Stop::Unsup("catch".into()));
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                self.push_frame(st, ((f - FN_BASE) / 16) as u32, vec![a], dst, FK::Catch)?;
                Ret::Done
            }
            n => return Err(Stop::Unsup(format!("harness api {}", n))),
        })
    }
    fn argv_init(&mut self) -> Option<u32> {
        // static ARGV_INIT_ARRAY: extern "C" fn(argc, argv, envp) in section .init_array
        for g in 0..self.prog.globs.len() as u32 {
            let nm = self.prog.globs[g as usize].name;
            if nm.ends_with("15ARGV_INIT_ARRAY") && !self.prog.globs[g as usize].external {
                let i = self.prog.glob_init(g);
                let a = u64::from_le_bytes(i.bytes[..8].try_into().unwrap());
                if a >= FN_BASE {
                    return Some(((a - FN_BASE) / 16) as u32);
                }
            }
        }
        None
    }
    fn as_bool(&mut self, v: &V) -> R<V> {
        Ok(match v {
            V::I(x) => V::I(x & 1),
            V::S(e) => {
                let b = if self.ex.w(*e) > 1 { self.ex.extract(*e, 0, 1) } else { *e };
                self.mk(b)
            }
            _ => return Err(Stop::Unsup("bool".into())),
        })
    }
    fn maybe_dump(&mut self, st: &State, ne: E) {
        if let Some(d) = self.cfg.dump_dir.clone() {
            let k = self.stats.checks_solver;
            if k.is_power_of_two() && self.stats.dumped < 24 {
                self.stats.dumped += 1;
                let s = self.solver.dump(&self.ex, &st.pc, ne);
                let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), k), s);
            }
        }
    }

    // ---------------------------------------------------------------- LLVM intrinsics
    pub fn intrinsic(&mut self, st: &mut State, name: &'static str, wr: u32, args: Vec<V>) -> R<V> {
        let w = wr & 0xffff;
        let rw = wr >> 16;
        let base = name.split('.').next().unwrap();
        macro_rules! c {
            ($i:expr) => {
                match &args[$i] {
                    V::I(x) => *x,
                    v => {
                        let v = v.clone();
                        self.concretize(st, &v)?
                    }
                }
            };
        }
        // 128-bit operands: concrete only
        if w > 64 {
            return self.intrinsic_wide(name, w, &args);
        }
        match base {
            "memcpy" | "memmove" => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                self.memcpy(st, d, s, n as usize)?;
                Ok(V::I(0))
            }
            "memset" => {
                let (d, n) = (c!(0), c!(2));
                let v = args[1].clone();
                self.memset(st, d, &v, n as usize)?;
                Ok(V::I(0))
            }
            "expect" | "ptrmask" | "launder" | "strip" | "ssa_copy" => Ok(args[0].clone()),
            "threadlocal" => Ok(args[0].clone()),
            "is" if name.starts_with("is.constant") => Ok(V::I(0)),
            "is" => {
                // is.fpclass
                let x = c!(0);
                let m = c!(1);
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                use std::num::FpCategory::*;
                let neg = f.is_sign_negative();
                let bit = match f.classify() {
                    Nan => 0x3,
                    Infinite => if neg { 0x4 } else { 0x200 },
                    Normal => if neg { 0x8 } else { 0x100 },
                    Subnormal => if neg { 0x10 } else { 0x80 },
                    Zero => if neg { 0x20 } else { 0x40 },
                };
                Ok(V::I((m & bit != 0) as u64))
            }
            "trap" | "ubsantrap" | "debugtrap" => Err(Stop::Violation("trap".into(), "trap".into())),
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" if name.contains("with.overflow") => {
                let b = match &base[1..] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let signed = base.starts_with('s');
                if let (V::I(x), V::I(y)) = (&args[0], &args[1]) {
                    let (r, o) = if signed {
                        let (a, c) = (sx(*x, w) as i128, sx(*y, w) as i128);
                        let r = match b {
                            B::Add => a + c,
                            B::Sub => a - c,
                            _ => a * c,
                        };
                        let lo = -(1i128 << (w - 1));
                        let hi = (1i128 << (w - 1)) - 1;
                        (r as u64 & mask(w), r < lo || r > hi)
                    } else {
                        let (a, c) = (*x as i128, *y as i128);
                        match b {
                            B::Add => ((a + c) as u64 & mask(w), a + c > mask(w) as i128),
                            B::Sub => ((a - c) as u64 & mask(w), a < c),
                            _ => {
                                let r = (*x as u128) * (*y as u128);
                                (r as u64 & mask(w), r > mask(w) as u128)
                            }
                        }
                    };
                    return Ok(V::A(Rc::new(vec![V::I(r), V::I(o as u64)])));
                }
                let r = self.bin(st, b, w, &args[0], &args[1])?;
                let a = self.e(&args[0], w)?;
                let c2 = self.e(&args[1], w)?;
                let re = self.e(&r, w)?;
                let o = match (b, signed) {
                    (B::Add, false) => {
                        if let Some(k) = self.ex.isc(c2) {
                            // a + k overflows iff a > max - k
                            let lim = self.ex.cst(mask(w) - k, w);
                            self.ex.ult(lim, a)
                        } else {
                            self.ex.ult(re, a)
                        }
                    }
                    (B::Sub, false) => self.ex.ult(a, c2),
                    (B::Mul, _) => {
                        if w <= 32 {
                            let (a2, b2) = if signed {
                                (self.ex.sext(a, 2 * w), self.ex.sext(c2, 2 * w))
                            } else {
                                (self.ex.zext(a, 2 * w), self.ex.zext(c2, 2 * w))
                            };
                            let p = self.ex.bin(O::Mul, a2, b2);
                            let back = if signed { self.ex.sext(re, 2 * w) } else { self.ex.zext(re, 2 * w) };
                            let q = self.ex.eq(p, back);
                            self.ex.not(q)
                        } else if !signed {
                            if let Some(k) = self.ex.isc(c2) {
                                if k == 0 {
                                    self.ex.cst(0, 1)
                                } else {
                                    let lim = self.ex.cst(mask(w) / k, w);
                                    self.ex.ult(lim, a)
                                }
                            } else {
                                let x = self.concretize(st, &args[0])?;
                                let nargs = vec![V::I(x), args[1].clone()];
                                if let V::S(_) = &args[1] {
                                    let y = self.concretize(st, &args[1])?;
                                    return self.intrinsic(st, name, wr, vec![V::I(x), V::I(y)]);
                                }
                                return self.intrinsic(st, name, wr, nargs);
                            }
                        } else {
                            let x = self.concretize(st, &args[0])?;
                            let y = self.concretize(st, &args[1])?;
                            return self.intrinsic(st, name, wr, vec![V::I(x), V::I(y)]);
                        }
                    }
                    (_, _) => {
                        // signed add / sub through one more bit
                        if w < 64 {
                            let a2 = self.ex.sext(a, w + 1);
                            let b2 = self.ex.sext(c2, w + 1);
                            let p = self.ex.bin(if b == B::Add { O::Add } else { O::Sub }, a2, b2);
                            let back = self.ex.sext(re, w + 1);
                            let q = self.ex.eq(p, back);
                            self.ex.not(q)
                        } else {
                            let z = self.ex.cst(0, w);
                            let sa = self.ex.slt(a, z);
                            let sb = self.ex.slt(c2, z);
                            let sr = self.ex.slt(re, z);
                            let sb = if b == B::Sub { self.ex.not(sb) } else { sb };
                            let same = self.ex.eq(sa, sb);
                            let dif = self.ex.eq(sa, sr);
                            let nd = self.ex.not(dif);
                            self.ex.bin(O::And, same, nd)
                        }
                    }
                };
                let o = self.mk(o);
                Ok(V::A(Rc::new(vec![r, o])))
            }
            "uadd" | "usub" | "sadd" | "ssub" if name.contains(".sat") => {
                if base.starts_with('s') {
                    let (x, y) = (sx(c!(0), w) as i128, sx(c!(1), w) as i128);
                    let r = if base == "sadd" { x + y } else { x - y };
                    let r = r.clamp(-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    return Ok(V::I(r as u64 & mask(w)));
                }
                let a = self.e(&args[0], w)?;
                let b = self.e(&args[1], w)?;
                let r = if base == "usub" {
                    let d = self.ex.bin(O::Sub, a, b);
                    let z = self.ex.cst(0, w);
                    let l = self.ex.ult(a, b);
                    self.ex.ite(l, z, d)
                } else {
                    let s = self.ex.bin(O::Add, a, b);
                    let m = self.ex.cst(mask(w), w);
                    let l = self.ex.ult(s, a);
                    self.ex.ite(l, m, s)
                };
                Ok(self.mk(r))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let a = self.e(&args[0], w)?;
                let b = self.e(&args[1], w)?;
                let l = if base.starts_with('u') { self.ex.ult(a, b) } else { self.ex.slt(a, b) };
                let (x, y) = if base.ends_with("min") { (a, b) } else { (b, a) };
                if w > 16 && self.ex.isc(l).is_none() {
                    let t = self.decide(st, l)?;
                    return Ok(self.mk(if t { x } else { y }));
                }
                let r = self.ex.ite(l, x, y);
                Ok(self.mk(r))
            }
            "ucmp" | "scmp" => {
                let a = self.e(&args[0], w)?;
                let b = self.e(&args[1], w)?;
                let (l, g) = if base == "ucmp" { (self.ex.ult(a, b), self.ex.ult(b, a)) } else { (self.ex.slt(a, b), self.ex.slt(b, a)) };
                let m1 = self.ex.cst(u64::MAX, rw);
                let z = self.ex.cst(0, rw);
                let p1 = self.ex.cst(1, rw);
                let r = self.ex.ite(g, p1, z);
                let r = self.ex.ite(l, m1, r);
                Ok(self.mk(r))
            }
            "abs" => {
                let a = self.e(&args[0], w)?;
                let z = self.ex.cst(0, w);
                let n = self.ex.bin(O::Sub, z, a);
                let l = self.ex.slt(a, z);
                let r = self.ex.ite(l, n, a);
                Ok(self.mk(r))
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                if let V::I(x) = args[0] {
                    let r = match base {
                        "ctpop" => x.count_ones() as u64,
                        "ctlz" => x.leading_zeros() as u64 - (64 - w as u64),
                        "cttz" => (x.trailing_zeros() as u64).min(w as u64),
                        "bswap" => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    return Ok(V::I(r));
                }
                let a = self.e(&args[0], w)?;
                let r = match base {
                    "ctpop" => {
                        let mut s = self.ex.cst(0, w);
                        for i in 0..w {
                            let b = self.ex.extract(a, i, 1);
                            let z = if w > 1 { self.ex.zext(b, w) } else { b };
                            s = self.ex.bin(O::Add, s, z);
                        }
                        s
                    }
                    "ctlz" => {
                        let mut r = self.ex.cst(w as u64, w);
                        for i in 0..w {
                            let b = self.ex.extract(a, i, 1);
                            let k = self.ex.cst((w - 1 - i) as u64, w);
                            r = self.ex.ite(b, k, r);
                        }
                        r
                    }
                    "cttz" => {
                        let mut r = self.ex.cst(w as u64, w);
                        for i in (0..w).rev() {
                            let b = self.ex.extract(a, i, 1);
                            let k = self.ex.cst(i as u64, w);
                            r = self.ex.ite(b, k, r);
                        }
                        r
                    }
                    "bswap" => {
                        let mut r = self.ex.extract(a, 0, 8);
                        for i in 1..w / 8 {
                            let b = self.ex.extract(a, 8 * i, 8);
                            r = self.ex.concat(r, b);
                        }
                        r
                    }
                    _ => {
                        let mut r = self.ex.extract(a, 0, 1);
                        for i in 1..w {
                            let b = self.ex.extract(a, i, 1);
                            r = self.ex.concat(r, b);
                        }
                        r
                    }
                };
                Ok(self.mk(r))
            }
            "fshl" | "fshr" => {
                let k = c!(2) % w as u64;
                let a = self.e(&args[0], w)?;
                let b = self.e(&args[1], w)?;
                if k == 0 {
                    return Ok(if base == "fshl" { args[0].clone() } else { args[1].clone() });
                }
                let (l, r) = if base == "fshl" { (k, w as u64 - k) } else { (w as u64 - k, k) };
                let lk = self.ex.cst(l, w);
                let rk = self.ex.cst(r, w);
                let x = self.ex.bin(O::Shl, a, lk);
                let y = self.ex.bin(O::LShr, b, rk);
                let z = self.ex.bin(O::Or, x, y);
                Ok(self.mk(z))
            }
            "log2" | "log" | "log10" | "exp" | "exp2" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "fabs" | "roundeven" => {
                let x = c!(0);
                let f = |v: f64| match base {
                    "log2" => v.log2(),
                    "log" => v.ln(),
                    "log10" => v.log10(),
                    "exp" => v.exp(),
                    "exp2" => v.exp2(),
                    "sqrt" => v.sqrt(),
                    "floor" => v.floor(),
                    "ceil" => v.ceil(),
                    "trunc" => v.trunc(),
                    "round" => v.round(),
                    "fabs" => v.abs(),
                    _ => v.round_ties_even(),
                };
                Ok(V::I(if w == 64 { f(f64::from_bits(x)).to_bits() } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 }))
            }
            "pow" | "copysign" | "minnum" | "maxnum" | "minimum" | "maximum" => {
                let (x, y) = (c!(0), c!(1));
                let f = |a: f64, b: f64| match base {
                    "pow" => a.powf(b),
                    "copysign" => a.copysign(b),
                    "minnum" | "minimum" => a.min(b),
                    _ => a.max(b),
                };
                Ok(V::I(if w == 64 {
                    f(f64::from_bits(x), f64::from_bits(y)).to_bits()
                } else {
                    (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u64
                }))
            }
            "powi" => {
                let (x, y) = (c!(0), c!(1));
                Ok(V::I(if w == 64 {
                    f64::from_bits(x).powi(y as u32 as i32).to_bits()
                } else {
                    f32::from_bits(x as u32).powi(y as u32 as i32).to_bits() as u64
                }))
            }
            "fma" | "fmuladd" => {
                let (x, y, z) = (c!(0), c!(1), c!(2));
                Ok(V::I(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()))
            }
            "fptoui" | "fptosi" => {
                let x = c!(0);
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                if rw > 64 {
                    return Ok(V::X(Rc::new(f as u128)));
                }
                Ok(V::I(if base == "fptoui" {
                    let m = mask(rw);
                    let r = f as u64;
                    r.min(m)
                } else {
                    let r = f as i64;
                    let lo = if rw == 64 { i64::MIN } else { -(1i64 << (rw - 1)) };
                    let hi = if rw == 64 { i64::MAX } else { (1i64 << (rw - 1)) - 1 };
                    r.clamp(lo, hi) as u64 & mask(rw)
                }))
            }
            "vector" => {
                let v = match &args[args.len() - 1] {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Unsup(name.into())),
                };
                let lw: u32 = name.rsplit('i').next().and_then(|s| s.parse().ok()).unwrap_or(1);
                let op = if name.contains("reduce.and") {
                    B::And
                } else if name.contains("reduce.or") {
                    B::Or
                } else if name.contains("reduce.add") {
                    B::Add
                } else if name.contains("reduce.xor") {
                    B::Xor
                } else {
                    return Err(Stop::Unsup(name.into()));
                };
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = self.bin(st, op, lw, &r, x)?;
                }
                Ok(r)
            }
            "x86" if name.starts_with("x86.sse2.pmovmskb") => {
                let v = match &args[0] {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Unsup(name.into())),
                };
                let mut acc = self.ex.cst(0, 32);
                for (i, x) in v.iter().enumerate() {
                    let e = self.e(x, 8)?;
                    let b = self.ex.extract(e, 7, 1);
                    let z = self.ex.zext(b, 32);
                    let k = self.ex.cst(i as u64, 32);
                    let s = self.ex.bin(O::Shl, z, k);
                    acc = self.ex.bin(O::Or, acc, s);
                }
                Ok(self.mk(acc))
            }
            _ => Err(Stop::Unsup(format!("intrinsic {}", name))),
        }
    }
    fn intrinsic_wide(&mut self, name: &'static str, w: u32, args: &[V]) -> R<V> {
        let g = |v: &V| match v {
            V::X(x) => Ok(**x),
            V::I(x) => Ok(*x as u128),
            _ => Err(Stop::Unsup(format!("wide intrinsic {}", name))),
        };
        let base = name.split('.').next().unwrap();
        let x = g(&args[0])?;
        let y = if args.len() > 1 { g(&args[1])? } else { 0 };
        let ov = |r: u128, o: bool| Ok(V::A(Rc::new(vec![V::X(Rc::new(r)), V::I(o as u64)])));
        let _ = w;
        match base {
            "uadd" if name.contains("overflow") => {
                let (r, o) = x.overflowing_add(y);
                ov(r, o)
            }
            "usub" if name.contains("overflow") => {
                let (r, o) = x.overflowing_sub(y);
                ov(r, o)
            }
            "umul" => {
                let (r, o) = x.overflowing_mul(y);
                ov(r, o)
            }
            "sadd" if name.contains("overflow") => {
                let (r, o) = (x as i128).overflowing_add(y as i128);
                ov(r as u128, o)
            }
            "ssub" if name.contains("overflow") => {
                let (r, o) = (x as i128).overflowing_sub(y as i128);
                ov(r as u128, o)
            }
            "smul" => {
                let (r, o) = (x as i128).overflowing_mul(y as i128);
                ov(r as u128, o)
            }
            "ctpop" => Ok(V::X(Rc::new(x.count_ones() as u128))),
            "ctlz" => Ok(V::X(Rc::new(x.leading_zeros() as u128))),
            "cttz" => Ok(V::X(Rc::new(x.trailing_zeros() as u128))),
            "bswap" => Ok(V::X(Rc::new(x.swap_bytes()))),
            "umin" => Ok(V::X(Rc::new(x.min(y)))),
            "umax" => Ok(V::X(Rc::new(x.max(y)))),
            "is" => Ok(V::I(0)),
            "fshl" => {
                let k = (g(&args[2])? % 128) as u32;
                Ok(V::X(Rc::new(if k == 0 { x } else { x << k | y >> (128 - k) })))
            }
            _ => Err(Stop::Unsup(format!("wide intrinsic {}", name))),
        }
    }
}
