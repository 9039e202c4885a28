//! Incremental QF_BV queries against libz3 (C API).
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_uint, c_void};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> Ctx;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, i32)>);
    fn Z3_get_error_msg(c: Ctx, e: i32) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: Ctx, sym: P) -> P;
    fn Z3_mk_simple_solver(c: Ctx) -> P;
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_push(c: Ctx, s: P);
    fn Z3_solver_pop(c: Ctx, s: P, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_check(c: Ctx, s: P) -> i32;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_solver_to_string(c: Ctx, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> P;
    fn Z3_mk_const(c: Ctx, s: P, t: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: P) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
}

pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

extern "C" fn on_error(c: Ctx, e: i32) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("z3 error: {}", m);
    if std::env::var("SYMEX_BT").is_ok() {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
    }
    std::process::exit(3);
}

pub struct Solver {
    ctx: Ctx,
    s: P,
    cache: FxMap<E, Ast>,  // bit-vector term (width-1 terms: Bool)
    vars: Vec<Ast>,
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
    sorts: Vec<P>,
    params: P,
    pub deadline: Instant,
}

impl Solver {
    pub fn new(timeout_ms: u32, deadline: Instant) -> Solver {
        unsafe {
            let simple = std::env::var("SYMEX_SIMPLE").is_ok();
            let k = CString::new("model.completion").unwrap();
            let v = CString::new("true").unwrap();
            let _ = (k, v);
            let k = CString::new("memory_max_size").unwrap();
            let v = CString::new("3000").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let logic = CString::new("QF_BV").unwrap();
            let s = if simple {
                Z3_mk_simple_solver(ctx)
            } else {
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            // push once so that the solver works incrementally from the start
            Z3_solver_push(ctx, s);
            let mut sorts = vec![std::ptr::null_mut()];
            for w in 1..=64 {
                let srt = Z3_mk_bv_sort(ctx, w);
                Z3_inc_ref(ctx, srt);
                sorts.push(srt);
            }
            Solver {
                ctx,
                s,
                cache: Default::default(),
                vars: vec![],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                nanos: 0,
                sorts,
                params: p,
                deadline,
            }
        }
    }
    fn keep(&mut self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    /// as a bit-vector (booleans become 1-bit vectors)
    unsafe fn bv(&mut self, ex: &Exprs, e: E) -> Ast {
        let a = self.tr(ex, e);
        if ex.w(e) == 1 {
            let one = Z3_mk_unsigned_int64(self.ctx, 1, self.sorts[1]);
            Z3_inc_ref(self.ctx, one);
            let zero = Z3_mk_unsigned_int64(self.ctx, 0, self.sorts[1]);
            Z3_inc_ref(self.ctx, zero);
            let r = Z3_mk_ite(self.ctx, a, one, zero);
            self.keep(r)
        } else {
            a
        }
    }
    unsafe fn tobool(&mut self, a: Ast) -> Ast {
        // a may be a fresh result, which the next call would free
        Z3_inc_ref(self.ctx, a);
        let one = Z3_mk_unsigned_int64(self.ctx, 1, self.sorts[1]);
        Z3_inc_ref(self.ctx, one);
        Z3_mk_eq(self.ctx, a, one)
    }
    unsafe fn mux(&mut self, idx: Ast, t: &[u64], hi: i32, w: u32) -> Ast {
        if t.iter().all(|&x| x == t[0]) {
            let r = if w == 1 {
                if t[0] != 0 {
                    Z3_mk_true(self.ctx)
                } else {
                    Z3_mk_false(self.ctx)
                }
            } else {
                Z3_mk_unsigned_int64(self.ctx, t[0], self.sorts[w as usize])
            };
            return self.keep(r);
        }
        let h = t.len() / 2;
        let lo = self.mux(idx, &t[..h], hi - 1, w);
        let hi_ = self.mux(idx, &t[h..], hi - 1, w);
        let b = Z3_mk_extract(self.ctx, hi as u32, hi as u32, idx);
        let b = self.tobool(b);
        let b = self.keep(b);
        let r = Z3_mk_ite(self.ctx, b, hi_, lo);
        self.keep(r)
    }
    unsafe fn tr(&mut self, ex: &Exprs, e: E) -> Ast {
        if let Some(&a) = self.cache.get(&e) {
            return a;
        }
        let n = ex.nodes[e as usize];
        let c = self.ctx;
        let w = n.w as u32;
        let r = match n.op {
            O::Const => {
                if w == 1 {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    Z3_mk_unsigned_int64(c, n.k, self.sorts[w as usize])
                }
            }
            O::Var => {
                let nm = CString::new(format!("x{}", n.k)).unwrap();
                let v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), self.sorts[w as usize]);
                self.keep(v);
                while self.vars.len() <= n.k as usize {
                    self.vars.push(std::ptr::null_mut());
                }
                self.vars[n.k as usize] = v;
                if w == 1 {
                    self.tobool(v)
                } else {
                    v
                }
            }
            O::Not => {
                let a = self.tr(ex, n.a);
                Z3_mk_not(c, a)
            }
            O::And if w == 1 => {
                let a = self.tr(ex, n.a);
                let b = self.tr(ex, n.b);
                let v = [a, b];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            O::Ite => {
                let q = self.tr(ex, n.a);
                let a = self.tr(ex, n.b);
                let b = self.tr(ex, n.c);
                Z3_mk_ite(c, q, a, b)
            }
            O::Eq => {
                let a = self.tr(ex, n.a);
                let b = self.tr(ex, n.b);
                Z3_mk_eq(c, a, b)
            }
            O::Ult => {
                let a = self.bv(ex, n.a);
                let b = self.bv(ex, n.b);
                Z3_mk_bvult(c, a, b)
            }
            O::Slt => {
                let a = self.bv(ex, n.a);
                let b = self.bv(ex, n.b);
                Z3_mk_bvslt(c, a, b)
            }
            O::Zext => {
                let a = self.bv(ex, n.a);
                Z3_mk_zero_ext(c, w - ex.w(n.a), a)
            }
            O::Sext => {
                let a = self.bv(ex, n.a);
                Z3_mk_sign_ext(c, w - ex.w(n.a), a)
            }
            O::Extract => {
                let a = self.bv(ex, n.a);
                let x = Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a);
                if w == 1 {
                    self.tobool(x)
                } else {
                    x
                }
            }
            O::Concat => {
                let a = self.bv(ex, n.a);
                let b = self.bv(ex, n.b);
                Z3_mk_concat(c, a, b)
            }
            O::Table => {
                let i = self.bv(ex, n.a);
                let iw = ex.w(n.a);
                let mut t = (*ex.tables[n.k as usize]).clone();
                t.resize(1 << iw, 0);
                self.mux(i, &t, iw as i32 - 1, w)
            }
            op => {
                let a = self.bv(ex, n.a);
                let b = self.bv(ex, n.b);
                let f = match op {
                    O::Add => Z3_mk_bvadd,
                    O::Sub => Z3_mk_bvsub,
                    O::Mul => Z3_mk_bvmul,
                    O::UDiv => Z3_mk_bvudiv,
                    O::URem => Z3_mk_bvurem,
                    O::SDiv => Z3_mk_bvsdiv,
                    O::SRem => Z3_mk_bvsrem,
                    O::And => Z3_mk_bvand,
                    O::Or => Z3_mk_bvor,
                    O::Xor => Z3_mk_bvxor,
                    O::Shl => Z3_mk_bvshl,
                    O::LShr => Z3_mk_bvlshr,
                    O::AShr => Z3_mk_bvashr,
                    _ => unreachable!(),
                };
                let x = f(c, a, b);
                if w == 1 {
                    self.tobool(x)
                } else {
                    x
                }
            }
        };
        self.keep(r);
        self.cache.insert(e, r);
        r
    }
    fn sync(&mut self, ex: &Exprs, pc: &[E]) {
        unsafe {
            let mut common = 0;
            while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
                common += 1;
            }
            let d = self.stack.len() - common;
            if d > 0 {
                Z3_solver_pop(self.ctx, self.s, d as c_uint);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                let a = self.tr(ex, e);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, a);
                self.stack.push(e);
            }
        }
    }
    pub fn check(&mut self, ex: &Exprs, pc: &[E], extra: E) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let left = self.deadline.saturating_duration_since(t0).as_millis();
        if left == 0 {
            self.unknown += 1;
            return Res::Unknown;
        }
        unsafe {
            if left < 20_000 {
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.ctx, self.params, Z3_mk_string_symbol(self.ctx, t.as_ptr()), left.max(20) as u32);
                Z3_solver_set_params(self.ctx, self.s, self.params);
            }
            if self.cache.len() > 400_000 {
                self.reset_cache();
            }
            self.sync(ex, pc);
            let a = self.tr(ex, extra);
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, a);
            let r = Z3_solver_check(self.ctx, self.s);
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![0u64; ex.var_w.len()];
                    for i in 0..out.len().min(self.vars.len()) {
                        if self.vars[i].is_null() {
                            continue;
                        }
                        let mut v: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, self.vars[i], true, &mut v) {
                            Z3_inc_ref(self.ctx, v);
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(self.ctx, v, &mut x);
                            out[i] = x;
                            Z3_dec_ref(self.ctx, v);
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            self.nanos += t0.elapsed().as_nanos() as u64;
            res
        }
    }
    /// SMT-LIB text of the query pc /\ extra
    pub fn dump(&mut self, ex: &Exprs, pc: &[E], extra: E) -> String {
        unsafe {
            self.sync(ex, pc);
            let a = self.tr(ex, extra);
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, a);
            let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
            Z3_solver_pop(self.ctx, self.s, 1);
            format!("(set-logic QF_BV)\n{}(check-sat)\n", s)
        }
    }
    unsafe fn reset_cache(&mut self) {
        let n = self.stack.len();
        if n > 0 {
            Z3_solver_pop(self.ctx, self.s, n as c_uint);
            self.stack.clear();
        }
        for (_, a) in self.cache.drain() {
            Z3_dec_ref(self.ctx, a);
        }
        // variable terms are re-created with the same names
        for v in self.vars.iter_mut() {
            *v = std::ptr::null_mut();
        }
    }
}
