//! Symbolic interpreter for the linked LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::state::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

pub struct Config {
    pub params: Vec<u64>,
    pub max_instrs: u64,
    pub deadline: Instant,
    pub samples: usize,
    pub seed: u64,
    pub progs: HashMap<String, u32>, // tool name -> module index
    pub dump_dir: Option<String>,
    pub verbose: bool,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub vars: Vec<u64>,
    pub obs: Vec<u64>,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub id: String,
    pub msg: String,
    pub vars: Vec<u64>,
    pub trace: String,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub unsup: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub assumptions: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
    pub samples: Vec<Sample>,
    pub dumped: u32,
    pub pending: u64,
    pub maxpc: u64,
}

pub struct Exec {
    pub ex: Exprs,
    pub prog: Program,
    pub solver: Solver,
    pub work: VecDeque<State>,
    pub stats: Stats,
    pub cfg: Config,
    pub icept: Vec<u16>,
    pub called: Vec<bool>,
    pub support: FxMap<E, Rc<Vec<u32>>>,
    pub rng: u64,
    pub main_glob_count: u32,
    pub viol_ids: HashMap<String, u32>,
}

#[derive(Clone)]
pub enum Addr {
    C(u32, usize),
    S(u32, E, u32), // object, offset expression, single variable
}

impl Exec {
    pub fn new(prog: Program, cfg: Config) -> Exec {
        let ng = prog.globs.len() as u32;
        let seed = cfg.seed;
        Exec {
            ex: Exprs::new(),
            prog,
            solver: Solver::new(20_000, cfg.deadline),
            work: VecDeque::new(),
            stats: Stats::default(),
            cfg,
            icept: vec![],
            called: vec![],
            support: Default::default(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            main_glob_count: ng,
            viol_ids: HashMap::new(),
        }
    }
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn initial(&mut self, entry: u32) -> State {
        let mut st = State {
            frames: vec![],
            mem: Mem::default(),
            next_obj: self.main_glob_count + 1,
            pc: Rc::new(vec![]),
            known: Rc::new(Default::default()),
            dom: Rc::new(vec![]),
            linked: Rc::new(vec![]),
            model: Rc::new(vec![]),
            nvars: 0,
            env: Rc::new(Env::default()),
            obs: Rc::new(vec![]),
            instrs: 0,
            run: None,
            errno: 0,
            forks: 0,
        };
        st.errno = self.alloc(&mut st, 8);
        self.push_frame(&mut st, entry, vec![], NONE, FK::Entry).ok().expect("entry function");
        st
    }

    // ---------------------------------------------------------------- conditions
    pub fn supp(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.support.get(&e) {
            return s.clone();
        }
        let mut out: Vec<u32> = vec![];
        let mut seen: std::collections::HashSet<E> = Default::default();
        let mut stack = vec![e];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let sv = self.ex.sv[x as usize];
            if sv == NOVAR {
                continue;
            }
            if sv != MULTI {
                if !out.contains(&sv) {
                    out.push(sv);
                }
                continue;
            }
            let n = self.ex.nodes[x as usize];
            match n.op {
                O::Const | O::Var => {}
                O::Not | O::Zext | O::Sext | O::Extract | O::Table => stack.push(n.a),
                O::Ite => {
                    stack.push(n.a);
                    stack.push(n.b);
                    stack.push(n.c);
                }
                _ => {
                    stack.push(n.a);
                    stack.push(n.b);
                }
            }
        }
        let r = Rc::new(out);
        self.support.insert(e, r.clone());
        r
    }
    /// single small variable of an expression
    fn small(&self, e: E) -> Option<u32> {
        let v = self.ex.sv[e as usize];
        if v < MULTI && self.ex.var_w[v as usize] <= 8 {
            Some(v)
        } else {
            None
        }
    }
    /// value of an expression that is fixed by the domain of its only variable
    pub fn value_of(&mut self, st: &State, e: E) -> Option<u64> {
        if let Some(k) = self.ex.isc(e) {
            return Some(k);
        }
        let v = self.small(e)?;
        let d = st.dom[v as usize];
        let t = self.ex.ttable(e);
        let mut r: Option<u64> = None;
        for (i, x) in t.iter().enumerate() {
            if d[i >> 6] >> (i & 63) & 1 != 0 {
                match r {
                    None => r = Some(*x),
                    Some(y) if y == *x => {}
                    _ => return None,
                }
            }
        }
        r
    }
    fn range(&mut self, st: &State, e: E) -> Option<(u64, u64)> {
        if let Some(k) = self.ex.isc(e) {
            return Some((k, k));
        }
        let n = self.ex.nodes[e as usize];
        if n.op == O::Zext {
            return self.range(st, n.a);
        }
        if n.op == O::Var && n.w <= 8 {
            let d = &st.dom[n.k as usize];
            let mut lo = 256;
            let mut hi = 0;
            for i in 0..4 {
                if d[i] != 0 {
                    if lo == 256 {
                        lo = i as u64 * 64 + d[i].trailing_zeros() as u64;
                    }
                    hi = i as u64 * 64 + 63 - d[i].leading_zeros() as u64;
                }
            }
            return Some((lo, hi));
        }
        None
    }
    pub fn kn(&mut self, st: &State, c: E) -> Option<bool> {
        let n = self.ex.nodes[c as usize];
        match n.op {
            O::Const => return Some(n.k != 0),
            O::Not => return self.kn(st, n.a).map(|b| !b),
            _ => {}
        }
        if let Some(&b) = st.known.get(&c) {
            return Some(b);
        }
        if self.small(c).is_some() {
            return self.value_of(st, c).map(|x| x != 0);
        }
        match n.op {
            O::And => {
                let a = self.kn(st, n.a);
                if a == Some(false) {
                    return a;
                }
                let b = self.kn(st, n.b);
                if b == Some(false) {
                    return b;
                }
                if a == Some(true) && b == Some(true) {
                    return a;
                }
            }
            O::Ite => {
                if let Some(q) = self.kn(st, n.a) {
                    return self.kn(st, if q { n.b } else { n.c });
                }
            }
            O::Ult => {
                if let (Some((al, ah)), Some((bl, bh))) = (self.range(st, n.a), self.range(st, n.b)) {
                    if ah < bl {
                        return Some(true);
                    }
                    if al >= bh {
                        return Some(false);
                    }
                }
            }
            O::Eq if self.ex.w(n.a) > 1 => {
                if let (Some((al, ah)), Some((bl, bh))) = (self.range(st, n.a), self.range(st, n.b)) {
                    if ah < bl || bh < al {
                        return Some(false);
                    }
                }
            }
            O::Eq => {
                if let (Some(a), Some(b)) = (self.kn(st, n.a), self.kn(st, n.b)) {
                    return Some(a == b);
                }
            }
            _ => {}
        }
        None
    }
    fn learn(&mut self, st: &mut State, c: E, val: bool) {
        let n = self.ex.nodes[c as usize];
        match n.op {
            O::Const => return,
            O::Not => return self.learn(st, n.a, !val),
            _ => {}
        }
        if st.known.get(&c) == Some(&val) {
            return;
        }
        Rc::make_mut(&mut st.known).insert(c, val);
        match n.op {
            O::And => {
                if val {
                    self.learn(st, n.a, true);
                    self.learn(st, n.b, true);
                } else {
                    if self.kn(st, n.a) == Some(true) {
                        self.learn(st, n.b, false);
                    } else if self.kn(st, n.b) == Some(true) {
                        self.learn(st, n.a, false);
                    }
                }
            }
            O::Ult | O::Slt => {
                let eq = self.ex.eq(n.a, n.b);
                if val {
                    self.learn1(st, eq, false);
                    let r = self.ex.cmp(n.op, n.b, n.a);
                    self.learn1(st, r, false);
                } else {
                    match self.kn(st, eq) {
                        Some(false) => {
                            let r = self.ex.cmp(n.op, n.b, n.a);
                            self.learn1(st, r, true);
                        }
                        None => {
                            let r = self.ex.cmp(n.op, n.b, n.a);
                            if self.kn(st, r) == Some(false) {
                                self.learn1(st, eq, true);
                            }
                        }
                        _ => {}
                    }
                }
            }
            O::Eq => {
                if val {
                    for op in [O::Ult, O::Slt] {
                        for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                            let r = self.ex.cmp(op, x, y);
                            self.learn1(st, r, false);
                        }
                    }
                } else {
                    for op in [O::Ult, O::Slt] {
                        for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                            let r = self.ex.cmp(op, x, y);
                            if st.known.get(&r) == Some(&false) {
                                let q = self.ex.cmp(op, y, x);
                                self.learn1(st, q, true);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn learn1(&mut self, st: &mut State, c: E, val: bool) {
        let n = self.ex.nodes[c as usize];
        match n.op {
            O::Const => {}
            O::Not => {
                Rc::make_mut(&mut st.known).insert(n.a, !val);
            }
            _ => {
                Rc::make_mut(&mut st.known).insert(c, val);
            }
        }
    }
    /// add a condition known to be consistent with the path (model must already satisfy it)
    pub fn assume(&mut self, st: &mut State, c: E) {
        if self.kn(st, c) == Some(true) {
            return;
        }
        Rc::make_mut(&mut st.pc).push(c);
        if let Some(v) = self.small(c) {
            let t = self.ex.ttable(c);
            let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
            for (i, x) in t.iter().enumerate() {
                if *x == 0 {
                    d[i >> 6] &= !(1 << (i & 63));
                }
            }
            self.learn(st, c, true);
            return;
        }
        let s = self.supp(c);
        let l = Rc::make_mut(&mut st.linked);
        for v in s.iter() {
            l[*v as usize] = true;
        }
        self.learn(st, c, true);
    }
    fn feasible(&mut self, st: &State, c: E) -> Res {
        if let Some(v) = self.small(c) {
            let d = st.dom[v as usize];
            let t = self.ex.ttable(c);
            let mut w = None;
            for (i, x) in t.iter().enumerate() {
                if *x != 0 && d[i >> 6] >> (i & 63) & 1 != 0 {
                    w = Some(i as u64);
                    break;
                }
            }
            match w {
                None => return Res::Unsat,
                Some(x) if !st.linked[v as usize] => {
                    let mut m = (*st.model).clone();
                    m[v as usize] = x;
                    return Res::Sat(m);
                }
                _ => {}
            }
        }
        match self.solver.check(&self.ex, &st.pc, c) {
            Res::Sat(m) => Res::Sat(self.complete_model(st, m)),
            r => r,
        }
    }
    /// variables without relational constraints keep their current (domain-consistent) value
    fn complete_model(&mut self, st: &State, mut m: Vec<u64>) -> Vec<u64> {
        m.resize(st.nvars as usize, 0);
        for v in 0..st.nvars as usize {
            if self.ex.var_w[v] <= 8 && m[v] < 256 {
                let x = m[v] as usize;
                if st.dom[v][x >> 6] >> (x & 63) & 1 == 0 {
                    // unconstrained in the query: any value of the domain will do
                    m[v] = st.model[v];
                }
            }
        }
        m
    }
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.kn(st, c) {
            return Ok(b);
        }
        let mv = self.ex.eval(c, &st.model) != 0;
        let nc = self.ex.not(c);
        let (mine, other) = if mv { (c, nc) } else { (nc, c) };
        match self.feasible(st, other) {
            Res::Unsat => {
                // implied, so the domain of a small variable may be cut
                if let Some(v) = self.small(mine) {
                    let t = self.ex.ttable(mine);
                    let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
                    for (i, x) in t.iter().enumerate() {
                        if *x == 0 {
                            d[i >> 6] &= !(1 << (i & 63));
                        }
                    }
                }
                self.learn(st, c, mv);
            }
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.forks += 1;
                self.assume(&mut o, other);
                self.stats.forks += 1;
                self.work.push_back(o);
                self.assume(st, mine);
            }
            Res::Unknown => {
                *self.stats.incomplete.entry("solver returned unknown on a branch".into()).or_insert(0) += 1;
                self.assume(st, mine);
            }
        }
        Ok(mv)
    }
    pub fn feasible_pub(&mut self, st: &State, c: E) -> Res {
        self.feasible(st, c)
    }
    pub fn learn_pub(&mut self, st: &mut State, c: E) {
        self.learn(st, c, true)
    }
    pub fn decide_v(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::I(x) => Ok(*x & 1 != 0),
            V::S(e) => {
                let e = *e;
                self.decide(st, e)
            }
            _ => Err(Stop::Unsup("condition".into())),
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::S(e) => {
                let e = *e;
                if let Some(k) = self.value_of(st, e) {
                    return Ok(k);
                }
                loop {
                    let k = self.ex.eval(e, &st.model);
                    let w = self.ex.w(e);
                    let ke = self.ex.cst(k, w);
                    let c = self.ex.eq(e, ke);
                    if self.decide(st, c)? {
                        return Ok(k);
                    }
                }
            }
            _ => Err(Stop::Unsup("concretize aggregate".into())),
        }
    }
    pub fn e(&mut self, v: &V, w: u32) -> R<E> {
        match v {
            V::I(x) => Ok(self.ex.cst(*x, w)),
            V::S(e) => {
                debug_assert_eq!(self.ex.w(*e), w);
                Ok(*e)
            }
            _ => Err(Stop::Unsup("scalar expected".into())),
        }
    }
    #[inline]
    pub fn mk(&self, e: E) -> V {
        match self.ex.isc(e) {
            Some(k) => V::I(k),
            None => V::S(e),
        }
    }
    pub fn newvar(&mut self, st: &mut State, w: u32) -> V {
        let i = st.nvars as usize;
        st.nvars += 1;
        let full: Dom = if w <= 6 { [mask(1 << w), 0, 0, 0] } else if w == 7 { [u64::MAX, u64::MAX, 0, 0] } else { [u64::MAX; 4] };
        Rc::make_mut(&mut st.dom).push(full);
        Rc::make_mut(&mut st.linked).push(w > 8);
        Rc::make_mut(&mut st.model).push(0);
        let e = self.ex.newvar(i, w);
        V::S(e)
    }

    // ---------------------------------------------------------------- memory
    pub fn alloc(&mut self, st: &mut State, n: usize) -> u32 {
        let id = st.next_obj;
        st.next_obj += 1;
        *st.mem.slot(id) = Some(Rc::new(Obj::new(n)));
        id
    }
    fn load_glob(&mut self, st: &mut State, id: u32) -> R<()> {
        if id == 0 || id >= self.main_glob_count {
            return Err(Stop::Violation("memory".into(), format!("access to invalid object {:#x}", id)));
        }
        let gi = self.prog.glob_init(id);
        let mut o = Obj::new(0);
        o.data = gi.bytes.clone();
        o.ro = gi.readonly;
        *st.mem.slot(id) = Some(Rc::new(o));
        Ok(())
    }
    pub fn obj<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a Rc<Obj>> {
        if st.mem.get(id).is_none() {
            self.load_glob(st, id)?;
        }
        Ok(st.mem.get(id).unwrap())
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if st.mem.get(id).is_none() {
            self.load_glob(st, id)?;
        }
        Ok(st.mem.get_mut(id).unwrap())
    }
    fn oob(&self, id: u32, off: usize, n: usize, sz: usize) -> Stop {
        Stop::Violation(
            "memory".into(),
            format!("access of {} bytes at offset {} of object {:#x} of size {}", n, off, id, sz),
        )
    }
    pub fn resolve(&mut self, st: &mut State, a: &V, n: usize) -> R<Addr> {
        match a {
            V::I(x) => {
                let id = (*x >> 32) as u32;
                let off = (*x & 0xffff_ffff) as usize;
                if n == 0 {
                    return Ok(Addr::C(id, off));
                }
                let sz = match st.mem.get(id) {
                    Some(o) => o.data.len(),
                    None => {
                        if *x >> 32 >= FN_BASE >> 32 {
                            return Err(Stop::Violation("memory".into(), format!("data access to {:#x}", x)));
                        }
                        if id >= self.main_glob_count {
                            return Err(Stop::Violation("memory".into(), format!("use after free or wild pointer {:#x}", x)));
                        }
                        if id == 0 {
                            return Err(Stop::Violation("memory".into(), format!("null or dangling pointer {:#x}", x)));
                        }
                        self.load_glob(st, id)?;
                        st.mem.get(id).unwrap().data.len()
                    }
                };
                if off + n > sz {
                    return Err(self.oob(id, off, n, sz));
                }
                Ok(Addr::C(id, off))
            }
            V::S(e) => {
                let e = *e;
                if let Some(k) = self.value_of(st, e) {
                    return self.resolve(st, &V::I(k), n);
                }
                let sv = match self.small(e) {
                    Some(v) => v,
                    None => {
                        let k = self.concretize(st, a)?;
                        return self.resolve(st, &V::I(k), n);
                    }
                };
                let a0 = self.ex.eval(e, &st.model);
                let id = (a0 >> 32) as u32;
                let sz = self.obj(st, id)?.data.len();
                let t = self.ex.ttable(e);
                let d = st.dom[sv as usize];
                let inb = |x: u64| (x >> 32) as u32 == id && (x & 0xffff_ffff) as usize + n <= sz;
                let mut all = true;
                for (i, x) in t.iter().enumerate() {
                    if d[i >> 6] >> (i & 63) & 1 != 0 && !inb(*x) {
                        all = false;
                        break;
                    }
                }
                if !all {
                    let vals: Vec<u64> = t.iter().map(|x| inb(*x) as u64).collect();
                    let vw = self.ex.var_w[sv as usize] as u32;
                    let ve = self.ex.newvar(sv as usize, vw);
                    let c = self.ex.table(ve, vals, 1);
                    if !self.decide(st, c)? {
                        return Err(self.oob(id, (a0 & 0xffff_ffff) as usize, n, sz));
                    }
                    return self.resolve(st, a, n);
                }
                let b = self.ex.cst((id as u64) << 32, 64);
                let off = self.ex.bin(O::Sub, e, b);
                Ok(Addr::S(id, off, sv))
            }
            _ => Err(Stop::Unsup("address".into())),
        }
    }
    /// distinct concrete offsets of a symbolic offset under the current domain
    fn offsets(&mut self, st: &State, off: E, sv: u32) -> Vec<u64> {
        let d = st.dom[sv as usize];
        let t = self.ex.ttable(off);
        let mut r: Vec<u64> = t
            .iter()
            .enumerate()
            .filter(|(i, _)| d[i >> 6] >> (i & 63) & 1 != 0)
            .map(|(_, x)| *x)
            .collect();
        r.sort();
        r.dedup();
        r
    }
    /// fold pending symbolic-index updates into per-byte terms
    pub fn flatten(&mut self, st: &mut State, id: u32) -> R<()> {
        let o = self.obj(st, id)?.clone();
        if o.upd.is_empty() {
            return Ok(());
        }
        let mut new = (*o).clone();
        let upd = std::mem::take(&mut new.upd);
        for u in upd {
            if let Some(k) = self.value_of(st, u.addr) {
                new.write(&mut self.ex, k as usize, u.size as usize, &u.val);
                continue;
            }
            let sv = self.small(u.addr).unwrap();
            let offs = self.offsets(st, u.addr, sv);
            let ve = self.e(&u.val, u.size * 8)?;
            for k in offs {
                let ke = self.ex.cst(k, 64);
                let c = self.ex.eq(u.addr, ke);
                let old = new.read(&mut self.ex, k as usize, u.size as usize);
                let oe = self.e(&old, u.size * 8)?;
                let r = self.ex.ite(c, ve, oe);
                let r = self.mk(r);
                new.write(&mut self.ex, k as usize, u.size as usize, &r);
            }
        }
        *st.mem.slot(id) = Some(Rc::new(new));
        Ok(())
    }
    fn low_known(&self, e: E) -> (u32, u64) {
        // number of known low bits and their value
        let n = self.ex.nodes[e as usize];
        match n.op {
            O::Const => (64, n.k),
            O::Concat => {
                let (k, v) = self.low_known(n.b);
                let lw = self.ex.w(n.b);
                if k >= lw {
                    (lw, v)
                } else {
                    (k, v)
                }
            }
            O::Zext => {
                let (k, v) = self.low_known(n.a);
                (k.min(self.ex.w(n.a)), v)
            }
            O::Add => {
                let (k1, v1) = self.low_known(n.a);
                let (k2, v2) = self.low_known(n.b);
                let k = k1.min(k2);
                (k, v1.wrapping_add(v2) & mask(k.max(1)))
            }
            _ => (0, 0),
        }
    }
    fn same_or_disjoint(&self, a: E, b: E, n: u32) -> bool {
        if n == 1 {
            return true;
        }
        if !n.is_power_of_two() {
            return false;
        }
        let s = n.trailing_zeros();
        let (ka, va) = self.low_known(a);
        let (kb, vb) = self.low_known(b);
        ka >= s && kb >= s && (va ^ vb) & mask(s) == 0
    }
    fn load_bytes(&mut self, st: &mut State, ad: &Addr, n: usize) -> R<V> {
        match *ad {
            Addr::C(id, off) => {
                let o = st.mem.get(id).unwrap();
                if o.upd.is_empty() {
                    let (a, b) = o.sym_range(off, n);
                    if a == b {
                        let mut k = [0u8; 8];
                        k[..n].copy_from_slice(&o.data[off..off + n]);
                        return Ok(V::I(u64::from_le_bytes(k)));
                    }
                    let o = o.clone();
                    let v = o.read(&mut self.ex, off, n);
                    if let V::S(e) = v {
                        if let Some(k) = self.value_of(st, e) {
                            return Ok(V::I(k));
                        }
                    }
                    return Ok(v);
                }
                let oe = self.ex.cst(off as u64, 64);
                self.load_upd(st, id, oe, n)
            }
            Addr::S(id, off, _) => self.load_upd(st, id, off, n),
        }
    }
    fn load_upd(&mut self, st: &mut State, id: u32, off: E, n: usize) -> R<V> {
        let o = self.obj(st, id)?.clone();
        let mut ok = true;
        for u in &o.upd {
            if u.size as usize != n || !self.same_or_disjoint(u.addr, off, n as u32) {
                ok = false;
                break;
            }
        }
        if !ok {
            self.flatten(st, id)?;
            return self.load_upd(st, id, off, n);
        }
        let w = 8 * n as u32;
        // base value
        let mut r: E = match self.ex.isc(off) {
            Some(k) => {
                let v = o.read(&mut self.ex, k as usize, n);
                self.e(&v, w)?
            }
            None => {
                let sv = self.small(off).unwrap();
                let d = st.dom[sv as usize];
                let t = self.ex.ttable(off);
                let concrete = o.sym.is_empty();
                if concrete {
                    let vals: Vec<u64> = t
                        .iter()
                        .enumerate()
                        .map(|(i, x)| {
                            if d[i >> 6] >> (i & 63) & 1 != 0 {
                                let mut k = [0u8; 8];
                                k[..n].copy_from_slice(&o.data[*x as usize..*x as usize + n]);
                                u64::from_le_bytes(k)
                            } else {
                                0
                            }
                        })
                        .collect();
                    // fill values outside the domain so that constant tables collapse
                    let first = (0..t.len()).find(|i| d[i >> 6] >> (i & 63) & 1 != 0).unwrap();
                    let f = vals[first];
                    let vals: Vec<u64> = vals
                        .into_iter()
                        .enumerate()
                        .map(|(i, x)| if d[i >> 6] >> (i & 63) & 1 != 0 { x } else { f })
                        .collect();
                    let vw = self.ex.var_w[sv as usize] as u32;
                    let ve = self.ex.newvar(sv as usize, vw);
                    self.ex.table(ve, vals, w)
                } else {
                    let offs = self.offsets(st, off, sv);
                    let mut r = None;
                    for k in offs {
                        let v = o.read(&mut self.ex, k as usize, n);
                        let ve = self.e(&v, w)?;
                        r = Some(match r {
                            None => ve,
                            Some(p) => {
                                let ke = self.ex.cst(k, 64);
                                let c = self.ex.eq(off, ke);
                                self.ex.ite(c, ve, p)
                            }
                        });
                    }
                    r.unwrap()
                }
            }
        };
        for u in &o.upd {
            let c = self.ex.eq(u.addr, off);
            let ve = self.e(&u.val, w)?;
            match self.kn(st, c) {
                Some(true) => r = ve,
                Some(false) => {}
                None => r = self.ex.ite(c, ve, r),
            }
        }
        if let Some(k) = self.value_of(st, r) {
            return Ok(V::I(k));
        }
        Ok(V::S(r))
    }
    pub fn load(&mut self, st: &mut State, ty: &Ty, a: &V) -> R<V> {
        let n = ty.store_size() as usize;
        if n == 0 {
            return Ok(V::A(Rc::new(vec![])));
        }
        match ty {
            Ty::I(w) if *w <= 64 => {
                let ad = self.resolve(st, a, n)?;
                let v = self.load_bytes(st, &ad, n)?;
                if *w as usize == 8 * n {
                    return Ok(v);
                }
                Ok(match v {
                    V::I(x) => V::I(x & mask(*w)),
                    V::S(e) => {
                        let t = self.ex.extract(e, 0, *w);
                        self.mk(t)
                    }
                    v => v,
                })
            }
            Ty::Ptr | Ty::F64 | Ty::F32 => {
                let ad = self.resolve(st, a, n)?;
                self.load_bytes(st, &ad, n)
            }
            Ty::I(_) => {
                let ad = self.resolve(st, a, n)?;
                let mut x = 0u128;
                for i in (0..n).step_by(8) {
                    let m = (n - i).min(8);
                    let ad2 = match &ad {
                        Addr::C(id, off) => Addr::C(*id, *off + i),
                        _ => return Err(Stop::Unsup("wide symbolic-address load".into())),
                    };
                    let v = self.load_bytes(st, &ad2, m)?;
                    let k = self.concretize(st, &v)?;
                    x |= (k as u128) << (8 * i);
                }
                Ok(V::X(Rc::new(x)))
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let cnt = match ty {
                    Ty::Vec(k, _) => *k as u64,
                    Ty::Arr(k, _) => *k,
                    Ty::Struct(f, _) => f.len() as u64,
                    _ => 0,
                };
                let base = self.concretize(st, a)?;
                let mut out = Vec::with_capacity(cnt as usize);
                for i in 0..cnt {
                    let (o, t) = ty.field_off(i);
                    out.push(self.load(st, &t, &V::I(base + o))?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Err(Stop::Unsup(format!("load {:?}", ty))),
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &V, a: &V) -> R<()> {
        let n = ty.store_size() as usize;
        if n == 0 {
            return Ok(());
        }
        match ty {
            Ty::I(w) if *w <= 64 => {
                let v = match v {
                    V::S(e) if *w as usize != 8 * n => {
                        let z = self.ex.zext(*e, 8 * n as u32);
                        V::S(z)
                    }
                    v => v.clone(),
                };
                self.store_bytes(st, a, n, &v)
            }
            Ty::Ptr | Ty::F64 | Ty::F32 => self.store_bytes(st, a, n, v),
            Ty::I(_) => {
                let x = match v {
                    V::X(x) => **x,
                    V::I(x) => *x as u128,
                    _ => return Err(Stop::Unsup("wide store".into())),
                };
                let base = self.concretize(st, a)?;
                self.resolve(st, &V::I(base), n)?;
                for i in (0..n).step_by(8) {
                    let m = (n - i).min(8);
                    self.store_bytes(st, &V::I(base + i as u64), m, &V::I((x >> (8 * i)) as u64 & mask(8 * m as u32)))?;
                }
                Ok(())
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let base = self.concretize(st, a)?;
                self.resolve(st, &V::I(base), n)?;
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    _ => return Err(Stop::Unsup("aggregate store".into())),
                };
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = ty.field_off(i as u64);
                    self.store(st, &t, x, &V::I(base + o))?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsup(format!("store {:?}", ty))),
        }
    }
    pub fn store_bytes(&mut self, st: &mut State, a: &V, n: usize, v: &V) -> R<()> {
        let ad = self.resolve(st, a, n)?;
        match ad {
            Addr::C(id, off) => {
                let o = st.mem.get_mut(id).unwrap();
                if o.ro {
                    return Err(Stop::Violation("memory".into(), "write to constant memory".into()));
                }
                if o.upd.is_empty() {
                    if let V::I(x) = v {
                        if o.sym.is_empty() {
                            o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                            return Ok(());
                        }
                    }
                    o.write(&mut self.ex, off, n, v);
                } else {
                    let oe = self.ex.cst(off as u64, 64);
                    o.upd.push(Upd { addr: oe, size: n as u32, val: v.clone() });
                }
            }
            Addr::S(id, off, _) => {
                let o = self.obj_mut(st, id)?;
                if o.ro {
                    return Err(Stop::Violation("memory".into(), "write to constant memory".into()));
                }
                // a second store to the same term replaces the first
                if let Some(u) = o.upd.last_mut() {
                    if u.addr == off && u.size as usize == n {
                        u.val = v.clone();
                        return Ok(());
                    }
                }
                o.upd.push(Upd { addr: off, size: n as u32, val: v.clone() });
            }
        }
        Ok(())
    }
    /// n bytes at a concrete address as values
    pub fn read_vec(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = match self.resolve(st, &V::I(a), n)? {
            Addr::C(id, off) => (id, off),
            _ => unreachable!(),
        };
        self.flatten(st, id)?;
        let o = st.mem.get(id).unwrap().clone();
        let mut r = Vec::with_capacity(n);
        for i in 0..n {
            let v = o.get_byte(off + i);
            r.push(match v {
                V::S(e) => match self.value_of(st, e) {
                    Some(k) => V::I(k),
                    None => v,
                },
                v => v,
            });
        }
        Ok(r)
    }
    pub fn write_vec(&mut self, st: &mut State, a: u64, vs: &[V]) -> R<()> {
        if vs.is_empty() {
            return Ok(());
        }
        let (id, off) = match self.resolve(st, &V::I(a), vs.len())? {
            Addr::C(id, off) => (id, off),
            _ => unreachable!(),
        };
        self.flatten(st, id)?;
        let o = st.mem.get_mut(id).unwrap();
        for (i, v) in vs.iter().enumerate() {
            o.set_byte(off + i, v);
        }
        Ok(())
    }
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        let v = self.read_vec(st, a, n)?;
        let mut r = vec![];
        for x in v {
            r.push(self.concretize(st, &x)? as u8);
        }
        Ok(r)
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        let mut p = a;
        loop {
            let b = self.read_conc(st, p, 1)?[0];
            if b == 0 {
                return Ok(r);
            }
            r.push(b);
            p += 1;
        }
    }
    pub fn new_cstr(&mut self, st: &mut State, s: &[V]) -> u64 {
        let id = self.alloc(st, s.len() + 1);
        let o = st.mem.get_mut(id).unwrap();
        for (i, v) in s.iter().enumerate() {
            o.set_byte(i, v);
        }
        (id as u64) << 32
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, doff) = match self.resolve(st, &V::I(d), n)? {
            Addr::C(a, b) => (a, b),
            _ => unreachable!(),
        };
        let (si, soff) = match self.resolve(st, &V::I(s), n)? {
            Addr::C(a, b) => (a, b),
            _ => unreachable!(),
        };
        self.flatten(st, di)?;
        self.flatten(st, si)?;
        if di == si {
            let o = st.mem.get_mut(di).unwrap();
            if o.ro {
                return Err(Stop::Violation("memory".into(), "write to constant memory".into()));
            }
            o.move_within(doff, soff, n);
        } else {
            let src = st.mem.get(si).unwrap().clone();
            let o = st.mem.get_mut(di).unwrap();
            if o.ro {
                return Err(Stop::Violation("memory".into(), "write to constant memory".into()));
            }
            o.copy_from(doff, &src, soff, n);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- frames
    pub fn func_static(&mut self, fid: u32) -> Option<&'static Func> {
        let f = self.prog.func(fid)?;
        let p = Rc::as_ptr(&f);
        // the program keeps every compiled function alive for the whole run
        Some(unsafe { &*p })
    }
    pub fn push_frame(&mut self, st: &mut State, fid: u32, args: Vec<V>, dst: u32, kind: FK) -> R<()> {
        let f = match self.func_static(fid) {
            Some(f) => f,
            None => return Err(Stop::Unsup(format!("undefined function {}", self.prog.fname(fid)))),
        };
        if self.called.len() <= fid as usize {
            self.called.resize(fid as usize + 1, false);
        }
        self.called[fid as usize] = true;
        if st.frames.len() > 3000 {
            return Err(Stop::Violation("stack".into(), "call depth above 3000".into()));
        }
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        st.frames.push(Rc::new(Frame { f, pc: 0, dst, kind, regs, allocas: vec![] }));
        Ok(())
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(12) {
            v.push(short(f.f.name));
        }
        v.join(" < ")
    }
    fn pop_allocas(st: &mut State, fr: &Frame) {
        for &a in &fr.allocas {
            st.mem.free(a);
        }
    }
    pub fn truncate_frames(&mut self, st: &mut State, depth: usize) {
        while st.frames.len() > depth {
            let fr = st.frames.pop().unwrap();
            Self::pop_allocas(st, &fr);
        }
    }
    pub fn end_run(&mut self, st: &mut State, status: V) -> R<()> {
        let run = match st.run.take() {
            Some(r) => r,
            None => return Err(Stop::Violation("exit".into(), "process exit outside a tool run".into())),
        };
        st.frames.truncate(run.depth);
        st.mem = run.mem.clone();
        if run.dst != NONE {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.regs[run.dst as usize] = match status {
                V::S(e) => {
                    let w = self.ex.w(e);
                    let x = if w < 64 { self.ex.zext(e, 64) } else { e };
                    V::S(x)
                }
                v => v,
            };
        }
        Ok(())
    }
    pub fn panic(&mut self, st: &mut State, what: &str) -> R<()> {
        let mut i = st.frames.len();
        while i > 0 {
            i -= 1;
            match st.frames[i].kind {
                FK::RunMain => {
                    if self.cfg.verbose {
                        eprintln!("[panic in tool] {} :: {}", what, self.backtrace(st));
                    }
                    return self.end_run(st, V::I(101));
                }
                FK::Catch => {
                    let dst = st.frames[i].dst;
                    self.truncate_frames(st, i);
                    if dst != NONE {
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        fr.regs[dst as usize] = V::I(1);
                    }
                    return Ok(());
                }
                _ => {}
            }
        }
        Err(Stop::Violation("panic".into(), format!("{} :: {}", what, self.backtrace(st))))
    }
    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        Self::pop_allocas(st, &fr);
        match fr.kind {
            FK::Entry => return Err(Stop::End),
            FK::RunMain => {
                let v = match v {
                    Some(V::I(x)) => V::I(x & 0xff),
                    Some(V::S(e)) => {
                        let b = self.ex.extract(e, 0, 8);
                        self.mk(b)
                    }
                    _ => V::I(0),
                };
                return self.end_run(st, v);
            }
            FK::Catch => {
                if fr.dst != NONE {
                    let up = Rc::make_mut(st.frames.last_mut().unwrap());
                    up.regs[fr.dst as usize] = V::I(0);
                }
            }
            FK::Normal => {
                if fr.dst != NONE {
                    let up = Rc::make_mut(st.frames.last_mut().unwrap());
                    up.regs[fr.dst as usize] = v.unwrap_or(V::I(0));
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- main loop
    pub fn run_state(&mut self, mut st: State) {
        let start = st.instrs;
        let mut tick = 0u64;
        let r = loop {
            tick += 1;
            if tick & 0xffff == 0 {
                if Instant::now() > self.cfg.deadline {
                    break Stop::Incomplete("deadline".into());
                }
                if st.instrs > self.cfg.max_instrs {
                    break Stop::Violation("nontermination".into(), format!("more than {} instructions :: {}", self.cfg.max_instrs, self.backtrace(&st)));
                }
            }
            st.instrs += 1;
            if let Err(s) = self.step(&mut st) {
                break s;
            }
        };
        self.stats.instrs += st.instrs - start;
        self.stats.maxpc = self.stats.maxpc.max(st.pc.len() as u64);
        match r {
            Stop::End => {
                self.stats.paths += 1;
                self.sample(&st);
            }
            Stop::Infeasible => self.stats.infeasible += 1,
            Stop::Unsup(m) => {
                let m = format!("{} :: {}", m, self.backtrace(&st));
                *self.stats.unsup.entry(m).or_insert(0) += 1;
            }
            Stop::Incomplete(m) => *self.stats.incomplete.entry(m).or_insert(0) += 1,
            Stop::Violation(id, msg) => {
                self.stats.paths += 1;
                let m = (*st.model).clone();
                self.violation(&st, id, msg, m);
            }
        }
    }
    pub fn violation(&mut self, st: &State, id: String, msg: String, model: Vec<u64>) {
        self.stats.nviol += 1;
        let c = self.viol_ids.entry(id.clone()).or_insert(0);
        *c += 1;
        if *c <= 3 {
            let trace = self.backtrace(st);
            self.stats.viols.push(Viol { id, msg, vars: model[..(st.nvars as usize).min(model.len())].to_vec(), trace });
        }
    }
    fn sample(&mut self, st: &State) {
        let k = self.cfg.samples;
        if k == 0 {
            return;
        }
        let n = self.stats.paths;
        let slot = if self.stats.samples.len() < k {
            self.stats.samples.len()
        } else {
            let r = self.rnd() % n;
            if r >= k as u64 {
                return;
            }
            r as usize
        };
        let obs: Vec<u64> = st
            .obs
            .iter()
            .map(|v| match v {
                V::I(x) => *x,
                V::S(e) => self.ex.eval(*e, &st.model),
                _ => 0,
            })
            .collect();
        let s = Sample { vars: st.model[..st.nvars as usize].to_vec(), obs };
        if slot < self.stats.samples.len() {
            self.stats.samples[slot] = s;
        } else {
            self.stats.samples.push(s);
        }
    }
    /// depth-first until the worklist is empty, the deadline passes or (if given) it grows to `frontier`
    pub fn explore(&mut self, frontier: Option<usize>) {
        let t0 = Instant::now();
        loop {
            if Instant::now() > self.cfg.deadline {
                break;
            }
            let st = match frontier {
                Some(k) => {
                    if self.work.len() >= k || (self.work.len() >= 24 && t0.elapsed().as_secs_f64() > 1.5) {
                        break;
                    }
                    self.work.pop_front()
                }
                None => self.work.pop_back(),
            };
            match st {
                Some(s) => self.run_state(s),
                None => break,
            }
        }
    }

    #[inline]
    fn op(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => match &fr.regs[*r as usize] {
                V::I(x) => V::I(*x),
                v => v.clone(),
            },
            Opd::C(V::I(x)) => V::I(*x),
            Opd::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.pc += 1;
    }
    fn goto(&mut self, st: &mut State, e: &Edge) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        match e.moves.len() {
            0 => {}
            1 => {
                let v = match &e.moves[0].1 {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::C(v) => v.clone(),
                };
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vals: Vec<V> = e
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::C(v) => v.clone(),
                    })
                    .collect();
                for (m, v) in e.moves.iter().zip(vals) {
                    fr.regs[m.0 as usize] = v;
                }
            }
        }
        fr.pc = e.pc;
    }
    pub fn bin(&mut self, st: &mut State, b: B, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (x, y) {
            let o = match b {
                B::Add => return Ok(V::I(x.wrapping_add(*y) & mask(w))),
                B::Sub => return Ok(V::I(x.wrapping_sub(*y) & mask(w))),
                B::And => return Ok(V::I(x & y)),
                B::Or => return Ok(V::I(x | y)),
                B::Xor => return Ok(V::I(x ^ y)),
                B::Mul => O::Mul,
                B::UDiv => O::UDiv,
                B::SDiv => O::SDiv,
                B::URem => O::URem,
                B::SRem => O::SRem,
                B::Shl => O::Shl,
                B::LShr => O::LShr,
                B::AShr => O::AShr,
            };
            if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) && *y == 0 {
                return Err(Stop::Violation("division".into(), "division by zero".into()));
            }
            return Ok(V::I(cbin(o, *x, *y, w).unwrap()));
        }
        if w > 64 {
            let g = |v: &V| match v {
                V::X(x) => Some(**x),
                V::I(x) => Some(*x as u128),
                _ => None,
            };
            let (x, y) = match (g(x), g(y)) {
                (Some(x), Some(y)) => (x, y),
                _ => return Err(Stop::Unsup("wide symbolic arithmetic".into())),
            };
            let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            let sxw = |x: u128| if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) };
            let r = match b {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= 128 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= 128 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sxw(x) >> y.min(127)) as u128,
                B::UDiv => x.checked_div(y).unwrap_or(0),
                B::URem => x.checked_rem(y).unwrap_or(0),
                B::SDiv => sxw(x).checked_div(sxw(y)).unwrap_or(0) as u128,
                B::SRem => sxw(x).checked_rem(sxw(y)).unwrap_or(0) as u128,
            };
            return Ok(V::X(Rc::new(r & m)));
        }
        let _ = st;
        let a = self.e(x, w)?;
        let c = self.e(y, w)?;
        let o = match b {
            B::Add => O::Add,
            B::Sub => O::Sub,
            B::And => O::And,
            B::Or => O::Or,
            B::Xor => O::Xor,
            B::Mul => O::Mul,
            B::UDiv => O::UDiv,
            B::SDiv => O::SDiv,
            B::URem => O::URem,
            B::SRem => O::SRem,
            B::Shl => O::Shl,
            B::LShr => O::LShr,
            B::AShr => O::AShr,
        };
        let r = self.ex.bin(o, a, c);
        Ok(self.mk(r))
    }
    pub fn icmp(&mut self, p: P, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::I(a), V::I(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match p {
                P::Eq => a == b,
                P::Ne => a != b,
                P::Ult => a < b,
                P::Ule => a <= b,
                P::Ugt => a > b,
                P::Uge => a >= b,
                P::Slt => sx(a, w) < sx(b, w),
                P::Sle => sx(a, w) <= sx(b, w),
                P::Sgt => sx(a, w) > sx(b, w),
                P::Sge => sx(a, w) >= sx(b, w),
            };
            return Ok(V::I(r as u64));
        }
        if w > 64 {
            let g = |v: &V| match v {
                V::X(x) => Some(**x),
                V::I(x) => Some(*x as u128),
                _ => None,
            };
            let (a, b) = match (g(x), g(y)) {
                (Some(x), Some(y)) => (x, y),
                _ => return Err(Stop::Unsup("wide symbolic comparison".into())),
            };
            let s = |x: u128| if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) };
            let r = match p {
                P::Eq => a == b,
                P::Ne => a != b,
                P::Ult => a < b,
                P::Ule => a <= b,
                P::Ugt => a > b,
                P::Uge => a >= b,
                P::Slt => s(a) < s(b),
                P::Sle => s(a) <= s(b),
                P::Sgt => s(a) > s(b),
                P::Sge => s(a) >= s(b),
            };
            return Ok(V::I(r as u64));
        }
        let a = self.e(x, w)?;
        let b = self.e(y, w)?;
        let ex = &mut self.ex;
        let r = match p {
            P::Eq => ex.eq(a, b),
            P::Ne => {
                let e = ex.eq(a, b);
                ex.not(e)
            }
            P::Ult => ex.ult(a, b),
            P::Ugt => ex.ult(b, a),
            P::Ule => {
                let e = ex.ult(b, a);
                ex.not(e)
            }
            P::Uge => {
                let e = ex.ult(a, b);
                ex.not(e)
            }
            P::Slt => ex.slt(a, b),
            P::Sgt => ex.slt(b, a),
            P::Sle => {
                let e = ex.slt(b, a);
                ex.not(e)
            }
            P::Sge => {
                let e = ex.slt(a, b);
                ex.not(e)
            }
        };
        Ok(self.mk(r))
    }
    fn cast(&mut self, st: &mut State, k: CastK, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if let (Ty::Vec(n, ft), tt) = (from, to) {
            if k == CastK::Bitcast {
                return self.vbitcast(st, from, to, v);
            }
            if let (V::A(vs), Ty::Vec(_, tt)) = (v, tt) {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let x = vs[i].clone();
                    out.push(self.cast(st, k, ft, tt, &x)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
            return Err(Stop::Unsup("vector cast".into()));
        }
        if let Ty::Vec(..) = to {
            return self.vbitcast(st, from, to, v);
        }
        let (fw, tw) = (from.sw(), to.sw());
        match k {
            CastK::Bitcast => Ok(v.clone()),
            CastK::Zext | CastK::Sext | CastK::Trunc => {
                if fw <= 64 && tw <= 64 {
                    return Ok(match v {
                        V::I(x) => V::I(match k {
                            CastK::Zext => *x,
                            CastK::Sext => sx(*x, fw) as u64 & mask(tw),
                            _ => *x & mask(tw),
                        }),
                        V::S(e) => {
                            let r = match k {
                                CastK::Zext => self.ex.zext(*e, tw),
                                CastK::Sext => self.ex.sext(*e, tw),
                                _ => self.ex.extract(*e, 0, tw),
                            };
                            self.mk(r)
                        }
                        _ => return Err(Stop::Unsup("cast".into())),
                    });
                }
                let x: u128 = match v {
                    V::X(x) => **x,
                    V::I(x) => *x as u128,
                    V::S(_) => self.concretize(st, v)? as u128,
                    _ => return Err(Stop::Unsup("cast".into())),
                };
                let x = if k == CastK::Sext {
                    let s = ((x << (128 - fw)) as i128) >> (128 - fw);
                    s as u128
                } else {
                    x
                };
                if tw <= 64 {
                    Ok(V::I(x as u64 & mask(tw)))
                } else {
                    let m = if tw >= 128 { u128::MAX } else { (1u128 << tw) - 1 };
                    Ok(V::X(Rc::new(x & m)))
                }
            }
            CastK::UiToFp | CastK::SiToFp => {
                if let V::X(x) = v {
                    return Ok(V::I((**x as f64).to_bits()));
                }
                let x = self.concretize(st, v)?;
                let f64o = *to == Ty::F64;
                Ok(V::I(match (k, f64o) {
                    (CastK::UiToFp, true) => (x as f64).to_bits(),
                    (CastK::UiToFp, false) => (x as f32).to_bits() as u64,
                    (_, true) => (sx(x, fw) as f64).to_bits(),
                    (_, false) => (sx(x, fw) as f32).to_bits() as u64,
                }))
            }
            CastK::FpToUi | CastK::FpToSi => {
                let x = self.concretize(st, v)?;
                let f = if *from == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                Ok(V::I(if k == CastK::FpToUi { f as u64 & mask(tw) } else { f as i64 as u64 & mask(tw) }))
            }
            CastK::FpExt => {
                let x = self.concretize(st, v)?;
                Ok(V::I((f32::from_bits(x as u32) as f64).to_bits()))
            }
            CastK::FpTrunc => {
                let x = self.concretize(st, v)?;
                Ok(V::I((f64::from_bits(x) as f32).to_bits() as u64))
            }
        }
    }
    fn vbitcast(&mut self, _st: &mut State, from: &Ty, to: &Ty, v: &V) -> R<V> {
        // vector of i1 -> integer, or byte-wise reinterpretation
        let lanes = |t: &Ty| -> Option<(u32, u32)> {
            match t {
                Ty::Vec(n, e) => Some((*n, e.sw())),
                t if t.sw() > 0 => Some((1, t.sw())),
                _ => None,
            }
        };
        let (fnn, fw) = lanes(from).ok_or_else(|| Stop::Unsup("vbitcast".into()))?;
        let (tn, tw) = lanes(to).ok_or_else(|| Stop::Unsup("vbitcast".into()))?;
        let src: Vec<V> = match v {
            V::A(a) => (**a).clone(),
            v => vec![v.clone()],
        };
        if src.iter().all(|x| matches!(x, V::I(_) | V::X(_))) {
            // concrete: go through bits
            let mut bits: Vec<bool> = vec![];
            for x in src.iter().take(fnn as usize) {
                let k: u128 = match x {
                    V::I(x) => *x as u128,
                    V::X(x) => **x,
                    _ => 0,
                };
                for i in 0..fw {
                    bits.push(k >> i & 1 != 0);
                }
            }
            let mut out = vec![];
            for l in 0..tn as usize {
                let mut k = 0u128;
                for i in 0..tw as usize {
                    if bits[l * tw as usize + i] {
                        k |= 1 << i;
                    }
                }
                out.push(if tw > 64 { V::X(Rc::new(k)) } else { V::I(k as u64) });
            }
            return Ok(if let Ty::Vec(..) = to { V::A(Rc::new(out)) } else { out.pop().unwrap() });
        }
        if tw > 64 {
            return Err(Stop::Unsup("wide vbitcast".into()));
        }
        let mut es = vec![];
        for x in src.iter().take(fnn as usize) {
            es.push(self.e(x, fw)?);
        }
        let mut out = vec![];
        if tw >= fw && tw % fw == 0 {
            let r = (tw / fw) as usize;
            for l in 0..tn as usize {
                let mut acc = es[l * r];
                for i in 1..r {
                    acc = self.ex.concat(es[l * r + i], acc);
                }
                out.push(self.mk(acc));
            }
        } else if fw % tw == 0 {
            for e in es {
                for i in 0..fw / tw {
                    let x = self.ex.extract(e, i * tw, tw);
                    out.push(self.mk(x));
                }
            }
        } else {
            return Err(Stop::Unsup("vbitcast".into()));
        }
        Ok(if let Ty::Vec(..) = to { V::A(Rc::new(out)) } else { out.pop().unwrap() })
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let (f, pc): (&'static Func, u32) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.pc)
        };
        let op = &f.ops[pc as usize];
        macro_rules! fr {
            () => {
                st.frames.last().unwrap()
            };
        }
        match op {
            Op::Bin(b, w, d, x, y) => {
                let x = self.op(fr!(), x);
                let y = self.op(fr!(), y);
                let mut y = y;
                if let (V::S(e), B::UDiv | B::SDiv | B::URem | B::SRem) = (&y, b) {
                    let e = *e;
                    let z = self.ex.cst(0, *w);
                    let c = self.ex.eq(e, z);
                    if self.decide(st, c)? {
                        y = V::I(0);
                        return Err(Stop::Violation("division".into(), "division by zero".into()));
                    }
                }
                let _ = &mut y;
                let r = self.bin(st, *b, *w, &x, &y)?;
                Self::set(st, *d, r);
            }
            Op::VBin(b, w, d, x, y) => {
                let x = self.op(fr!(), x);
                let y = self.op(fr!(), y);
                let (x, y) = match (x, y) {
                    (V::A(x), V::A(y)) => (x, y),
                    _ => return Err(Stop::Unsup("vbin".into())),
                };
                let mut out = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    out.push(self.bin(st, *b, *w, &x[i], &y[i])?);
                }
                Self::set(st, *d, V::A(Rc::new(out)));
            }
            Op::Icmp(p, w, d, x, y) => {
                let x = self.op(fr!(), x);
                let y = self.op(fr!(), y);
                let r = self.icmp(*p, *w, &x, &y)?;
                Self::set(st, *d, r);
            }
            Op::VIcmp(p, w, d, x, y) => {
                let x = self.op(fr!(), x);
                let y = self.op(fr!(), y);
                let (x, y) = match (x, y) {
                    (V::A(x), V::A(y)) => (x, y),
                    _ => return Err(Stop::Unsup("vicmp".into())),
                };
                let mut out = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    out.push(self.icmp(*p, *w, &x[i], &y[i])?);
                }
                Self::set(st, *d, V::A(Rc::new(out)));
            }
            Op::FBin(c, dbl, d, x, y) => {
                let x = self.op(fr!(), x);
                let y = self.op(fr!(), y);
                let x = self.concretize(st, &x)?;
                let y = self.concretize(st, &y)?;
                let r = if *dbl {
                    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
                    match c {
                        '+' => a + b,
                        '-' => a - b,
                        '*' => a * b,
                        '/' => a / b,
                        _ => a % b,
                    }
                    .to_bits()
                } else {
                    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match c {
                        '+' => a + b,
                        '-' => a - b,
                        '*' => a * b,
                        '/' => a / b,
                        _ => a % b,
                    }
                    .to_bits() as u64
                };
                Self::set(st, *d, V::I(r));
            }
            Op::FNeg(dbl, d, x) => {
                let x = self.op(fr!(), x);
                let x = self.concretize(st, &x)?;
                Self::set(st, *d, V::I(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) }));
            }
            Op::Fcmp(p, dbl, d, x, y) => {
                let x = self.op(fr!(), x);
                let y = self.op(fr!(), y);
                let x = self.concretize(st, &x)?;
                let y = self.concretize(st, &y)?;
                let (a, b) = if *dbl {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = a.is_nan() || b.is_nan();
                let r = match *p {
                    "oeq" => a == b,
                    "ogt" => a > b,
                    "oge" => a >= b,
                    "olt" => a < b,
                    "ole" => a <= b,
                    "one" => !un && a != b,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || a == b,
                    "ugt" => un || a > b,
                    "uge" => un || a >= b,
                    "ult" => un || a < b,
                    "ule" => un || a <= b,
                    "une" => un || a != b,
                    "true" => true,
                    _ => false,
                };
                Self::set(st, *d, V::I(r as u64));
            }
            Op::Cast(k, a, b, d, x) => {
                let x = self.op(fr!(), x);
                let r = self.cast(st, *k, a, b, &x)?;
                Self::set(st, *d, r);
            }
            Op::Load(d, ty, a) => {
                let a = self.op(fr!(), a);
                let r = self.load(st, ty, &a)?;
                Self::set(st, *d, r);
            }
            Op::Store(ty, v, a) => {
                let v = self.op(fr!(), v);
                let a = self.op(fr!(), a);
                self.store(st, ty, &v, &a)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
            }
            Op::Gep(d, base, off, idx) => {
                let mut b = self.op(fr!(), base);
                match &mut b {
                    V::I(x) => *x = x.wrapping_add(*off as u64),
                    V::S(e) => {
                        let k = self.ex.cst(*off as u64, 64);
                        let r = self.ex.bin(O::Add, *e, k);
                        b = self.mk(r);
                    }
                    _ => return Err(Stop::Unsup("gep".into())),
                }
                for (o, sc, w) in idx {
                    let i = self.op(fr!(), o);
                    match (&b, &i) {
                        (V::I(x), V::I(i)) => b = V::I(x.wrapping_add((sx(*i, *w)).wrapping_mul(*sc) as u64)),
                        _ => {
                            let be = self.e(&b, 64)?;
                            let ie = self.e(&i, *w)?;
                            let ie = if *w < 64 { self.ex.sext(ie, 64) } else { ie };
                            let sce = self.ex.cst(*sc as u64, 64);
                            let m = self.ex.bin(O::Mul, ie, sce);
                            let r = self.ex.bin(O::Add, be, m);
                            b = self.mk(r);
                        }
                    }
                }
                Self::set(st, *d, b);
            }
            Op::Alloca(d, n) => {
                let id = self.alloc(st, *n as usize);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(id);
                fr.regs[*d as usize] = V::I((id as u64) << 32);
                fr.pc += 1;
            }
            Op::Select(d, ty, c, a, b) => {
                let c = self.op(fr!(), c);
                let a = self.op(fr!(), a);
                let b = self.op(fr!(), b);
                let r = match &c {
                    V::I(x) => {
                        if *x & 1 != 0 {
                            a
                        } else {
                            b
                        }
                    }
                    V::S(e) => {
                        let e = *e;
                        match self.kn(st, e) {
                            Some(true) => a,
                            Some(false) => b,
                            None => {
                                let w = ty.sw();
                                let same = matches!((&a, &b), (V::I(x), V::I(y)) if x == y);
                                if same {
                                    a
                                } else if w > 0 && w <= 16 {
                                    let x = self.e(&a, w)?;
                                    let y = self.e(&b, w)?;
                                    let r = self.ex.ite(e, x, y);
                                    self.mk(r)
                                } else if self.decide(st, e)? {
                                    a
                                } else {
                                    b
                                }
                            }
                        }
                    }
                    V::A(cs) => match (&a, &b) {
                        (V::A(x), V::A(y)) => {
                            let lw = match ty {
                                Ty::Vec(_, t) => t.sw(),
                                _ => 0,
                            };
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(match &cs[i] {
                                    V::I(k) => {
                                        if *k & 1 != 0 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    V::S(c) => {
                                        let p = self.e(&x[i], lw)?;
                                        let q = self.e(&y[i], lw)?;
                                        let r = self.ex.ite(*c, p, q);
                                        self.mk(r)
                                    }
                                    _ => return Err(Stop::Unsup("vselect".into())),
                                });
                            }
                            V::A(Rc::new(out))
                        }
                        _ => return Err(Stop::Unsup("vselect".into())),
                    },
                    _ => return Err(Stop::Unsup("select".into())),
                };
                Self::set(st, *d, r);
            }
            Op::ExtractV(d, v, ix) => {
                let mut v = self.op(fr!(), v);
                for i in ix {
                    v = match &v {
                        V::A(a) => a[*i as usize].clone(),
                        _ => return Err(Stop::Unsup("extractvalue".into())),
                    };
                }
                Self::set(st, *d, v);
            }
            Op::InsertV(d, v, x, ix) => {
                let v = self.op(fr!(), v);
                let x = self.op(fr!(), x);
                fn ins(v: &V, x: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        V::A(a) => {
                            let mut a2 = (**a).clone();
                            a2[ix[0] as usize] = ins(&a[ix[0] as usize], x, &ix[1..]);
                            V::A(Rc::new(a2))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&v, x, ix);
                Self::set(st, *d, r);
            }
            Op::ExtractE(d, v, i) => {
                let v = self.op(fr!(), v);
                let i = self.op(fr!(), i);
                let i = self.concretize(st, &i)? as usize;
                let r = match &v {
                    V::A(a) => a[i].clone(),
                    _ => return Err(Stop::Unsup("extractelement".into())),
                };
                Self::set(st, *d, r);
            }
            Op::InsertE(d, v, x, i) => {
                let v = self.op(fr!(), v);
                let x = self.op(fr!(), x);
                let i = self.op(fr!(), i);
                let i = self.concretize(st, &i)? as usize;
                let r = match &v {
                    V::A(a) => {
                        let mut a2 = (**a).clone();
                        a2[i] = x;
                        V::A(Rc::new(a2))
                    }
                    _ => return Err(Stop::Unsup("insertelement".into())),
                };
                Self::set(st, *d, r);
            }
            Op::Shuffle(d, a, b, m) => {
                let a = self.op(fr!(), a);
                let b = self.op(fr!(), b);
                let (a, b) = match (&a, &b) {
                    (V::A(a), V::A(b)) => (a, b),
                    _ => return Err(Stop::Unsup("shuffle".into())),
                };
                let out: Vec<V> = m
                    .iter()
                    .map(|&i| if (i as usize) < a.len() { a[i as usize].clone() } else { b[i as usize - a.len()].clone() })
                    .collect();
                Self::set(st, *d, V::A(Rc::new(out)));
            }
            Op::Cmpxchg(d, ty, a, old, new) => {
                let a = self.op(fr!(), a);
                let old = self.op(fr!(), old);
                let new = self.op(fr!(), new);
                let cur = self.load(st, ty, &a)?;
                let c = self.icmp(P::Eq, ty.sw(), &cur, &old)?;
                let b = self.decide_v(st, &c)?;
                if b {
                    self.store(st, ty, &new, &a)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![cur, V::I(b as u64)])));
            }
            Op::Rmw(d, k, ty, a, v) => {
                let a = self.op(fr!(), a);
                let v = self.op(fr!(), v);
                let cur = self.load(st, ty, &a)?;
                let w = ty.sw();
                let new = match *k {
                    "xchg" => v,
                    "add" => self.bin(st, B::Add, w, &cur, &v)?,
                    "sub" => self.bin(st, B::Sub, w, &cur, &v)?,
                    "and" => self.bin(st, B::And, w, &cur, &v)?,
                    "or" => self.bin(st, B::Or, w, &cur, &v)?,
                    "xor" => self.bin(st, B::Xor, w, &cur, &v)?,
                    k => return Err(Stop::Unsup(format!("atomicrmw {}", k))),
                };
                self.store(st, ty, &new, &a)?;
                Self::set(st, *d, cur);
            }
            Op::Copy(d, x) => {
                let x = self.op(fr!(), x);
                Self::set(st, *d, x);
            }
            Op::Br(e) => self.goto(st, e),
            Op::CondBr(c, a, b) => {
                let c = self.op(fr!(), c);
                let t = match &c {
                    V::I(x) => *x & 1 != 0,
                    c => self.decide_v(st, c)?,
                };
                self.goto(st, if t { a } else { b });
            }
            Op::Switch(v, w, cs, d) => {
                let v = self.op(fr!(), v);
                match &v {
                    V::I(x) => {
                        for (k, e) in cs {
                            if k == x {
                                self.goto(st, e);
                                return Ok(());
                            }
                        }
                        self.goto(st, d);
                    }
                    V::S(x) => {
                        let x = *x;
                        for (k, e) in cs {
                            let ke = self.ex.cst(*k, *w);
                            let c = self.ex.eq(x, ke);
                            if self.decide(st, c)? {
                                self.goto(st, e);
                                return Ok(());
                            }
                        }
                        self.goto(st, d);
                    }
                    V::X(x) => {
                        for (k, e) in cs {
                            if *k as u128 == **x {
                                self.goto(st, e);
                                return Ok(());
                            }
                        }
                        self.goto(st, d);
                    }
                    _ => return Err(Stop::Unsup("switch".into())),
                }
            }
            Op::Ret(v) => {
                let v = v.as_ref().map(|v| self.op(fr!(), v));
                self.do_ret(st, v)?;
            }
            Op::Unreachable => {
                return Err(Stop::Violation("unreachable".into(), format!("unreachable code :: {}", self.backtrace(st))));
            }
            Op::Nop => Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1,
            Op::Unsup(m) => return Err(Stop::Unsup(m.clone())),
            Op::Intr(dst, name, w, args) => {
                let args: Vec<V> = args.iter().map(|a| self.op(fr!(), a)).collect();
                let r = self.intrinsic(st, name, *w, args)?;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let Some(d) = dst {
                    fr.regs[*d as usize] = r;
                }
                fr.pc += 1;
            }
            Op::Call(dst, callee, args) => {
                let fid = match callee {
                    Callee::Asm(_) => {
                        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                        return Ok(());
                    }
                    Callee::F(f) => *f,
                    Callee::Ind(o) => {
                        let a = self.op(fr!(), o);
                        let a = self.concretize(st, &a)?;
                        if a < FN_BASE || a & 15 != 0 {
                            return Err(Stop::Violation("memory".into(), format!("call through invalid pointer {:#x}", a)));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let args: Vec<V> = args.iter().map(|a| self.op(fr!(), a)).collect();
                let d = dst.unwrap_or(NONE);
                let k = self.icept_kind(fid);
                if k != 1 {
                    return self.native(st, k, fid, args, d);
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                self.push_frame(st, fid, args, d, FK::Normal)?;
            }
        }
        Ok(())
    }
}

/// readable form of a mangled name
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    // collect identifiers: <len><name>, optionally with s<base62>_ disambiguators
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[s..i].parse().unwrap_or(0);
            let mut st = i;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if k > 0 && st + k <= b.len() && k < 64 {
                out.push(&n[st..st + k]);
                i = st + k;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        return n.to_string();
    }
    out.truncate(6);
    out.join("::")
}
