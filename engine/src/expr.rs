//! Hash-consed bit-vector expressions (width 1..=64) with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Not, // boolean not (width 1)
    Zext,
    Sext,
    Extract, // a, k = low bit
    Concat,  // a (high) b (low)
    Ite,
    Eq,
    Ult,
    Slt,
    Table, // a = index (8-bit wide), k = table id
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub const NOVAR: u32 = u32::MAX;
pub const MULTI: u32 = u32::MAX - 1;

pub struct Exprs {
    pub nodes: Vec<Node>,
    /// single variable the expression depends on, or NOVAR / MULTI
    pub sv: Vec<u32>,
    map: FxMap<Node, E>,
    pub tables: Vec<std::rc::Rc<Vec<u64>>>,
    tabmap: HashMap<Vec<u64>, u64>,
    pub var_w: Vec<u8>,
    ttab: FxMap<E, std::rc::Rc<Vec<u64>>>,
    evalgen: Vec<u32>,
    evalval: Vec<u64>,
    gen: u32,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs {
            nodes: vec![],
            sv: vec![],
            map: Default::default(),
            tables: vec![],
            tabmap: HashMap::new(),
            var_w: vec![],
            ttab: Default::default(),
            evalgen: vec![],
            evalval: vec![],
            gen: 0,
        };
        // reserve id 0 so that 0 can mean "none"
        e.intern(Node { op: O::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        e.cst(1, 1);
        e
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        let s = match n.op {
            O::Const => NOVAR,
            O::Var => n.k as u32,
            _ => {
                let mut s = self.sv[n.a as usize];
                let nb = match n.op {
                    O::Not | O::Zext | O::Sext | O::Extract | O::Table => 1,
                    O::Ite => 3,
                    _ => 2,
                };
                if nb >= 2 {
                    s = Self::join(s, self.sv[n.b as usize]);
                }
                if nb >= 3 {
                    s = Self::join(s, self.sv[n.c as usize]);
                }
                s
            }
        };
        self.sv.push(s);
        self.map.insert(n, id);
        id
    }
    fn join(a: u32, b: u32) -> u32 {
        if a == b || b == NOVAR {
            a
        } else if a == NOVAR {
            b
        } else {
            MULTI
        }
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cst(&mut self, k: u64, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 64);
        self.intern(Node { op: O::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn newvar(&mut self, idx: usize, w: u32) -> E {
        while self.var_w.len() <= idx {
            self.var_w.push(0);
        }
        // the same variable index always has the same width in one harness
        if self.var_w[idx] != 0 && self.var_w[idx] != w as u8 {
            panic!("variable {} used with two widths", idx);
        }
        self.var_w[idx] = w as u8;
        self.intern(Node { op: O::Var, w: w as u8, a: 0, b: 0, c: 0, k: idx as u64 })
    }
    pub fn isc(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }

    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {} {}", op, self.show(a), self.show(b));
        let (ca, cb) = (self.isc(a), self.isc(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = cbin(op, x, y, w) {
                return self.cst(r, w);
            }
        }
        let m = mask(w);
        match op {
            O::Add => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if ca.is_some() {
                    return self.bin(O::Add, b, a);
                }
                // (x + c1) + c2
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == O::Add {
                        if let Some(c1) = self.isc(n.b) {
                            let c = self.cst(c1.wrapping_add(y), w);
                            return self.bin(O::Add, n.a, c);
                        }
                    }
                    if n.op == O::Ite && self.isc(n.b).is_some() && self.isc(n.c).is_some() {
                        let t = self.bin(O::Add, n.b, b);
                        let f = self.bin(O::Add, n.c, b);
                        return self.ite(n.a, t, f);
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(O::Add, b, a);
                }
            }
            O::Sub => {
                if let Some(y) = cb {
                    let c = self.cst(0u64.wrapping_sub(y), w);
                    return self.bin(O::Add, a, c);
                }
                if a == b {
                    return self.cst(0, w);
                }
            }
            O::Mul => {
                if ca.is_some() && cb.is_none() {
                    return self.bin(O::Mul, b, a);
                }
                if cb == Some(1) {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.cst(y.trailing_zeros() as u64, w);
                        return self.bin(O::Shl, a, c);
                    }
                }
            }
            O::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let (Some(y), O::Zext) = (cb, self.n(a).op) {
                    let x = self.n(a).a;
                    let xw = self.w(x);
                    if y <= mask(xw) && y != 0 {
                        let c = self.cst(y, xw);
                        let d = self.bin(O::UDiv, x, c);
                        return self.zext(d, w);
                    }
                    if y > mask(xw) {
                        return self.cst(0, w);
                    }
                }
            }
            O::URem => {
                if cb == Some(1) {
                    return self.cst(0, w);
                }
                if let (Some(y), O::Zext) = (cb, self.n(a).op) {
                    let x = self.n(a).a;
                    let xw = self.w(x);
                    if y <= mask(xw) && y != 0 {
                        let c = self.cst(y, xw);
                        let d = self.bin(O::URem, x, c);
                        return self.zext(d, w);
                    }
                    if y > mask(xw) {
                        return a;
                    }
                }
            }
            O::And => {
                if a == b {
                    return a;
                }
                if ca.is_some() && cb.is_none() {
                    return self.bin(O::And, b, a);
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if w == 1 {
                    if let Some(r) = self.and1(a, b) {
                        return r;
                    }
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == O::Zext {
                        let xw = self.w(n.a);
                        let c = self.cst(y & mask(xw), xw);
                        let d = self.bin(O::And, n.a, c);
                        return self.zext(d, w);
                    }
                    // mask of low bits
                    if (y + 1).is_power_of_two() && y != m {
                        let lw = (y + 1).trailing_zeros();
                        let d = self.extract(a, 0, lw);
                        return self.zext(d, w);
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(O::And, b, a);
                }
            }
            O::Or => {
                if a == b {
                    return a;
                }
                if ca.is_some() && cb.is_none() {
                    return self.bin(O::Or, b, a);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    // or(a,b) = not(and(not a, not b)): one normal form
                    let na = self.not(a);
                    let nb = self.not(b);
                    let x = self.bin(O::And, na, nb);
                    return self.not(x);
                }
                if a > b && cb.is_none() {
                    return self.bin(O::Or, b, a);
                }
            }
            O::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if ca.is_some() && cb.is_none() {
                    return self.bin(O::Xor, b, a);
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    if cb == Some(1) {
                        return self.not(a);
                    }
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                if a > b && cb.is_none() {
                    return self.bin(O::Xor, b, a);
                }
            }
            O::Shl | O::LShr | O::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u64 {
                        if op == O::AShr {
                            let c = self.cst(w as u64 - 1, w);
                            return self.bin(O::AShr, a, c);
                        }
                        return self.cst(0, w);
                    }
                    if op == O::LShr {
                        let hi = self.extract(a, y as u32, w - y as u32);
                        return self.zext(hi, w);
                    }
                    if op == O::Shl {
                        let lo = self.extract(a, 0, w - y as u32);
                        let z = self.cst(0, y as u32);
                        return self.concat(lo, z);
                    }
                }
            }
            _ => {}
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0, k: 0 })
    }
    fn and1(&mut self, a: E, b: E) -> Option<E> {
        // contradictions and absorptions on comparison atoms
        if self.not(a) == b {
            return Some(self.cst(0, 1));
        }
        let (na, nb) = (self.n(a), self.n(b));
        let (pa, aa) = if na.op == O::Not { (false, self.n(na.a)) } else { (true, na) };
        let (pb, ab) = if nb.op == O::Not { (false, self.n(nb.a)) } else { (true, nb) };
        for (p1, x1, p2, x2, other) in [(pa, aa, pb, ab, a), (pb, ab, pa, aa, b)] {
            if x1.op == O::Eq && (x2.op == O::Ult || x2.op == O::Slt) {
                let same = (x1.a == x2.a && x1.b == x2.b) || (x1.a == x2.b && x1.b == x2.a);
                if same {
                    match (p1, p2) {
                        // a!=b && !(a<b)  => b<a
                        (false, false) => {
                            return Some(self.cmp(x2.op, x2.b, x2.a));
                        }
                        // a!=b && a<b => a<b
                        (false, true) => {
                            return Some(if other == a { b } else { a });
                        }
                        // a==b && a<b
                        (true, true) => return Some(self.cst(0, 1)),
                        // a==b && !(a<b)
                        (true, false) => return Some(other),
                    }
                }
            }
            if x1.op == x2.op && (x1.op == O::Ult || x1.op == O::Slt) && x1.a == x2.b && x1.b == x2.a {
                match (p1, p2) {
                    (true, true) => return Some(self.cst(0, 1)),
                    (false, false) => return Some(self.eq(x1.a, x1.b)),
                    (true, false) => return Some(other),
                    (false, true) => return Some(if other == a { b } else { a }),
                }
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            O::Const => self.cst(n.k ^ 1, 1),
            O::Not => n.a,
            _ => self.intern(Node { op: O::Not, w: 1, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(w > aw);
        let n = self.n(a);
        match n.op {
            O::Const => return self.cst(n.k, w),
            O::Zext => return self.zext(n.a, w),
            O::Ite if self.isc(n.b).is_some() && self.isc(n.c).is_some() => {
                let t = self.zext(n.b, w);
                let f = self.zext(n.c, w);
                return self.ite(n.a, t, f);
            }
            _ => {}
        }
        self.intern(Node { op: O::Zext, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n(a);
        match n.op {
            O::Const => return self.cst(sx(n.k, aw) as u64, w),
            O::Zext => return self.zext(n.a, w), // zero-extended: sign bit is 0
            O::Ite if self.isc(n.b).is_some() && self.isc(n.c).is_some() => {
                let t = self.sext(n.b, w);
                let f = self.sext(n.c, w);
                return self.ite(n.a, t, f);
            }
            _ => {}
        }
        self.intern(Node { op: O::Sext, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        let n = self.n(a);
        match n.op {
            O::Const => return self.cst(n.k >> lo, w),
            O::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            O::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            O::Extract => return self.extract(n.a, lo + n.k as u32, w),
            O::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - bw);
                let l = self.extract(n.b, lo, bw - lo);
                return self.concat(h, l);
            }
            O::Ite if (self.isc(n.b).is_some() || self.isc(n.c).is_some()) => {
                let t = self.extract(n.b, lo, w);
                let f = self.extract(n.c, lo, w);
                return self.ite(n.a, t, f);
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: O::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u64 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let w = self.w(hi) + self.w(lo);
        debug_assert!(w <= 64);
        if let (Some(x), Some(y)) = (self.isc(hi), self.isc(lo)) {
            return self.cst((x << self.w(lo)) | y, w);
        }
        if self.isc(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        if nh.op == O::Extract && nh.a == lo && nh.k == self.w(lo) as u64 {
            return self.extract(lo, 0, w);
        }
        // concat(hi, concat(..)) with hi = extract following the top of lo's high part
        if nl.op == O::Concat {
            let nlh = self.n(nl.a);
            if nh.op == O::Extract && nlh.op == O::Extract && nh.a == nlh.a && nh.k == nlh.k + nlh.w as u64 {
                let h = self.concat(hi, nl.a);
                return self.concat(h, nl.b);
            }
        }
        self.intern(Node { op: O::Concat, w: w as u8, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.isc(c) {
            return if k != 0 { t } else { f };
        }
        if t == f {
            return t;
        }
        let n = self.n(c);
        if n.op == O::Not {
            return self.ite(n.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.isc(t), self.isc(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(O::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(O::And, nc, f);
                }
                (None, Some(0)) => return self.bin(O::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(O::Or, nc, t);
                }
                _ => {}
            }
        }
        // ite(c, ite(c,x,y), z)
        let nt = self.n(t);
        if nt.op == O::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        let nf = self.n(f);
        if nf.op == O::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.intern(Node { op: O::Ite, w: w as u8, a: c, b: t, c: f, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(O::Eq, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.cmp(O::Ult, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        self.cmp(O::Slt, a, b)
    }
    fn is_const_ite(&self, e: E, depth: u32) -> bool {
        let n = self.n(e);
        match n.op {
            O::Const => true,
            O::Ite if depth > 0 => self.is_const_ite(n.b, depth - 1) && self.is_const_ite(n.c, depth - 1),
            _ => false,
        }
    }
    pub fn cmp(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst((op == O::Eq) as u64, 1);
        }
        let (ca, cb) = (self.isc(a), self.isc(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op {
                O::Eq => x == y,
                O::Ult => x < y,
                _ => sx(x, w) < sx(y, w),
            };
            return self.cst(r as u64, 1);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if op == O::Eq && w == 1 {
            if let Some(y) = cb {
                return if y == 1 { a } else { self.not(a) };
            }
            if let Some(y) = ca {
                return if y == 1 { b } else { self.not(b) };
            }
            if na.op == O::Not && nb.op == O::Not {
                return self.eq(na.a, nb.a);
            }
            if na.op == O::Not {
                let e = self.eq(na.a, b);
                return self.not(e);
            }
            if nb.op == O::Not {
                let e = self.eq(a, nb.a);
                return self.not(e);
            }
        }
        if op == O::Ult {
            if cb == Some(0) || ca == Some(mask(w)) {
                return self.cst(0, 1);
            }
            if cb == Some(1) {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            if ca == Some(0) {
                let z = self.cst(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            // keep constants on the right: c < x  ==  not(x < c+1)
            if let Some(x) = ca {
                let c = self.cst(x + 1, w);
                let e = self.ult(b, c);
                return self.not(e);
            }
        }
        // distribute over ite with constant arms
        if cb.is_some() && na.op == O::Ite && self.is_const_ite(a, 6) {
            let t = self.cmp(op, na.b, b);
            let f = self.cmp(op, na.c, b);
            return self.ite(na.a, t, f);
        }
        if ca.is_some() && nb.op == O::Ite && self.is_const_ite(b, 6) {
            let t = self.cmp(op, a, nb.b);
            let f = self.cmp(op, a, nb.c);
            return self.ite(nb.a, t, f);
        }
        // narrowing of zero extensions
        if na.op == O::Zext && (nb.op == O::Zext || cb.is_some()) {
            let aw = self.w(na.a);
            let nop = if op == O::Slt { O::Ult } else { op };
            if nb.op == O::Zext {
                let bw = self.w(nb.a);
                let ww = aw.max(bw);
                let x = self.zext(na.a, ww);
                let y = self.zext(nb.a, ww);
                return self.cmp(nop, x, y);
            }
            let y = cb.unwrap();
            if op == O::Slt && sx(y, w) <= 0 {
                return self.cst(0, 1);
            }
            if y > mask(aw) {
                return self.cst((nop == O::Ult) as u64, 1);
            }
            let c = self.cst(y, aw);
            return self.cmp(nop, na.a, c);
        }
        if nb.op == O::Zext && ca.is_some() {
            let bw = self.w(nb.a);
            let x = ca.unwrap();
            if op == O::Eq {
                return self.cmp(op, b, a);
            }
            if op == O::Slt && sx(x, w) < 0 {
                return self.cst(1, 1);
            }
            if x > mask(bw) {
                return self.cst(0, 1);
            }
            let c = self.cst(x, bw);
            return self.cmp(O::Ult, c, nb.a);
        }
        // sign extensions of both sides
        if na.op == O::Sext && nb.op == O::Sext && self.w(na.a) == self.w(nb.a) && op != O::Ult {
            return self.cmp(op, na.a, nb.a);
        }
        if op == O::Eq {
            // x + c == k
            if let Some(y) = cb {
                if na.op == O::Add {
                    if let Some(c) = self.isc(na.b) {
                        let k = self.cst(y.wrapping_sub(c), w);
                        return self.eq(na.a, k);
                    }
                }
                if na.op == O::Concat {
                    let lw = self.w(na.b);
                    let hk = self.cst(y >> lw, w - lw);
                    let lk = self.cst(y, lw);
                    let h = self.eq(na.a, hk);
                    let l = self.eq(na.b, lk);
                    return self.bin(O::And, h, l);
                }
            }
            // x - y == 0
            if cb == Some(0) && na.op == O::Sub {
                return self.eq(na.a, na.b);
            }
            if cb == Some(0) && na.op == O::Xor {
                return self.eq(na.a, na.b);
            }
            // x + c == y + c
            if na.op == O::Add && nb.op == O::Add && na.b == nb.b && self.isc(na.b).is_some() {
                return self.eq(na.a, nb.a);
            }
            if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.bin(O::And, h, l);
            }
            if cb.is_none() && (ca.is_some() || a > b) {
                return self.intern(Node { op, w: 1, a: b, b: a, c: 0, k: 0 });
            }
        }
        self.intern(Node { op, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn table(&mut self, idx: E, vals: Vec<u64>, w: u32) -> E {
        // idx has width <= 8
        if let Some(k) = self.isc(idx) {
            return self.cst(vals[k as usize], w);
        }
        if vals.iter().all(|&v| v == vals[0]) {
            return self.cst(vals[0], w);
        }
        if vals.iter().enumerate().all(|(i, &v)| v == i as u64) {
            let iw = self.w(idx);
            return if w >= iw { self.zext(idx, w) } else { self.extract(idx, 0, w) };
        }
        let mut key = vals.clone();
        key.push(w as u64);
        let tid = match self.tabmap.get(&key) {
            Some(&t) => t,
            None => {
                let t = self.tables.len() as u64;
                self.tables.push(std::rc::Rc::new(vals));
                self.tabmap.insert(key, t);
                t
            }
        };
        self.intern(Node { op: O::Table, w: w as u8, a: idx, b: 0, c: 0, k: tid })
    }

    /// value table of an expression over a single variable of width <= 8
    pub fn ttable(&mut self, e: E) -> std::rc::Rc<Vec<u64>> {
        if let Some(t) = self.ttab.get(&e) {
            return t.clone();
        }
        let v = self.sv[e as usize];
        let size = if v == NOVAR { 256 } else { 1usize << self.var_w[v as usize] };
        let n = self.n(e);
        let r: Vec<u64> = match n.op {
            O::Const => vec![n.k; size],
            O::Var => (0..size as u64).collect(),
            _ => {
                let ta = self.ttable(n.a);
                let (tb, tc) = match n.op {
                    O::Not | O::Zext | O::Sext | O::Extract | O::Table => (None, None),
                    O::Ite => (Some(self.ttable(n.b)), Some(self.ttable(n.c))),
                    _ => (Some(self.ttable(n.b)), None),
                };
                let aw = self.w(n.a);
                let bw = if tb.is_some() { self.w(n.b) } else { 0 };
                (0..size)
                    .map(|i| {
                        let g = |t: &Option<std::rc::Rc<Vec<u64>>>| match t {
                            Some(t) => t[i],
                            None => 0,
                        };
                        self.apply(&n, ta[i], g(&tb), g(&tc), aw, bw)
                    })
                    .collect()
            }
        };
        let r = std::rc::Rc::new(r);
        if self.ttab.len() > 200_000 {
            self.ttab.clear();
        }
        self.ttab.insert(e, r.clone());
        r
    }
    fn apply(&self, n: &Node, a: u64, b: u64, c: u64, aw: u32, bw: u32) -> u64 {
        let w = n.w as u32;
        match n.op {
            O::Not => a ^ 1,
            O::Zext => a,
            O::Sext => sx(a, aw) as u64 & mask(w),
            O::Extract => (a >> n.k) & mask(w),
            O::Concat => (a << bw) | b,
            O::Ite => {
                if a != 0 {
                    b
                } else {
                    c
                }
            }
            O::Eq => (a == b) as u64,
            O::Ult => (a < b) as u64,
            O::Slt => (sx(a, aw) < sx(b, aw)) as u64,
            O::Table => self.tables[n.k as usize].get(a as usize).copied().unwrap_or(0),
            op => cbin(op, a, b, w).unwrap_or(0),
        }
    }
    /// evaluate under a model (missing variables read as 0)
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.gen += 1;
        if self.evalgen.len() < self.nodes.len() {
            self.evalgen.resize(self.nodes.len() + 1024, 0);
            self.evalval.resize(self.nodes.len() + 1024, 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u64 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            O::Const => return n.k,
            O::Var => return model.get(n.k as usize).copied().unwrap_or(0),
            _ => {}
        }
        if self.evalgen[i] == self.gen {
            return self.evalval[i];
        }
        let a = self.ev(n.a, model);
        let aw = self.w(n.a);
        let r = match n.op {
            O::Not | O::Zext | O::Sext | O::Extract | O::Table => self.apply(&n, a, 0, 0, aw, 0),
            O::Ite => {
                if a != 0 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            _ => {
                let b = self.ev(n.b, model);
                let bw = self.w(n.b);
                self.apply(&n, a, b, 0, aw, bw)
            }
        };
        self.evalgen[i] = self.gen;
        self.evalval[i] = r;
        r
    }
    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            O::Const => format!("{}", n.k),
            O::Var => format!("x{}", n.k),
            O::Not => format!("!{}", self.show_d(n.a, d - 1)),
            O::Zext | O::Sext => format!("{:?}{}({})", n.op, n.w, self.show_d(n.a, d - 1)),
            O::Extract => format!("{}[{}+{}]", self.show_d(n.a, d - 1), n.k, n.w),
            O::Table => format!("T{}[{}]", n.k, self.show_d(n.a, d - 1)),
            O::Ite => format!(
                "ite({},{},{})",
                self.show_d(n.a, d - 1),
                self.show_d(n.b, d - 1),
                self.show_d(n.c, d - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show_d(n.a, d - 1), self.show_d(n.b, d - 1)),
        }
    }
}

pub fn cbin(op: O, x: u64, y: u64, w: u32) -> Option<u64> {
    let m = mask(w);
    let r = match op {
        O::Add => x.wrapping_add(y),
        O::Sub => x.wrapping_sub(y),
        O::Mul => x.wrapping_mul(y),
        O::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        O::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        O::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u64
            }
        }
        O::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64
            }
        }
        O::And => x & y,
        O::Or => x | y,
        O::Xor => x ^ y,
        O::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        O::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        O::AShr => {
            let s = if y >= w as u64 { w as u64 - 1 } else { y };
            (sx(x, w) >> s) as u64
        }
        _ => return None,
    };
    Some(r & m)
}
