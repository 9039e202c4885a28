//! Persistent object memory: byte objects with sparse symbolic bytes and symbolic-index updates.
use crate::expr::*;
use crate::ir::V;
use std::rc::Rc;

#[derive(Clone)]
pub struct Upd {
    pub addr: E, // 64-bit offset inside the object
    pub size: u32,
    pub val: V,
}
#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<(u32, E)>,
    pub upd: Vec<Upd>,
    pub ro: bool,
    pub heap: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], ..Default::default() }
    }
    #[inline]
    pub fn sym_range(&self, off: usize, n: usize) -> (usize, usize) {
        if self.sym.is_empty() {
            return (0, 0);
        }
        let a = self.sym.partition_point(|x| (x.0 as usize) < off);
        let mut b = a;
        while b < self.sym.len() && (self.sym[b].0 as usize) < off + n {
            b += 1;
        }
        (a, b)
    }
    pub fn get_byte(&self, off: usize) -> V {
        if !self.sym.is_empty() {
            if let Ok(i) = self.sym.binary_search_by(|x| x.0.cmp(&(off as u32))) {
                return V::S(self.sym[i].1);
            }
        }
        V::I(self.data[off] as u64)
    }
    pub fn set_byte(&mut self, off: usize, v: &V) {
        match v {
            V::I(x) => {
                self.data[off] = *x as u8;
                if !self.sym.is_empty() {
                    if let Ok(i) = self.sym.binary_search_by(|x| x.0.cmp(&(off as u32))) {
                        self.sym.remove(i);
                    }
                }
            }
            V::S(e) => match self.sym.binary_search_by(|x| x.0.cmp(&(off as u32))) {
                Ok(i) => self.sym[i].1 = *e,
                Err(i) => self.sym.insert(i, (off as u32, *e)),
            },
            _ => panic!("set_byte"),
        }
    }
    /// read n <= 8 bytes ignoring updates
    #[inline]
    pub fn read(&self, ex: &mut Exprs, off: usize, n: usize) -> V {
        let (a, b) = self.sym_range(off, n);
        let mut k = [0u8; 8];
        k[..n].copy_from_slice(&self.data[off..off + n]);
        let x = u64::from_le_bytes(k);
        if a == b {
            return V::I(x);
        }
        self.read_sym(ex, off, n, a, b)
    }
    fn read_sym(&self, ex: &mut Exprs, off: usize, n: usize, a: usize, b: usize) -> V {
        let mut r: Option<E> = None;
        let mut j = a;
        for i in 0..n {
            let e = if j < b && self.sym[j].0 as usize == off + i {
                j += 1;
                self.sym[j - 1].1
            } else {
                ex.cst(self.data[off + i] as u64, 8)
            };
            r = Some(match r {
                None => e,
                Some(lo) => ex.concat(e, lo),
            });
        }
        let r = r.unwrap();
        match ex.isc(r) {
            Some(k) => V::I(k),
            None => V::S(r),
        }
    }
    /// write n <= 8 bytes; v must have width 8*n when symbolic
    #[inline]
    pub fn write(&mut self, ex: &mut Exprs, off: usize, n: usize, v: &V) {
        match v {
            V::I(x) => {
                self.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !self.sym.is_empty() {
                    let (a, b) = self.sym_range(off, n);
                    if a != b {
                        self.sym.drain(a..b);
                    }
                }
            }
            V::S(e) => {
                for i in 0..n {
                    let be = ex.extract(*e, 8 * i as u32, 8);
                    let v = match ex.isc(be) {
                        Some(k) => V::I(k),
                        None => V::S(be),
                    };
                    self.set_byte(off + i, &v);
                }
            }
            _ => panic!("write"),
        }
    }
    pub fn copy_from(&mut self, off: usize, src: &Obj, so: usize, n: usize) {
        self.data[off..off + n].copy_from_slice(&src.data[so..so + n]);
        let (a, b) = self.sym_range(off, n);
        let (sa, sb) = src.sym_range(so, n);
        if a == b && sa == sb {
            return;
        }
        let new: Vec<(u32, E)> =
            src.sym[sa..sb].iter().map(|x| ((x.0 as usize - so + off) as u32, x.1)).collect();
        self.sym.splice(a..b, new);
    }
    pub fn move_within(&mut self, off: usize, so: usize, n: usize) {
        let (sa, sb) = self.sym_range(so, n);
        let new: Vec<(u32, E)> =
            self.sym[sa..sb].iter().map(|x| ((x.0 as usize - so + off) as u32, x.1)).collect();
        self.data.copy_within(so..so + n, off);
        let (a, b) = self.sym_range(off, n);
        self.sym.splice(a..b, new);
    }
    pub fn fill(&mut self, off: usize, n: usize, v: &V) {
        match v {
            V::I(x) => {
                self.data[off..off + n].fill(*x as u8);
                let (a, b) = self.sym_range(off, n);
                if a != b {
                    self.sym.drain(a..b);
                }
            }
            v => {
                for i in 0..n {
                    self.set_byte(off + i, v);
                }
            }
        }
    }
}

const N: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
type Mid = Vec<Option<Rc<Chunk>>>;
#[derive(Clone, Default)]
pub struct Mem {
    top: Vec<Option<Rc<Mid>>>,
}

impl Mem {
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let id = id as usize;
        let m = self.top.get(id / (N * N))?.as_ref()?;
        let c = m[(id / N) % N].as_ref()?;
        c[id % N].as_ref()
    }
    #[inline]
    pub fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let id = id as usize;
        let t = id / (N * N);
        if t >= self.top.len() {
            self.top.resize(t + 1, None);
        }
        let m = self.top[t].get_or_insert_with(|| Rc::new(vec![None; N]));
        let m = Rc::make_mut(m);
        let c = m[(id / N) % N].get_or_insert_with(|| Rc::new(vec![None; N]));
        let c = Rc::make_mut(c);
        &mut c[id % N]
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        self.slot(id).as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) {
        let i = id as usize;
        let t = i / (N * N);
        *self.slot(id) = None;
        // release completely freed chunks
        let m = Rc::make_mut(self.top[t].as_mut().unwrap());
        if i % N == N - 1 {
            let c = m[(i / N) % N].as_ref().unwrap();
            if c.iter().all(|x| x.is_none()) {
                m[(i / N) % N] = None;
            }
        }
    }
}
