//! Texts longer than 16-bit numbers count: a^i x a^j with an arbitrary letter x. The definitions the other modules
//! write out for every pair of positions are evaluated here through the structure of the text.
use crate::text::*;
use crate::vx::*;

pub struct Wide {
    pub t: Vec<u8>,
    pub i: usize,
    pub n: usize,
    /// order of x relative to the other letter
    pub less: bool,
    pub equal: bool,
}
/// params 0 n, 1 place of x (0 first, 1 second, 2 middle, 3 last but one, 4 last, 5 at 3n/4), 2 the other letter
pub fn wide(zero: bool) -> Wide {
    let n = nparam(0);
    let a = param(2) as u8;
    let i = match param(1) {
        0 => 0,
        1 => 1,
        2 => n / 2,
        3 => n - 2,
        4 => n - 1,
        _ => n * 3 / 4,
    };
    let x = sym8();
    if !zero {
        assume(x != 0);
    }
    let mut t = vec![a; n];
    t[i] = x;
    let (mut equal, mut less) = (false, false);
    if x == a {
        equal = true;
    } else if x < a {
        less = true;
    }
    if equal {
        t[i] = a;
    }
    Wide { t, i, n, less, equal }
}
impl Wide {
    /// length of the longest common prefix of the suffixes at p and q
    pub fn lce(&self, p: usize, q: usize) -> usize {
        let (p, q) = if p < q { (p, q) } else { (q, p) };
        let n = self.n;
        if p == q || self.equal || p > self.i {
            return n - q;
        }
        let (a, b) = (self.i - p, if q > self.i { n - q } else { self.i - q });
        if a < b {
            a
        } else {
            b
        }
    }
    pub fn sa(&self) -> Vec<usize> {
        let (n, i) = (self.n, self.i);
        let j = n - i - 1;
        if self.equal {
            return (0..n).rev().collect();
        }
        let mut v = Vec::with_capacity(n);
        if self.less {
            v.push(i);
            for m in 1..n {
                if m <= j {
                    v.push(n - m);
                }
                if m <= i {
                    v.push(i - m);
                }
            }
        } else {
            for m in 1..j + 1 {
                v.push(n - m);
            }
            for m in 0..i + 1 {
                v.push(m);
            }
        }
        if n <= 60 {
            check(v == sa_spec(&self.t), "harness: suffix array of the wide text");
            for p in 0..n {
                for q in 0..n {
                    let l = self.lce(p, q);
                    let m = n - if p > q { p } else { q };
                    check(l <= m && (p == q || same_at(&self.t, p, q, l) && (l == m || self.t[p + l] != self.t[q + l])), "harness: extensions of the wide text");
                }
            }
        }
        v
    }
}
