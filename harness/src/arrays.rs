//! C07, C08: suffix-array companions, previous and next smaller values.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;
use stringology::core;

/// params: mode n q term(1: a zero terminator is appended)
pub fn c07_lib() {
    let n0 = nparam(1);
    let term = param(3) == 1;
    let mut t = text(param(0), n0, param(2), !term);
    if term {
        t.push(0);
    }
    let n = t.len();
    let sa = core::suffixarray_naive(&t);
    check(sa.len() == n, "suffix array length");
    let mut isa = vec![usize::MAX; n];
    let mut perm = true;
    for i in 0..n {
        if sa[i] < n && isa[sa[i]] == usize::MAX {
            isa[sa[i]] = i;
        } else {
            perm = false;
        }
    }
    check(perm, "suffix array is a permutation");
    let mut r = true;
    for i in 1..n {
        r = r & lex_lt(&t[sa[i - 1]..], &t[sa[i]..]);
    }
    check(r, "suffix array is in lexicographic order");
    let sa32: Vec<i32> = sa.iter().map(|&x| x as i32).collect();
    check(core::inverse_permutation(&sa) == isa, "inverse (usize)");
    let isa32: Vec<i32> = isa.iter().map(|&x| x as i32).collect();
    check(core::inverse_permutation(&sa32) == isa32, "inverse (i32)");
    check(core::inverse_permutation(&isa32) == sa32, "inverse of the inverse");
    let phi32 = core::compute_phi(&sa32);
    let phi = core::compute_phi(&sa);
    check(phi.len() == n && phi32.len() == n, "phi length");
    let mut ok = true;
    for p in 0..n {
        let q = if isa[p] == 0 { sa[n - 1] } else { sa[isa[p] - 1] };
        ok &= phi[p] == q && phi32[p] == q as i32;
    }
    check(ok, "phi is the preceding suffix, cyclically");
    let plcp = core::compute_plcp(&t, &phi32);
    check(plcp.len() == n, "plcp length");
    let mut r = true;
    for p in 0..n {
        let l = plcp[p] as usize;
        if isa[p] == 0 {
            check(l == 0, "plcp of the smallest suffix is 0");
            continue;
        }
        let q = sa[isa[p] - 1];
        let m = n - if p > q { p } else { q };
        check(l <= m, "plcp stays inside the text");
        r = r & same_at(&t, p, q, l);
        if l < m {
            r = r & (t[p + l] != t[q + l]);
        }
    }
    check(r, "plcp is the longest common prefix with the preceding suffix");
    let lcp = core::compute_lcp(&plcp, &sa32);
    let lcpu = core::compute_lcp(&plcp, &sa);
    let mut ok = lcp.len() == n && lcpu == lcp;
    for i in 0..n {
        ok &= lcp[i] == plcp[sa[i]];
    }
    check(ok, "lcp is plcp in suffix-array order");
    cover("end");
    observe_all(&sa);
    for p in 0..n {
        observe(plcp[p] as u64);
    }
}
/// Suffix array over wider letters. params: n
pub fn c07_wide() {
    let n = nparam(0);
    let mut t: Vec<u32> = vec![];
    for _ in 0..n {
        t.push(sym64() as u32);
    }
    let sa = core::suffixarray_naive(&t);
    let mut r = true;
    for i in 1..n {
        let (a, b) = (&t[sa[i - 1]..], &t[sa[i]..]);
        let m = if a.len() < b.len() { a.len() } else { b.len() };
        let mut lt = a.len() < b.len();
        for k in (0..m).rev() {
            lt = (a[k] < b[k]) | ((a[k] == b[k]) & lt);
        }
        r = r & lt;
    }
    check(r, "suffix array of wide letters");
    cover("end");
    observe_all(&sa);
}

fn psv_nsv<T: Ord + Copy>(a: &[T]) {
    let n = a.len();
    let p = core::compute_psv(a);
    let s = core::compute_nsv(a);
    check(p.len() == n && s.len() == n, "lengths");
    for i in 0..n {
        let lo = if p[i] == core::INVALID_VALUE {
            0
        } else {
            check((p[i] as usize) < i, "previous smaller value lies to the left");
            let j = p[i] as usize;
            check(a[j] < a[i], "the value found is smaller");
            j + 1
        };
        for j in lo..i {
            check(!(a[j] < a[i]), "no nearer smaller value");
        }
        let hi = if s[i] == core::INVALID_VALUE {
            n
        } else {
            check((s[i] as usize) > i && (s[i] as usize) < n, "next smaller value lies to the right");
            let j = s[i] as usize;
            check(a[j] < a[i], "the value found is smaller");
            j
        };
        for j in i + 1..hi {
            check(!(a[j] < a[i]), "no nearer smaller value");
        }
    }
    check(core::INVALID_VALUE == u32::MAX, "marker");
    cover("end");
    for i in 0..n {
        observe(p[i] as u64);
        observe(s[i] as u64);
    }
}
/// params: kind(0 bytes, 1 u64, 2 i32, 3 pairs) n; kind 4: text family (params 2 mode 3 q)
pub fn c08() {
    let n = nparam(1);
    match param(0) {
        0 => psv_nsv(&bytes(n)),
        1 => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(sym64());
            }
            psv_nsv(&v)
        }
        2 => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(sym64() as i32);
            }
            psv_nsv(&v)
        }
        3 => {
            let mut v = vec![];
            for _ in 0..n {
                v.push((sym8(), sym8()));
            }
            psv_nsv(&v)
        }
        _ => psv_nsv(&text(param(2), n, param(3), true)),
    }
}
macro_rules! perm_of {
    ($t:ty, $sa:expr, $plcp:expr) => {{
        let (sa, plcp): (&[usize], &[u32]) = ($sa, $plcp);
        let n = sa.len();
        let s: Vec<$t> = sa.iter().map(|&x| x as $t).collect();
        let inv = core::inverse_permutation(&s);
        let phi = core::compute_phi(&s);
        let lcp = core::compute_lcp(plcp, &s);
        check(inv.len() == n && phi.len() == n && lcp.len() == n, "lengths");
        let mut ok = true;
        let mut same = true;
        for i in 0..n {
            ok &= inv[sa[i]] == i as $t && phi[sa[i]] as usize == sa[if i == 0 { n - 1 } else { i - 1 }];
            same = same & (lcp[i] == plcp[sa[i]]);
        }
        check(ok, "inverse and phi of the permutation");
        check(same, "lcp is plcp in the order of the permutation");
    }};
}
/// The helpers on permutations with entries of every width. params: kind(0 every permutation, else affine maps
/// with that factor) n width(0 u8, 1 i8, 2 u16, 3 i16, 4 u32, 5 i32, 6 u64, 7 i64, 8 usize)
pub fn c07_perm() {
    let n = nparam(1);
    let k = param(0);
    let mut sa = vec![];
    if k == 0 {
        let mut left: Vec<usize> = (0..n).collect();
        for i in 0..n {
            sa.push(left.remove(choose(0, n - 1 - i)));
        }
    } else {
        let b = choose(0, 3) * (n / 4);
        for i in 0..n {
            sa.push((i * k + b) % n);
        }
    }
    let mut plcp = vec![0u32; n];
    for i in 0..n {
        plcp[i] = if i < 8 { sym64() as u32 } else { i as u32 * 7 };
    }
    match param(2) {
        0 => perm_of!(u8, &sa, &plcp),
        1 => perm_of!(i8, &sa, &plcp),
        2 => perm_of!(u16, &sa, &plcp),
        3 => perm_of!(i16, &sa, &plcp),
        4 => perm_of!(u32, &sa, &plcp),
        5 => perm_of!(i32, &sa, &plcp),
        6 => perm_of!(u64, &sa, &plcp),
        7 => perm_of!(i64, &sa, &plcp),
        _ => perm_of!(usize, &sa, &plcp),
    }
    cover("end");
    observe_all(&sa);
}
pub fn c07_wide2() {
    let w = wide(true);
    let n = w.n;
    let sa = w.sa();
    let s32: Vec<i32> = sa.iter().map(|&x| x as i32).collect();
    let inv = core::inverse_permutation(&s32);
    let phi = core::compute_phi(&s32);
    let plcp = core::compute_plcp(&w.t, &phi);
    let lcp = core::compute_lcp(&plcp, &s32);
    check(inv.len() == n && phi.len() == n && plcp.len() == n && lcp.len() == n, "lengths");
    let mut ok = true;
    for k in 0..n {
        let p = sa[k];
        let q = sa[if k == 0 { n - 1 } else { k - 1 }];
        let l = if k == 0 { 0 } else { w.lce(p, q) };
        ok &= inv[p] == k as i32 && phi[p] == q as i32 && plcp[p] == l as u32 && lcp[k] == l as u32;
    }
    check(ok, "inverse, phi, plcp and lcp");
    cover("end");
    observe(n as u64);
}
/// params: n shape(0 rising, 1 falling, 2 constant, 3 zigzag, 4 big steps)
pub fn c08_wide() {
    let n = nparam(0);
    let s = param(1);
    let mut a: Vec<u32> = (0..n)
        .map(|k| match s {
            0 => k as u32 + 5,
            1 => (n - k) as u32 + 5,
            2 => 9,
            3 => if k % 2 == 0 { 1000 + k as u32 } else { 200000 - k as u32 },
            _ => (k / 1000) as u32 * 70000,
        })
        .collect();
    let x = sym64() as u32;
    assume(n < 1000 || (x < 8) | (x > 1 << 30));
    a[n / 2] = x;
    let (p, q) = (core::compute_psv(&a), core::compute_nsv(&a));
    check(p.len() == n && q.len() == n, "lengths");
    // the chain of candidates at each position
    let mut ok = true;
    let mut st: Vec<usize> = vec![];
    for k in 0..n {
        while !st.is_empty() && !(a[st[st.len() - 1]] < a[k]) {
            let j = st.pop().unwrap();
            if a[k] < a[j] {
                ok &= q[j] == k as u32;
            } else {
                // equal: the same next smaller value as this one
                st.push(j);
                break;
            }
        }
        let mut e = core::INVALID_VALUE;
        for m in (0..st.len()).rev() {
            if a[st[m]] < a[k] {
                e = st[m] as u32;
                break;
            }
            if s == 2 || s == 4 {
                // within a run of equal values the answer is that of the one before
                e = p[st[m]];
                break;
            }
        }
        ok &= p[k] == e;
        st.push(k);
    }
    for &j in &st {
        ok &= q[j] == core::INVALID_VALUE;
    }
    check(ok, "previous and next smaller values");
    cover("end");
    observe(n as u64);
}
