//! C01, C02, C03: the three Burrows-Wheeler transforms.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;
use stringology::core;

/// params: mode n q way(0 stdin, 1 file) out(0 stdout, 1 file) invert
pub fn c01_tool() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), false);
    let mut o = if param(4) == 0 {
        Tool::new("bwt").input(param(3), &t).run()
    } else {
        Tool::new("bwt").input(param(3), &t).arg(b"-o").arg(b"out").run()
    };
    ok(&o);
    if param(4) == 1 {
        check(o.out.is_empty(), "nothing on standard output");
        o.out = outfile("out").unwrap_or_default();
    }
    check(o.out.len() == n + 1, "transform has one letter per letter and terminator");
    let mut t0 = t.clone();
    t0.push(0);
    let e = bwt_spec(&t0);
    check(same(&o.out, &e), "transform is the last column of the sorted rotations");
    if param(5) == 1 {
        let b = bwt_invert(&o.out);
        check(same(&b, &t), "inversion recovers the text");
    }
    cover("end");
    observe_bytes(&o.out);
}

/// params: mode n q
pub fn c01_lib() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), false);
    let mut t0 = t.clone();
    t0.push(0);
    let e = bwt_spec(&t0);
    let a = core::bwt_from_text_by_sa(&t0);
    check(same(&a, &e), "bwt_from_text_by_sa");
    let sa = core::suffixarray_naive(&t0);
    let b = core::bwt_from_sa(&t0, &sa);
    check(same(&b, &e), "bwt_from_sa");
    cover("end");
    observe_bytes(&a);
}

/// A zero byte before the last position is rejected. params: n tool
pub fn c01_reject() {
    let n = nparam(0);
    let t = bytes(n);
    let z = choose(0, n - 1);
    assume(t[z] == 0);
    if param(1) == 1 {
        let o = Tool::new("bwt").stdin(&t).run();
        check(o.status != 0, "inner zero is rejected");
        check(o.out.is_empty(), "nothing is written");
    } else {
        let mut t0 = t.clone();
        t0.push(sym8());
        let p = panics(|| {
            let _ = core::bwt_from_text_by_sa(&t0);
        });
        check(p, "inner zero is rejected by the library");
    }
    cover("end");
}

/// params: mode n q zero rot
pub fn c02_lib() {
    let n = nparam(1);
    let zero = param(3) == 1;
    let t = text(param(0), n, param(2), zero);
    let e = bwt_spec(&t);
    let a = core::bwt_by_matrix_naive(&t);
    check(same(&a, &e), "bwt_by_matrix_naive");
    if !zero {
        let b = core::bwt_by_matrix(&t);
        check(same(&b, &e), "bwt_by_matrix");
    }
    if param(4) == 1 {
        let r = choose(1, n);
        let u = rotated(&t, r % n);
        let a2 = core::bwt_by_matrix_naive(&u);
        check(same(&a2, &e), "bwt_by_matrix_naive of a rotation");
        if !zero {
            let b2 = core::bwt_by_matrix(&u);
            check(same(&b2, &e), "bwt_by_matrix of a rotation");
        }
    }
    cover("end");
    observe_bytes(&a);
}

/// params: mode n q zero dollar way
pub fn c02_tool() {
    let n = nparam(1);
    let dollar = param(4) == 1;
    let mut t = text(param(0), n, param(2), param(3) == 1);
    let mut c = Tool::new("bwt").input(param(5), &t).arg(b"-u");
    if !dollar {
        c = c.arg(b"-n");
    }
    let o = c.run();
    ok(&o);
    if dollar {
        t.push(0);
    }
    let e = bwt_spec(&t);
    check(same(&o.out, &e), "bwt -u writes the last column");
    cover("end");
    observe_bytes(&o.out);
}
pub fn runs(e: &[u8]) -> usize {
    let mut r = 0;
    for i in 0..e.len() {
        if i == 0 || e[i] != e[i - 1] {
            r += 1;
        }
    }
    r
}
/// count_r in all its variants. params: mode n q zero variant(bit0 matrix, bit1 no dollar) way
pub fn c02_count() {
    let n = nparam(1);
    let v = param(4);
    let mut t = text(param(0), n, param(2), param(3) == 1);
    if v & 3 == 2 {
        // suffix-array variant without an added terminator: the input brings its own
        t.push(0);
    }
    let mut c = Tool::new("count_r").input(param(5), &t);
    if v & 1 == 1 {
        c = c.arg(b"-u");
    }
    if v & 2 == 2 {
        c = c.arg(b"-n");
    }
    let o = c.run();
    ok(&o);
    if v & 2 == 0 {
        t.push(0);
    }
    let e = bwt_spec(&t);
    check(num_field(&o.out, "length") == Some(t.len()), "count_r length");
    let r = num_field(&o.out, "bwt_runs");
    check(r == Some(runs(&e)), "count_r runs");
    cover("end");
    observe(r.unwrap_or(0) as u64);
}

/// params: mode n q inv
pub fn c03_lib() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let b = core::bbwt_naive(&t);
    check(b.len() == n, "length");
    // factorization by the definition: the last factor is the smallest suffix, and so on
    let mut end = n;
    let mut fs: Vec<(usize, usize)> = vec![];
    while end > 0 {
        let mut s = 0;
        for i in 1..end {
            if suf_less(&t[..end], i, s) {
                s = i;
            }
        }
        fs.push((s, end));
        end = s;
    }
    // all conjugates in omega order
    let mut cs: Vec<(usize, usize, usize)> = vec![];
    for &(s, e) in &fs {
        for r in 0..e - s {
            let c = (s, e - s, r);
            let mut p = cs.len();
            while p > 0 && omega_less(&t, c, cs[p - 1]) {
                p -= 1;
            }
            cs.insert(p, c);
        }
    }
    let mut e = vec![];
    for &(s, l, r) in &cs {
        e.push(t[s + (r + l - 1) % l]);
    }
    check(same(&b, &e), "bbwt_naive");
    if param(3) == 1 {
        // standard inversion: cycles of the standard permutation, each starting from its least row
        let mut ord: Vec<usize> = vec![];
        for i in 0..n {
            let mut p = ord.len();
            while p > 0 && b[i] < b[ord[p - 1]] {
                p -= 1;
            }
            ord.insert(p, i);
        }
        let mut seen = vec![false; n];
        let mut words: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            if seen[i] {
                continue;
            }
            let mut w = vec![];
            let mut r = i;
            while !seen[r] {
                seen[r] = true;
                r = ord[r];
                w.push(b[r]);
            }
            words.push(w);
        }
        // cycles come out in increasing order of their Lyndon words
        let mut v = vec![];
        for w in words.iter().rev() {
            v.extend_from_slice(w);
        }
        check(same(&v, &t), "inversion recovers the text");
    }
    cover("end");
    observe_bytes(&b);
}
fn omega_less(t: &[u8], a: (usize, usize, usize), b: (usize, usize, usize)) -> bool {
    for k in 0..a.1 + b.1 {
        let x = t[a.0 + (a.2 + k) % a.1];
        let y = t[b.0 + (b.2 + k) % b.1];
        if x != y {
            return x < y;
        }
    }
    false
}
/// The Burrows-Wheeler transform. params: .. .. .. what(0 library, 1 tool, 2 bwt_by_matrix, 3 bwt -u -n, 4 count_r -u -n)
pub fn c01_wide() {
    let w = wide(false);
    let n = w.n;
    let sa = w.sa();
    let mut e = vec![w.t[n - 1]];
    for &p in &sa {
        e.push(if p == 0 { 0 } else { w.t[p - 1] });
    }
    let mut t0 = w.t.clone();
    t0.push(0);
    match param(3) {
        0 => check(same(&core::bwt_from_text_by_sa(&t0), &e), "transform of the text"),
        1 => {
            let o = Tool::new("bwt").input(n % 2, &w.t).run();
            ok(&o);
            check(same(&o.out, &e), "transform of the text");
        }
        _ => {
            // without the terminator; the rotations that begin further before x are smaller or greater
            let (x, y) = (w.t[w.i], param(2) as u8);
            let mut e = vec![y; n];
            e[if w.less { n - 1 } else { 0 }] = x;
            if param(3) == 2 {
                check(same(&core::bwt_by_matrix(&w.t), &e), "transform of the rotations");
            } else {
                let mut c = Tool::new(if param(3) == 3 { "bwt" } else { "count_r" }).input(n % 2, &w.t).arg(b"-u").arg(b"-n");
                if n % 3 == 0 {
                    c = c.arg(b"-p").num(n + 1);
                }
                let o = c.run();
                ok(&o);
                if param(3) == 3 {
                    check(same(&o.out, &e), "transform of the rotations");
                } else {
                    check(num_field(&o.out, "bwt_runs") == Some(if w.equal { 1 } else { 2 }), "number of runs");
                    check(num_field(&o.out, "length") == Some(n), "length");
                }
            }
        }
    }
    cover("end");
    observe(e.len() as u64);
}
