//! C04, C05, C06: Lyndon factorization, conjugates, borders and periods.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;
use stringology::core;

/// Ends (exclusive) of the Lyndon factors by the definition: the last factor is the smallest suffix.
pub fn factor_ends(t: &[u8]) -> Vec<usize> {
    let mut end = t.len();
    let mut v = vec![];
    while end > 0 {
        let mut s = 0;
        for i in 1..end {
            if suf_less(&t[..end], i, s) {
                s = i;
            }
        }
        v.push(end);
        end = s;
    }
    v.reverse();
    v
}
/// The reported last positions are those of a non-increasing sequence of Lyndon words, as a formula.
fn check_factors(t: &[u8], f: &[usize], who: &str) {
    let n = t.len();
    let mut shape = !f.is_empty();
    for i in 0..f.len() {
        shape &= f[i] < n && (i == 0 || f[i - 1] < f[i]);
    }
    check(shape && f[f.len() - 1] == n - 1, who);
    let mut r = true;
    let mut start = 0;
    let mut prev: Option<(usize, usize)> = None;
    for &e in f {
        let w = &t[start..e + 1];
        r = r & is_lyndon(w);
        if let Some((a, b)) = prev {
            r = r & !lex_lt(&t[a..b], w);
        }
        prev = Some((start, e + 1));
        start = e + 1;
    }
    check(r, who);
}
/// params: mode n q
pub fn c04_duval() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let f = core::duval(&t);
    check_factors(&t, &f, "duval");
    cover("end");
    observe_all(&f);
}
/// The inverse-suffix-array variant. params: mode n q
pub fn c04_isa() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let sa = sa_spec(&t);
    let mut isa = vec![0i32; n];
    for i in 0..n {
        isa[sa[i]] = i as i32;
    }
    let f = core::isa_lyndon_factorization(&isa);
    check_factors(&t, &f, "isa_lyndon_factorization");
    let g = core::duval(&t);
    check(f == g, "both variants agree");
    cover("end");
    observe_all(&f);
}
/// params: mode n q way file
pub fn c04_tool() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let mut c = Tool::new("lyndonfactorization").input(param(3), &t);
    if param(4) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    let f = factor_ends(&t);
    check(num_field(&o.out, "length") == Some(n), "length");
    check(num_field(&o.out, "factors") == Some(f.len()), "number of factors");
    if param(4) == 1 {
        let mut e: Vec<u8> = vec![];
        e.extend_from_slice(b">Factor 1\n");
        e.extend_from_slice(&t[..f[0]]);
        for k in 1..f.len() {
            if f[k] == n && t[n - 1] == 0 {
                break;
            }
            e.extend_from_slice(b"\n>Factor ");
            e.extend_from_slice(&dec(k + 1));
            e.extend_from_slice(b" : ");
            e.extend_from_slice(&dec(f[k - 1]));
            e.extend_from_slice(b" -> ");
            e.extend_from_slice(&dec(f[k]));
            e.extend_from_slice(b"\n");
            e.extend_from_slice(&t[f[k - 1]..f[k]]);
        }
        let w = outfile("out");
        check(w.is_some(), "output file written");
        check(same(&w.unwrap_or_default(), &e) || (n == 1 && t[0] == 0), "factors written");
    }
    cover("end");
    observe_all(&f);
}

/// params: mode n q
pub fn c05_conjugate() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let p = core::lyndon_conjugate(&t);
    check(p < n, "position inside the text");
    let p = fix(p);
    let w = rotated(&t, p);
    let mut r = true;
    for j in 0..n {
        if j != p {
            r = r & !lex_lt(&rotated(&t, j), &w);
        }
    }
    check(r, "least rotation");
    cover("end");
    observe(p as u64);
    observe_bytes(&w);
}
/// params: mode n q
pub fn c05_iter() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let mut it = core::ConjugateIterator::new(&t);
    for i in 0..n {
        match it.next() {
            None => check(false, "every rotation is yielded"),
            Some(w) => {
                check(same(&w, &rotated(&t, i)), "the i-th word is the i-th rotation");
                observe_bytes(&w);
            }
        }
    }
    for _ in 0..4 {
        check(it.next().is_none(), "the iterator ends and stays ended");
    }
    // the adaptor form used by callers
    let mut k = 0;
    for w in core::ConjugateIterator::new(&t) {
        k += 1;
        check(k <= n && w.len() == n, "number and length of the words");
    }
    check(k == n, "number of words");
    cover("end");
}

/// params: mode n q
pub fn c06_border() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let b = core::border_array(&t);
    check(b.len() == n + 1, "one entry per prefix and a dummy");
    let mut r = true;
    for i in 1..n + 1 {
        let k = b[i];
        check(k < i, "the border is proper");
        let mut x = same_at(&t, 0, i - k, k);
        for l in k + 1..i {
            x = x & !same_at(&t, 0, i - l, l);
        }
        r = r & x;
    }
    check(r, "longest border of every prefix");
    let p = core::smallest_period(&b);
    check(n == 0 || (p >= 1 && p <= n), "period range");
    if n > 0 {
        let mut x = same_at(&t, 0, p, n - p);
        for l in 1..p {
            x = x & !same_at(&t, 0, l, n - l);
        }
        check(x, "least period");
        let mut rep = false;
        for d in 1..n {
            if n % d == 0 {
                rep = rep | same_at(&t, 0, d, n - d);
            }
        }
        let q = core::is_primitive(&t);
        check(q != rep, "primitive exactly if not a repetition");
        observe(q as u64);
    }
    cover("end");
    observe_all(&b);
}
/// Two different words of the same length raised to a power, and other letter types.
/// params: n k
pub fn c06_power() {
    let n = nparam(0);
    let k = nparam(1);
    let w = bytes(n);
    let mut t: Vec<u32> = vec![];
    for _ in 0..k {
        for i in 0..n {
            t.push(w[i] as u32);
        }
    }
    let prim = core::is_primitive(&t);
    let mut rep = k > 1;
    for d in 1..n {
        if n % d == 0 {
            rep = rep | same_at(&w, 0, d, n - d);
        }
    }
    check(prim != rep, "a power is not primitive");
    let b = core::border_array(&t);
    check(core::smallest_period(&b) <= n, "period of a power");
    cover("end");
    observe(prim as u64);
}
/// The positions listed when logging at level debug. params: mode n q way file
pub fn c04_debug() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let mut c = Tool::new("lyndonfactorization").input(param(3), &t).env(b"RUST_LOG=debug");
    if param(4) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    let mut e = vec![b'['];
    for (i, f) in factor_ends(&t).iter().enumerate() {
        if i > 0 {
            e.extend_from_slice(b", ");
        }
        e.extend_from_slice(&dec(f - 1));
    }
    e.push(b']');
    let err = stderr();
    let mut found = false;
    for i in 0..err.len() {
        if err.len() - i >= e.len() && same(&err[i..i + e.len()], &e) {
            found = true;
            break;
        }
    }
    check(found, "the last positions of the factors are listed");
    cover("end");
    observe_bytes(&e);
}
/// params: .. .. .. tool(0 duval, 1 inverse suffix array, 2 tool with list)
pub fn c04_wide() {
    let w = wide(true);
    let (n, i) = (w.n, w.i);
    let mut e = vec![];
    if w.equal {
        e.extend(0..n);
    } else if w.less {
        e.extend(0..i);
        e.push(n - 1);
    } else {
        e.extend(i..n);
    }
    match param(3) {
        0 => check(core::duval(&w.t) == e, "factors of the text"),
        1 => {
            let sa = w.sa();
            let mut isa = vec![0i32; n];
            for k in 0..n {
                isa[sa[k]] = k as i32;
            }
            check(core::isa_lyndon_factorization(&isa) == e, "factors of the text");
        }
        _ => {
            let o = Tool::new("lyndonfactorization").input(n % 2, &w.t).run();
            ok(&o);
            check(num_field(&o.out, "length") == Some(n), "length");
            check(num_field(&o.out, "factors") == Some(e.len()), "number of factors");
        }
    }
    cover("end");
    observe(e.len() as u64);
}
pub fn c05_wide() {
    let w = wide(true);
    let (n, i) = (w.n, w.i);
    let p = core::lyndon_conjugate(&w.t);
    check(p < n && (w.equal || p == if w.less { i } else { (i + 1) % n }), "least rotation");
    cover("end");
    observe(p as u64);
}
pub fn c06_wide() {
    let w = wide(true);
    let (n, i) = (w.n, w.i);
    let b = core::border_array(&w.t);
    check(b.len() == n + 1, "one entry per prefix and a dummy");
    let mut ok = true;
    let mut last = 0;
    for k in 1..n + 1 {
        let e = if w.equal || k <= i {
            k - 1
        } else if k == i + 1 {
            0
        } else if k - i - 1 < i {
            k - i - 1
        } else {
            i
        };
        ok &= b[k] == e;
        last = e;
    }
    check(ok, "border array");
    check(core::smallest_period(&b) == n - last, "least period");
    check(core::is_primitive(&w.t) == !w.equal || n == 1, "primitive");
    cover("end");
    observe(last as u64);
}
