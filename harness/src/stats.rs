//! C13, C14: entropies and counts.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;

fn h0(cnt: &[usize]) -> f64 {
    let mut total = 0usize;
    for &c in cnt {
        total += c;
    }
    let mut s = 0.0f64;
    for &c in cnt {
        if c > 0 {
            let p = c as f64 / total as f64;
            s -= p * p.log2();
        }
    }
    s
}
/// Index of the class of equal letters, for each position (by case split).
fn classes(t: &[u8]) -> Vec<usize> {
    let mut rep: Vec<u8> = vec![];
    let mut v = vec![];
    for &c in t {
        let mut k = 0;
        while k < rep.len() && rep[k] != c {
            k += 1;
        }
        if k == rep.len() {
            rep.push(c);
        }
        v.push(k);
    }
    v
}
/// Entropy of order `k` of the classes `c`.
fn hk(c: &[usize], k: usize) -> f64 {
    let n = c.len();
    let mut done = vec![false; n + 1];
    let mut s = 0.0f64;
    for i in 0..n {
        if i + k > n || done[i] {
            continue;
        }
        let mut cnt = vec![0usize; n + 1];
        let mut m = 0;
        for j in i..n - k + 1 {
            if c[i..i + k] == c[j..j + k] {
                done[j] = true;
                if j + k < n {
                    cnt[c[j + k]] += 1;
                    m += 1;
                }
            }
        }
        if m > 0 {
            s += m as f64 * h0(&cnt);
        }
    }
    s / n as f64
}
fn entropy_value(o: &[u8]) -> f64 {
    let f = field(o, "entropy").unwrap_or(b"x");
    match std::str::from_utf8(f) {
        Ok(s) => s.parse::<f64>().unwrap_or(-1.0),
        Err(_) => -1.0,
    }
}
fn close(a: f64, b: f64) -> bool {
    let d = a - b;
    d < 1e-9 && d > -1e-9
}
/// params: mode n q way order tool(0 entropy, 1 entropy_kmer)
pub fn c13_tool() {
    let n = nparam(1);
    let order = nparam(4);
    let t = text(param(0), n, param(2), order == 0);
    let name = if param(5) == 0 { "entropy" } else { "entropy_kmer" };
    let mut c = Tool::new(name).input(param(3), &t);
    if order > 0 || n % 2 == 0 {
        c = c.arg(b"-o").num(order);
    }
    let o = c.run();
    ok(&o);
    check(num_field(&o.out, "length") == Some(n + 1), "length of the terminated text");
    check(num_field(&o.out, "order") == Some(order), "order");
    let mut t0 = t.clone();
    t0.push(0);
    let cl = classes(&t0);
    let e = hk(&cl, order);
    check(close(entropy_value(&o.out), e), "entropy as defined");
    cover("end");
    observe_all(&cl);
}

/// The same input gives the same output whatever order hash maps have. params: mode n q way order
pub fn c13_stable() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), false);
    let order = nparam(4);
    if n < order {
        return;
    }
    let mut first = vec![];
    for h in 0..24 {
        let o = Tool::new("entropy_kmer").input(param(3), &t).arg(b"-o").num(order).hash(h * 5).run();
        ok(&o);
        let e = field(&o.out, "entropy").unwrap_or(b"").to_vec();
        if h == 0 {
            first = e;
        } else {
            check(same(&e, &first), "entropy depends on the input only");
        }
    }
    cover("end");
    observe(n as u64);
}

/// params: mode n q way
pub fn c14_sigma() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let o = Tool::new("count_sigma").input(param(3), &t).run();
    ok(&o);
    let cl = classes(&t);
    let mut m = 0;
    for &k in &cl {
        if k + 1 > m {
            m = k + 1;
        }
    }
    check(num_field(&o.out, "length") == Some(n), "length");
    check(num_field(&o.out, "sigma") == Some(m), "number of distinct letters");
    cover("end");
    observe(m as u64);
}
fn all256(n: usize) -> Vec<u8> {
    let mut t = vec![];
    for i in 0..n {
        t.push((i * 77 + 5) as u8);
    }
    t
}
/// All byte values (n of them), with arbitrary letters put in at `at`. params: n at q way
pub fn c14_full() {
    let n = param(0);
    let mut t = all256(n);
    for k in 0..param(2) {
        t.insert(param(1) + 3 * k, sym8());
    }
    let o = Tool::new("count_sigma").input(param(3), &t).run();
    ok(&o);
    // distinct letters, the fixed ones first
    let f = all256(n);
    let mut m = if n > 256 { 256 } else { n };
    let mut extra: Vec<u8> = vec![];
    for k in 0..param(2) {
        let c = t[param(1) + 3 * k];
        let mut seen = false;
        for &x in &f {
            seen = seen | (x == c);
        }
        for &x in &extra {
            seen = seen | (x == c);
        }
        if !seen {
            m += 1;
            extra.push(c);
        }
    }
    check(num_field(&o.out, "length") == Some(t.len()), "length");
    check(num_field(&o.out, "sigma") == Some(m), "number of distinct letters");
    cover("end");
    observe(m as u64);
}
fn runs(t: &[u8]) -> usize {
    let mut r = 0;
    for i in 0..t.len() {
        if i == 0 || t[i] != t[i - 1] {
            r += 1;
        }
    }
    r
}
/// params: mode n q way
pub fn c14_runs() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let o = Tool::new("count_runs").input(param(3), &t).run();
    ok(&o);
    let mut e = dec(runs(&t));
    e.push(b'\n');
    check(same(&o.out, &e), "number of runs");
    check(stringology::core::number_of_runs(&mut t.as_slice()) == runs(&t), "number_of_runs");
    cover("end");
    observe_bytes(&o.out);
}
/// params: mode n q way
pub fn c14_r() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), false);
    let o = Tool::new("count_r").input(param(3), &t).run();
    ok(&o);
    let mut t0 = t.clone();
    t0.push(0);
    check(num_field(&o.out, "length") == Some(n + 1), "length");
    check(num_field(&o.out, "bwt_runs") == Some(runs(&bwt_spec(&t0))), "number of BWT runs");
    cover("end");
    observe(runs(&bwt_spec(&t0)) as u64);
}
/// params: .. .. .. order tool(0 entropy, 1 entropy_kmer)
pub fn c13_wide() {
    let w = wide(false);
    let (n, i, k) = (w.n, w.i, param(3));
    let j = n - i - 1;
    let (x, a) = (w.t[i], param(2) as u8);
    assume(n < 1000 || w.equal || (x == a.wrapping_sub(1)) | (x == a.wrapping_add(1)) | (x == 255));
    let o = Tool::new(if param(4) == 0 { "entropy" } else { "entropy_kmer" }).input(n % 2, &w.t).arg(b"-o").num(k).run();
    ok(&o);
    // letters following the contexts of equal letters; all other contexts occur once
    let (mut a, mut x, mut z) = (0usize, 0usize, 0usize);
    if w.equal {
        a = n - k;
        z = 1;
    } else {
        if i >= k {
            a += i - k;
            x += 1;
        }
        if j >= k {
            a += j - k;
            z += 1;
        }
    }
    let m = a + x + z;
    let mut s = 0.0f64;
    for c in [a, x, z] {
        if c > 0 {
            let p = c as f64 / m as f64;
            s -= p * p.log2();
        }
    }
    let e = s * m as f64 / (n + 1) as f64;
    check(num_field(&o.out, "length") == Some(n + 1), "length of the terminated text");
    let f = field(&o.out, "entropy").unwrap_or(b"x");
    let v = match std::str::from_utf8(f) {
        Ok(s) => s.parse::<f64>().unwrap_or(-1.0),
        Err(_) => -1.0,
    };
    let d = v - e;
    check(d < 1e-9 && d > -1e-9, "entropy as defined");
    cover("end");
    observe(m as u64);
}
/// count_r. params: .. .. ..
pub fn c14_wide() {
    let w = wide(false);
    let n = w.n;
    let mut last = w.t[n - 1];
    let mut r = 1;
    for &p in &w.sa() {
        let c = if p == 0 { 0 } else { w.t[p - 1] };
        if c != last {
            r += 1;
        }
        last = c;
    }
    let o = Tool::new("count_r").input(n % 2, &w.t).run();
    ok(&o);
    check(num_field(&o.out, "bwt_runs") == Some(r), "number of runs");
    check(num_field(&o.out, "length") == Some(n + 1), "length");
    cover("end");
    observe(r as u64);
}
