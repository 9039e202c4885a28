//! C09, C10: LZ77 and lex-parse.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;

/// Lengths of the greedy self-referential factors (0 = fresh letter).
fn lz_spec(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let mut i = 0;
    let mut v = vec![];
    while i < n {
        let mut best = 0;
        for j in 0..i {
            let mut l = 0;
            while i + l < n && t[j + l] == t[i + l] {
                l += 1;
            }
            if l > best {
                best = l;
            }
        }
        v.push(best);
        i += if best == 0 { 1 } else { best };
    }
    v
}
/// params: mode n q way file
pub fn c09_tool() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let mut c = Tool::new("count_z").input(param(3), &t);
    if param(4) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    let e = lz_spec(&t);
    check(num_field(&o.out, "length") == Some(n), "length");
    check(num_field(&o.out, "factors") == Some(e.len()), "number of factors");
    if param(4) == 1 {
        let w = outfile("out").unwrap_or_default();
        let f = pairs(&w);
        check(f.is_some(), "factor list can be read");
        let f = f.unwrap_or_default();
        check(f.len() == e.len(), "factors listed");
        let mut d: Vec<u8> = vec![];
        let mut small = true;
        for k in 0..f.len() {
            let (a, l) = f[k];
            check(l == e[k], "factor length");
            if l == 0 {
                small = small & (a < 256);
                d.push(a as u8);
            } else {
                check(a >= 1 && a <= d.len(), "distance reaches back into the text");
                for _ in 0..l {
                    d.push(d[d.len() - a]);
                }
            }
        }
        check(small, "letter codes");
        check(same(&d, &t), "the factors decode to the text");
    }
    cover("end");
    observe_all(&e);
}
/// params: mode n q way file
pub fn c10_tool() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let mut c = Tool::new("count_lexparse").input(param(3), &t);
    if param(4) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    // phrases by the definition
    let sa = sa_spec(&t);
    let mut isa = vec![0; n];
    for i in 0..n {
        isa[sa[i]] = i;
    }
    let mut e = vec![];
    let mut i = 0;
    while i < n {
        let mut l = 0;
        let mut src = 0;
        if isa[i] > 0 {
            src = sa[isa[i] - 1];
            while i + l < n && src + l < n && t[i + l] == t[src + l] {
                l += 1;
            }
        }
        e.push((i, src, l));
        i += if l == 0 { 1 } else { l };
    }
    check(num_field(&o.out, "length") == Some(n), "length");
    check(num_field(&o.out, "factors") == Some(e.len()), "number of phrases");
    if param(4) == 1 {
        let w = outfile("out").unwrap_or_default();
        let f = pairs(&w);
        check(f.is_some(), "phrase list can be read");
        let f = f.unwrap_or_default();
        check(f.len() == e.len(), "phrases listed");
        // decode by resolving references until nothing changes
        let mut d: Vec<u8> = vec![0; n];
        let mut known = vec![false; n];
        let mut small = true;
        for k in 0..f.len() {
            check(f[k].1 == e[k].2, "phrase length");
            if f[k].1 == 0 {
                small = small & (f[k].0 < 256);
                d[e[k].0] = f[k].0 as u8;
                known[e[k].0] = true;
            } else {
                check(f[k].0 == e[k].1, "phrase source is the preceding suffix");
            }
        }
        check(small, "letter codes");
        loop {
            let mut more = false;
            for k in 0..f.len() {
                for x in 0..f[k].1 {
                    let (to, from) = (e[k].0 + x, e[k].1 + x);
                    if !known[to] && known[from] {
                        known[to] = true;
                        d[to] = d[from];
                        more = true;
                    }
                }
            }
            if !more {
                break;
            }
        }
        check(known.iter().all(|&x| x), "the phrases are acyclic");
        check(same(&d, &t), "the phrases decode to the text");
    }
    cover("end");
    for x in &e {
        observe(x.2 as u64);
    }
}
/// params: .. .. .. file
pub fn c09_wide() {
    let w = wide(true);
    let n = w.n;
    let mut c = Tool::new("count_z").input(n % 2, &w.t);
    if param(3) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    let mut e = vec![];
    let mut p = 0;
    while p < n {
        // a longest earlier occurrence starts at the beginning or right before
        let l = if p == 0 {
            0
        } else {
            let (a, b) = (w.lce(0, p), w.lce(p - 1, p));
            if a > b {
                a
            } else {
                b
            }
        };
        e.push((p, l));
        p += if l == 0 { 1 } else { l };
    }
    check(num_field(&o.out, "length") == Some(n), "length");
    check(num_field(&o.out, "factors") == Some(e.len()), "number of factors");
    if param(3) == 1 {
        let f = pairs(&outfile("out").unwrap_or_default()).unwrap_or_default();
        check(f.len() == e.len(), "factors listed");
        for k in 0..e.len() {
            let (d, l) = f[k];
            check(l == e[k].1, "factor length");
            if l == 0 {
                check(d == w.t[e[k].0] as usize, "letter");
            } else {
                check(d >= 1 && d <= e[k].0 && w.lce(e[k].0 - d, e[k].0) >= l, "distance");
            }
        }
    }
    cover("end");
    observe(e.len() as u64);
}
/// params: .. .. .. file
pub fn c10_wide() {
    let w = wide(true);
    let n = w.n;
    let mut c = Tool::new("count_lexparse").input(n % 2, &w.t);
    if param(3) == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    let sa = w.sa();
    let mut before = vec![n; n];
    for k in 1..n {
        before[sa[k]] = sa[k - 1];
    }
    let mut e = vec![];
    let mut p = 0;
    while p < n {
        let q = before[p];
        let l = if q == n { 0 } else { w.lce(p, q) };
        e.push((p, q, l));
        p += if l == 0 { 1 } else { l };
    }
    check(num_field(&o.out, "length") == Some(n), "length");
    check(num_field(&o.out, "factors") == Some(e.len()), "number of phrases");
    if param(3) == 1 {
        let f = pairs(&outfile("out").unwrap_or_default()).unwrap_or_default();
        check(f.len() == e.len(), "phrases listed");
        for k in 0..e.len() {
            let (p, q, l) = e[k];
            check(f[k].1 == l && f[k].0 == if l == 0 { w.t[p] as usize } else { q }, "phrase");
        }
    }
    cover("end");
    observe(e.len() as u64);
}
