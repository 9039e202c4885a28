//! C11, C12: minimal unique substrings and string attractors.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + n.len() <= h.len() {
        if &h[i..i + n.len()] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// params: mode n q way
pub fn c11_tool() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), false);
    let o = Tool::new("mus").input(param(3), &t).run();
    ok(&o);
    // longest common extensions of all pairs, by case split
    let mut lce = vec![vec![0usize; n + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (i + 1..n).rev() {
            let e = if t[i] == t[j] { lce[i + 1][j + 1] + 1 } else { 0 };
            lce[i][j] = e;
        }
    }
    // length of the shortest substring at i that occurs once; one more than fits if there is none
    let mut short = vec![1usize; n + 1];
    for i in 0..n {
        for j in 0..n {
            let e = if j < i { lce[j][i] } else { lce[i][j] };
            if j != i && e + 1 > short[i] {
                short[i] = e + 1;
            }
        }
    }
    let mut e: Vec<u8> = vec![];
    let mut k = 0;
    for i in 0..n {
        // unique, shortest possible at i, and its longest proper suffix occurs again
        let l = short[i];
        if i + l <= n {
            if l == 1 || short[i + 1] > l - 1 {
                if k > 0 {
                    e.extend_from_slice(b", ");
                }
                e.push(b'(');
                e.extend_from_slice(&dec(i));
                e.extend_from_slice(b", ");
                e.extend_from_slice(&dec(l));
                e.push(b')');
                k += 1;
            }
        }
    }
    let p = find(&o.out, b"mus=[");
    check(p.is_some(), "list printed");
    let a = p.unwrap_or(0) + 5;
    let mut b = a;
    while b < o.out.len() && o.out[b] != b']' {
        b += 1;
    }
    check(same(&o.out[a..b], &e), "exactly the minimal unique substrings");
    cover("end");
    observe_bytes(&o.out[a..b]);
}

/// Only letters that appear as they are in the tool's messages.
fn plain(t: &[u8]) -> bool {
    let mut r = true;
    for &c in t {
        r = r & (c >= b'0') & (c < 127);
    }
    r
}
/// params: mode n q way set(0 every set, 1 one or two chosen positions, 2 out of range, 3 duplicates, 4 none)
pub fn c12_tool() {
    let n = nparam(1);
    let mode = param(0);
    let t = text(mode, n, param(2), false);
    let mut pos: Vec<usize> = vec![];
    match param(4) {
        0 => {
            let m = choose(0, (1 << (n + 1)) - 1);
            for i in 0..n + 1 {
                if (m >> i) & 1 == 1 {
                    pos.push(i);
                }
            }
        }
        1 => {
            pos.push(choose(0, n));
            pos.push(choose(0, n));
        }
        2 => {
            if sym1() {
                pos.push(0);
            }
            pos.push(choose(n + 1, n + 3));
            if sym1() {
                pos.push(n);
            }
        }
        3 => {
            let a = choose(0, n);
            let b = choose(0, n);
            pos.extend_from_slice(&[a, b, a]);
        }
        _ => {}
    }
    let mut c = Tool::new("is_stringattractor").input(param(3), &t);
    if !pos.is_empty() {
        c = c.arg(b"-a");
        for &p in &pos {
            c = c.num(p);
        }
    }
    let o = c.run();
    let mut valid = true;
    let mut t0 = t.clone();
    t0.push(0);
    let m = n + 1;
    let mut lce = vec![vec![0usize; m + 1]; m + 1];
    for i in (0..m).rev() {
        lce[i][i] = m - i;
        for j in (i + 1..m).rev() {
            let e = if t0[i] == t0[j] { lce[i + 1][j + 1] + 1 } else { 0 };
            lce[i][j] = e;
            lce[j][i] = e;
        }
    }
    // distance from each position to the next chosen one
    let mut d = vec![usize::MAX; m];
    for j in 0..m {
        for &p in &pos {
            if p >= j && p < m && p - j < d[j] {
                d[j] = p - j;
            }
        }
    }
    // cov[i][l]: the substring of length l at i has an occurrence covering a position
    let mut cov = vec![vec![false; m + 1]; m];
    for i in 0..m {
        for j in 0..m {
            if d[j] != usize::MAX {
                for l in d[j] + 1..lce[i][j] + 1 {
                    cov[i][l] = true;
                }
            }
        }
    }
    for i in 0..n {
        for l in 1..n - i + 1 {
            valid &= cov[i][l];
        }
    }
    if pos.iter().any(|&p| p > n) {
        check(o.status == 1, "a position beyond the terminator is refused");
        check(find(&o.out, b"valid attractor").is_none(), "no verdict for a refused position");
    } else {
        check(o.status == if valid { 0 } else { 2 }, "status tells whether it is an attractor");
        let last: &[u8] = if valid { b"valid attractor\n" } else { b"not a valid attractor\n" };
        check(o.out.len() >= last.len(), "says so");
        check(same(&o.out[o.out.len() - last.len()..], last), "says so");
        let mut rest = &o.out[..o.out.len() - last.len()];
        if valid {
            check(rest.is_empty(), "nothing is named for an attractor");
        } else if mode != 0 && mode != 3 && mode != 13 && plain(&t) {
            while !rest.is_empty() {
                let pre = b"substring '";
                let suf = b"' not covered!\n";
                check(rest.len() > pre.len() && same(&rest[..pre.len()], pre), "report line");
                let mut b = pre.len();
                while b < rest.len() && rest[b] != b'\'' {
                    b += 1;
                }
                check(b + suf.len() <= rest.len() && same(&rest[b..b + suf.len()], suf), "report line");
                let w = &rest[pre.len()..b];
                // it occurs in the text and is not covered
                let mut at = m;
                for i in 0..m {
                    if i + w.len() <= m && same(&t0[i..i + w.len()], w) {
                        at = i;
                    }
                }
                check(at < m && !w.is_empty(), "the named word occurs in the text");
                check(!cov[at][w.len()], "the named word is not covered");
                rest = &rest[b + suf.len()..];
            }
        }
    }
    cover("end");
    observe(o.status as u64);
}
pub fn c11_wide() {
    let w = wide(false);
    let (n, i) = (w.n, w.i);
    let o = Tool::new("mus").input(n % 2, &w.t).run();
    ok(&o);
    let mut e = b"mus=[".to_vec();
    let short = |p: usize| {
        // the longest substring at p that occurs elsewhere does so at one of these places
        let mut m = 1;
        for q in [0, p.wrapping_sub(1), p + 1, i + 1] {
            if q != p && q < n && w.lce(p, q) + 1 > m {
                m = w.lce(p, q) + 1;
            }
        }
        m
    };
    let mut k = 0;
    for p in 0..n {
        let l = short(p);
        if p + l <= n && (l == 1 || short(p + 1) > l - 1) {
            if k > 0 {
                e.extend_from_slice(b", ");
            }
            e.push(b'(');
            e.extend_from_slice(&dec(p));
            e.extend_from_slice(b", ");
            e.extend_from_slice(&dec(l));
            e.push(b')');
            k += 1;
        }
    }
    e.push(b']');
    let mut found = false;
    for k in 0..o.out.len() {
        if o.out.len() - k >= e.len() && o.out[k] == b'm' && same(&o.out[k..k + e.len()], &e) {
            found = true;
            break;
        }
    }
    check(found, "exactly the minimal unique substrings");
    cover("end");
    observe(k as u64);
}
