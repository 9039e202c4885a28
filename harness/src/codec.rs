//! C15, C16, C17: run-length encoding, move-to-front, escaping.
use crate::text::*;
use crate::vx::*;

/// Runs a filter with its input by `way` and its output by `dst` (0 standard output, 1 file).
fn filter(name: &'static str, args: &[&[u8]], way: usize, dst: usize, t: &[u8]) -> (u32, Vec<u8>) {
    let mut c = Tool::new(name).input(way, t);
    for a in args {
        c = c.arg(a);
    }
    if dst == 1 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    if dst == 1 {
        check(o.out.is_empty(), "nothing on standard output when a file is named");
        let w = outfile("out");
        if o.status == 0 {
            check(w.is_some(), "output file written");
        }
        return (o.status, w.unwrap_or_default());
    }
    (o.status, o.out)
}
/// Maximal runs, by case split.
fn runs(t: &[u8]) -> Vec<(u8, usize)> {
    let mut v: Vec<(u8, usize)> = vec![];
    for &c in t {
        let m = v.len();
        if m > 0 && v[m - 1].0 == c {
            v[m - 1].1 += 1;
        } else {
            v.push((c, 1));
        }
    }
    v
}
fn rle_check(t: &[u8], kind: usize, way: usize, dst: usize) {
    let args: &[&[u8]] = match kind {
        0 => &[],
        1 => &[b"-z"],
        2 => &[b"--human"],
        _ => &[b"--onlyzero"],
    };
    let (st, o) = filter("rle", args, way, dst, t);
    check(st == 0, "the encoder does not fail");
    let r = runs(t);
    let mut d: Vec<u8> = vec![];
    match kind {
        0 => {
            check(o.len() % 2 == 0, "pairs");
            let mut k = 0;
            for &(_, l) in &r {
                k += (l + 255) / 256;
            }
            check(o.len() / 2 == k, "one pair per run that fits");
            let mut i = 0;
            while i + 1 < o.len() {
                for _ in 0..fix(o[i + 1] as usize) + 1 {
                    d.push(o[i]);
                }
                i += 2;
            }
            check(same(&d, t), "decodes to the input");
        }
        2 => {
            for &(c, l) in &r {
                d.push(b'(');
                if c < 128 {
                    d.push(c);
                } else {
                    d.push(0xc0 | (c >> 6));
                    d.push(0x80 | (c & 0x3f));
                }
                d.push(b',');
                d.extend_from_slice(&dec(l));
                d.push(b')');
            }
            check(same(&o, &d), "character and length of each run");
        }
        _ => {
            let mut k = 0;
            for &(c, l) in &r {
                if c == b'0' {
                    k += 2 * ((l + 255) / 256);
                } else {
                    k += l;
                }
            }
            check(o.len() == k, "one pair per group of zeros that fits");
            let mut i = 0;
            while i < o.len() {
                d.push(o[i]);
                if o[i] == b'0' {
                    i += 1;
                    check(i < o.len(), "a count follows every zero");
                    if i < o.len() {
                        for _ in 0..fix(o[i] as usize) {
                            d.push(b'0');
                        }
                    }
                }
                i += 1;
            }
            check(same(&d, t), "decodes to the input");
        }
    }
    cover("end");
    observe_bytes(&o);
}
/// params: mode n q kind way dst
pub fn c15_tool() {
    let n = nparam(1);
    let t = if param(0) == 20 {
        letters(n, b"0/")
    } else {
        text(param(0), n, param(2), true)
    };
    rle_check(&t, param(3), param(4), param(5));
}
/// Runs around the sizes a byte can count. params: range letter symbols kind way
pub fn c15_runs() {
    let n = nparam(0);
    let b = param(1) as u8;
    let mut t = vec![];
    if param(2) > 1 {
        t.push(sym8());
    }
    for _ in 0..n {
        t.push(b);
    }
    if param(2) > 0 {
        t.push(sym8());
    }
    if param(2) > 2 {
        for _ in 0..choose(0, 2) {
            t.push(b);
        }
        t.push(sym8());
    }
    rle_check(&t, param(3), param(4), 0);
}

fn mtf_check(t: &[u8], way: usize, dst: usize) {
    let (st, o) = filter("mtf", &[], way, dst, t);
    check(st == 0, "no byte value makes the tool fail");
    check(o.len() == t.len(), "one byte per input byte");
    let mut l: Vec<u8> = (0..=255).collect();
    let mut d = vec![];
    for &p in &o {
        let c = l.remove(p as usize);
        l.insert(0, c);
        d.push(c);
    }
    check(same(&d, t), "decodes to the input");
    cover("end");
    observe_bytes(&o);
}
/// params: mode n q way dst
pub fn c16_tool() {
    let n = nparam(1);
    let t = if param(0) == 20 {
        letters(n, &[0, 254, 255])
    } else if param(0) == 21 {
        // a few first letters, the rest arbitrary
        let mut t = vec![[0, 1, 65, 128, 254, 255][choose(0, 5)]];
        t.extend_from_slice(&bytes(n - 1));
        t
    } else {
        text(param(0), n, param(2), true)
    };
    mtf_check(&t, param(3), param(4));
}
/// All byte values in some order, then arbitrary letters. params: kind range symbols way
pub fn c16_full() {
    let n = nparam(1);
    let mut t: Vec<u8> = vec![];
    for i in 0..n {
        t.push(match param(0) {
            0 => i as u8,
            1 => 255 - (i as u8),
            2 => (i * 77 + 5) as u8,
            _ => (i * 255) as u8,
        });
    }
    for k in 0..param(2) {
        t.insert(t.len() - 5 * k, sym8());
    }
    mtf_check(&t, param(3), 0);
}

const POOL: &[u8] = &[0, 92, 255, 44, 48, 10, 65];

fn list(v: &[u8]) -> Vec<u8> {
    let mut s = vec![];
    for i in 0..v.len() {
        if i > 0 {
            s.push(b',');
        }
        s.extend_from_slice(&dec(v[i] as usize));
    }
    s
}
/// The arguments for an escape symbol and two lists. `form`: 0 comma-separated, 1 repeated.
fn escape_args(e: u8, f: &[u8], t: &[u8], form: usize, rev: bool, p: usize) -> Vec<Vec<u8>> {
    let mut a: Vec<Vec<u8>> = vec![];
    if e != 0 || form == 0 {
        a.push(b"-e".to_vec());
        a.push(dec(e as usize));
    }
    let names: [(&[u8], &[u8], &[u8]); 2] = [(b"-f", b"--from-symbols", f), (b"-t", b"--to-symbols", t)];
    for (short, long, v) in names {
        if form == 0 {
            if !v.is_empty() {
                a.push(short.to_vec());
                a.push(list(v));
            }
        } else {
            for &x in v {
                a.push(long.to_vec());
                a.push(dec(x as usize));
            }
        }
    }
    if rev {
        a.push(b"--is-reversion".to_vec());
    }
    if p > 0 {
        a.push(b"-p".to_vec());
        a.push(dec(p));
    }
    a
}
fn escape(a: &[Vec<u8>], way: usize, dst: usize, t: &[u8]) -> (u32, Vec<u8>) {
    let mut v: Vec<&[u8]> = vec![];
    for x in a {
        v.push(x);
    }
    filter("escape", &v, way, dst, t)
}
fn pick(used: &mut Vec<u8>, m: usize) -> Option<u8> {
    let k = choose(0, m - 1);
    let c = POOL[k];
    if used.contains(&c) {
        return None;
    }
    used.push(c);
    Some(c)
}
fn escape_check(t: &[u8], e: u8, f: &[u8], to: &[u8], form: usize, way: usize, dst: usize, p: usize) {
    let (st, o) = escape(&escape_args(e, f, to, form, false, p), way, dst, t);
    check(st == 0, "accepted");
    let k = if p > 0 && p < t.len() { p } else { t.len() };
    let mut x: Vec<u8> = vec![];
    for &c in &t[..k] {
        let mut r: Option<u8> = None;
        if c == e {
            r = Some(e);
        }
        for i in 0..f.len() {
            if c == f[i] {
                r = Some(to[i]);
            }
        }
        match r {
            Some(y) => {
                x.push(e);
                x.push(y);
            }
            None => x.push(c),
        }
    }
    let mut none = true;
    for &c in &o {
        for &y in f {
            none = none & (c != y);
        }
    }
    check(none, "no from-byte in the output");
    check(same(&o, &x), "only the bytes that need it are escaped");
    let (st, b) = escape(&escape_args(e, f, to, 1 - form, true, 0), 1 - way, 1 - dst, &o);
    check(st == 0, "unescaping accepts the escaped text");
    check(same(&b, &t[..k]), "unescaping restores the input");
    cover("end");
    observe_bytes(&o);
}
/// params: mode n q pairs pool form way dst prefix(0 none, 1 chosen)
pub fn c17_tool() {
    let n = nparam(1);
    let mut used = vec![];
    let (mut e, mut f, mut to) = (0, vec![], vec![]);
    for k in 0..1 + 2 * param(3) {
        match pick(&mut used, param(4)) {
            None => return,
            Some(c) => {
                if k == 0 {
                    e = c
                } else if k % 2 == 1 {
                    f.push(c)
                } else {
                    to.push(c)
                }
            }
        }
    }
    let t = text(param(0), n, param(2), true);
    let p = if param(8) == 1 { choose(1, n + 2) } else { 0 };
    escape_check(&t, e, &f, &to, param(5), param(6), param(7), p);
}
/// Every escape byte, from-byte and to-byte (chosen apart from each other). params: n which form stride
pub fn c17_any() {
    let n = nparam(0);
    let c = (choose(0, 255 / param(3)) * param(3)) as u8;
    let (a, b) = (c.wrapping_add(1), c.wrapping_add(100));
    let t = bytes(n);
    match param(1) {
        0 => escape_check(&t, c, &[a], &[b], param(2), 0, 0, 0),
        1 => escape_check(&t, a, &[c], &[b], param(2), 0, 0, 0),
        _ => escape_check(&t, a, &[b], &[c], param(2), 0, 0, 0),
    }
}
/// Many pairs. params: pairs n form
pub fn c17_many() {
    let m = param(0);
    let t = bytes(param(1));
    let mut f = vec![];
    let mut to = vec![];
    for i in 0..m {
        f.push((i * 7 + 3) as u8);
        to.push((i * 7 + 4) as u8);
    }
    escape_check(&t, 2, &f, &to, param(2), 1, 0, 0);
}
/// Lists that cannot be told apart again are refused. params: lf lt pool form
pub fn c17_reject() {
    let m = param(2);
    let e = POOL[choose(0, m - 1)];
    let mut f = vec![];
    let mut to = vec![];
    for _ in 0..param(0) {
        f.push(POOL[choose(0, m - 1)]);
    }
    for _ in 0..param(1) {
        to.push(POOL[choose(0, m - 1)]);
    }
    let mut all = f.clone();
    all.extend_from_slice(&to);
    all.push(e);
    let mut bad = f.len() != to.len();
    for i in 0..all.len() {
        bad |= all[..i].contains(&all[i]);
    }
    let t = [e, 65, 1];
    let rev = sym1();
    if bad {
        let (st, o) = escape(&escape_args(e, &f, &to, param(3), rev, 0), 0, 0, &t);
        check(st != 0, "ambiguous lists are refused");
        check(o.is_empty(), "nothing is written for refused lists");
        observe(st as u64);
    }
    cover("end");
}
