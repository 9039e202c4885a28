//! C22, C23, C25: generators that list words, and random strings.
use crate::text::*;
use crate::vx::*;
use stringology::core;

/// Lyndon by definition: smaller than every proper suffix.
fn lyndon(w: &[u8]) -> bool {
    let mut r = true;
    for i in 1..w.len() {
        r = r & lex_lt(w, &w[i..]);
    }
    r
}
/// A word of length 1..=n with letters in lo..lo+s.
fn word(n: usize, lo: u8, s: usize) -> Vec<u8> {
    let l = choose(1, n);
    let w = bytes(l);
    for &c in &w {
        assume(c >= lo && ((c - lo) as usize) < s);
    }
    w
}
/// Listed; where the list increases strictly, this is: listed once.
fn has(all: &[Vec<u8>], w: &[u8]) -> bool {
    let mut k = false;
    for x in all {
        if x.len() == w.len() {
            k = k | same(x, w);
        }
    }
    k
}
fn increasing(all: &[Vec<u8>]) -> bool {
    let mut r = true;
    for i in 1..all.len() {
        r = r & (all[i - 1] < all[i]);
    }
    r
}
fn lines(out: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for &c in out {
        if c == b'\n' {
            v.push(cur);
            cur = vec![];
        } else {
            cur.push(c);
        }
    }
    check(cur.is_empty(), "every line is ended");
    v
}
fn lyndon_lists(all: &[Vec<u8>], n: usize, lo: u8, s: usize) {
    for w in all {
        check(!w.is_empty() && w.len() <= n, "length in range");
        for &c in w {
            check(c >= lo && ((c - lo) as usize) < s, "letter in the alphabet");
        }
    }
    check(increasing(all), "in lexicographic order");
    if n > 0 {
        let w = word(n, lo, s);
        check(has(all, &w) == lyndon(&w), "exactly the Lyndon words, each once");
    }
    cover("end");
    observe(all.len() as u64);
}
/// params: length bounds, alphabet sizes
pub fn c22_lib() {
    let (n, s) = (nparam(0), nparam(1));
    let mut g = core::LyndonWordGenerator::new(n, s);
    let mut all = vec![];
    while let Some(w) = g.next() {
        all.push(w);
        check(all.len() < 20000, "ends");
    }
    for _ in 0..3 {
        check(g.next().is_none(), "stays ended");
    }
    lyndon_lists(&all, n, 0, s);
}
/// params: length bounds, alphabet sizes, destination
pub fn c22_tool() {
    let (n, s, dst) = (nparam(0), nparam(1), param(2));
    let mut t = Tool::new("lyndonwords").arg(b"-l").num(n).arg(b"-s").num(s);
    if dst == 1 {
        t = t.arg(b"-o").arg(b"out");
    }
    let o = t.run();
    ok(&o);
    let out = if dst == 1 {
        check(o.out.is_empty(), "nothing on standard output");
        outfile("out").unwrap_or_default()
    } else {
        o.out
    };
    lyndon_lists(&lines(&out), n, b'a', s);
}

fn strings(out: &[u8], s: usize, lo: usize, hi: usize) {
    let all = lines(out);
    let mut r = true;
    for w in &all {
        check(w.len() >= lo && w.len() <= hi, "length in range");
        for &c in w {
            r = r & (c >= b'a' && ((c - b'a') as usize) < s);
        }
    }
    check(r, "letter in the alphabet");
    for i in 1..all.len() {
        let (a, b) = (&all[i - 1], &all[i]);
        r = r & (a.len() < b.len() || (a.len() == b.len() && a < b));
    }
    check(r, "by length, then lexicographically");
    // any string of a length in range is printed
    let l = choose(lo, hi);
    let w = bytes(l);
    for &c in &w {
        assume(c >= b'a' && ((c - b'a') as usize) < s);
    }
    check(has(&all, &w), "every string once");
    cover("valid");
    observe(all.len() as u64);
}
/// params: alphabet sizes, smallest lengths, largest lengths (or 0: not given)
pub fn c23_tool() {
    let (s, lo, hi) = (nparam(0), nparam(1), nparam(2));
    let mut t = Tool::new("enumerate").num(s).num(lo);
    if hi > 0 {
        t = t.num(hi);
    }
    let o = t.run();
    let hi = if hi == 0 { lo } else { hi };
    if s >= 1 && s <= 26 && lo >= 1 && hi >= lo {
        ok(&o);
        strings(&o.out, s, lo, hi);
    } else {
        check(o.status != 0, "invalid arguments are rejected");
        check(o.out.is_empty(), "no strings");
        cover("invalid");
        observe(o.status as u64);
    }
}
/// A decimal number, the only other accepted form being a leading plus sign.
fn number(a: &[u8]) -> Option<usize> {
    if !a.is_empty() && a[0] == b'+' {
        parse(&a[1..])
    } else {
        parse(a)
    }
}
/// Arguments of arbitrary bytes. params: which argument is arbitrary, its length, letters:
/// 0 any, 1 the last one any, 2 few
pub fn c23_args() {
    let (k, n) = (param(0), param(1));
    let mut x = match (param(2), n) {
        (0, _) => bytes(n),
        (_, 2) => letters(n, b"01267+ ax\xff"),
        _ => letters(n, b"02+"),
    };
    if param(2) == 1 {
        x[n - 1] = sym8();
    }
    for &c in &x {
        // not an argument that contains the end of the string, or an option
        assume(c != 0);
    }
    if n > 0 {
        assume(x[0] != b'-');
    }
    let mut v = [Some(3), Some(1), Some(if k == 0 { 1 } else { 2 })];
    let d = v;
    v[k] = number(&x);
    let valid = match (v[0], v[1], v[2]) {
        (Some(s), Some(lo), Some(hi)) => {
            let r = s >= 1 && s <= 26 && lo >= 1 && hi >= lo;
            // longer strings than can be listed here are not run
            assume(!r || hi < 4);
            r
        }
        _ => false,
    };
    let mut t = Tool::new("enumerate");
    for i in 0..3 {
        if i == k {
            t = t.arg(&x);
        } else {
            t = t.num(d[i].unwrap());
        }
    }
    let o = t.run();
    if valid {
        ok(&o);
        strings(&o.out, fix(v[0].unwrap()), fix(v[1].unwrap()), fix(v[2].unwrap()));
    } else {
        check(o.status != 0, "invalid arguments are rejected");
        check(o.out.is_empty(), "no strings");
        cover("invalid");
        observe(o.status as u64);
    }
}
/// A number that does not fit a machine word
pub fn c23_big() {
    let d = letters(1, b"0123456789")[0];
    let mut x = b"1844674407370955161".to_vec();
    for _ in 0..choose(1, 3) {
        x.push(d);
    }
    let o = Tool::new("enumerate").arg(&x).num(1).run();
    check(o.status != 0, "invalid arguments are rejected");
    check(o.out.is_empty(), "no strings");
    cover("invalid");
    observe(o.status as u64);
}
/// Too few or too many arguments. params: number of arguments
pub fn c23_arity() {
    let n = nparam(0);
    let mut t = Tool::new("enumerate");
    for _ in 0..n {
        t = t.num(2);
    }
    let o = t.run();
    if n == 2 || n == 3 {
        ok(&o);
        strings(&o.out, 2, 2, 2);
    } else {
        check(o.status != 0, "invalid arguments are rejected");
        check(o.out.is_empty(), "no strings");
        cover("invalid");
        observe(o.status as u64);
    }
}
/// params: lengths, how many are looked at (0: all)
pub fn c23_binary() {
    let (n, m) = (nparam(0), param(1));
    let mut g = core::BinaryStringGenerator::new(n as u8);
    let mut all = vec![];
    while let Some(w) = g.next() {
        check(w.len() == n, "length");
        all.push(w);
        if m > 0 && all.len() == m {
            break;
        }
        check(all.len() <= 2048, "ends");
    }
    if m == 0 {
        for _ in 0..3 {
            check(g.next().is_none(), "stays ended");
        }
        check(all.len() == 1 << n, "2^n strings");
    }
    for i in 0..all.len() {
        // the i-th string is i in binary
        for j in 0..n {
            let d = n - 1 - j;
            let b = if d < 60 { (i >> d) & 1 } else { 0 };
            check(all[i][j] == b'0' + b as u8, "in lexicographic order");
        }
    }
    let w = letters(n, b"01");
    let mut top = true;
    let k = (usize::BITS - all.len().leading_zeros() - 1) as usize;
    for i in 0..n {
        if n - i > k {
            top = top & (w[i] == b'0');
        }
    }
    if all.len() == 1 << k {
        check(has(&all, &w) == top, "every string once");
    }
    cover("end");
    observe(all.len() as u64);
}

/// params: alphabet size, length (1000 or more: option left out), destination, number of draws, number of arbitrary ones
pub fn c25_tool() {
    let (a, p, dst, d) = (nparam(0), param(1), param(2), param(3));
    let mut t = Tool::new("randomstring").draws(d, param(4)).arg(b"-a").num(a);
    let n = if p >= 1000 { 10 } else { p };
    if p < 1000 {
        t = t.arg(b"-p").num(p);
    }
    if dst == 1 {
        t = t.arg(b"-o").arg(b"out");
    }
    let o = t.run();
    ok(&o);
    let out = if dst == 1 {
        check(o.out.is_empty(), "nothing on standard output");
        outfile("out").unwrap_or_default()
    } else {
        o.out
    };
    check(out.len() == n, "requested number of bytes");
    let mut r = true;
    let mut distinct = 0u64;
    for i in 0..out.len() {
        let c = out[i];
        r = r & ((c >= b'0') & (c <= b'9') | (c >= b'A') & (c <= b'Z') | (c >= b'a') & (c <= b'z'));
        let mut new = true;
        for j in 0..i {
            new = new & (out[j] != c);
        }
        distinct += new as u64;
    }
    check(r, "letters and digits");
    check(a == 0 || distinct <= a as u64, "at most the requested number of distinct characters");
    cover("end");
    observe_bytes(&out);
}
/// The text source of the library. params: bits, largest exponent of the start
pub fn c33_text() {
    let b = param(0);
    let s = sym64() as usize;
    let e = sym64() as usize;
    assume(s < 1 << param(1));
    let mut g = stringology::core::RandomStringGenerator::new(s..e, b as u8);
    let mut h = stringology::core::RandomStringGenerator::new(s..e, b as u8);
    match g.next() {
        Some(t) => {
            source(&t, b);
            check(s < e, "nothing comes from an empty range");
            let u = h.next();
            check(u.is_some() && same(&u.unwrap(), &t), "the same text again");
            cover("text");
            observe_bytes(&t);
        }
        None => {
            check(h.next().is_none(), "no text again");
            check(g.next().is_none() && g.next().is_none(), "it stays ended");
            cover("end");
        }
    }
}
fn source(t: &[u8], b: usize) {
    check(!t.is_empty(), "the text has a letter");
    if t.is_empty() {
        return;
    }
    check(t[t.len() - 1] == 0, "the last letter is the zero byte");
    let mut fine = true;
    for &c in &t[..t.len() - 1] {
        fine = fine & (c >= 1) & (c as usize <= 1 << b);
    }
    check(fine, "the other letters are from 1 to the alphabet size");
}
/// params: bits, start, end of the range
pub fn c33_ends() {
    let (b, s, e) = (param(0), param(1), nparam(2));
    let mut g = stringology::core::RandomStringGenerator::new(s..e, b as u8);
    let mut n = 0;
    while let Some(t) = g.next() {
        source(&t, b);
        n += 1;
        check(n <= e, "there are finitely many");
        if n > e {
            return;
        }
    }
    check(g.next().is_none() && g.next().is_none(), "it stays ended");
    cover("end");
    observe(n as u64);
}
