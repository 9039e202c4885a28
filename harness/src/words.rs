//! C20, C21, C24: generated words and numbers.
use crate::text::*;
use crate::vx::*;
use crate::wide::*;
use stringology::core;
use stringology::word;

const NAMES: &[&[u8]] = &[
    b"fibonacci",
    b"tribonacci",
    b"thue-morse",
    b"period-doubling",
    b"quaternary-paper-folding",
    b"paper-folding",
    b"kolakoski",
    b"power2",
    b"vtm",
    b"fibonacci-lyndon-factor",
    b"binary-de-brujin",
];
fn library(f: usize, k: u8) -> Vec<u8> {
    match f {
        0 => word::fibonacci_word(k),
        1 => word::tribonacci_word(k),
        2 => word::thuemorse_word(k),
        3 => word::period_doubling_word(k),
        4 => word::quaternary_paperfolding_word(k),
        5 => word::paperfolding_word(k),
        6 => word::kolakoski_word(k),
        7 => word::power2_sequence(k),
        8 => word::vtm_word(k),
        9 => word::fibonacci_lyndonfactor(k),
        _ => word::binary_debruijn_word(k),
    }
}
fn bit(j: usize) -> u8 {
    // letter j >= 1 of the regular paper-folding sequence
    let mut m = j;
    while m % 2 == 0 {
        m /= 2;
    }
    if m % 4 == 1 {
        b'1'
    } else {
        b'0'
    }
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
/// The words by other definitions than the ones in the library.
fn spec(f: usize, k: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    match f {
        0 => {
            let mut w = vec![b"a".to_vec(), b"ab".to_vec()];
            for i in 2..k + 1 {
                let x = cat(&[&w[i - 1], &w[i - 2]]);
                w.push(x);
            }
            v = w[k].clone();
        }
        1 => {
            let mut w = vec![b"a".to_vec(), b"ab".to_vec(), b"abac".to_vec()];
            for i in 3..k + 1 {
                let x = cat(&[&w[i - 1], &w[i - 2], &w[i - 3]]);
                w.push(x);
            }
            v = w[k].clone();
        }
        2 => {
            for i in 0..1usize << k {
                v.push(b'a' + (i.count_ones() % 2) as u8);
            }
        }
        3 => {
            for i in 0..1usize << k {
                v.push(b'a' + ((i + 1).trailing_zeros() % 2) as u8);
            }
        }
        4 => {
            for i in 0..1usize << k {
                v.push(match (bit(2 * i + 1), bit(2 * i + 2)) {
                    (b'0', b'0') => b'a',
                    (b'0', _) => b'b',
                    (_, b'0') => b'c',
                    _ => b'd',
                });
            }
        }
        5 => {
            for i in 0..2usize << k {
                v.push(bit(i + 1));
            }
        }
        6 => {
            // every generation lists the runs the one before it describes, 22 first
            v = b"bb".to_vec();
            for _ in 0..k {
                let mut x = vec![];
                for i in 0..v.len() {
                    let c = if i % 2 == 0 { b'b' } else { b'a' };
                    x.push(c);
                    if v[i] == b'b' {
                        x.push(c);
                    }
                }
                v = x;
            }
        }
        7 => {
            for i in 1..(1usize << k) + 1 {
                v.push(if i & (i - 1) == 0 { b'b' } else { b'a' });
            }
        }
        8 => {
            v = b"a".to_vec();
            for _ in 0..k {
                let mut x = vec![];
                for &c in &v {
                    x.extend_from_slice(match c {
                        b'a' => b"abc",
                        b'b' => b"ac",
                        _ => b"b",
                    });
                }
                v = x;
            }
        }
        _ => {
            v = b"ab".to_vec();
            for _ in 0..k {
                let mut x = vec![];
                for &c in &v {
                    if c == b'a' {
                        x.push(b'a');
                    }
                    x.push(b'a');
                    x.push(b'b');
                }
                v = x;
            }
        }
    }
    v
}
/// params: family order tool(0 library, 1 tool to standard output, 2 tool to a file)
pub fn c20_word() {
    let f = param(0);
    let k = nparam(1);
    let e = spec(f, k);
    let w = produce(f, k, param(2));
    check(w.len() == e.len(), "length of the word");
    check(same(&w, &e), "letters of the word");
    if f == 0 {
        check(word::fibonacci_number(k as u8) == w.len(), "length is the Fibonacci number");
    }
    if f == 1 {
        check(word::tribonacci_number(k as u8) == w.len(), "length is the Tribonacci number");
    }
    cover("end");
    observe(w.len() as u64);
    observe(w[w.len() - 1] as u64);
}
fn produce(f: usize, k: usize, way: usize) -> Vec<u8> {
    if way == 0 {
        return library(f, k as u8);
    }
    let mut c = Tool::new("word").arg(b"-k").num(k).arg(b"-n").arg(NAMES[f]);
    if way == 2 {
        c = c.arg(b"-o").arg(b"out");
    }
    let o = c.run();
    ok(&o);
    if way == 2 {
        check(o.out.is_empty(), "nothing on standard output");
        outfile("out").unwrap_or_default()
    } else {
        o.out
    }
}
/// The position is arbitrary: letter i of a word against the rule for letter i. params: family order
pub fn c20_letter() {
    let f = param(0);
    let k = param(1);
    let w = library(f, k as u8);
    check(w.len() == 1 << k, "length of the word");
    let i = unsafe_index(w.len());
    let c = pick(&w, i);
    let mut e = b'a' as u64;
    match f {
        2 => {
            let mut x = i as u64;
            x ^= x >> 16;
            x ^= x >> 8;
            x ^= x >> 4;
            x ^= x >> 2;
            x ^= x >> 1;
            e += x & 1;
        }
        3 => {
            // parity of the number of trailing zeros: lowest set bit at an odd place
            let j = i as u64 + 1;
            let low = j & j.wrapping_neg();
            e += (low & 0xaaaa_aaaa_aaaa_aaaa != 0) as u64;
        }
        _ => {
            let j = i as u64 + 1;
            e += (j & (j - 1) == 0) as u64;
        }
    }
    check(c as u64 == e, "letter at an arbitrary position");
    cover("end");
    observe(w.len() as u64);
}
fn unsafe_index(n: usize) -> usize {
    let i = sym64();
    assume(i < n as u64);
    i as usize
}
fn pick(w: &[u8], i: usize) -> u8 {
    let mut r = 0u64;
    for k in 0..w.len() {
        r = ite(i == k, w[k] as u64, r);
    }
    r as u8
}

/// params: order way
pub fn c21_debruijn() {
    let k = nparam(0);
    let w = produce(10, k, param(1));
    let n = 1usize << (k + 1);
    check(w.len() == n, "length");
    let mut seen = vec![false; n];
    let (a, b) = (w[0], *w.iter().find(|&&c| c != w[0]).unwrap_or(&w[0]));
    check(a != b, "two letters");
    for i in 0..n {
        let mut x = 0;
        for j in 0..k + 1 {
            let c = w[(i + j) % n];
            check(c == a || c == b, "two letters");
            x = 2 * x + (c == b) as usize;
        }
        check(!seen[x], "no word occurs twice");
        seen[x] = true;
    }
    cover("end");
    observe(w.len() as u64);
}
/// params: mode n q
pub fn c21_necklace() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    // prefix of a power of a Lyndon word: no suffix is smaller than the prefix of its length
    let mut e = true;
    for i in 1..n {
        e = e & !lex_lt(&t[i..], &t[..n - i]);
    }
    let r = word::is_necklace(t.as_slice(), n);
    check(r == e, "prenecklace");
    cover("end");
    observe(r as u64);
}
/// The test looks at the first n letters only. params: n m
pub fn c21_prefix() {
    let n = nparam(0);
    let t = bytes(n + param(1));
    let mut e = true;
    for i in 1..n {
        e = e & !lex_lt(&t[i..n], &t[..n - i]);
    }
    check(word::is_necklace(t.as_slice(), n) == e, "prenecklace of the prefix");
    let mut d = std::collections::VecDeque::with_capacity(8);
    d.push_back(0);
    d.pop_front();
    for &c in &t {
        d.push_back(c);
    }
    check(word::is_necklace(&d, n) == e, "prenecklace in a queue");
    cover("end");
    observe(n as u64);
}

pub fn c24_bits() {
    let v = sym64() as usize;
    let b = core::bit_size(v) as u64;
    check(b <= 64, "at most 64 digits");
    // 2^(b-1) <= v < 2^b
    let mut e = 0u64;
    for i in 0..64 {
        e = ite((v >> i) != 0, i as u64 + 1, e);
    }
    check(b == e, "number of binary digits");
    check((b == 0) == (v == 0), "zero has none");
    cover("end");
    observe(b);
}
/// Around every power of two, for code whose arithmetic is concrete only.
pub fn c24_near() {
    let k = choose(0, 64);
    let d = choose(0, 8);
    let p = if k == 64 { 0 } else { 1usize << k };
    let v = p.wrapping_add(d).wrapping_sub(4);
    let mut e = 0;
    for i in 0..64 {
        if v >> i != 0 {
            e = i + 1;
        }
    }
    check(core::bit_size(v) as usize == e, "number of binary digits");
    cover("end");
    observe(e as u64);
}
/// params: range of orders
pub fn c24_fib() {
    let k = nparam(0);
    let (mut a, mut b) = (1u128, 2u128);
    for _ in 0..k {
        let c = a + b;
        a = b;
        b = c;
    }
    if a <= usize::MAX as u128 {
        check(word::fibonacci_number(k as u8) as u128 == a, "Fibonacci number");
    }
    cover("end");
    observe(a as u64);
}
/// params: range of orders
pub fn c24_trib() {
    let k = nparam(0);
    let (mut a, mut b, mut c) = (1u128, 2u128, 4u128);
    for _ in 0..k {
        let d = a + b + c;
        a = b;
        b = c;
        c = d;
    }
    if a <= usize::MAX as u128 {
        check(word::tribonacci_number(k as u8) as u128 == a, "Tribonacci number");
    }
    cover("end");
    observe(a as u64);
}
/// The sum rule at an arbitrary order, values as functions of the order. params: highest order
pub fn c24_sums() {
    let k = choose(3, param(0)) as u8;
    check(word::fibonacci_number(k) == word::fibonacci_number(k - 1) + word::fibonacci_number(k - 2), "Fibonacci sum");
    if k <= 70 {
        check(
            word::tribonacci_number(k) == word::tribonacci_number(k - 1) + word::tribonacci_number(k - 2) + word::tribonacci_number(k - 3),
            "Tribonacci sum",
        );
    }
    cover("end");
    observe(k as u64);
}
pub fn c21_wide() {
    let w = wide(true);
    // a prenecklace is a prefix of a power of a Lyndon word
    let (n, i) = (w.n, w.i);
    let e = w.equal || if w.less { i == 0 } else { n - i - 1 <= i };
    check(stringology::word::is_necklace(w.t.as_slice(), n) == e, "prenecklace");
    cover("end");
    observe(e as u64);
}
