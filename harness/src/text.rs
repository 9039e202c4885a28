//! Families of symbolic texts and the definitions the properties are stated with.
use crate::vx::*;

/// Text family chosen by `mode`; `n` length, `q` number of fully symbolic letters in the long
/// families, `zero` whether the letter 0 may occur, `shift` moves the symbolic positions.
pub fn text(mode: usize, n: usize, q: usize, zero: bool) -> Vec<u8> {
    text_at(mode, n, q, zero, 0)
}
fn any(zero: bool) -> u8 {
    let c = sym8();
    if !zero {
        assume(c != 0);
    }
    c
}
/// fixed letters of the long families
pub fn base_letter(mode: usize, i: usize, n: usize) -> u8 {
    match mode {
        5 => {
            let x = (i as u32).wrapping_mul(2654435761) ^ ((i as u32) << 7);
            b'a' + ((x >> 24) & 3) as u8
        }
        6 => b'a',
        7 => ((i * 167 + 1) % 255) as u8 + 1,
        8 => {
            // Fibonacci word over a, b: floor differences of the golden rotation
            let f = |k: usize| (k * 618033989) / 1000000000;
            if f(i + 2) - f(i + 1) == 1 {
                b'a'
            } else {
                b'b'
            }
        }
        9 => {
            // increasing ramp with a repeat of the first half
            let h = (n / 2).max(1);
            ((i % h) % 250) as u8 + 3
        }
        10 => 255 - ((i / 2) % 250) as u8,
        _ => b'a',
    }
}
pub fn text_at(mode: usize, n: usize, q: usize, zero: bool, shift: usize) -> Vec<u8> {
    match mode {
        0 => {
            if zero {
                bytes(n)
            } else {
                bytes1(n)
            }
        }
        1 => letters(n, b"ab"),
        2 => letters(n, b"abc"),
        3 => {
            if zero {
                letters(n, &[0, 1, 127, 128, 255])
            } else {
                letters(n, &[1, 127, 128, 255])
            }
        }
        4 => {
            // periodic with a symbolic period word
            let mut w = vec![];
            for _ in 0..q {
                w.push(any(zero));
            }
            let mut t = Vec::with_capacity(n);
            for i in 0..n {
                t.push(w[i % q]);
            }
            t
        }
        11 => {
            // periodic with a symbolic period word and a symbolic letter at the end
            let mut t = text_at(4, n, q, zero, shift);
            if n > 0 {
                t[n - 1] = any(zero);
            }
            t
        }
        12 => {
            // periodic with a symbolic period word and a symbolic letter in the middle
            let mut t = text_at(4, n, q, zero, shift);
            if n > 0 {
                t[n / 2] = any(zero);
            }
            t
        }
        13 => letters(n, &[0xfe, 0xff]),
        14 | 15 => {
            // q arbitrary letters at arbitrary positions of a fixed text
            let mut t = text_at(if mode == 14 { 6 } else { 5 }, n, 0, zero, shift);
            for _ in 0..q {
                let p = choose(0, n - 1);
                t[p] = any(zero);
            }
            t
        }
        _ => {
            let mut t = Vec::with_capacity(n);
            for i in 0..n {
                t.push(base_letter(mode, i, n));
            }
            for j in 0..q {
                if n > 0 {
                    let p = ((n * (2 * j + 1)) / (2 * q) + shift) % n;
                    t[p] = any(zero);
                }
            }
            t
        }
    }
}

// ------------------------------------------------------------------ definitions, as formulas

/// a < b lexicographically, without branching on the letters.
pub fn lex_lt(a: &[u8], b: &[u8]) -> bool {
    let m = if a.len() < b.len() { a.len() } else { b.len() };
    let mut r = a.len() < b.len();
    let mut i = m;
    while i > 0 {
        i -= 1;
        r = (a[i] < b[i]) | ((a[i] == b[i]) & r);
    }
    r
}
/// a[i..i+l] == a[j..j+l] as a formula
pub fn same_at(t: &[u8], i: usize, j: usize, l: usize) -> bool {
    let mut r = true;
    for k in 0..l {
        r = r & (t[i + k] == t[j + k]);
    }
    r
}
/// A word is Lyndon iff it is smaller than each of its proper suffixes.
pub fn is_lyndon(w: &[u8]) -> bool {
    let mut r = true;
    for i in 1..w.len() {
        r = r & lex_lt(w, &w[i..]);
    }
    r
}
pub fn rotated(t: &[u8], r: usize) -> Vec<u8> {
    let n = t.len();
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(t[(r + i) % n]);
    }
    v
}

// ------------------------------------------------------------------ definitions, by case split

/// Order of two rotations (branching).
fn rot_less(t: &[u8], a: usize, b: usize) -> bool {
    let n = t.len();
    for k in 0..n {
        let x = t[(a + k) % n];
        let y = t[(b + k) % n];
        if x != y {
            return x < y;
        }
    }
    false
}
/// Last column of the sorted rotations.
pub fn bwt_spec(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    let mut ord: Vec<usize> = vec![];
    for i in 0..n {
        let mut lo = 0;
        let mut hi = ord.len();
        while lo < hi {
            let m = (lo + hi) / 2;
            if rot_less(t, i, ord[m]) {
                hi = m;
            } else {
                lo = m + 1;
            }
        }
        ord.insert(lo, i);
    }
    let mut v = vec![];
    for &i in &ord {
        v.push(t[(i + n - 1) % n]);
    }
    v
}
/// Suffix order (branching): a before b?
pub fn suf_less(t: &[u8], a: usize, b: usize) -> bool {
    let n = t.len();
    let mut k = 0;
    while a + k < n && b + k < n {
        let x = t[a + k];
        let y = t[b + k];
        if x != y {
            return x < y;
        }
        k += 1;
    }
    a > b
}
pub fn sa_spec(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let mut ord: Vec<usize> = vec![];
    for i in (0..n).rev() {
        let mut lo = 0;
        let mut hi = ord.len();
        while lo < hi {
            let m = (lo + hi) / 2;
            if suf_less(t, i, ord[m]) {
                hi = m;
            } else {
                lo = m + 1;
            }
        }
        ord.insert(lo, i);
    }
    ord
}
/// Standard BWT inversion of a transform that contains exactly one zero byte (the terminator).
pub fn bwt_invert(l: &[u8]) -> Vec<u8> {
    let n = l.len();
    // stable order of the letters = first column
    let mut ord: Vec<usize> = vec![];
    for i in 0..n {
        let mut p = ord.len();
        while p > 0 && l[i] < l[ord[p - 1]] {
            p -= 1;
        }
        ord.insert(p, i);
    }
    // row 0 starts with the terminator; following ord yields the text forwards
    let mut v = vec![];
    let mut r = ord[0];
    for _ in 0..n - 1 {
        r = ord[r];
        v.push(l[r]);
    }
    v
}

/// Parses "(a,b)(c,d)..." without assuming which digits occur.
pub fn pairs(s: &[u8]) -> Option<Vec<(usize, usize)>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'(' {
            return None;
        }
        let mut x = [0usize; 2];
        for k in 0..2 {
            i += 1;
            let a = i;
            let stop = if k == 0 { b',' } else { b')' };
            while i < s.len() && s[i] != stop {
                let d = s[i].wrapping_sub(b'0');
                if d > 9 {
                    return None;
                }
                x[k] = x[k] * 10 + d as usize;
                i += 1;
            }
            if i == s.len() || i == a || i - a > 9 {
                return None;
            }
        }
        i += 1;
        v.push((x[0], x[1]));
    }
    Some(v)
}
