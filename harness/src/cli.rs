//! C30, C31, C32: tools in a chain, command lines, result lines.
use crate::text::*;
use crate::vx::*;

fn runs(t: &[u8]) -> usize {
    let mut r = 0;
    for i in 0..t.len() {
        if i == 0 || t[i] != t[i - 1] {
            r += 1;
        }
    }
    r
}
const ZERO: &[&[u8]] = &[b"-f", b"0", b"-t", b"255", b"-e", b"254"];
fn with(mut c: Tool, a: &[&[u8]]) -> Tool {
    for x in a {
        c = c.arg(x);
    }
    c
}
/// escape | bwt, and back. params: mode n q way
pub fn c30_escape() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), true);
    let e = with(Tool::new("escape").input(param(3), &t), ZERO).run();
    ok(&e);
    let mut zero = false;
    for &c in &e.out {
        zero = zero | (c == 0);
    }
    check(!zero, "no zero byte is left");
    check(e.out.len() <= 2 * n, "at most twice as long");
    let b = Tool::new("bwt").input(0, &e.out).run();
    ok(&b);
    let r = Tool::new("count_r").input(0, &e.out).run();
    ok(&r);
    let u = Tool::new("count_runs").input(0, &b.out).run();
    ok(&u);
    check(num_field(&r.out, "bwt_runs") == Some(runs(&b.out)), "count_r counts the runs of what bwt writes");
    let mut d = dec(runs(&b.out));
    d.push(b'\n');
    check(same(&u.out, &d), "so does count_runs");
    check(b.out.len() == e.out.len() + 1, "one byte is added");
    let i = bwt_invert(&b.out);
    check(i.len() == e.out.len(), "the inverse is as long as the escaped input");
    let o = with(Tool::new("escape").input(0, &i), ZERO).arg(b"--is-reversion").run();
    ok(&o);
    check(same(&o.out, &t), "the way back gives the input");
    cover("end");
    observe_bytes(&b.out);
}
/// count_r against bwt and count_runs. params: mode n q variant way
pub fn c30_runs() {
    let n = nparam(1);
    let v = param(3);
    // the fast matrix transform is for texts without zero
    let t = text(param(0), n, param(2), v == 3 && n < 100);
    let a: &[&[u8]] = match v {
        0 => &[],
        1 => &[b"-u"],
        2 => &[b"-n"],
        _ => &[b"-u", b"-n"],
    };
    let b = with(Tool::new("bwt").input(param(4), &t), a).run();
    ok(&b);
    let r = with(Tool::new("count_r").input(param(4), &t), a).run();
    ok(&r);
    let u = Tool::new("count_runs").input(0, &b.out).run();
    ok(&u);
    let k = num_field(&r.out, "bwt_runs");
    check(k.is_some(), "a number of runs");
    let mut d = dec(k.unwrap_or(0));
    d.push(b'\n');
    check(same(&u.out, &d), "count_runs of what bwt writes is what count_r reports");
    check(num_field(&r.out, "length") == Some(b.out.len()), "and the length is that of the transform");
    cover("end");
    observe_bytes(&u.out);
}
/// reverse, bwt and count_sigma, count_runs. params: mode n q way
pub fn c30_reverse() {
    let n = nparam(1);
    let t = text(param(0), n, param(2), false);
    let r = Tool::new("reverse").input(param(3), &t).run();
    ok(&r);
    let s = Tool::new("count_sigma").input(0, &t).run();
    ok(&s);
    let k = num_field(&s.out, "sigma");
    check(k.is_some(), "a number of letters");
    let s = Tool::new("count_sigma").input(0, &r.out).run();
    ok(&s);
    check(num_field(&s.out, "sigma") == k, "the reverse has the same letters");
    let u = Tool::new("count_runs").input(0, &t).run();
    let v = Tool::new("count_runs").input(0, &r.out).run();
    ok(&u);
    ok(&v);
    check(same(&u.out, &v.out), "and as many runs");
    let b = Tool::new("bwt").input(0, &t).run();
    ok(&b);
    let s = Tool::new("count_sigma").input(0, &b.out).run();
    ok(&s);
    check(num_field(&s.out, "sigma") == k.map(|k| k + 1), "the transform has the terminator besides");
    let q = Tool::new("reverse").input(0, &r.out).run();
    ok(&q);
    check(same(&q.out, &t), "reversing twice gives the input");
    cover("end");
    observe_bytes(&r.out);
}

// ------------------------------------------------------------------ command lines

struct Num {
    tool: &'static str,
    pre: &'static [&'static [u8]],
    /// short and long spelling
    opt: &'static [u8],
    long: &'static [u8],
    /// largest value of the type, values that may be run
    max: usize,
    lo: usize,
    hi: usize,
    input: bool,
    out: bool,
}
const fn num(tool: &'static str, pre: &'static [&'static [u8]], opt: &'static [u8], long: &'static [u8], max: usize, lo: usize, hi: usize, input: bool, out: bool) -> Num {
    Num { tool, pre, opt, long, max, lo, hi, input, out }
}
const BIG: usize = usize::MAX;
const P: &[u8] = b"-p";
const PL: &[u8] = b"--prefixlength=";
const NUMS: &[Num] = &[
    num("bwt", &[], P, PL, BIG, 0, BIG, true, true),
    num("count_lexparse", &[], P, PL, BIG, 0, BIG, true, false),
    num("count_r", &[], P, PL, BIG, 0, BIG, true, false),
    num("count_sigma", &[], P, PL, BIG, 0, BIG, true, false),
    num("count_z", &[], P, PL, BIG, 0, BIG, true, false),
    num("entropy", &[], P, PL, BIG, 0, BIG, true, false),
    num("entropy", &[], b"-o", b"--order=", BIG, 0, BIG, true, false),
    num("entropy_kmer", &[], b"-o", b"--order=", BIG, 1, 7, true, false),
    num("escape", &[b"-e", b"98", b"-f", b"97", b"-t", b"1"], P, PL, BIG, 0, BIG, true, false),
    num("escape", &[b"-f", b"97", b"-t", b"1"], b"-e", b"--escape-symbol=", 255, 0, 255, true, false),
    num("escape", &[b"-e", b"98", b"-t", b"1"], b"-f", b"--from-symbols=", 255, 0, 255, true, false),
    num("escape", &[b"-e", b"98", b"-f", b"97"], b"-t", b"--to-symbols=", 255, 0, 255, true, false),
    num("is_stringattractor", &[], b"-a", b"--attractor=", BIG, 0, BIG, true, false),
    num("lyndonfactorization", &[], P, PL, BIG, 0, BIG, true, false),
    num("mus", &[], P, PL, BIG, 0, BIG, true, false),
    num("reverse", &[], P, PL, BIG, 0, BIG, true, true),
    num("word", &[b"-n", b"fibonacci"], b"-k", b"", 255, 0, 9, false, true),
    num("lyndonwords", &[b"-s", b"2"], b"-l", b"", BIG, 0, 3, false, true),
    num("lyndonwords", &[b"-l", b"2"], b"-s", b"", BIG, 1, 4, false, true),
    num("randomstring", &[b"-p", b"0"], b"-a", b"--alphabet-size=", BIG, 0, BIG, false, true),
    num("entropy_kmer", &[b"-o", b"1"], P, PL, BIG, 0, BIG, true, false),
];
fn number(a: &[u8]) -> Option<usize> {
    let a = if !a.is_empty() && a[0] == b'+' { &a[1..] } else { a };
    if a.is_empty() {
        return None;
    }
    let mut v = 0usize;
    for &c in a {
        if c < b'0' || c > b'9' {
            return None;
        }
        v = v.checked_mul(10)?.checked_add((c - b'0') as usize)?;
    }
    Some(v)
}
/// Takes the value of the time out of a result line.
fn plain(o: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    let k = b"time_ms=";
    while i < o.len() {
        v.push(o[i]);
        i += 1;
        if v.len() >= k.len() && &v[v.len() - k.len()..] == k {
            while i < o.len() && o[i] != b' ' && o[i] != b'\n' {
                i += 1;
            }
        }
    }
    v
}
const OLD: &[u8] = b"old";
fn refused(status: u32, out: &[u8], file: bool) {
    check(status != 0, "the command line is refused");
    check(out.is_empty(), "nothing is written to standard output");
    if file {
        let f = outfile("out");
        check(f.is_some() && same(f.as_deref().unwrap_or(&[]), OLD), "the output file is left alone");
    }
    cover("refused");
    observe(status as u64);
}
/// A number option with a value of arbitrary bytes. params: option, length of the value, spelling (0 apart, 1 attached,
/// 2 long), letters (0 any, 1 few, 2.. few after digits at the end of a range)
pub fn c31_number() {
    let k = &NUMS[param(0)];
    let n = param(1);
    let x = match param(3) {
        0 => bytes(n),
        1 => letters(n, b"0257+- ax\xff"),
        2 => [&b"25"[..], &letters(n, b"0123456789")].concat(),
        3 => [&b"4294967"[..], &letters(n, b"0123456789")].concat(),
        4 => [&b"1844674407370955161"[..], &letters(n, b"0123456789a")].concat(),
        5 => [&b"0000000000000000000000000"[..], &letters(n, b"0123456789x-")].concat(),
        _ => [&b"3402823669209384634633746074317682114"[..], &letters(n, b"0123456789")].concat(),
    };
    for &c in &x {
        assume(c != 0);
    }
    if n > 0 && param(3) < 2 {
        // another option, another spelling of the same, or a list
        assume(param(2) != 0 || x[0] != b'-');
        assume(param(2) != 1 || x[0] != b'=');
        for &c in &x {
            assume(c != b',');
        }
        // a signed zero may be taken for the number it is
        let mut zero = true;
        for &c in &x[1..] {
            zero = zero & (c == b'0');
        }
        assume(!(x[0] == b'-') | !zero | (n == 1));
    }
    let t = letters(3, b"ab");
    let run = |x: &[u8], how: usize| {
        let mut c = Tool::new(k.tool);
        if k.input {
            c = c.input(0, &t);
        }
        if k.out {
            c = c.file("out", OLD).arg(b"-o").arg(b"out");
        }
        c = with(c, k.pre);
        match how {
            0 => c.arg(k.opt).arg(x),
            1 => c.arg(&[k.opt, x].concat()),
            _ => c.arg(&[k.long, x].concat()),
        }
        .run()
    };
    match number(&x) {
        Some(v) if v <= k.max => {
            assume(v <= k.hi || k.tool == "entropy_kmer");
            // no letter is not an alphabet
            assume(v >= k.lo || k.tool == "entropy_kmer");
            let v = fix(v);
            let a = run(&x, param(2));
            let f = if k.out { outfile("out") } else { None };
            let b = run(&dec(v), 0);
            let g = if k.out { outfile("out") } else { None };
            check(a.status == b.status, "a number is taken at its value");
            if a.status == 0 {
                check(same(&plain(&a.out), &plain(&b.out)), "same result");
                check(!k.out || f.is_some() && g.is_some() && same(f.as_deref().unwrap_or(&[]), g.as_deref().unwrap_or(&[])), "same file");
            }
            if k.tool == "entropy_kmer" && k.opt == b"-o" {
                check((a.status == 0) == (v >= k.lo && v <= k.hi), "orders from 1 to 7 are taken");
            } else if !matches!(k.tool, "escape" | "is_stringattractor") {
                check(a.status == 0, "the number is accepted");
            }
            cover("taken");
            observe(a.status as u64);
        }
        _ => {
            let a = run(&x, param(2));
            refused(a.status, &a.out, k.out);
        }
    }
}

struct Spell {
    tool: &'static str,
    short: &'static [&'static [u8]],
    long: &'static [&'static [u8]],
    equal: &'static [&'static [u8]],
}
const IN: &[u8] = b"--infilename=in";
const OUT: &[u8] = b"--outfilename=out";
const P2: &[u8] = b"--prefixlength=2";
const SPELLS: &[Spell] = &[
    Spell { tool: "bwt", short: &[b"-i", b"in", b"-o", b"out", b"-p", b"2", b"-u", b"-n"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--prefixlength", b"2", b"--use-matrix", b"--no-dollar"], equal: &[b"-un", IN, OUT, P2] },
    Spell { tool: "count_lexparse", short: &[b"-i", b"in", b"-o", b"out", b"-p", b"2"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--prefixlength", b"2"], equal: &[IN, OUT, P2] },
    Spell { tool: "count_r", short: &[b"-i", b"in", b"-p", b"2", b"-u", b"-n"], long: &[b"--infilename", b"in", b"--prefixlength", b"2", b"--use-matrix", b"--no-dollar"], equal: &[b"-nu", IN, P2] },
    Spell { tool: "count_sigma", short: &[b"-i", b"in", b"-p", b"2"], long: &[b"--infilename", b"in", b"--prefixlength", b"2"], equal: &[IN, P2] },
    Spell { tool: "count_z", short: &[b"-i", b"in", b"-o", b"out", b"-p", b"2"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--prefixlength", b"2"], equal: &[IN, OUT, P2] },
    Spell { tool: "entropy", short: &[b"-i", b"in", b"-p", b"2", b"-o", b"1"], long: &[b"--infilename", b"in", b"--prefixlength", b"2", b"--order", b"1"], equal: &[IN, P2, b"--order=1"] },
    Spell { tool: "entropy_kmer", short: &[b"-i", b"in", b"-p", b"2", b"-o", b"1"], long: &[b"--infilename", b"in", b"--prefixlength", b"2", b"--order", b"1"], equal: &[IN, P2, b"--order=1"] },
    Spell { tool: "escape", short: &[b"-i", b"in", b"-o", b"out", b"-p", b"2", b"-e", b"98", b"-f", b"97", b"-t", b"1"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--prefixlength", b"2", b"--escape-symbol", b"98", b"--from-symbols", b"97", b"--to-symbols", b"1"], equal: &[IN, OUT, P2, b"--escape-symbol=98", b"--from-symbols=97", b"--to-symbols=1"] },
    Spell { tool: "is_stringattractor", short: &[b"-i", b"in", b"-p", b"2", b"-a", b"1", b"0"], long: &[b"--infilename", b"in", b"--prefixlength", b"2", b"--attractor", b"1", b"0"], equal: &[b"-a0", b"-a1", IN, P2] },
    Spell { tool: "lyndonfactorization", short: &[b"-i", b"in", b"-o", b"out", b"-p", b"2"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--prefixlength", b"2"], equal: &[IN, OUT, P2] },
    Spell { tool: "mus", short: &[b"-i", b"in", b"-p", b"2"], long: &[b"--infilename", b"in", b"--prefixlength", b"2"], equal: &[IN, P2] },
    Spell { tool: "reverse", short: &[b"-i", b"in", b"-o", b"out", b"-p", b"2"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--prefixlength", b"2"], equal: &[IN, OUT, P2] },
    Spell { tool: "rle", short: &[b"-i", b"in", b"-o", b"out", b"-z"], long: &[b"--infilename", b"in", b"--outfilename", b"out", b"--onlyzero"], equal: &[IN, OUT, b"-z"] },
    Spell { tool: "mtf", short: &[b"-i", b"in", b"-o", b"out"], long: &[b"--infilename", b"in", b"--outfilename", b"out"], equal: &[IN, OUT] },
    Spell { tool: "count_runs", short: &[b"-i", b"in"], long: &[b"--infilename", b"in"], equal: &[IN] },
    Spell { tool: "word", short: &[b"-o", b"out", b"-k", b"4", b"-n", b"fibonacci"], long: &[b"--outfilename", b"out", b"-k", b"4", b"--name", b"fibonacci"], equal: &[OUT, b"-k4", b"--name=fibonacci"] },
    Spell { tool: "lyndonwords", short: &[b"-o", b"out", b"-l", b"3", b"-s", b"2"], long: &[b"--outfilename", b"out", b"-l", b"3", b"-s", b"2"], equal: &[OUT, b"-s2", b"-l3"] },
    Spell { tool: "randomstring", short: &[b"-o", b"out", b"-p", b"0", b"-a", b"2"], long: &[b"--outfilename", b"out", b"--prefixlength", b"0", b"--alphabet-size", b"2"], equal: &[OUT, b"-a2", b"--prefixlength=0"] },
    Spell { tool: "bwt", short: &[], long: &[b"-p", b"0"], equal: &[b"--prefixlength=0"] },
    Spell { tool: "reverse", short: &[], long: &[b"-p", b"0"], equal: &[b"--prefixlength=0"] },
    Spell { tool: "entropy", short: &[], long: &[b"-p", b"0", b"-o", b"0"], equal: &[b"--order=0"] },
    Spell { tool: "lyndonwords", short: &[], long: &[b"-l", b"5", b"-s", b"2"], equal: &[b"-s2"] },
    Spell { tool: "escape", short: &[b"-f97", b"-t1"], long: &[b"-f97", b"-t1", b"-e", b"0", b"-p", b"0"], equal: &[b"-e0", b"-f97", b"-t1"] },
];
fn spelled(tool: &'static str, a: &[&[u8]], t: &[u8]) -> (u32, Vec<u8>, Vec<u8>) {
    let o = with(Tool::new(tool).stdin(b"zz").file("in", t).file("out", OLD), a).run();
    (o.status, plain(&o.out), outfile("out").unwrap_or_default())
}
/// Spellings of the same options, and defaults. params: row mode n
pub fn c31_spell() {
    let k = &SPELLS[param(0)];
    let t = text(param(1), param(2), 0, false);
    let a = spelled(k.tool, k.short, &t);
    for o in [k.long, k.equal] {
        let b = spelled(k.tool, o, &t);
        check(a.0 == b.0, "same status");
        check(same(&a.1, &b.1), "same result");
        check(same(&a.2, &b.2), "same file");
    }
    check(a.0 == 0 || k.tool == "is_stringattractor", "accepted");
    cover("end");
    observe_bytes(&a.1);
    observe_bytes(&a.2);
}
fn few(some: usize, of: &[u8]) -> u8 {
    if some == 0 {
        sym8()
    } else {
        letters(1, of)[0]
    }
}
struct Known {
    tool: &'static str,
    letters: &'static [u8],
    args: &'static [&'static [u8]],
    out: bool,
}
const KNOWN: &[Known] = &[
    Known { tool: "bwt", letters: b"iopunhV", args: &[], out: true },
    Known { tool: "count_lexparse", letters: b"iophV", args: &[], out: true },
    Known { tool: "count_r", letters: b"ipunhV", args: &[], out: false },
    Known { tool: "count_sigma", letters: b"iphV", args: &[], out: false },
    Known { tool: "count_z", letters: b"iophV", args: &[], out: true },
    Known { tool: "entropy", letters: b"ipohV", args: &[], out: false },
    Known { tool: "entropy_kmer", letters: b"ipohV", args: &[b"-o", b"1"], out: false },
    Known { tool: "escape", letters: b"iopefthV", args: &[b"-e", b"98", b"-f", b"97", b"-t", b"1"], out: true },
    Known { tool: "is_stringattractor", letters: b"ipahV", args: &[b"-p", b"0"], out: false },
    Known { tool: "lyndonfactorization", letters: b"iophV", args: &[], out: true },
    Known { tool: "mus", letters: b"iphV", args: &[], out: false },
    Known { tool: "reverse", letters: b"iophV", args: &[], out: true },
    Known { tool: "rle", letters: b"iozhV", args: &[], out: true },
    Known { tool: "mtf", letters: b"iohV", args: &[], out: true },
    Known { tool: "count_runs", letters: b"ihV", args: &[], out: false },
    Known { tool: "word", letters: b"konhV", args: &[b"-k", b"2", b"-n", b"fibonacci"], out: true },
    Known { tool: "lyndonwords", letters: b"olshV", args: &[], out: true },
    Known { tool: "randomstring", letters: b"aophV", args: &[b"-a", b"1"], out: true },
    Known { tool: "enumerate", letters: b"hV", args: &[b"2", b"1", b"2"], out: false },
];
/// Command lines that cannot be followed. params: row, what (0 unknown letter, 1 a word too many, 2 unknown long
/// option, 3 a value is missing, 4 an option twice), letters (0 any, 1 few)
pub fn c31_unknown() {
    let k = &KNOWN[param(0)];
    let mut c = Tool::new(k.tool);
    if k.letters.contains(&b'i') {
        c = c.stdin(b"ab");
    }
    if k.out {
        c = c.file("out", OLD).arg(b"-o").arg(b"out");
    }
    c = with(c, k.args);
    let x = few(param(2), b"abcdefghijklmnopqrstuvwxyzAPV019=_+. \n\x01\x7f\x80\xc3\xff");
    match param(1) {
        0 => {
            let mut known = x == 0 || x == b'-';
            for &l in k.letters {
                known = known | (x == l);
            }
            // a number below zero
            known = known | (k.tool == "enumerate" && x >= b'0' && x <= b'9');
            assume(!known);
            c = c.arg(&[b'-', x]);
        }
        1 => {
            assume(x != 0 && x != b'-');
            c = c.arg(&[x]);
        }
        2 => {
            assume(x != 0);
            c = c.arg(&[b'-', b'-', x, b'q']);
        }
        3 => {
            let o = k.letters.iter().find(|l| b"ipkls".contains(l));
            match o {
                Some(&l) if l != b'k' => c = c.arg(&[b'-', l]),
                _ => c = c.arg(b"--"). arg(b"x"),
            }
        }
        _ => {
            let mut takes: Vec<u8> = vec![];
            for &l in k.letters {
                // a list may be given piece by piece
                if !matches!(l, b'h' | b'V' | b'a' | b'f' | b't') || (l == b'a' && k.tool == "randomstring") {
                    takes.push(l);
                }
            }
            if takes.is_empty() {
                c = c.arg(b"7");
            } else {
                let l = takes[choose(0, takes.len() - 1)];
                let v: &[u8] = match l {
                    b'i' => b"zz",
                    b'o' if k.out => b"out",
                    b'n' if k.tool == "word" => b"vtm",
                    b'u' | b'n' | b'z' => b"",
                    _ => b"1",
                };
                if k.letters.contains(&b'i') {
                    c = c.file("zz", b"ab");
                }
                for _ in 0..2 {
                    c = c.arg(&[b'-', l]);
                    if !v.is_empty() {
                        c = c.arg(v);
                    }
                }
            }
        }
    }
    let o = c.run();
    refused(o.status, &o.out, k.out);
}
/// A required option is missing, or a name is not one of the list. params: what, letters (0 any, 1 few)
pub fn c31_missing() {
    let a: &[&[u8]] = &[b"-o", b"out"];
    let c = match param(0) {
        0 => with(Tool::new("word").file("out", OLD), a).arg(b"-k").arg(b"3"),
        1 => with(Tool::new("word").file("out", OLD), a).arg(b"-n").arg(b"fibonacci"),
        2 => with(Tool::new("randomstring").file("out", OLD), a).arg(b"-p").arg(b"0"),
        _ => {
            let names: &[&[u8]] = &[b"fibonacci", b"vtm", b"power2", b"kolakoski", b"thue-morse", b"paper-folding"];
            let mut w = names[choose(0, names.len() - 1)].to_vec();
            let p = choose(0, w.len() - 1);
            let x = few(param(1), b"aefA_\xff");
            assume(x != 0 && x != w[p] && (p > 0 || x != b'-'));
            w[p] = x;
            with(Tool::new("word").file("out", OLD), a).arg(b"-k").arg(b"3").arg(b"-n").arg(&w)
        }
    };
    let o = c.run();
    refused(o.status, &o.out, true);
}

// ------------------------------------------------------------------ result lines

struct Line {
    tool: &'static str,
    args: &'static [&'static [u8]],
    /// the pairs that are known, the name of the input, the number
    pairs: &'static [(&'static str, &'static [u8])],
    name: &'static str,
    number: &'static str,
    end: bool,
}
const LINES: &[Line] = &[
    Line { tool: "count_lexparse", args: &[], pairs: &[("algo", b"lexparse")], name: "file", number: "factors", end: false },
    Line { tool: "count_z", args: &[], pairs: &[("algo", b"lz77")], name: "file", number: "factors", end: false },
    Line { tool: "lyndonfactorization", args: &[], pairs: &[("algo", b"duval")], name: "file", number: "factors", end: false },
    Line { tool: "count_sigma", args: &[], pairs: &[("algo", b"count_sigma")], name: "file", number: "sigma", end: false },
    Line { tool: "count_r", args: &[], pairs: &[("algo", b"bwt"), ("no_dollar", b"false"), ("use_matrix", b"false")], name: "file", number: "bwt_runs", end: true },
    Line { tool: "count_r", args: &[b"-n"], pairs: &[("algo", b"bwt"), ("no_dollar", b"true"), ("use_matrix", b"false")], name: "file", number: "bwt_runs", end: false },
    Line { tool: "count_r", args: &[b"-u"], pairs: &[("algo", b"bwt"), ("no_dollar", b"false"), ("use_matrix", b"true")], name: "file", number: "bwt_runs", end: true },
    Line { tool: "count_r", args: &[b"-u", b"-n"], pairs: &[("algo", b"bwt"), ("no_dollar", b"true"), ("use_matrix", b"true")], name: "file", number: "bwt_runs", end: false },
    Line { tool: "entropy", args: &[], pairs: &[("algo", b"count_entropy"), ("order", b"0")], name: "input", number: "", end: true },
    Line { tool: "entropy", args: &[b"-o", b"2"], pairs: &[("algo", b"count_entropy"), ("order", b"2")], name: "input", number: "", end: true },
    Line { tool: "entropy_kmer", args: &[b"-o", b"1"], pairs: &[("algo", b"count_entropy_hash"), ("order", b"1")], name: "input", number: "", end: true },
    Line { tool: "entropy_kmer", args: &[b"-o", b"2"], pairs: &[("algo", b"count_entropy_hash"), ("order", b"2")], name: "input", number: "", end: true },
    Line { tool: "mus", args: &[], pairs: &[], name: "file", number: "", end: true },
];
/// How often ` key=` is in the line.
fn times(o: &[u8], key: &str) -> usize {
    let k = key.as_bytes();
    let mut r = 0;
    for i in 1..o.len() {
        if o[i - 1] == b' ' && i + k.len() < o.len() && &o[i..i + k.len()] == k && o[i + k.len()] == b'=' {
            r += 1;
        }
    }
    r
}
/// params: row mode n q, length of the file's name (0 standard input, 10 and more: with a directory), prefix
pub fn c32_line() {
    let k = &LINES[param(0)];
    let n = nparam(2);
    let t = text(param(1), n, param(3), false);
    let mut name = letters(param(4) % 10, b"aZ9._");
    for c in name.iter_mut() {
        *c = fix(*c as usize) as u8;
    }
    // these are directories
    assume(!matches!(name.as_slice(), b"." | b".."));
    match param(4) / 10 {
        0 => {}
        1 => name = [b"./", &name[..]].concat(),
        2 => name = [b"a-", &name[..]].concat(),
        _ => name = [b"result.tar", &name[..]].concat(),
    }
    let mut c = Tool::new(k.tool);
    if name.is_empty() {
        c = c.stdin(&t);
        name = b"none".to_vec();
    } else {
        let s = String::from_utf8(name.clone()).unwrap();
        c = c.file(&s, &t).arg(b"-i").arg(&name);
    }
    let p = param(5);
    if p > 0 {
        c = c.arg(b"-p").num(p);
    }
    let o = with(c, k.args).run();
    ok(&o);
    let l = &o.out;
    check(l.len() > 7 && &l[..7] == b"RESULT ", "a result line");
    let mut ends = 0;
    for &c in l.iter() {
        ends += (c == b'\n') as usize;
    }
    check(ends == 1 && l[l.len() - 1] == b'\n', "exactly one line");
    let m = if p == 0 || p > n { n } else { p };
    let mut length = m + k.end as usize;
    check(times(l, "length") == 1, "the length is given once");
    check(num_field(l, "length") == Some(length), "the length is that of the text worked on");
    length = times(l, "time_ms");
    check(length == 1 && num_field(l, "time_ms").is_some(), "the time is a number");
    check(times(l, k.name) == 1 && field(l, k.name) == Some(&name), "the input is named");
    for (x, y) in k.pairs {
        check(times(l, x) == 1 && field(l, x) == Some(*y), "algorithm and options are told");
    }
    if k.number != "" {
        check(times(l, k.number) == 1 && num_field(l, k.number).is_some(), "the result is a number");
    } else {
        check(times(l, if k.tool == "mus" { "mus" } else { "entropy" }) == 1, "the result is given once");
    }
    cover("end");
    observe(l.len() as u64);
}
