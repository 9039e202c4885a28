C = "src/core.rs"
seed("c01-zero-first", "C01", "a text whose very first byte is zero", "the zero byte is not rejected",
     [(C, "!text[..text.len() - 1].iter().any(|&x| x == 0),", "!text[..text.len() - 1].iter().skip(1).any(|&x| x == 0),")],
     py='''need(run("bwt", inp=b"\\0abc")[0] != 0, "zero accepted")
need(run("bwt", inp=b"a\\0bc")[0] != 0)
need(run("bwt", inp=b"abc") == (0, b"c\\0ab"))
''')
seed("c01-terminated", "C01", "an input that already ends with a zero byte", "the terminator is not appended, and the text with a zero is accepted",
     [("src/bin/bwt.rs", "        text.push(0u8);", "        if text.last() != Some(&0u8) {\n            text.push(0u8);\n        }")],
     py='''need(run("bwt", inp=b"abc\\0")[0] != 0, "zero accepted")
need(run("bwt", inp=b"abc") == (0, b"c\\0ab"))
''')
seed("c02-naive", "C02", "rotations that agree on more than three quarters of the text", "the naive matrix transform does not sort them",
     [(C, "        for i in 0..text.len() {\n            let cmp", "        for i in 0..text.len() - text.len() / 4 {\n            let cmp")],
     rs='''use stringology::core::*;
fn main() {
    for n in 1..11usize {
        for v in 0..1usize << n {
            let t: Vec<u8> = (0..n).map(|i| b'a' + (v >> i & 1) as u8).collect();
            let mut r: Vec<Vec<u8>> = (0..n).map(|i| [&t[i..], &t[..i]].concat()).collect();
            r.sort();
            let e: Vec<u8> = r.iter().map(|x| x[n - 1]).collect();
            assert_eq!(bwt_by_matrix_naive(&t), e);
        }
    }
}
''')
seed("c03-omega", "C03", "conjugates of different factors that agree on more letters than the longer one has", "the bijective transform puts them in the wrong order",
     [(C, "while len < alen * blen {", "while len < std::cmp::max(alen, blen) {")],
     rs='''use stringology::core::*;
fn main() {
    for n in 1..9usize {
        let mut seen = std::collections::HashSet::new();
        for v in 0..1usize << n {
            let t: Vec<u8> = (0..n).map(|i| b'a' + (v >> i & 1) as u8).collect();
            assert!(seen.insert(bbwt_naive(&t)), "two texts with one transform");
        }
    }
}
''')
seed("c04-isa-equal", "C04", "a text with at least 128 positions in the suffix order", "the factorization from the inverse suffix array compares truncated ranks",
     [(C, "        if isa[k] < current_val {", "        if (isa[k] as i8) < current_val as i8 {")],
     rs='''use stringology::core::*;
fn main() {
    for n in [5usize, 100, 127, 128, 129, 200, 300] {
        let t: Vec<u8> = (0..n).map(|i| b'a' + (i * i % 7 % 3) as u8).collect();
        let sa = suffixarray_naive(&t);
        let isa: Vec<i32> = inverse_permutation(&sa).iter().map(|&x| x as i32).collect();
        assert_eq!(isa_lyndon_factorization(&isa), duval(&t));
    }
}
''')
seed("c04-file-zero", "C04", "a text whose last factor is the zero byte", "only the zero byte factor is to be left out, the one before it goes too",
     [("src/bin/lyndonfactorization.rs", "                if factor_id == factors.len() - 1\n                    && factors[factor_id] + 1 == text.len()",
       "                if factor_id + 2 >= factors.len()\n                    && factors[factor_id] + 2 >= text.len()")],
     py='''with tempfile.TemporaryDirectory() as d:
    for t in (b"ba\\0", b"bab\\0", b"cba\\0", b"abab", b"ba"):
        need(run("lyndonfactorization", "-o", d + "/o", inp=t)[0] == 0)
        o = open(d + "/o", "rb").read()
        fs = [x.split(b"\\n", 1)[1] for x in (b"\\n" + o).split(b"\\n>Factor ")[1:]]
        need(b"".join(fs) == t.rstrip(b"\\0"), t, o)
''')
seed("c05-power", "C05", "a text that is a power of a shorter word", "the position returned is the length of the text",
     [(C, "        if factors[x + 1] + 1 >= n {", "        if factors[x + 1] + 1 > n {")],
     rs='''use stringology::core::*;
fn main() {
    for t in ["a", "ab", "ba", "aa", "abab", "baba", "abcabcabc", "bab", "aab"] {
        let t = t.as_bytes();
        let p = lyndon_conjugate(t);
        assert!(p < t.len());
        let r = [&t[p..], &t[..p]].concat();
        assert!((0..t.len()).all(|i| r <= [&t[i..], &t[..i]].concat()));
    }
}
''')
seed("c05-again", "C05", "asking the iterator for more after its end", "it starts from the beginning again",
     [(C, "        if self.m_pos == self.m_text.len() {\n            return None;", "        if self.m_pos == self.m_text.len() {\n            self.m_pos = 0;\n            return None;")],
     rs='''use stringology::core::*;
fn main() {
    let mut i = ConjugateIterator::new(b"abc");
    for w in ["abc", "bca", "cab"] {
        assert_eq!(i.next().unwrap(), w.as_bytes());
    }
    assert!(i.next().is_none());
    assert!(i.next().is_none());
}
''')
seed("c06-pair", "C06", "a text of exactly two equal letters", "it is reported primitive",
     [(C, "    if period == text.len() {", "    if period + 1 >= text.len() {")],
     rs='''use stringology::core::*;
fn main() {
    assert!(!is_primitive(b"aa"));
    assert!(is_primitive(b"ab"));
    assert!(is_primitive(b"a"));
    assert!(!is_primitive(b"aaa"));
    assert!(is_primitive(b"aba"));
}
''')
seed("c06-fallback", "C06", "a prefix whose border is found only at the second shorter candidate", "a border that is too short or wrong is recorded",
     [(C, "        while length > 0 && text[length - 1] != text[i] {\n            length = border[length - 1];",
       "        if length > 0 && text[length - 1] != text[i] {\n            length = border[length - 1];\n        }\n        while length > 0 && text[length - 1] != text[i] {\n            length -= 1;")],
     rs='''use stringology::core::*;
fn main() {
    for n in 1..12usize {
        for v in 0..1usize << n {
            let t: Vec<u8> = (0..n).map(|i| b'a' + (v >> i & 1) as u8).collect();
            let b = border_array(&t);
            for m in 1..=n {
                let e = (0..m).rev().find(|&l| t[..l] == t[m - l..m]).unwrap();
                assert_eq!(b[m], e);
            }
        }
    }
}
''')
seed("c07-phi", "C07", "looking at the entry of the smallest suffix", "Phi maps the smallest suffix to itself instead of the largest one",
     [(C, "    phi[sa[0].as_()] = sa[sa.len() - 1];", "    phi[sa[0].as_()] = sa[0];")],
     rs='''use stringology::core::*;
fn main() {
    for t in ["a", "ab", "banana", "abracadabra", "aaaa"] {
        let sa = suffixarray_naive(t.as_bytes());
        let phi = compute_phi(&sa);
        for i in 0..sa.len() {
            assert_eq!(phi[sa[i]], sa[(i + sa.len() - 1) % sa.len()]);
        }
    }
}
''')
seed("c07-end", "C07", "a text without terminator where a suffix is a prefix of its successor in the order", "one letter of the common prefix is lost",
     [(C, "        while position_a + length < text.len()", "        while position_a + length + 1 < text.len()")],
     rs='''use stringology::core::*;
fn main() {
    for t in ["aa", "abab", "banana", "abracadabra", "aaaa", "abc"] {
        let t = t.as_bytes();
        let sa: Vec<i32> = suffixarray_naive(t).iter().map(|&x| x as i32).collect();
        let lcp = compute_lcp(&compute_plcp(t, &compute_phi(&sa)), &sa);
        for i in 1..t.len() {
            let (a, b) = (&t[sa[i - 1] as usize..], &t[sa[i] as usize..]);
            assert_eq!(lcp[i] as usize, a.iter().zip(b).take_while(|(x, y)| x == y).count());
        }
    }
}
''')
seed("c08-equal", "C08", "an array with equal values", "the next value that is equal is taken for a smaller one",
     [(C, "            if arr[p] < arr[i] {\n                nsv[i] = p as u32;", "            if arr[p] <= arr[i] {\n                nsv[i] = p as u32;")],
     rs='''use stringology::core::*;
fn main() {
    for n in 1..7u32 {
        for v in 0..3usize.pow(n) {
            let a: Vec<usize> = (0..n).map(|i| v / 3usize.pow(i) % 3).collect();
            let (p, q) = (compute_psv(&a), compute_nsv(&a));
            for i in 0..a.len() {
                assert_eq!(p[i], (0..i).rev().find(|&j| a[j] < a[i]).map_or(INVALID_VALUE, |j| j as u32));
                assert_eq!(q[i], (i + 1..a.len()).find(|&j| a[j] < a[i]).map_or(INVALID_VALUE, |j| j as u32));
            }
        }
    }
}
''')
seed("c08-chain", "C08", "a previous smaller value that is three steps away in the chain of smaller values", "the chain is left too early",
     [(C, "            p = psv[p] as usize;", "            p = psv[p] as usize;\n            if p == 0 && arr[p] >= arr[i] {\n                break;\n            }\n            if p != INVALID_VALUE as usize && p + 4 < i && arr[p] == arr[0] {\n                p = 0;\n            }")],
     rs='''use stringology::core::*;
fn main() {
    for n in 1..8u32 {
        for v in 0..3usize.pow(n) {
            let a: Vec<usize> = (0..n).map(|i| v / 3usize.pow(i) % 3).collect();
            let p = compute_psv(&a);
            for i in 0..a.len() {
                assert_eq!(p[i], (0..i).rev().find(|&j| a[j] < a[i]).map_or(INVALID_VALUE, |j| j as u32));
            }
        }
    }
}
''')
seed("c09-high", "C09", "a fresh letter with a byte value of 128 or more", "the written letter code is not the byte value",
     [("src/bin/count_z.rs", "                pos: text[i] as u32,", "                pos: text[i] as i8 as u32,")],
     py='''with tempfile.TemporaryDirectory() as d:
    need(run("count_z", "-o", d + "/o", inp=b"a\\xe9a\\xe9")[0] == 0)
    need(open(d + "/o").read() == "(97,0)(233,0)(2,2)", open(d + "/o").read())
''')
seed("c09-tie", "C09", "a position whose only useful source is the next smaller value", "the factor is cut short where the previous smaller value has an empty prefix",
     [("src/bin/count_z.rs", "        if prev_lcp == 0 && next_lcp == 0 {", "        if next_lcp == 0 && prev_lcp == 0 || i + 1 == text.len() && prev_lcp == 0 {")],
     py='''def lz(t):
    i = n = 0
    while i < len(t):
        l = 0
        while i + l < len(t) and t.find(t[i:i+l+1], 0, i + l) >= 0:
            l += 1
        i += max(l, 1)
        n += 1
    return n
for n in range(1, 9):
    for w in itertools.product(b"ab", repeat=n):
        w = bytes(w)
        if n < 5 or w.count(b"ab") == 3 or w.endswith(b"bba"):
            need(int(field(run("count_z", inp=w)[1], "factors")) == lz(w), w)
''')
seed("c10-one", "C10", "a phrase of length one", "it is written as an explicit letter",
     [("src/bin/count_lexparse.rs", "        if plcp[i] == 0 {", "        if plcp[i] <= 1 {")],
     py='''with tempfile.TemporaryDirectory() as d:
    for t in (b"abab", b"aab", b"cabab", b"banana", b"abac"):
        run("count_lexparse", "-o", d + "/o", inp=t)
        o = open(d + "/o").read()
        sa = sorted(range(len(t)), key=lambda i: t[i:])
        i, e = 0, ""
        while i < len(t):
            r = sa.index(i)
            l = 0
            if r:
                a, b = t[sa[r-1]:], t[i:]
                while l < min(len(a), len(b)) and a[l] == b[l]:
                    l += 1
            e += "(%d,%d)" % ((sa[r-1], l) if l else (t[i], 0))
            i += max(l, 1)
        need(o == e, t, o, e)
''')
seed("c11-last", "C11", "a substring whose longest repeat is at the end of the suffix order", "its repetition is not seen",
     [("src/bin/mus.rs", "        if isai + 1 == sa.len() {", "        if isai + 2 >= sa.len() {")],
     py='''def mus(t):
    r = []
    cnt = lambda w: sum(t[i:i+len(w)] == w for i in range(len(t))) if w else 9
    for i in range(len(t)):
        for j in range(i + 1, len(t) + 1):
            if cnt(t[i:j]) == 1 and cnt(t[i+1:j]) > 1 and cnt(t[i:j-1]) > 1:
                r.append((i, j - i))
    return r
for n in range(1, 8):
    for w in itertools.islice(itertools.product(b"ab", repeat=n), 0, None, 3):
        w = bytes(w)
        o = run("mus", inp=w)[1].decode()
        need(eval(o[o.index("mus=") + 4:]) == mus(w), w, o)
''')
seed("c12-short", "C12", "an uncovered substring that ends exactly before the next position of the set", "the set is accepted",
     [("src/bin/is_stringattractor.rs", "        if lcplength <= rmq {", "        if lcplength < rmq {")],
     py='''def ok(t, a):
    subs = {t[i:j] for i in range(len(t)) for j in range(i + 1, len(t) + 1)}
    return all(any(t[i:i+len(w)] == w and any(i <= p < i + len(w) for p in a) for i in range(len(t))) for w in subs)
for t in (b"ab", b"aab", b"abab", b"abc", b"abba", b"abaab"):
    for k in (1, 2):
        for a in itertools.combinations(range(len(t)), k):
            need(run("is_stringattractor", "-a", *a, inp=t)[0] == (0 if ok(t, a) else 2), t, a)
''')
seed("c13-seven", "C13", "order 7 of the k-mer tool", "the mask of the 8-mers is empty or overflows",
     [("src/bin/entropy_kmer.rs", "let kplusmer = ringbuf & (u64::MAX >> (8 * (7 - order)));", "let kplusmer = ringbuf & !u64::MAX.checked_shl(8 * (order as u32 + 1)).unwrap_or(u64::MAX);")],
     py='''import math
def h(t, k):
    from collections import Counter
    t += b"\\0"
    a = Counter(t[i:i+k] for i in range(len(t) - k + 1))
    b = Counter(t[i:i+k+1] for i in range(len(t) - k))
    return (sum(x * math.log2(x) for x in a.values()) - sum(x * math.log2(x) for x in b.values())) / len(t)
for k in range(1, 8):
    for t in (b"abababababab", b"aaaaaaaaaabaaaaaaaaaac"):
        need(abs(float(field(run("entropy_kmer", "-o", k, inp=t)[1], "entropy")) - h(t, k)) < 1e-9, k, t)
''')
seed("c13-block", "C13", "the last context block of the suffix order holding different letters", "its contribution is left out",
     [("src/bin/entropy.rs", "    if (lcp[lcp.len() - 1] as usize) >= k && contextcount > 0 {", "    if (lcp[lcp.len() - 1] as usize) > k && contextcount > 0 {")],
     py='''import math
def h(t, k):
    from collections import Counter
    t += b"\\0"
    a = Counter(t[i:i+k] for i in range(len(t) - k + 1))
    b = Counter(t[i:i+k+1] for i in range(len(t) - k))
    return (sum(x * math.log2(x) for x in a.values()) - sum(x * math.log2(x) for x in b.values())) / len(t)
for k in range(1, 4):
    for t in (b"abababababab", b"acbcacbbcacb", b"babbaabab"):
        need(abs(float(field(run("entropy", "-o", k, inp=t)[1], "entropy")) - h(t, k)) < 1e-9, k, t)
''')
seed("c14-full", "C14", "a text with all 256 byte values", "counting stops one letter early",
     [("src/bin/count_sigma.rs", "    for c in text_iter {", "    for c in text_iter {\n        //@ no letter can be new any more\n        if inc == u8::MAX as usize {\n            break;\n        }")],
     py='''for n in (1, 254, 255, 256):
    need(field(run("count_sigma", inp=bytes(range(n)) + b"\\0")[1], "sigma") == str(n), n)
''')
seed("c15-start", "C15", "an input that begins with the character 0", "the first zero run is one too short",
     [("src/bin/rle.rs", "                run_counter = 1;", "                run_counter = 0;")],
     py='''def dec(b):
    r, i = b"", 0
    while i < len(b):
        if b[i] == 48:
            r += b"0" * (b[i+1] + 1)
            i += 2
        else:
            r += b[i:i+1]
            i += 1
    return r
for t in (b"a00b", b"0", b"00a", b"0a0", b"a"):
    need(dec(run("rle", "-z", inp=t)[1]) == t, t)
''')
seed("c16-last", "C16", "a byte that has rank 255 when it is encoded", "one letter is not moved",
     [("src/bin/mtf.rs", "                for j in 0..pos {", "                for j in 0..std::cmp::min(pos, u8::MAX as usize - 1) {")],
     py='''def enc(t):
    l, r = list(range(256)), []
    for c in t:
        r.append(l.index(c))
        l.insert(0, l.pop(r[-1]))
    return bytes(r)
for t in (b"abca", b"\\xff\\0\\1\\xff", bytes(range(256)) + bytes(range(256))):
    need(run("mtf", inp=t)[1] == enc(t), t[:9])
''')
seed("c17-overlap", "C17", "a byte that is in both lists", "the lists are accepted",
     [("src/bin/escape.rs", "        .any(|&i| args.to_symbols.contains(&i)));", "        .zip(&args.to_symbols)\n        .any(|(i, j)| i == j));")],
     py='''need(run("escape", "-e", 92, "-f", "97,98", "-t", "98,99", inp=b"ab")[0] != 0, "accepted")
need(run("escape", "-e", 92, "-f", "97,98", "-t", "99,98", inp=b"ab")[0] != 0)
need(run("escape", "-e", 92, "-f", "97,98", "-t", "99,100", inp=b"abx") == (0, b"\\\\c\\\\dx"))
''')
seed("c17-tail", "C17", "an escaped byte at the very end of what the reverse direction reads in a pipe of one-byte reads or the escape byte itself", "an escape byte is only doubled if it is not the first letter",
     [("src/bin/escape.rs", "                        if next_char == args.escape_symbol {", "                        if next_char == args.escape_symbol && !args.to_symbols.is_empty() {")],
     py='''for t in (b"abc", b"a\\\\b", b"\\\\", b"\\\\\\\\"):
    for l in ([], ["-f", "97", "-t", "65"]):
        o = run("escape", "-e", 92, *l, inp=t)[1]
        need(run("escape", "-e", 92, *l, "--is-reversion", inp=o) == (0, t), t, l)
''')
seed("c18-wide", "C18", "a prefix length of more than 32 bits and a file", "the prefix is cut to 32 bits",
     [("src/io.rs", "std::cmp::min(prefix_length as u64, metadata.len())", "std::cmp::min(prefix_length as u32 as u64, metadata.len())")],
     py='''with tempfile.TemporaryDirectory() as d:
    open(d + "/i", "wb").write(b"abcdef")
    for p in (1, 3, 6, 100, 2**32 + 2, 2**33, 2**40 + 3):
        need(run("reverse", "-i", d + "/i", "-p", p)[1] == b"abcdef"[:p][::-1], p)
''')
seed("c18-truncate", "C18", "an output file that exists and is longer than the result", "the rest of the old contents stays in the file",
     [("src/io.rs", "Box::new(std::fs::File::create(path).unwrap())", "Box::new(\n                std::fs::OpenOptions::new()\n                    .write(true)\n                    .create(true)\n                    .open(path)\n                    .unwrap(),\n            )")],
     py='''with tempfile.TemporaryDirectory() as d:
    open(d + "/o", "wb").write(b"0123456789")
    need(run("reverse", "-o", d + "/o", inp=b"abc")[0] == 0)
    need(open(d + "/o", "rb").read() == b"cba")
''')
seed("c19-chunk", "C19", "a pipe that delivers the input in more than one piece", "a read that does not fill the buffer is taken for the end of the input",
     [("src/io.rs", "        let mut buffer = Vec::new();\n        reader.read_to_end(&mut buffer).unwrap();\n        buffer", "        let mut buffer = Vec::new();\n        let mut block = [0u8; 4096];\n        loop {\n            let length = reader.read(&mut block).unwrap();\n            buffer.extend_from_slice(&block[..length]);\n            if length < block.len() {\n                break;\n            }\n        }\n        buffer")],
     py='''import time
p = subprocess.Popen(["target/debug/reverse"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
try:
    p.stdin.write(b"abc"); p.stdin.flush()
    time.sleep(1)
    p.stdin.write(b"def"); p.stdin.close()
except BrokenPipeError:
    pass
need(p.stdout.read() == b"fedcba")
''')
seed("c19-file", "C19", "a read from a file that returns less than was asked for", "the rest of the buffer stays zero",
     [("src/io.rs", "    f.read_exact(&mut buffer).unwrap();", "    let length = f.read(&mut buffer).unwrap();\n    debug_assert!(length <= buffer.len());")],
     py='''with tempfile.TemporaryDirectory() as d:
    open(d + "/s.c", "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*r)(int, void *, size_t);
    if (!r) r = dlsym(RTLD_NEXT, "read");
    return r(fd, b, n > 2 && fd > 2 ? 2 : n);
}
""")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", d + "/s.so", d + "/s.c", "-ldl"], check=True)
    open(d + "/i", "wb").write(b"abcdef")
    need(run("reverse", "-i", d + "/i")[1] == b"fedcba")
    need(run("reverse", "-i", d + "/i", env=dict(os.environ, LD_PRELOAD=d + "/s.so"))[1] == b"fedcba")
''')
seed("c20-thue", "C20", "order 9 and more", "the parity of the position is taken of its low byte",
     [("src/word.rs", "            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };", "            text[powerj + k] = if (powerj + k) as u16 & 0x8000 == 0 && text[k] == CHR_A\n                || (powerj + k) as u16 & 0x8000 != 0 && text[k] == CHR_B\n            {\n                CHR_B\n            } else {\n                CHR_A\n            };")],
     py='''for k in (3, 9, 15, 16):
    w = run("word", "-k", k, "-n", "thue-morse")[1]
    need(w == bytes(97 + bin(i).count("1") % 2 for i in range(2 ** k)), k)
''')
seed("c21-signed", "C21", "letters with byte values of 128 and more next to smaller ones", "the letters are compared as signed numbers",
     [("src/word.rs", "    while j != n && text.index(i) <= text.index(j) {", "    while j != n && *text.index(i) as i8 <= *text.index(j) as i8 {")],
     rs='''use stringology::word::*;
fn main() {
    assert!(is_necklace(&b"ab"[..], 2));
    assert!(!is_necklace(&b"ba"[..], 2));
    assert!(is_necklace(&[97u8, 200][..], 2));
    assert!(!is_necklace(&[200u8, 97][..], 2));
}
''')
seed("c22-again", "C22", "asking the generator for more after its end", "it starts from the beginning again",
     [(C, "            self.m_length = 0; //@ prevent from re-initialization by making this iterator invalid\n", "")],
     rs='''use stringology::core::*;
fn main() {
    let mut g = LyndonWordGenerator::new(3, 2);
    for _ in 0..5 {
        assert!(g.next().is_some());
    }
    assert!(g.next().is_none());
    assert!(g.next().is_none());
}
''')
seed("c23-order", "C23", "a largest length below the smallest one", "it is accepted",
     [("src/bin/enumerate.rs", "    if max_len < min_len {", "    if max_len < min_len && max_len == 0 {")],
     py='''need(run("enumerate", 2, 3, 2)[0] != 0)
need(run("enumerate", 2, 3, 0)[0] != 0)
need(run("enumerate", 2, 1, 2) == (0, b"a\\nb\\naa\\nab\\nba\\nbb\\n"))
''')
seed("c24-float", "C24", "orders above 70", "the value is a rounded estimate",
     [("src/word.rs", "    if k == 0 {\n        return 1;\n    }\n\n    let [mut sum, mut cur, mut old] = [1, 1, 0];", "    if k == 0 {\n        return 1;\n    }\n    if k > 64 {\n        return fibonacci_number_estimate(k + 2).round() as usize;\n    }\n\n    let [mut sum, mut cur, mut old] = [1, 1, 0];")],
     rs='''use stringology::word::*;
fn main() {
    let (mut a, mut b) = (1usize, 2usize);
    for k in 0..90u8 {
        assert_eq!(fibonacci_number(k), a);
        let c = a + b;
        a = b;
        b = c;
    }
}
''')
seed("c24-log", "C24", "a value of 2^48 - 1 or more that is just below a power of two", "the number of digits is one too large",
     [(C, "    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8", "    match i {\n        0 => 0,\n        _ => (i as f64).log2() as u8 + 1,\n    }")],
     rs='''use stringology::core::*;
fn main() {
    assert_eq!(bit_size(0), 0);
    for k in 0..64u8 {
        assert_eq!(bit_size(1usize << k), k + 1);
        assert_eq!(bit_size((1usize << k) - 1), k);
    }
}
''')
seed("c25-once", "C25", "a random source that delivers two letters in a row that are not in the set", "a character too many is written",
     [("src/bin/randomstring.rs", "            while !charset.contains(&newchar) {", "            if !charset.contains(&newchar) {")],
     py='''for i in range(20):
    o = run("randomstring", "-a", 2, "-p", 200)[1]
    need(len(o) == 200 and len(set(o)) <= 2, o)
''')
LIM = '''import resource, tempfile
def limited(args, size, inp):
    # the system takes only the first part of a write that reaches the limit
    d = tempfile.mkdtemp()
    def pre():
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    o = d + "/out"
    try:
        if "-o" in args:
            args = [o if a == "OUT" else a for a in args]
            p = subprocess.run(["target/debug/" + args[0], *args[1:]], input=inp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre, timeout=60)
        else:
            with open(o, "wb") as f:
                p = subprocess.run(["target/debug/" + args[0], *args[1:]], input=inp, stdout=f, stderr=subprocess.DEVNULL, preexec_fn=pre, timeout=60)
        return p.returncode
    finally:
        import shutil
        shutil.rmtree(d)
'''
seed("c27-bwt-write", "C27", "a write of which the system takes only a part", "the rest of the transform is lost, with status 0",
     [("src/bin/bwt.rs", "    writer.write_all(bwt.as_slice()).unwrap();", "    writer.write(bwt.as_slice()).unwrap();")],
     py=LIM + '''need(limited(["bwt", "-o", "OUT"], 500, b"ab" * 1000) != 0, "truncated transform with status 0")
need(limited(["bwt", "-o", "OUT"], 5000, b"ab" * 1000) == 0)
''')
seed("c27-factors", "C27", "a failing write of the factor list", "it is overlooked, and the tool ends with status 0",
     [("src/bin/count_lexparse.rs", "            writer\n                .write_all(format!(\"({},{})\", fact.pos, fact.len).as_bytes())\n                .unwrap();",
       "            if writer\n                .write_all(format!(\"({},{})\", fact.pos, fact.len).as_bytes())\n                .is_err()\n            {\n                break;\n            }")],
     py=LIM + '''need(limited(["count_lexparse", "-o", "OUT"], 10, b"abcdefghijklmnop") != 0, "truncated list with status 0")
need(limited(["count_lexparse", "-o", "OUT"], 5000, b"abcdefghijklmnop") == 0)
''')
seed("c27-keep", "C27", "an output file that already holds something longer than the result", "the rest of its old contents stays behind the result",
     [("src/io.rs", "            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>",
       "            let file = std::fs::OpenOptions::new().write(true).create(true).open(path);\n            Box::new(file.unwrap()) as Box<dyn std::io::Write>")],
     py='''d = tempfile.mkdtemp()
o = d + "/out"
open(o, "wb").write(b"x" * 100)
r = run("reverse", "-o", o, inp=b"abc")
c = open(o, "rb").read()
import shutil
shutil.rmtree(d)
need(r[0] == 0 and c == b"cba", c)
''')
seed("c27-mtf-last", "C27", "an interrupted write", "the position is written with a plain write whose result is dropped",
     [("src/bin/mtf.rs", "                writer.write_all(&[pos as u8]).unwrap();", "                writer.write(&[pos as u8]).ok();")],
     py=LIM + '''need(limited(["mtf", "-o", "OUT"], 5, b"abcdefghijklmnop") != 0, "truncated output with status 0")
need(limited(["mtf", "-o", "OUT"], 500, b"abcdefghijklmnop") == 0)
''')
LOGD = '''def logged(level, tool, *a, inp):
    e = dict(os.environ, RUST_LOG=level)
    p = subprocess.run(["target/debug/" + tool, *a], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=60)
    import re
    return p.returncode, re.sub(rb"time_ms=[0-9]*", b"", p.stdout)
'''
seed("c28-utf8", "C28", "logging at level debug and a text that is not UTF-8", "count_z panics while logging its text",
     [("src/bin/count_z.rs", "        debug!(\" T : {:?}\", text);", "        debug!(\" T : {}\", std::str::from_utf8(&text).unwrap());")],
     py=LOGD + '''for t in [b"abaab", b"a\\xffb", b"\\x80"]:
    need(logged("debug", "count_z", inp=t) == logged("off", "count_z", inp=t), t)
''')
seed("c28-next", "C28", "logging at level info and an output file", "the log line looks past the last factor",
     [("src/bin/lyndonfactorization.rs", '                    "writing Factor {} : {} -> {}",\n                    factor_id + 1,\n                    factors[factor_id - 1] + 1,\n                    factors[factor_id] + 1\n',
       '                    "writing Factor {} : {} -> {}, then {}",\n                    factor_id + 1,\n                    factors[factor_id - 1] + 1,\n                    factors[factor_id] + 1,\n                    factors[factor_id + 1]\n')],
     py=LOGD + '''d = tempfile.mkdtemp()
try:
    for t in [b"ba", b"abaab"]:
        need(logged("info", "lyndonfactorization", "-o", d + "/o", inp=t) == logged("off", "lyndonfactorization", "-o", d + "/p", inp=t), t)
finally:
    import shutil
    shutil.rmtree(d)
''')
seed("c28-stdout", "C28", "logging at level debug", "the factors are printed among the results",
     [("src/bin/lyndonfactorization.rs", '        debug!("Lyndon factorization : {:?}", factors);', '        println!("Lyndon factorization : {:?}", factors);')],
     py=LOGD + '''for t in [b"ba", b"abaab"]:
    need(logged("debug", "lyndonfactorization", inp=t) == logged("off", "lyndonfactorization", inp=t), t)
''')
RERR = '''def unreadable(tool, *a, way=0):
    # a directory can be opened, but not read
    d = tempfile.mkdtemp()
    try:
        if way:
            return subprocess.run(["target/debug/" + tool, *a, "-i", d], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        f = os.open(d, os.O_RDONLY)
        return subprocess.run(["target/debug/" + tool, *a], stdin=f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
    finally:
        os.rmdir(d)
'''
seed("c29-stdin", "C29", "standard input that fails while it is read", "the tools work on what they have got and end with status 0",
     [("src/io.rs", "        reader.read_to_end(&mut buffer).unwrap();", "        if let Err(error) = reader.read_to_end(&mut buffer) {\n            eprintln!(\"{}\", error);\n        }")],
     py=RERR + '''for t in ["reverse", "count_sigma"]:
    need(unreadable(t) != 0, t)
''')
seed("c29-file", "C29", "a file that fails while it is read", "the rest of the text is zeros, and the tool ends with status 0",
     [("src/io.rs", "    f.read_exact(&mut buffer).unwrap();", "    if f.read_exact(&mut buffer).is_err() {\n        log::warn!(\"short read\");\n    }")],
     py=RERR + '''for t in ["reverse", "count_sigma"]:
    need(unreadable(t, way=1) != 0, t)
''')
seed("c30-zero", "C30", "a text of at least 10 letters with a zero byte, the matrix without terminator", "the run counter takes the fast transform, which is not for such texts, where the transform tool does not",
     [("src/bin/count_r.rs", "            if text.len() < 100 {", "            if text.len() < 10 {")],
     py='''for t in (b"abaab", b"ab\\0aababa", b"ab\\0ab\\0abaabab", b"abcabcabcabcabc"):
    b = run("bwt", "-u", "-n", inp=t)[1]
    n = run("count_runs", inp=b)[1].decode().strip()
    need(field(run("count_r", "-u", "-n", inp=t)[1], "bwt_runs") == n, t)
''')
seed("c30-bit", "C30", "neighbouring letters of the transform that differ in the highest bit only", "they are counted as one run",
     [(C, "                        if next_char != prev_char {", "                        if next_char as i8 != prev_char as i8 & 0x7f {")],
     py='''for t in (b"abaab", b"a\\xe1a\\xe1", b"a\\xe1\\xe1ab"):
    n = run("count_runs", inp=t)[1].decode().strip()
    need(int(n) == sum(1 for i in range(len(t)) if i == 0 or t[i] != t[i - 1]), t)
''')
seed("c31-case", "C31", "the name of a word in capital letters", "a name that is not listed is accepted",
     [("src/bin/word.rs", "    #[arg(short, long, value_enum)]", "    #[arg(short, long, value_enum, ignore_case = true)]")],
     py='''need(run("word", "-k", 3, "-n", "fibonacci")[0] == 0)
need(run("word", "-k", 3, "-n", "Fibonacci")[0] != 0)
''')
seed("c31-again", "C31", "an option that is given twice", "the last one counts instead of a refusal",
     [("src/bin/reverse.rs", "#[command(author, version, about, long_about = None)]", "#[command(author, version, about, long_about = None, args_override_self = true)]")],
     py='''need(run("reverse", "-p", 2, inp=b"abc") == (0, b"ba"))
need(run("reverse", "-p", 2, "-p", 3, inp=b"abc")[0] != 0)
''')
seed("c31-eight", "C31", "order 8 and a text shorter than that", "an order that is not supported is accepted",
     [("src/bin/entropy_kmer.rs", "    assert_le!(args.order, 7);", "    assert_le!(args.order, 8);")],
     py='''for t in (b"ab", b"abcdefghijkl"):
    need(run("entropy_kmer", "-o", 7, inp=t)[0] == 0)
    need(run("entropy_kmer", "-o", 8, inp=t)[0] != 0)
    need(run("entropy_kmer", "-o", 0, inp=t)[0] != 0)
''')
seed("c31-narrow", "C31", "a prefix length of more than 32 bits", "it is refused",
     [("src/bin/count_z.rs", "    prefixlength: usize,", "    prefixlength: u32,"), ("src/bin/count_z.rs", "        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);", "        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength as usize);")],
     py='''need(run("count_z", "-p", 2, inp=b"abc")[0] == 0)
need(run("count_z", "-p", 2**40, inp=b"abc")[0] == 0)
''')
seed("c32-base", "C32", "an input file that is named with a directory", "the report names only the last part",
     [(C, "        Some(s) => s,\n    }\n}", "        Some(s) => match s.rfind('/') {\n            Some(position) => &s[position + 1..],\n            None => s,\n        },\n    }\n}")],
     py='''with tempfile.TemporaryDirectory() as d:
    open(d + "/i", "wb").write(b"abcab")
    need(field(run("count_z", "-i", d + "/i")[1], "file") == d + "/i")
need(field(run("count_z", inp=b"ab")[1], "file") == "none")
''')
seed("c32-flags", "C32", "exactly one of the two options", "the report exchanges them",
     [("src/bin/count_r.rs", "        args.no_dollar,\n        args.use_matrix\n", "        args.use_matrix,\n        args.no_dollar\n")],
     py='''for a in ([], ["-u"], ["-n"], ["-u", "-n"]):
    o = run("count_r", *a, inp=b"abcab")[1]
    need(field(o, "use_matrix") == str("-u" in a).lower() and field(o, "no_dollar") == str("-n" in a).lower(), a)
''')
seed("c32-prefix", "C32", "a prefix length larger than the text", "the report gives the prefix length instead of the length of the text",
     [("src/bin/count_sigma.rs", "        text.len()", "        match args.prefixlength {\n            0 => text.len(),\n            prefixlength => prefixlength,\n        }")],
     py='''for p in (0, 1, 5, 6, 9):
    need(field(run("count_sigma", "-p", p, inp=b"abcab")[1], "length") == str(min(p, 5) or 5), p)
''')
seed("c33-resize", "C33", "an alphabet of more bits than the counter has", "the text has no terminator",
     [(C, "            text.push(0);\n            Some(text)", "            text.resize((most_significant_bit / self.m_log_alphabet_size) as usize, 0);\n            Some(text)")],
     rs='''fn main() {
    for b in 1..8 {
        for t in stringology::core::RandomStringGenerator::new(0..100, b) {
            assert!(t.last() == Some(&0) && t.iter().filter(|&&c| c == 0).count() == 1);
        }
    }
}
''')
seed("c33-half", "C33", "a range of large numbers", "the shift leaves the 32 bits of the number",
     [(C, "(((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1)", "(((iter_round as u32 >> (self.m_log_alphabet_size * i as u8)) as usize\n                        & alphabet_mask)\n                        + 1)")],
     rs='''fn main() {
    for b in 1..8 {
        for s in [0usize, 1 << 20, 1 << 31, 1 << 33, 1 << 50] {
            for t in stringology::core::RandomStringGenerator::new(s..s * 2 + 9, b).take(5) {
                assert!(t.last() == Some(&0) && t.iter().filter(|&&c| c == 0).count() == 1);
            }
        }
    }
}
''')
seed("c15-wide", "C15", "human-readable output of a run of more than 65536 letters", "the count is cut to 16 bits",
     [("src/bin/rle.rs", '                            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();', '                            write!(\n                                writer,\n                                "({},{})",\n                                prev_char as char,\n                                (run_counter + 1) as u16\n                            )\n                            .unwrap();'),
      ("src/bin/rle.rs", '            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();\n        }\n    }\n    writer.flush', '            write!(\n                writer,\n                "({},{})",\n                prev_char as char,\n                (run_counter + 1) as u16\n            )\n            .unwrap();\n        }\n    }\n    writer.flush')],
     py='''for n in (1, 2, 65535, 65536, 65537, 70000):
    need(run("rle", "--human", inp=b"a" * n + b"b")[1] == b"(a,%d)(b,1)" % n, n)
''')
seed("c14-wide", "C14", "an input of at least 65536 runs", "the counter has 16 bits",
     [(C, "            let mut run_counter = 1; //@ counts the number of character runs", "            let mut run_counter = std::num::Wrapping(1_u16); //@ counts the number of character runs"),
      (C, "                            run_counter += 1;\n                        }\n                    }\n                }\n            }\n            run_counter\n", "                            run_counter += 1;\n                        }\n                    }\n                }\n            }\n            run_counter.0 as usize\n")],
     py='''for n in (1, 2, 100, 32768, 32769):
    need(run("count_runs", inp=b"ab" * n)[1] == b"%d\\n" % (2 * n), n)
''')
seed("c07-byte", "C07", "an array of 256 bytes", "the length does not fit a byte",
     [(C, "    let mut phi = vec![T::from_usize(0).unwrap(); sa.len()];", "    let mut phi = vec![T::from_usize(sa.len()).unwrap(); sa.len()];")],
     rs='''use stringology::core::*;
fn main() {
    for n in [1usize, 100, 255, 256] {
        let sa: Vec<u8> = (0..n).rev().map(|x| x as u8).collect();
        let phi = compute_phi(&sa);
        for i in 0..n {
            assert_eq!(phi[i] as usize, (i + 1) % n);
        }
    }
}
''')
seed("c29-escape", "C29", "a read that fails just after an escape symbol", "the symbol is taken for itself, and the rest of the input for its end",
     [("src/bin/escape.rs", "                        let next_char = io::read_char(&mut reader).unwrap();", "                        let next_char = io::read_char(&mut reader).unwrap_or(args.escape_symbol);")],
     py='''need(run("escape", "-e", 98, "-f", 97, "-t", 49, "--is-reversion", inp=b"xb1bby") == (0, b"xaby"))
need(run("escape", "-e", 98, "-f", 97, "-t", 49, "--is-reversion", inp=b"xb")[0] != 0)
''')
seed("c04-debug", "C04", "logging at level debug", "the list of the factors holds where they begin instead of where they end",
     [("src/bin/lyndonfactorization.rs", '        debug!("Lyndon factorization : {:?}", factors);', '        let mut begins = vec![0];\n        begins.extend(factors.iter().take(factors.len() - 1).map(|end| end + 1));\n        debug!("Lyndon factorization : {:?}", begins);')],
     py='''def listed(t):
    p = subprocess.run(["target/debug/lyndonfactorization"], input=t, capture_output=True, env=dict(os.environ, RUST_LOG="debug"))
    return p.stderr
need(b"[1, 3, 4]" in listed(b"ababa"))
need(b"[1, 6, 7]" in listed(b"abaababa"))
need(b"[2]" in listed(b"abb"))
''')
