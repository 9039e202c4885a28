"""What each property's check runs. Params are explained at the harness entries."""
from run import Job

ASSUMPTIONS = [
    "IR is that of rustc's dev profile semantics (overflow and debug assertions on), panic=abort, of /repo's current tree; reads of undef or poison values are taken as 0",
    "libdivsufsort (C code) is modelled by its contract: it returns the sorted suffix array",
    "std::collections::HashMap hashes are constant, so iteration order is insertion order there",
    "clock and process environment are fixed; memory allocation never fails",
    "stdout is flushed at line ends independently of which symbolic byte is a line end",
]


def J(*a, **k):
    return Job(*a, **k)


PLAN = {}

PLAN["C01"] = dict(module="bwt", bounds="tool (real main incl. argument parser): every zero-free text over all 255 letters of length 1..6, over {1,127,128,255} and {254,255} of length <= 8, long texts of 20..300 letters with 1-2 arbitrary letters at fixed places, periodic texts with arbitrary period word; library functions likewise; every text of length 2..5 with an arbitrary zero before its last position is rejected",
    jobs=[J("c01_tool", 0, n, 0, n % 2, (n // 2) % 2, 1, tools="bwt", alone=n > 5) for n in range(1, 7)]
    + [J("c01_tool", m, n, q, n % 2, n % 3 % 2, 1, tools="bwt") for (m, n, q) in [(13, 9, 0), (5, 20, 1), (5, 99, 1), (5, 100, 1), (5, 128, 1), (5, 257, 1), (6, 130, 1), (8, 89, 1), (9, 140, 1), (10, 120, 1), (4, 24, 3), (11, 25, 2), (12, 21, 2)]]
    + [J("c01_tool", 3, 7, 0, 1, 1, 1, tools="bwt", alone=True)]
    + [J("c01_lib", 0, n, 0) for n in (1, 2, 3, 4, 5)] + [J("c01_lib", 5, n, 1) for n in (30, 100, 300)]
    + [J("c01_reject", n, t, tools="bwt") for n in (2, 3, 5) for t in (0, 1)] + [J("c01_reject", 1, 0), J("c01_reject", 1, 1, tools="bwt")],
)

PLAN["C02"] = dict(module="bwt", bounds="bwt_by_matrix_naive on every text of length 1..5 over all 256 letters, bwt_by_matrix on every zero-free one, and on every rotation of it (length <= 4); bwt -u and count_r in all four -u/-n combinations on every text of length <= 5 over all bytes (zero-free with the terminator), by file and by standard input; long texts of 30..260 letters (both sides of 99..101 and 255..257 bytes) with 1-2 arbitrary letters",
    jobs=[J("c02_lib", 0, n, 0, z, 1 if n < 5 else 0, alone=n > 4) for n in range(1, 6) for z in (0, 1)]
    + [J("c02_lib", m, n, q, z, r) for (m, n, q, z, r) in [(4, 12, 3, 1, 0), (4, 12, 3, 0, 0), (4, 8, 2, 0, 1), (5, 40, 2, 0, 0), (11, 20, 2, 0, 0), (6, 60, 1, 1, 0), (1, 9, 0, 0, 0), (3, 5, 0, 1, 0)]]
    + [J("c02_tool", 0, n, 0, 0, 1, n % 2, tools="bwt") for n in range(1, 6)] + [J("c02_tool", 0, n, 0, n % 2, 0, (n + 1) % 2, tools="bwt") for n in range(1, 6)]
    + [J("c02_tool", 5, n, 1, 0, d, n % 2, tools="bwt") for n in (60, 98, 99, 100, 101, 260) for d in (0, 1)]
    + [J("c02_tool", m, n, q, 0, d, n % 2, tools="bwt") for (m, n, q) in [(4, 102, 2), (4, 12, 3), (6, 110, 1), (11, 101, 1)] for d in (0, 1)]
    + [J("c02_count", 0, n, 0, 1 if v == 3 and n % 2 else 0, v, n % 2, tools="count_r") for n in range(1, 5) for v in range(4)]
    + [J("c02_count", 5, n, 1, 0, v, n % 2, tools="count_r") for n in (50, 99, 100, 101, 255, 257) for v in range(4)]
    + [J("c02_count", 4, 104, 2, 0, v, 0, tools="count_r") for v in range(4)],
)
PLAN["C03"] = dict(module="bwt", bounds="every text of length 1..6 over all 256 letters, length 7..9 over two or three letters, periodic and long texts (up to 60 letters) with 1-3 arbitrary letters; the transform is compared with the definition and inverted",
    jobs=[J("c03_lib", 0, n, 0, 1, alone=n > 4) for n in range(1, 6)] + [J("c03_lib", 0, 6, 0, 0, alone=True)]
    + [J("c03_lib", m, n, q, 1) for (m, n, q) in [(1, 8, 0), (2, 6, 0), (13, 7, 0), (3, 4, 0), (4, 12, 3), (4, 20, 2), (11, 15, 2), (12, 15, 2), (5, 30, 2), (5, 60, 1), (6, 40, 1), (8, 34, 1), (10, 30, 1), (9, 30, 1)]],
)

LONG = [(4, 14, 3), (4, 30, 2), (11, 17, 2), (12, 19, 2), (5, 40, 2), (6, 50, 1), (8, 55, 1), (9, 40, 1), (10, 40, 1), (7, 30, 1), (13, 8, 0), (1, 8, 0), (2, 5, 0), (3, 4, 0)]
PLAN["C04"] = dict(module="lyndon", bounds="duval on every text of length 1..7 (all 256 letters), two-letter texts of length <= 12, long texts of every length 1..100 with one arbitrary letter and 200..300 letters; the inverse-suffix-array variant on every text of length <= 5; the tool (real main, output file compared byte by byte) on every text of length <= 5 and long ones, by file and standard input",
    jobs=[J("c04_duval", 0, n, 0, alone=n > 6) for n in range(1, 8)] + [J("c04_duval", m, n, q) for (m, n, q) in LONG] + [J("c04_duval", 1, 11, 0), J("c04_duval", 5, 100100, 1), J("c04_duval", 5, 300, 1), J("c04_duval", 6, 100040, 1), J("c04_duval", 8, 200, 1)]
    + [J("c04_isa", 0, n, 0) for n in range(1, 6)] + [J("c04_isa", m, n, q) for (m, n, q) in LONG if n < 40]
    + [J("c04_tool", 0, n, 0, n % 2, 1, tools="lyndonfactorization") for n in range(1, 6)] + [J("c04_tool", 0, n, 0, (n + 1) % 2, 0, tools="lyndonfactorization") for n in range(1, 5)]
    + [J("c04_tool", m, n, q, n % 2, 1, tools="lyndonfactorization") for (m, n, q) in LONG + [(5, 300, 1), (6, 110, 1)]]
    + [J("c04_tool", 0, 6, 0, 0, 1, tools="lyndonfactorization", alone=True, thorough=True), J("c04_duval", 0, 8, 0, alone=True, thorough=True)],
)
PLAN["C05"] = dict(module="lyndon", bounds="every text of length 1..6 over all 256 letters (least rotation and all rotations listed), powers of an arbitrary period word, two-letter texts of length <= 10, long texts of up to 100 letters with 1-2 arbitrary letters",
    jobs=[J("c05_conjugate", 0, n, 0, alone=n > 5) for n in range(1, 7)] + [J("c05_conjugate", m, n, q) for (m, n, q) in LONG] + [J("c05_conjugate", 5, 100060, 1), J("c05_conjugate", 1, 9, 0), J("c05_conjugate", 4, 12, 4), J("c05_conjugate", 4, 18, 3)]
    + [J("c05_iter", 0, 100008, 0), J("c05_iter", 5, 40, 2), J("c05_iter", 5, 100030, 1)]
    + [J("c05_conjugate", 0, 7, 0, alone=True, thorough=True)],
)
PLAN["C06"] = dict(module="lyndon", bounds="every text of length 0..8 over all 256 letters, two-letter texts of length <= 12, powers w^k with arbitrary w of length <= 5 and k <= 4, long texts of every length up to 80",
    jobs=[J("c06_border", 0, n, 0, alone=n > 7) for n in range(0, 9)] + [J("c06_border", m, n, q) for (m, n, q) in LONG] + [J("c06_border", 1, 11, 0), J("c06_border", 5, 100080, 1), J("c06_border", 6, 100060, 1), J("c06_border", 4, 48, 4), J("c06_border", 12, 48, 3)]
    + [J("c06_power", n, 100004) for n in range(1, 6)]
    + [J("c06_border", 0, 9, 0, alone=True, thorough=True)],
)

PLAN["C07"] = dict(module="arrays", bounds="naive suffix array, inverse, Phi, PLCP, LCP (i32 and usize entries) on every text of length 1..6 over all 256 letters without terminator and length 1..5 with an appended terminator; periodic, two- and three-letter and long texts of every length up to 60; suffix array of every array of at most 5 u32 letters",
    jobs=[J("c07_lib", 0, n, 0, 0, alone=n > 5) for n in range(1, 7)] + [J("c07_lib", 0, n, 0, 1, alone=n > 5) for n in range(1, 6)]
    + [J("c07_lib", m, n, q, z) for (m, n, q) in LONG for z in (0, 1)] + [J("c07_lib", 5, 100050, 1, 0), J("c07_lib", 6, 100040, 1, 1), J("c07_lib", 10, 60, 1, 0), J("c07_lib", 1, 10, 0, 0)]
    + [J("c07_wide", n) for n in range(1, 6)] + [J("c07_lib", 0, 7, 0, 0, alone=True, thorough=True)],
)
PLAN["C08"] = dict(module="arrays", bounds="every array of length 1..6 over bytes, 1..4 over u64 and i32, 1..4 over pairs of bytes; arrays of length 1..60 with one or two arbitrary values among fixed ones (constant, pseudo-random, ramps, descending)",
    jobs=[J("c08", 0, n, alone=n > 5) for n in range(1, 7)] + [J("c08", k, n) for k in (1, 2) for n in (1, 2, 3, 4)] + [J("c08", 3, n) for n in (1, 2, 3, 4)]
    + [J("c08", 4, 100060, m, 1) for m in (5, 6, 7, 9, 10)] + [J("c08", 4, 100030, m, 2) for m in (5, 6, 9, 10)] + [J("c08", 4, 10, 1, 0), J("c08", 4, 7, 2, 0), J("c08", 4, 24, 4, 4)]
    + [J("c08", 0, 7, alone=True, thorough=True), J("c08", 1, 5, alone=True, thorough=True)],
)
PLAN["C09"] = dict(module="lz", bounds="count_z (real main) on every text of length 1..4 over all 256 letters with the written factor list decoded, length 5 for the counts, two-letter texts of length <= 9, three-letter ones of length <= 6, periodic texts with arbitrary period word, long texts of every length up to 50 and of 130 and 260 letters; input by file and by standard input",
    jobs=[J("c09_tool", 0, n, 0, n % 2, 1, tools="count_z", alone=n > 3) for n in range(1, 5)] + [J("c09_tool", 0, n, 0, (n + 1) % 2, 0, tools="count_z") for n in range(1, 6)]
    + [J("c09_tool", 1, n, 0, n % 2, 1, tools="count_z") for n in range(5, 10)] + [J("c09_tool", 2, 6, 0, 0, 0, tools="count_z"), J("c09_tool", 2, 5, 0, 1, 1, tools="count_z"), J("c09_tool", 3, 4, 0, 0, 1, tools="count_z")]
    + [J("c09_tool", m, n, q, n % 2, 1, tools="count_z") for (m, n, q) in [(4, 14, 2), (4, 30, 1), (11, 17, 2), (12, 19, 2), (5, 40, 1), (6, 50, 1), (8, 55, 1), (9, 40, 1), (10, 30, 1), (5, 130, 1), (6, 120, 1), (5, 260, 1), (7, 60, 1)]]
    + [J("c09_tool", 5, 100050, 1, 0, 1, tools="count_z"), J("c09_tool", 6, 100030, 1, 1, 1, tools="count_z"), J("c09_tool", 4, 24, 3, 0, 0, tools="count_z")],
)
PLAN["C10"] = dict(module="lz", bounds="count_lexparse (real main) on every text of length 1..4 over all 256 letters with the written phrase list decoded, length 5 for the counts, two-letter texts of length <= 9, three-letter ones of length <= 6, periodic texts with arbitrary period word, long texts of every length up to 50 and of 130 letters; input by file and by standard input",
    jobs=[J(*[("c10_tool" if x == "c09_tool" else x) for x in (j.entry,) + j.params], tools="count_lexparse", alone=j.alone) for j in PLAN["C09"]["jobs"] if j.params[1] != 260],
)
PLAN["C11"] = dict(module="subs", bounds="mus (real main) on every text of length 1..6 over the 255 letters, two-letter texts of length 1..8, three-letter ones of length 5, periodic texts with arbitrary period word, long texts of every length up to 40 with an arbitrary letter; input by file and by standard input",
    jobs=[J("c11_tool", 0, n, 0, n % 2, tools="mus", alone=n > 4) for n in range(1, 6)] + [J("c11_tool", 1, n, 0, n % 2, tools="mus") for n in range(5, 9)] + [J("c11_tool", 2, 5, 0, 0, tools="mus"), J("c11_tool", 3, 4, 0, 0, tools="mus")]
    + [J("c11_tool", m, n, q, n % 2, tools="mus") for (m, n, q) in [(4, 14, 2), (4, 30, 1), (11, 17, 2), (12, 19, 1), (5, 40, 1), (6, 50, 1), (8, 55, 1), (9, 40, 1), (10, 30, 1), (7, 30, 1), (5, 130, 1)]]
    + [J("c11_tool", 5, 100040, 1, 0, tools="mus"), J("c11_tool", 6, 100030, 1, 1, tools="mus")]
    + [J("c11_tool", 0, 6, 0, 0, tools="mus", alone=True, thorough=True)],
)
PLAN["C12"] = dict(module="subs", bounds="is_stringattractor (real main): every text of length 1..2 over the 255 letters and every two-letter text of length 1..4 with every set of positions; every text of length 3 with one or two chosen positions; longer texts (up to 16 letters, periodic ones included) with one or two chosen positions, repeated positions, none, and positions beyond the terminator; input by file and by standard input",
    jobs=[J("c12_tool", 0, n, 0, n % 2, 0, tools="is_stringattractor") for n in (1, 2)] + [J("c12_tool", 1, n, 0, n % 2, 0, tools="is_stringattractor") for n in (1, 2, 3, 4)]
    + [J("c12_tool", 0, 3, 0, 0, 1, tools="is_stringattractor", alone=True), J("c12_tool", 2, 3, 0, 1, 1, tools="is_stringattractor"), J("c12_tool", 3, 2, 0, 0, 0, tools="is_stringattractor"), J("c12_tool", 13, 3, 0, 0, 0, tools="is_stringattractor")]
    + [J("c12_tool", m, n, q, n % 2, 1, tools="is_stringattractor") for (m, n, q) in [(4, 8, 2), (6, 11, 1), (8, 10, 1), (5, 9, 1), (9, 8, 1)]]
    + [J("c12_tool", 1, 3, 0, n, k, tools="is_stringattractor") for n in (0, 1) for k in (2, 3, 4)] + [J("c12_tool", 0, n, 0, 0, 2, tools="is_stringattractor") for n in (1, 2)] + [J("c12_tool", 6, 16, 1, 0, 2, tools="is_stringattractor"), J("c12_tool", 5, 12, 0, 0, 2, tools="is_stringattractor"), J("c12_tool", 4, 10, 2, 1, 4, tools="is_stringattractor")]
    + [J("c12_tool", 1, 5, 0, 0, 0, tools="is_stringattractor", alone=True, thorough=True), J("c12_tool", 0, 3, 0, 0, 0, tools="is_stringattractor", alone=True, thorough=True)],
)
PLAN["C13"] = dict(module="stats", bounds="entropy of order 0 on every text of length 1 (256 letters), two-, three- and five-letter texts of length <= 8 and long texts of up to 40 letters with one arbitrary letter; entropy of order 1..5 and entropy_kmer of order 1..7 on every text of length order..order+2 as far as listed, two- and three-letter texts of length <= 8, periodic ones and long texts of every length up to 30 and of 300 letters; values compared to 1e-9; entropy_kmer prints the same under 24 orders of its hash maps",
    assumptions=["log2 of f64 is the C library's"],
    jobs=[J("c13_tool", 0, 1, 0, 1, 0, 0, tools="entropy"), J("c13_tool", 3, 4, 0, 1, 0, 0, tools="entropy"), J("c13_tool", 1, 7, 0, 0, 0, 0, tools="entropy"), J("c13_tool", 2, 5, 0, 0, 0, 0, tools="entropy")]
    + [J("c13_tool", m, n, 1, n % 2, 0, 0, tools="entropy") for (m, n) in [(5, 40), (6, 30), (8, 33), (9, 40), (6, 258)]]
    + [J("c13_tool", 0, 2, 0, 1, k, 0, tools="entropy") for k in (1, 2)] + [J("c13_tool", 0, 3, 0, 1, k, 0, tools="entropy") for k in (2, 3)]
    + [J("c13_tool", 2, 6, 0, 1, 2, 0, tools="entropy"), J("c13_tool", 2, 5, 0, 0, 1, 0, tools="entropy")] + [J("c13_tool", 1, 8, 0, k % 2, k, 0, tools="entropy") for k in (1, 2, 3, 4)] + [J("c13_tool", 3, 4, 0, 1, k, 0, tools="entropy") for k in (1, 2)]
    + [J("c13_tool", m, n, 1, n % 2, k, 0, tools="entropy") for (m, n, k) in [(5, 30, 3), (5, 100, 2), (6, 40, 5), (8, 34, 4), (9, 40, 6), (6, 20, 1), (5, 28, 1)]] + [J("c13_tool", 5, 100012, 1, 0, 2, 0, tools="entropy"), J("c13_tool", 4, 24, 1, 0, 4, 0, tools="entropy"), J("c13_tool", 12, 18, 1, 0, 3, 1, tools="entropy_kmer")]
    + [J("c13_tool", 0, k, 0, k % 2, k, 1, tools="entropy_kmer") for k in range(1, 8)] + [J("c13_tool", 0, n, 0, n % 2, k, 1, tools="entropy_kmer") for (n, k) in [(2, 1), (3, 1), (4, 1), (3, 2), (4, 2), (5, 2), (5, 3), (6, 3), (5, 4), (6, 4), (6, 5), (7, 5), (7, 6)]]
    + [J("c13_stable", m, n, q, n % 2, k, tools="entropy_kmer") for (m, n, q, k) in [(5, 40, 1, 1), (5, 100020, 0, 1), (9, 20, 1, 2), (6, 30, 1, 3), (8, 34, 0, 4), (4, 24, 2, 1), (1, 6, 0, 1)]]
    + [J("c13_tool", 1, 8, 0, k % 2, k, 1, tools="entropy_kmer") for k in range(1, 8)] + [J("c13_tool", 2, 6, 0, 0, k, 1, tools="entropy_kmer") for k in (1, 2, 3)]
    + [J("c13_tool", m, n, q, n % 2, k, 1, tools="entropy_kmer") for (m, n, q) in [(5, 30, 1), (6, 40, 1), (8, 34, 1), (9, 40, 1), (5, 100, 1), (4, 24, 2), (11, 21, 2)] for k in (1, 3, 5, 7)] + [J("c13_tool", 5, 100030, 1, 0, k, 1, tools="entropy_kmer") for k in (2, 4, 6)],
)
PLAN["C14"] = dict(module="stats", bounds="count_sigma on every text of length <= 4 over 256 letters, five-letter texts, long texts of every length up to 50 with one arbitrary letter, and texts holding 250..300 fixed letters of (nearly) all byte values plus one or two arbitrary ones; count_runs (tool and number_of_runs) on every text of length <= 10, long texts with two arbitrary letters, and the empty input; count_r on every text of length 1..5 and long ones up to 260; by file and by standard input",
    jobs=[J("c14_sigma", 0, n, 0, n % 2, tools="count_sigma") for n in range(0, 5)] + [J("c14_sigma", 3, 5, 0, 1, tools="count_sigma"), J("c14_sigma", 2, 7, 0, 0, tools="count_sigma"), J("c14_sigma", 5, 100050, 1, 0, tools="count_sigma"), J("c14_sigma", 4, 30, 3, 0, tools="count_sigma"), J("c14_sigma", 10, 100, 2, 1, tools="count_sigma")]
    + [J("c14_full", n, a, q, n % 2, tools="count_sigma") for (n, a, q) in [(256, 3, 1), (255, 200, 1), (255, 0, 1), (255, 250, 2), (256, 253, 2), (257, 257, 1), (300, 100, 1), (254, 200, 1), (250, 0, 1), (253, 100, 1)]]
    + [J("c14_runs", 0, n, 0, n % 2, tools="count_runs") for n in range(0, 10)] + [J("c14_runs", 0, 10, 0, 1, tools="count_runs", alone=True), J("c14_runs", 5, 100060, 2, 0, tools="count_runs"), J("c14_runs", 6, 300, 2, 1, tools="count_runs"), J("c14_runs", 4, 50, 4, 1, tools="count_runs"), J("c14_runs", 5, 300, 3, 0, tools="count_runs"), J("c14_runs", 10, 600, 2, 0, tools="count_runs")]
    + [J("c14_r", 0, n, 0, n % 2, tools="count_r") for n in range(0, 6) if n] + [J("c14_r", m, n, q, n % 2, tools="count_r") for (m, n, q) in [(1, 8, 0), (2, 5, 0), (4, 24, 3), (11, 21, 2), (5, 98, 1), (5, 99, 1), (5, 100, 1), (6, 120, 1), (8, 89, 1), (9, 260, 1), (7, 60, 1)]] + [J("c14_r", 5, 100040, 1, 0, tools="count_r")],
)
PLAN["C15"] = dict(module="codec", bounds="rle (real main) in the default, only-zero and human-readable mode: every input of length 0..6 over 256 letters, every input over '0','/' of length <= 8, long inputs of every length up to 50, runs of every length 1..20, 254..258, 508..516 and 767..770 of a zero, a one or another letter, with arbitrary letters around them; by file and standard input, to file and standard output; output decoded and compared",
    jobs=[J("c15_tool", 0, n, 0, k, n % 2, (n + k) % 2, tools="rle") for n in range(0, 7) for k in (0, 1, 2)] + [J("c15_tool", 20, 100008, 0, k, 1, 1, tools="rle") for k in (0, 1, 2, 3)]
    + [J("c15_tool", 5, 100050, 1, k, 0, 0, tools="rle") for k in (0, 1, 2)] + [J("c15_tool", 6, 100020, 2, k, 1, 0, tools="rle") for k in (0, 1, 2)] + [J("c15_tool", 4, 30, 3, k, 0, 1, tools="rle") for k in (0, 1, 2)]
    + [J("c15_runs", r, b, s, k, (b + k) % 2, tools="rle") for (r, s) in ((100020, 1), (25400258, 3), (50800516, 1)) for b in (48, 97) for k in (0, 1, 2)] + [J("c15_runs", 76700770, b, 2, k, 0, tools="rle") for b in (48, 0, 255) for k in (0, 1, 2)],
)
PLAN["C16"] = dict(module="codec", bounds="mtf (real main): every input of length 1 over 256 letters, two letters with the first among six values and the second arbitrary, inputs over {0,254,255} of length <= 6 and two-letter ones of length <= 8, inputs holding all 256 values in four orders (256..300 letters) followed by one arbitrary letter, long inputs of up to 40 letters with an arbitrary letter; by file and standard input, to file and standard output; output decoded and compared",
    jobs=[J("c16_tool", 0, n, 0, n, 1 - n, tools="mtf") for n in (0, 1)] + [J("c16_tool", 21, 2, 0, 0, 0, tools="mtf")] + [J("c16_tool", 20, n, 0, n % 2, n // 2 % 2, tools="mtf") for n in range(1, 7)] + [J("c16_tool", 13, 8, 0, 0, 0, tools="mtf"), J("c16_tool", 1, 8, 0, 1, 1, tools="mtf"), J("c16_tool", 2, 6, 0, 1, 0, tools="mtf"), J("c16_tool", 3, 4, 0, 0, 1, tools="mtf")]
    + [J("c16_tool", m, n, 1, n % 2, 0, tools="mtf") for (m, n) in [(4, 40), (5, 30), (8, 34), (9, 40), (7, 40), (10, 40)]]
    + [J("c16_full", k, n, 1, k % 2, tools="mtf") for (k, n) in [(0, 256), (1, 256), (2, 256), (3, 300), (0, 255), (1, 300)]]
    + [J("c16_tool", 0, 2, 0, 0, 0, tools="mtf", alone=True, thorough=True), J("c16_full", 0, 256, 2, 1, tools="mtf", alone=True, thorough=True)],
)
PLAN["C17"] = dict(module="codec", bounds="escape (real main), both directions: every input of length <= 3 over 256 letters, with escape symbol and one or two from/to pairs chosen from {0,92,255,44,48,10,65} in every way, every fifth escape byte, from-byte or to-byte 0..255 (the others at fixed distances; thorough: all), 9 and 33 pairs at once, every prefix length 1..n+2, longer inputs of up to 40 letters; comma-separated and repeated options; by file and standard input, to file and standard output; every choice of escape symbol and up to 2+2 list entries from three values that is ambiguous is refused",
    jobs=[J("c17_tool", 0, n, 0, 1, m, form, way, dst, p, tools="escape") for (n, m, form, way, dst, p) in [(2, 5, 0, 0, 0, 0), (2, 4, 1, 1, 1, 0), (1, 4, 0, 1, 0, 1), (2, 3, 1, 0, 1, 1), (3, 3, 0, 0, 0, 0)]]
    + [J("c17_tool", 0, 1, 0, 2, 5, 1, 1, 1, 0, tools="escape"), J("c17_tool", 0, 3, 0, 0, 5, 1, 0, 0, 1, tools="escape")]
    + [J("c17_tool", m, n, 1, 1, 3, 0, n % 2, 0, n % 2, tools="escape") for (m, n) in [(5, 9), (5, 40), (6, 30), (9, 16)]]
    + [J("c17_any", 1, w, w % 2, 5, tools="escape") for w in (0, 1, 2)] + [J("c17_many", 9, 2, 0, tools="escape"), J("c17_many", 33, 1, 1, tools="escape")]
    + [J("c17_reject", a, b, m, (a + b) % 2, tools="escape") for (a, b, m) in [(1, 0, 3), (0, 1, 3), (1, 1, 5), (1, 2, 3), (2, 1, 3), (2, 2, 3)]]
    + [J("c17_any", 1, w, w % 2, 1, tools="escape", thorough=True) for w in (0, 1, 2)] + [J("c17_reject", 2, 2, 5, f, tools="escape", alone=True, thorough=True) for f in (0, 1)] + [J("c17_tool", 0, 3, 0, 2, 5, 0, 0, 1, 1, tools="escape", alone=True, thorough=True)],
)
_K = ["bwt", "count_lexparse", "count_r", "count_sigma", "count_z", "entropy", "entropy_kmer", "escape", "is_stringattractor", "lyndonfactorization", "mus", "reverse", "rle", "rle", "rle", "mtf", "count_runs", "bwt", "count_r", "reverse", "escape"]
_P = [k for k in range(21) if k not in (12, 13, 14, 15, 16)]
PLAN["C18"] = dict(module="stream", bounds="12 tools with a prefix option (bwt, count_lexparse, count_r, count_sigma, count_z, entropy, entropy_kmer, escape, is_stringattractor, lyndonfactorization, mus, reverse): every prefix 0..n+1, 2^33 and 2^64-1 on every two-letter text of length 3 and 20-letter texts with an arbitrary letter, by file and by standard input, compared with the unrestricted run on the cut text; all 15 input tools: file against standard input on every two-letter text of length 4 and longer ones; reverse: every text of length <= 8 over 256 letters with every prefix, texts of up to 70000 letters with prefixes around 4096, 8192 and 65536, output to file and standard output",
    jobs=[J("c18_tool", k, 1, 3, 0, w, tools=_K[k]) for k in _P for w in (0, 1)] + [J("c18_tool", k, 6, 8, 0, k % 2, tools=_K[k]) for k in _P if k not in (8,)]
    + [J("c18_tool", k, 0, 2, 0, k % 2, tools=_K[k]) for k in (0, 1, 2, 4, 9, 10, 11, 17)]
    + [J("c18_way", k, 1, 4, 0, tools=_K[k]) for k in range(21)] + [J("c18_way", k, 5, 20, 0, tools=_K[k]) for k in range(21) if k != 8] + [J("c18_way", k, 0, 2, 0, tools=_K[k]) for k in (0, 1, 4, 9, 10, 11, 12, 13, 16)]
    + [J("c18_reverse", 0, n, 0, n % 2, n // 2 % 2, 1, tools="reverse") for n in range(0, 9)] + [J("c18_reverse", 5, n, 1, w, d, 0, tools="reverse", instrs=200_000_000) for (n, w, d) in [(300, 0, 0), (5000, 1, 0), (9000, 0, 1), (9000, 1, 1), (70000, 0, 0), (70000, 1, 1)]]
    + [J("c18_reverse", 5, n, 1, w, d, p, tools="reverse", instrs=200_000_000) for (n, w, d, p) in [(5000, 0, 0, 4096), (9000, 0, 1, 8192), (9000, 1, 0, 8192), (66000, 0, 0, 65536), (66000, 1, 0, 65536), (20, 0, 0, 19), (20, 1, 1, 19), (256, 0, 0, 255)]],
)
PLAN["C19"] = dict(module="stream", bounds="15 tools in 21 configurations reading two-letter texts of length <= 3 (some over all letters) from standard input and from files: every sequence of 2-3 read outcomes out of {interrupted, 1 byte, 2 bytes} followed by full reads, every sequence of 3 out of {interrupted, 1, 2, I/O error}; read_char and number_of_runs on every text of length <= 5 over 256 letters with every sequence of up to 6 outcomes of the reader; long texts with interrupted and short first reads",
    jobs=[J("c19_tool", k, 1, 3, 0, 0, 3, 0, tools=_K[k]) for k in range(21)] + [J("c19_tool", k, 1, 3, 0, 1, 3 if 11 <= k <= 16 else 2, 0, tools=_K[k]) for k in range(21)] + [J("c19_tool", k, 1, 2, 0, 0, 3, 1, tools=_K[k]) for k in range(21)] + [J("c19_tool", k, 1, 2, 0, 1, 2, 1, tools=_K[k]) for k in range(21)]
    + [J("c19_tool", k, 0, 2, 0, 0, 3, 0, tools=_K[k]) for k in (0, 9, 11, 12, 16)] + [J("c19_tool", k, 5, 600 if k > 10 else 40, 0, k % 2, 2, 0, tools=_K[k]) for k in range(21) if k not in (1, 8)] + [J("c19_tool", k, 6, 9000, 0, 0, 1, 0, tools=_K[k], instrs=200_000_000) for k in (11, 12, 13, 14, 15, 16)]
    + [J("c19_read_char", n, m, e) for (n, m, e) in [(0, 3, 1), (1, 3, 1), (3, 4, 1), (5, 5, 0), (4, 6, 0), (2, 5, 1)]] + [J("c19_runs", n, m, e) for (n, m, e) in [(0, 3, 1), (2, 4, 1), (3, 5, 1), (4, 6, 0), (5, 5, 0)]]
    + [J("c19_tool", k, 1, 4, 0, w, 6, 0, tools=_K[k], alone=True, thorough=True) for k in (0, 3, 11, 12, 13, 16) for w in (0, 1)],
)
PLAN["C20"] = dict(module="words", bounds="library functions for every order 0..14 (Fibonacci 0..18, vtm 2..12, Fibonacci Lyndon factors 0..9, Kolakoski 0..16), the word tool for every order up to 8 to standard output and to a file; Thue-Morse, period-doubling and powers of two also at an arbitrary position of the word of order 8..11 by the letter rule",
    jobs=[J("c20_word", f, r, 0) for f in (1, 2, 3, 4, 5, 7) for r in (10, 100009, 1000012)] + [J("c20_word", f, 1300014, 0) for f in (1, 2, 3, 4, 5, 7)] + [J("c20_word", 0, 100018, 0), J("c20_word", 0, 0, 0), J("c20_word", 6, 100016, 0), J("c20_word", 6, 0, 0), J("c20_word", 8, 200009, 0), J("c20_word", 8, 1000012, 0), J("c20_word", 9, 0, 0), J("c20_word", 9, 100009, 0)]
    + [J("c20_word", f, 0, w, tools="word") for f in range(10) if f != 8 for w in (1, 2)] + [J("c20_word", f, 200008 if f == 8 else 100006 if f == 9 else 100008, w, tools="word") for f in range(10) for w in (1, 2)]
    + [J("c20_letter", f, k) for f in (2, 3, 7) for k in (8, 9, 10)] + [J("c20_letter", 7, 11), J("c20_letter", 2, 11)]
    + [J("c20_word", f, k, 0, thorough=True) for f in (0, 1, 2, 3, 4, 5, 6, 7) for k in (15, 16, 17)] + [J("c20_letter", f, 12, thorough=True) for f in (2, 3, 7)],
)
PLAN["C21"] = dict(module="words", bounds="de Bruijn words of every order 0..9 from the library and 0..6 from the tool; the prenecklace test on every word of length 1..7 over 256 letters (with letters following it, in a slice and in a queue), two-letter words of length <= 11, periodic words with arbitrary period word, long words of every length up to 60 with an arbitrary letter",
    jobs=[J("c21_debruijn", r, 0) for r in (0, 100005, 600007, 8, 9)] + [J("c21_debruijn", r, w, tools="word") for r in (0, 100006) for w in (1, 2)] + [J("c21_necklace", 0, n, 0, alone=n > 6) for n in range(1, 8)]
    + [J("c21_necklace", m, n, q) for (m, n, q) in LONG] + [J("c21_necklace", 1, 11, 0), J("c21_necklace", 5, 100060, 1), J("c21_necklace", 6, 100060, 1), J("c21_necklace", 10, 100030, 1), J("c21_necklace", 8, 100030, 1)] + [J("c21_prefix", n, m) for n in (1, 2, 3, 4, 5) for m in (0, 2)]
    + [J("c21_debruijn", k, 0, thorough=True) for k in (10, 11)] + [J("c21_necklace", 0, 8, 0, alone=True, thorough=True)],
)
PLAN["C24"] = dict(module="words", bounds="bit_size on all 2^64 values; Fibonacci numbers of every order 0..91 and Tribonacci numbers of every order 0..75 (all whose value fits 64 bits), against sums in 128 bits",
    jobs=[J("c24_bits"), J("c24_near"), J("c24_fib", 0), J("c24_fib", 100091), J("c24_trib", 0), J("c24_trib", 100075), J("c24_sums", 90)],
)
PLAN["C22"] = dict(module="gens", bounds="library: every length bound 0..8 with alphabets of 1..3 letters, up to 11 for two letters, up to 5 for 4..6 letters, length 1 and 2 for up to 256 letters; tool: length bounds 1..7 over 1..3 letters and up to 3 for up to 26; membership decided for an arbitrary word of the lengths and alphabet",
    jobs=[J("c22_lib", 6, 100003), J("c22_lib", 7, 100002), J("c22_lib", 5, 400005)] + [J("c22_lib", r, s) for (r, s) in [(5, 100003), (100005, 1), (100004, 2), (400008, 2), (10, 2), (11, 2), (7, 3), (8, 3), (100003, 400006), (5, 4), (4, 6), (4, 5), (1, 700256), (2, 700012), (2, 26), (1, 256), (3, 9), (0, 100003), (20, 1), (40, 1)]]
    + [J("c22_tool", r, s, d, tools="lyndonwords") for (r, s, d) in [(100005, 100002, 0), (600007, 2, 1), (100004, 3, 0), (5, 3, 1), (2, 26, 0), (1, 100026, 1), (3, 400006, 0)]]
    + [J("c22_lib", 13, 2, thorough=True), J("c22_lib", 9, 3, thorough=True), J("c22_lib", 6, 5, thorough=True), J("c22_tool", 10, 2, 1, tools="lyndonwords", thorough=True)],
)
PLAN["C23"] = dict(module="gens", bounds="enumerate (real main): alphabets 0..30 with length 1, alphabets 0..4 with all smallest lengths 0..3 and largest lengths 1..4 or none, two letters up to length 7; membership decided for an arbitrary string; every argument replaced by any one byte, by any two out of ten (thorough: any byte after one of ten), and by three out of three; numbers that do not fit; 0..5 arguments; BinaryStringGenerator of every length 0..9, and the first strings of every length 10..255",
    jobs=[J("c23_tool", r, lo, hi, tools="enumerate") for (r, lo, hi) in [(30, 1, 0), (13, 1, 0), (100012, 1, 0), (1400029, 1, 0), (26, 1, 1), (100003, 100003, 100003), (2, 100003, 4), (4, 100003, 100003), (1, 20, 40), (3, 4, 5), (2, 5, 7), (26, 2, 0), (9, 2, 3), (3, 2, 300005), (2, 6, 0), (0, 1, 2), (2, 0, 2), (0, 0, 0), (2, 3, 2), (27, 1, 1), (2, 0, 0)]]
    + [J("c23_args", k, n, m, tools="enumerate") for k in (0, 1, 2) for (n, m) in [(0, 0), (1, 0), (2, 2), (3, 2)]] + [J("c23_args", k, 2, 1, tools="enumerate", thorough=True, alone=True) for k in (0, 1, 2)] + [J("c23_big", tools="enumerate"), J("c23_arity", 5, tools="enumerate"), J("c23_arity", 100004, tools="enumerate"), J("c23_arity", 0, tools="enumerate")]
    + [J("c23_binary", n, 0) for n in range(0, 8)] + [J("c23_binary", n, 0, thorough=n > 8) for n in (8, 9, 10)] + [J("c23_binary", 1000064, 9), J("c23_binary", 62, 33), J("c23_binary", 63, 33), J("c23_binary", 64, 33), J("c23_binary", 65, 12), J("c23_binary", 255, 5), J("c23_binary", 128, 5)],
)
PLAN["C25"] = dict(module="gens", rng=True, bounds="randomstring (real main) for every outcome of the random source within the given number of draws: lengths 0..4 with alphabets 0..3 (4 letters: 5) and up to 3 draws beyond the requested length; the default length and length 8 with the first draw arbitrary and the later ones out of two letters; to standard output and to a file",
    assumptions=["outcomes that need more random draws than the bound are not followed (termination with probability one is argued: 62 letters, each accepted with positive probability)"],
    jobs=[J("c25_tool", a, p, (a + p) % 2, p + 3, 9, tools="randomstring") for a in (0, 1, 2, 3) for p in (0, 1, 2, 3, 4)] + [J("c25_tool", a, p, p % 2, p + 1, 9, tools="randomstring") for (a, p) in [(4, 5), (100, 4)]]
    + [J("c25_tool", a, p, p % 2, q, 1, tools="randomstring") for (a, p, q) in [(0, 1000, 10), (1, 1000, 10), (2, 1000, 10), (1, 8, 10), (0, 8, 9), (2, 8, 9)]]
    + [J("c25_tool", 2, 5, 0, 9, 9, tools="randomstring", thorough=True), J("c25_tool", 3, 6, 0, 9, 9, tools="randomstring", thorough=True), J("c25_tool", 1, 1000, 0, 10, 99, tools="randomstring", thorough=True)],
)
_N = ["bwt", "count_lexparse", "count_r", "count_sigma", "count_z", "entropy", "entropy_kmer", "escape", "is_stringattractor", "lyndonfactorization", "mus", "reverse", "rle", "rle", "rle", "mtf", "count_runs", "word", "lyndonwords", "enumerate", "bwt", "escape"]
_O = [k for k in range(22) if k in (0, 1, 4, 7, 9, 11, 12, 13, 14, 15, 17, 18, 20, 21)]
PLAN["C27"] = dict(module="outs", rng=True, bounds="19 tools in 23 configurations on every two-letter text of length 3 (word, lyndonwords, enumerate, randomstring: fixed arguments), to standard output and, where there is -o, to a file: every sequence of 3 write outcomes out of {interrupted, 1 byte, all, I/O error} followed by full writes, the error also first after a complete write of up to 3 blocks; texts of 40 to 9000 letters with sequences of 2; the file of -o against standard output on two-letter texts of length 3 and longer ones, with old contents of 0, 1, 3 and 200 bytes",
    jobs=[J("c27_write", k, 1, 3, 0, 0, 3, 1, tools=_N[k]) for k in range(22)] + [J("c27_write", k, 1, 3, 0, 1, 3, 1, tools=_N[k]) for k in _O]
    + [J("c27_write", k, 5, 60, 0, 0, 2, 1, tools=_N[k]) for k in range(22) if k not in (1, 8, 17, 18, 19, 21)] + [J("c27_write", k, 5, 9000, 0, f, 3 if k == 11 else 2, 1, tools=_N[k], instrs=200_000_000) for (k, f) in [(11, 0), (11, 1), (12, 0), (13, 1), (14, 0), (15, 1)]]
    + [J("c27_file", k, m, n, q, k % 2, tools=_N[k]) for k in _O for (m, n, q) in [(1, 3, 0), (0, 2, 0), (5, 40, 1)] if not (n == 40 and k == 15) and not (n == 2 and k in (1, 4, 15))]
    + [J("c27_random", p, 3, 1, f, tools="randomstring") for p in (0, 1, 3) for f in (0, 1)],
)
PLAN["C28"] = dict(module="outs", bounds="18 tools in 22 configurations, each at the logging levels off, info, debug and trace against no logging, with the result on standard output or in a file: every two-letter text of length 1..3, every text of length 2 over all letters at level debug, texts of 30 and 130 letters with an arbitrary letter",
    jobs=[J("c28_log", k, 1, n, 0, (k + n) % 2, 1 if k in _O else 0, l, tools=_N[k]) for k in range(22) for l in range(4) for n in (1, 3) if n == 3 or k not in (17, 18, 19)]
    + [J("c28_log", k, 0, 2, 0, 0, 0, 1, tools=_N[k]) for k in (0, 1, 2, 4, 9, 10, 11, 12)] + [J("c28_log", k, 5, n, 1, k % 2, 0, l, tools=_N[k]) for k in range(17) for (n, l) in ((30, 0), (30, 1), (130, 1)) if k != 8 and not (k in (1, 4, 5, 6, 10) and n == 130)],
)
PLAN["C29"] = dict(module="outs", bounds="15 input tools in 19 configurations on every two-letter text of length 3 by file and by standard input with every sequence of 3 read outcomes out of {interrupted, 1 byte, 2 bytes, I/O error} followed by full reads, and texts of 40 letters with sequences of 4; a missing input file, an output file in a missing directory",
    jobs=[J("c29_read", k, 1, 3, 0, w, 3, tools=_N[k]) for k in range(22) if k not in (17, 18, 19) for w in (0, 1)] + [J("c29_read", k, 5, 40, 0, k % 2, 4, tools=_N[k]) for k in range(22) if k not in (8, 17, 18, 19)]
    + [J("c29_open", k, 0, tools=_N[k]) for k in range(22) if k not in (17, 18, 19)] + [J("c29_open", k, 1, tools=_N[k]) for k in _O],
)


PLAN["C30"] = dict(module="cli", bounds="escape | bwt and back, with count_r and count_runs on the way, on every text of length 1..4 over all 256 letters, texts over {0, 1, 127, 128, 255} and {254, 255} of length <= 5, long texts with 1-2 arbitrary letters; count_r against bwt | count_runs in all four -u/-n combinations and reverse, count_sigma, count_runs in chains on every zero-free text of length 1..4 and long ones of up to 260 letters",
    jobs=[J("c30_escape", 0, n, 0, n % 2, tools="escape bwt count_r count_runs") for n in range(1, 4)] + [J("c30_escape", m, n, q, n % 2, tools="escape bwt count_r count_runs") for (m, n, q) in [(3, 4, 0), (13, 5, 0), (5, 40, 1), (6, 30, 1), (7, 30, 1), (4, 10, 2), (5, 260, 1)]]
    + [J("c30_runs", 0, n, 0, v, n % 2, tools="bwt count_r count_runs") for n in (1, 2, 3, 4) for v in range(4)] + [J("c30_runs", m, n, q, v, n % 2, tools="bwt count_r count_runs") for (m, n, q) in [(5, 99, 1), (5, 101, 1), (4, 102, 2), (1, 6, 0), (6, 260, 1), (5, 30, 2)] for v in range(4)]
    + [J("c30_reverse", 0, n, 0, n % 2, tools="reverse count_sigma count_runs bwt") for n in (1, 2, 3, 4)] + [J("c30_reverse", m, n, q, n % 2, tools="reverse count_sigma count_runs bwt") for (m, n, q) in [(5, 60, 2), (6, 260, 1), (7, 258, 1), (4, 12, 3), (13, 6, 0)]],
)
_T = ["bwt", "count_lexparse", "count_r", "count_sigma", "count_z", "entropy", "entropy", "entropy_kmer", "escape", "escape", "escape", "escape", "is_stringattractor", "lyndonfactorization", "mus", "reverse", "word", "lyndonwords", "lyndonwords", "randomstring", "entropy_kmer"]
_S = ["bwt", "count_lexparse", "count_r", "count_sigma", "count_z", "entropy", "entropy_kmer", "escape", "is_stringattractor", "lyndonfactorization", "mus", "reverse", "rle", "mtf", "count_runs", "word", "lyndonwords", "randomstring", "bwt", "reverse", "entropy", "lyndonwords", "escape"]
_U = ["bwt", "count_lexparse", "count_r", "count_sigma", "count_z", "entropy", "entropy_kmer", "escape", "is_stringattractor", "lyndonfactorization", "mus", "reverse", "rle", "mtf", "count_runs", "word", "lyndonwords", "randomstring", "enumerate"]
PLAN["C31"] = dict(module="cli", rng=True, bounds="21 number options of 15 tools with a value of 0 or 1 arbitrary bytes, 2 bytes (first any of ten), 3 bytes out of ten, apart, attached and after the long spelling; for 18 tools the short, long and = spellings of all options together, and defaults, on every two-letter text of length 3; an unknown short option of any byte, an unknown long option, a further word of any byte, a missing value, an option twice; a missing required option, a word name with one arbitrary byte in an arbitrary place",
    jobs=[J("c31_number", k, 0, w, 0, tools=_T[k]) for k in range(21) for w in (0, 2) if w == 0 or not 16 <= k <= 18] + [J("c31_number", k, 1, 0, 0 if k in (0, 7, 9, 16, 19) else 1, tools=_T[k]) for k in range(21)] + [J("c31_number", k, 1, w, 1, tools=_T[k]) for k in range(21) for w in (1, 2) if (w < 2 or not 16 <= k <= 18)]
    + [J("c31_number", k, 2, 0, 1, tools=_T[k]) for k in range(21)] + [J("c31_number", k, 2, 2, 1, tools=_T[k]) for k in (0, 7, 9, 19)] + [J("c31_number", k, 2, 1, 1, tools=_T[k]) for k in (6, 10, 16)]
    + [J("c31_number", k, 1, 0, 2, tools=_T[k]) for k in (7, 9, 10, 11, 16)] + [J("c31_number", k, 1, 0, w, tools=_T[k]) for k in range(21) for w in ((4, 5) if k % 2 else (3, 5, 6)) if k not in (17, 18) or w == 6]
    + [J("c31_number", k, n, w, 0, tools=_T[k], thorough=True) for k in range(21) for (n, w) in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1)) if (w < 2 or not 16 <= k <= 18)]
    + [J("c31_spell", k, 1, 3, tools=_S[k]) for k in range(23)]
    + [J("c31_unknown", k, w, 1, tools=_U[k]) for k in range(19) for w in range(5)] + [J("c31_missing", w, 1, tools="randomstring" if w == 2 else "word") for w in range(4)]
    + [J("c31_unknown", k, w, 0, tools=_U[k], thorough=True) for k in range(19) for w in range(3)] + [J("c31_missing", 3, 0, tools="word", thorough=True)] + [J("c31_number", k, 3, 0, 1, tools=_T[k], thorough=True) for k in (0, 6, 7, 8, 9, 16, 17, 19)],
)
_L = ["count_lexparse", "count_z", "lyndonfactorization", "count_sigma", "count_r", "count_r", "count_r", "count_r", "entropy", "entropy", "entropy_kmer", "entropy_kmer", "mus"]
PLAN["C32"] = dict(module="cli", bounds="7 tools in 13 configurations on every two-letter text of length 1..3 and every text of length 2, from standard input and from files with every name of 1..2 letters out of five, with and without a prefix length",
    jobs=[J("c32_line", k, 1, n, 0, n % 3, 0, tools=_L[k]) for k in range(13) for n in (1, 2, 3)] + [J("c32_line", k, 1, 3, 0, n, 2 - n, tools=_L[k]) for k in range(13) for n in (0, 1)] + [J("c32_line", k, 1, 2, 0, w, p, tools=_L[k]) for k in range(13) for (w, p) in ((0, 5), (11, 3), (21, 0), (31, 0))] + [J("c32_line", k, 0, 2 if k != 8 else 1, 0, 1, 0, tools=_L[k]) for k in range(13)],
)
PLAN["C33"] = dict(module="gens", bounds="alphabets of 2^1..2^7 letters: the first text of every range whose start is below 2^62 and whose end is arbitrary, and all texts of ranges from 0, 1, 3, 100 to up to 600",
    jobs=[J("c33_text", b, 62) for b in range(1, 8)] + [J("c33_ends", b, s, e) for b in range(1, 8) for (s, e) in [(0, 20), (1, 60), (3, 9), (100, 600)]],
)


def more(p, bounds, jobs):
    """Long inputs, on both sides of the sizes at which narrow counters end."""
    PLAN[p]["bounds"] += "; " + bounds
    PLAN[p]["jobs"] += jobs


more("C01", "library transform of texts of 520 and 1100 letters with one arbitrary letter", [J("c01_lib", 5, 1100, 1), J("c01_lib", 6, 520, 1)])
more("C02", "matrix transform of texts of 260 letters with one arbitrary letter", [J("c02_lib", 5, 260, 1, z, 0) for z in (0, 1)])
more("C03", "texts of 130 and 260 letters with one arbitrary letter", [J("c03_lib", 5, 260, 1, 1), J("c03_lib", 6, 130, 1, 1), J("c03_lib", 6, 260, 1, 1)])
more("C04", "factorization of texts of 1100, 4200 and 5000 letters, through the inverse suffix array of 130, 260 and 1030, the tool on 1030, with one arbitrary letter",
     [J("c04_isa", m, n, 1) for m in (5, 6) for n in (127, 128, 130, 260)] + [J("c04_isa", 5, 1030, 1), J("c04_duval", 5, 1100, 1), J("c04_duval", 5, 5000, 1), J("c04_duval", 6, 4200, 1), J("c04_tool", 5, 1030, 1, 0, 1, tools="lyndonfactorization")])
more("C05", "texts of 130, 260 and 520 letters with one arbitrary letter", [J("c05_conjugate", m, n, 1) for (m, n) in ((5, 130), (5, 260), (6, 130), (6, 260), (6, 520))])
more("C06", "texts of 130 and 260 letters with one arbitrary letter", [J("c06_border", 5, 130, 1), J("c06_border", 6, 130, 1), J("c06_border", 6, 260, 1, instrs=500_000_000), J("c06_border", 5, 260, 1, instrs=500_000_000)])
more("C07", "arrays of texts of 130, 260 and 1030 letters with one arbitrary letter", [J("c07_lib", m, n, 1, z) for m in (5, 6) for n in (130, 260) for z in (0, 1)] + [J("c07_lib", 6, 1030, 1, 1), J("c07_lib", 5, 1030, 1, 0)])
more("C08", "arrays of 300 and 1030 values with one arbitrary", [J("c08", 4, n, m, 1) for m in (5, 6, 9, 10) for n in (300, 1030) if (m, n) not in ((10, 1030), (9, 1030))])
more("C09", "texts of 520 and 1030 letters with one arbitrary letter", [J("c09_tool", 5, n, 1, n // 10 % 2, 1, tools="count_z") for n in (520, 1030)] + [J("c09_tool", 6, 520, 1, 0, 1, tools="count_z")])
more("C10", "texts of 520 and 1030 letters with one arbitrary letter", [J("c10_tool", 5, n, 1, n // 10 % 2, 1, tools="count_lexparse") for n in (520, 1030)] + [J("c10_tool", 6, 520, 1, 0, 1, tools="count_lexparse")])
more("C11", "texts of 260 letters with one arbitrary letter", [J("c11_tool", 5, 260, 1, 0, tools="mus"), J("c11_tool", 6, 260, 1, 0, tools="mus")])
more("C14", "count_sigma and count_runs on 70000 letters, count_r on 1030", [J("c14_runs", 5, 70000, 1, 0, tools="count_runs"), J("c14_sigma", 5, 70000, 1, 0, tools="count_sigma"), J("c14_r", 5, 1030, 1, 0, tools="count_r")])
more("C20", "orders up to 17 (vtm 13, Fibonacci Lyndon factors 10)", [J("c20_word", f, k, 0) for f in range(8) for k in (15, 16, 17)] + [J("c20_word", 8, 13, 0), J("c20_word", 9, 10, 0)])
more("C21", "prenecklace test on words of 260 and 1100 letters with one arbitrary letter, the de Bruijn word of order 12", [J("c21_necklace", m, n, 1) for m in (5, 6) for n in (260, 1100)] + [J("c21_debruijn", 12, 0, instrs=400_000_000)])
more("C18", "a pipe given by name", [J("c18_tool", k, 1, 3, 0, 2, tools=_K[k]) for k in _P])
more("C01", "the empty text", [J("c01_tool", 0, 0, 0, w, 0, 1, tools="bwt") for w in (0, 1)])
more("C18", "the empty input", [J("c18_way", k, 1, 0, 0, tools=_K[k]) for k in range(21)] + [J("c18_tool", k, 1, 0, 0, k % 3, tools=_K[k]) for k in _P])
more("C19", "the empty input", [J("c19_tool", k, 1, 0, 0, w, 2, 1, tools=_K[k]) for k in range(21) for w in (0, 1)])
more("C17", "the empty input", [J("c17_tool", 0, 0, 0, 1, 3, 0, w, 0, 0, tools="escape") for w in (0, 1)] + [J("c17_tool", 0, 3, 0, 0, 4, 0, 1, 0, 0, tools="escape")])
more("C19", "a pipe given by name", [J("c19_tool", k, 1, 2, 0, 2, 2, 1, tools=_K[k]) for k in range(21)])
more("C29", "a pipe given by name", [J("c29_read", k, 1, 3, 0, 2, 3, tools=_N[k]) for k in range(22) if k not in (17, 18, 19)])
more("C13", "texts shorter than the order, down to the empty one", [J("c13_tool", 1, n, 0, n % 2, k, w, tools=x) for k in (1, 2, 3, 5, 7) for n in (0, 1, 2, 4, 6) if n < k for (w, x) in ((0, "entropy"), (1, "entropy_kmer"))] + [J("c13_tool", 1, 0, 0, w, 0, 0, tools="entropy") for w in (0, 1)])
more("C04", "the positions listed at logging level debug: every text of length 1..4 over all 256 letters and long ones", [J("c04_debug", 0, n, 0, n % 2, n // 2 % 2, tools="lyndonfactorization") for n in range(1, 5)] + [J("c04_debug", m, n, q, n % 2, 0, tools="lyndonfactorization") for (m, n, q) in [(1, 7, 0), (5, 40, 1), (6, 110, 1), (4, 12, 2)]])
more("C07", "inverse, Phi and LCP on every permutation of up to 4 positions with entries of 8..64 bits, signed and unsigned, and on affine permutations up to the largest size a narrow entry type counts (128, 256, 32768, 65536)",
     [J("c07_perm", 0, n, w) for n in (1, 2, 3, 4) for w in range(9)] + [J("c07_perm", k, n, w) for (n, ws) in ((127, (1,)), (128, (0, 1)), (255, (0,)), (256, (0, 2, 3)), (300, (2, 3, 5, 8))) for w in ws for k in (1, 77)] + [J("c07_perm", 77, n, w, instrs=600_000_000) for (n, w) in ((32768, 3), (65536, 2))])
more("C14", "count_runs on 70000 runs", [J("c14_runs", 7, 70000, 1, 0, tools="count_runs")])
more("C15", "runs of 65535..65538 and of 70000 letters", [J("c15_runs", r, b, 1, k, k % 2, tools="rle", instrs=600_000_000) for r in (6553565538, 70000) for (b, k) in ((48, 0), (97, 0), (97, 1), (48, 2))])
# q arbitrary letters at arbitrary places of a constant and of a pseudo-random text
_AT = [(14, 7, 2), (14, 24, 1), (15, 7, 2), (15, 24, 1)]
more("C03", "one and two arbitrary letters at arbitrary places", [J("c03_lib", m, n, q, 1) for (m, n, q) in _AT])
more("C04", "one and two arbitrary letters at arbitrary places", [J("c04_duval", m, n, q) for (m, n, q) in _AT + [(14, 60, 1), (15, 60, 1), (14, 12, 3)]] + [J("c04_isa", m, n, q) for (m, n, q) in _AT])
more("C05", "one and two arbitrary letters at arbitrary places", [J("c05_conjugate", m, n, q) for (m, n, q) in _AT + [(14, 60, 1), (14, 10, 3)]])
more("C06", "one and two arbitrary letters at arbitrary places", [J("c06_border", m, n, q) for (m, n, q) in _AT + [(14, 60, 1), (15, 60, 1), (14, 10, 3)]])
more("C07", "one and two arbitrary letters at arbitrary places", [J("c07_lib", m, n, q, z) for (m, n, q) in _AT for z in (0, 1)])
more("C08", "one and two arbitrary values at arbitrary places", [J("c08", 4, n, m, q) for (m, n, q) in _AT + [(14, 40, 1)]])
more("C09", "one and two arbitrary letters at arbitrary places", [J("c09_tool", m, n, q, 0, 1, tools="count_z") for (m, n, q) in _AT])
more("C10", "one and two arbitrary letters at arbitrary places", [J("c10_tool", m, n, q, 0, 1, tools="count_lexparse") for (m, n, q) in _AT])
more("C11", "one and two arbitrary letters at arbitrary places", [J("c11_tool", m, n, q, 0, tools="mus") for (m, n, q) in _AT])
more("C21", "one and two arbitrary letters at arbitrary places", [J("c21_necklace", m, n, q) for (m, n, q) in _AT])
# a^i x a^j, x arbitrary, longer than 16-bit numbers count
_B = dict(instrs=900_000_000, timeout=240)
_S12 = [(12, p, a) for p in range(6) for a in (97, 255)]


def wide(prop, jobs):
    more(prop, "a^i x a^j with an arbitrary letter x, 12 and 70000 letters long", jobs)


wide("C01", [J("c01_wide", *w, 0) for w in _S12] + [J("c01_wide", 70000, 2, 97, 0, **_B), J("c01_wide", 70000, 3, 97, 1, tools="bwt", **_B), J("c01_wide", 66000, 0, 255, 1, tools="bwt", **_B)])
wide("C02", [J("c01_wide", *w, 2) for w in _S12] + [J("c01_wide", 70000, p, 97, 2, **_B) for p in (0, 5)] + [J("c01_wide", 70000, 2, 97, 3, tools="bwt", **_B), J("c01_wide", 70001, 3, 255, 4, tools="count_r", **_B)])
wide("C04", [J("c04_wide", *w, k) for w in _S12 for k in (0, 1)] + [J("c04_wide", 70000, 5, 97, 0, **_B), J("c04_wide", 70001, 2, 97, 1, **_B), J("c04_wide", 70000, 1, 97, 1, **_B), J("c04_wide", 70000, 4, 255, 2, tools="lyndonfactorization", **_B), J("c04_wide", 70001, 2, 97, 2, tools="lyndonfactorization", **_B)])
wide("C05", [J("c05_wide", *w) for w in _S12] + [J("c05_wide", 70000, p, 97, **_B) for p in (2, 3)])
wide("C06", [J("c06_wide", *w) for w in _S12] + [J("c06_wide", 70000, p, 97, **_B) for p in (2, 4)])
wide("C07", [J("c07_wide2", *w) for w in _S12] + [J("c07_wide2", 70000, p, 97, **_B) for p in (2, 4, 0)])
more("C08", "arrays of 12 and 70000 entries, rising, falling, constant, alternating and in steps, with one small or large arbitrary entry", [J("c08_wide", n, s, **_B) for s in range(5) for n in (12, 70000)])
wide("C09", [J("c09_wide", *w, 1, tools="count_z") for w in _S12] + [J("c09_wide", 70000, 5, 97, 1, tools="count_z", **_B), J("c09_wide", 70001, 0, 255, 1, tools="count_z", **_B)])
wide("C10", [J("c10_wide", *w, 1, tools="count_lexparse") for w in _S12] + [J("c10_wide", 70000, 5, 97, 1, tools="count_lexparse", **_B), J("c10_wide", 70001, 2, 255, 1, tools="count_lexparse", **_B)])
wide("C11", [J("c11_wide", *w, tools="mus") for w in _S12] + [J("c11_wide", 70000, 5, 97, tools="mus", **_B), J("c11_wide", 70001, 2, 97, tools="mus", **_B)])
wide("C13", [J("c13_wide", *w[:2], 97, k, m, tools=x) for w in _S12 if w[2] == 97 for (k, m, x) in ((0, 0, "entropy"), (2, 0, "entropy"), (1, 1, "entropy_kmer"), (3, 1, "entropy_kmer"))] + [J("c13_wide", 70000, 5, 97, k, 0, tools="entropy", **_B) for k in (0, 3)] + [J("c13_wide", 70001, 2, 97, 2, 1, tools="entropy_kmer", **_B)])
wide("C14", [J("c14_wide", *w, tools="count_r") for w in _S12] + [J("c14_wide", 70000, 2, 97, tools="count_r", **_B)])
wide("C21", [J("c21_wide", *w) for w in _S12] + [J("c21_wide", 70000, p, 97, **_B) for p in (2, 0, 4)])
