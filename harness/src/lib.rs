pub mod text;
pub mod vx;
pub mod wide;
macro_rules! entries {
    ($($f:literal $m:ident: $($n:ident),*;)*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        $($(#[cfg(feature = $f)] #[no_mangle] pub extern "C-unwind" fn $n() { $m::$n() })*)*
        pub static ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$($(#[cfg(feature = $f)] (stringify!($n), $n)),*),*];
    };
}
entries! {
    "bwt" bwt: c01_tool, c01_lib, c01_reject, c02_lib, c02_tool, c02_count, c03_lib, c01_wide;
    "lyndon" lyndon: c04_duval, c04_isa, c04_tool, c04_debug, c05_conjugate, c05_iter, c06_border, c06_power, c04_wide, c05_wide, c06_wide;
    "arrays" arrays: c07_lib, c07_wide, c07_perm, c08, c07_wide2, c08_wide;
    "lz" lz: c09_tool, c10_tool, c09_wide, c10_wide;
    "subs" subs: c11_tool, c12_tool, c11_wide;
    "stats" stats: c13_tool, c13_stable, c14_sigma, c14_full, c14_runs, c14_r, c13_wide, c14_wide;
    "codec" codec: c15_tool, c15_runs, c16_tool, c16_full, c17_tool, c17_any, c17_many, c17_reject;
    "stream" stream: c18_tool, c18_way, c18_reverse, c19_tool, c19_read_char, c19_runs;
    "words" words: c20_word, c20_letter, c21_debruijn, c21_necklace, c21_prefix, c24_bits, c24_near, c24_fib, c24_trib, c24_sums, c21_wide;
    "outs" outs: c27_write, c27_file, c27_random, c28_log, c29_read, c29_open;
    "gens" gens: c22_lib, c22_tool, c23_tool, c23_args, c23_big, c23_arity, c23_binary, c25_tool, c33_text, c33_ends;
    "cli" cli: c30_escape, c30_runs, c30_reverse, c31_number, c31_spell, c31_unknown, c31_missing, c32_line;
}
