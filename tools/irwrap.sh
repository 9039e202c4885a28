#!/bin/bash
# RUSTC_WRAPPER for the IR build: target crates are compiled to metadata + LLVM bitcode only
# (no machine code, no linking). Host crates (build scripts, proc macros) are left alone.
target=0
for a in "$@"; do
  case "$a" in --target) target=1 ;; esac
done
[ $target = 0 ] && exec "$@"
args=()
name= kind= dir= extra= prev=
for a in "$@"; do
  case "$prev" in
    --crate-name) name=$a ;;
    --crate-type) kind=$a ;;
    --out-dir) dir=$a ;;
  esac
  case "$a" in
    extra-filename=*) extra=${a#extra-filename=} ;;
    -Cextra-filename=*) extra=${a#-Cextra-filename=} ;;
  esac
  prev=$a
  case "$a" in
    --emit=dep-info,metadata,link|--emit=dep-info,link) a="--emit=dep-info,metadata,llvm-bc" ;;
    *=*.rlib) a="${a%.rlib}.rmeta" ;;
  esac
  args+=("$a")
done
"${args[@]}" || exit $?
# an empty stand-in for the output cargo looks for, so that it sees the unit as up to date
if [ -n "$dir" ] && [ -n "$name" ]; then
  case "$kind" in
    bin) : > "$dir/$name$extra" ;;
    lib|rlib) : > "$dir/lib$name$extra.rlib" ;;
  esac
fi
exit 0
