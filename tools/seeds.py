#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list of planted bugs below and checks each in a scratch copy of
/repo: it must build, pass the stable tests, and its demonstration must fail with it and pass without.
usage: seeds.py [id ...]"""
import os, sys, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, needs, breaks, edits, py=None, rs=None):
    S.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, py=py, rs=rs))


HEAD = '''import subprocess, sys, os, tempfile, itertools, random
def run(tool, *args, inp=b"", **kw):
    p = subprocess.run(["target/debug/" + tool, *map(str, args)], input=inp, capture_output=True, timeout=60, **kw)
    return p.returncode, p.stdout
def need(c, *w):
    if not c:
        print("broken:", *w)
        sys.exit(1)
def field(out, k):
    for w in out.decode("latin1").split():
        if w.startswith(k + "="):
            return w[len(k) + 1:]
'''
SH = '''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cargo build --offline --lib --bins >/dev/null 2>&1 || { echo "build failed"; exit 3; }
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
'''
SHPY = SH + 'python3 "$D/demo.py"\n'
SHRS = SH + '''rustc --edition 2021 -L target/debug/deps --extern stringology=target/debug/libstringology.rlib -o "$T/demo" "$D/demo.rs" || exit 3
timeout 100 "$T/demo"
'''
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlist.py")).read())


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    want = sys.argv[1:]
    W = "/tmp/seedwork"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])
    orig = {}
    for s in S:
        if want and s["id"] not in want:
            continue
        sh(["git", "checkout", "-q", "--", "."], W)
        ok = True
        for f, a, b in s["edits"]:
            t = open(f"{W}/{f}").read()
            if t.count(a) < 1:
                print(s["id"], "text not found in", f, repr(a)[:80]); ok = False; break
            open(f"{W}/{f}", "w").write(t.replace(a, b, 1))
        if not ok:
            continue
        d = f"{V}/seeded/{s['id']}"
        diff = sh(["git", "diff"], W).stdout
        # lines taken away must be original ones
        base = "01c54de"
        bad = []
        for f in {e[0] for e in s["edits"]}:
            bl = sh(["git", "blame", "-s", f, "HEAD"], W).stdout if False else sh(["git", "blame", "-s", "HEAD", "--", f], W).stdout
            fixed = {l.split(")", 1)[1].strip() for l in bl.splitlines() if not l.startswith("^")}
            cur = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            bad += [c for c in cur if c in fixed and len(c) > 3]
        env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
                   CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
        t = sh(["timeout", "300", "cargo", "test", "--workspace", "--no-fail-fast", "--offline"], W, env=env).stdout
        failed = "FAILED" in t or "error" in t.split("Running")[0] and "could not compile" in t
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SHPY if s["py"] else SHRS)
        if s["py"]:
            open(d + "/demo.py", "w").write(HEAD + s["py"])
        else:
            open(d + "/demo.rs", "w").write(s["rs"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        p = sh(["bash", d + "/demo.sh"], W)
        sh(["git", "checkout", "-q", "--", "."], W)
        u = sh(["bash", d + "/demo.sh"], W)
        good = not failed and p.returncode not in (0, 3) and u.returncode == 0 and not bad
        print(s["id"], "OK" if good else "REJECTED", "tests failed" if failed else "", "patched:", p.returncode, p.stdout[-150:].strip(), "| unpatched:", u.returncode, u.stdout[-150:].strip() if u.returncode else "", "| touches fixes: " + str(bad) if bad else "")
        if not good:
            shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)


main()
