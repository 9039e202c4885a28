#!/usr/bin/env python3
"""Driver: builds the IR of /repo's current tree, runs the symbolic executor on the harnesses of a
property, replays counterexamples natively, cross-checks sampled paths, writes the evidence."""
import sys, os, hashlib, subprocess, json, time, re, fcntl, shutil, threading, glob, random, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, ".build")
HOST = "x86_64-unknown-linux-gnu"
NJ = min(8, os.cpu_count() or 8)
IRFLAGS = ("-Cpanic=abort -Ccodegen-units=1 -Cno-prepopulate-passes -Copt-level=1 -Zinline-mir=no "
           "-Cdebug-assertions=on -Coverflow-checks=on -Cdebuginfo=0")
PASSES = "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg)"


class Fail(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e.update(kw)
    return e


def sh(cmd, timeout, cwd=None, **kw):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return 124, "timed out"
    return p.returncode, out.decode(errors="replace")


def cargo(what, args, cwd, timeout=600, **kw):
    rc, out = sh(["cargo"] + args + ["--offline"], timeout, cwd, **kw)
    if rc != 0:
        raise Fail(f"{what}: cargo ended with {rc}\n{out[-6000:]}")
    return out


def bins():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(REPO + "/src/bin/*.rs"))


# ---------------------------------------------------------------- builds
def build_engine():
    cargo("engine", ["build", "--release"], V + "/engine", CARGO_TARGET_DIR=B + "/engine")


def binargs(tools):
    if tools is None:
        return ["--bins"]
    a = []
    for t in sorted(tools):
        a += ["--bin", t]
    return a or ["--lib"]


def irbuild(threads, harness_args, tools):
    flags = f"-Zthreads={threads} " + IRFLAGS
    kw = dict(RUSTC_BOOTSTRAP="1", RUSTC_WRAPPER=V + "/tools/irwrap.sh", CARGO_TARGET_DIR=B + "/ir", RUSTFLAGS=flags)
    a = ["build", "-Zbuild-std=std,panic_abort", "--target", HOST]
    cargo("IR of the repository", a + binargs(tools), REPO, 300, **kw)
    cargo("IR of the harness", a + harness_args, V + "/harness", 300, **kw)


def opt_tool():
    c = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/opt"))
    r = os.environ.get("RUSTUP_HOME")
    if r:
        c = glob.glob(r + "/toolchains/stable-*/lib/rustlib/*/bin/opt") + c
    if not c:
        raise Fail("no opt in the stable toolchain")
    return c[0]


def build_ir(feature, tools):
    stamp = B + "/ir.flags"
    if not (os.path.exists(stamp) and open(stamp).read() == IRFLAGS):
        shutil.rmtree(B + "/ir", ignore_errors=True)
        shutil.rmtree(B + "/ll", ignore_errors=True)
    open(stamp, "w").write(IRFLAGS)
    ha = []
    try:
        irbuild(8, ha, tools)
    except Fail as e:
        log("note: retrying the IR build single-threaded:", str(e)[-600:])
        try:
            irbuild(1, ha, tools)
        except Fail:
            ha = ["--no-default-features", "--features", feature]
            irbuild(1, ha, tools)
    os.makedirs(B + "/ll", exist_ok=True)
    deps = f"{B}/ir/{HOST}/debug/deps"
    names = bins()
    newest = {}
    todo = []
    for f in glob.glob(deps + "/*.bc"):
        m = re.match(r"(.*)-([0-9a-f]{16})\.bc$", os.path.basename(f))
        if not m:
            continue
        n = m.group(1)
        if n in names and tools is not None and n not in tools:
            continue
        if n in names or n == "vxh":
            if n not in newest or os.path.getmtime(f) > os.path.getmtime(newest[n]):
                newest[n] = f
        else:
            todo.append(f)
    todo += newest.values()
    opt = opt_tool()

    def one(f):
        o = B + "/ll/" + os.path.basename(f)[:-3] + ".ll"
        if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(f):
            rc, out = sh([opt, "-S", "-passes=" + PASSES, f, "-o", o + ".tmp"], 300)
            if rc != 0:
                raise Fail("opt: " + out[-2000:])
            os.rename(o + ".tmp", o)
        return o
    todo.sort(key=lambda f: -os.path.getsize(f))
    with ThreadPoolExecutor(NJ) as ex:
        lls = dict(zip(todo, ex.map(one, todo)))
    progs = {n: lls[f] for n, f in newest.items() if n != "vxh"}
    if "vxh" not in newest:
        raise Fail("no IR of the harness")
    libs = [o for f, o in lls.items() if o not in progs.values()]
    return progs, sorted(libs), ha


def build_native(ha):
    na = []
    if ha:
        na = ["--no-default-features", "--features", ha[-1]]
    cargo("native runner", ["build"] + na, V + "/native", CARGO_TARGET_DIR=B + "/native", RUSTFLAGS="-Cdebuginfo=0")


def build_bins(tools):
    if tools is None or tools:
        cargo("tools", ["build"] + binargs(tools), REPO, CARGO_TARGET_DIR=B + "/native", RUSTFLAGS="-Cdebuginfo=0")
    rc, out = sh(["gcc", "-O1", "-shared", "-fPIC", V + "/native/shim.c", "-o", B + "/shim.so", "-ldl"], 60)
    if rc != 0:
        raise Fail("shim: " + out)


def build_rbins():
    """randomstring against a copy of rand whose thread source replays VX_RNG (never in /repo)."""
    d = B + "/rsrc"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("Cargo.toml", "Cargo.lock", "src"):
        s = os.path.join(REPO, f)
        if os.path.isdir(s):
            shutil.copytree(s, d + "/" + f)
        elif os.path.exists(s):
            shutil.copy2(s, d + "/" + f)
    lock = open(REPO + "/Cargo.lock").read() if os.path.exists(REPO + "/Cargo.lock") else ""
    m = re.search(r'name = "rand"\nversion = "([^"]+)"', lock)
    ver = m.group(1) if m else "0.8"
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = sorted(glob.glob(f"{home}/registry/src/*/rand-{ver}*"))
    if not src:
        raise Fail("rand source not found")
    r = B + "/rand"
    shutil.rmtree(r, ignore_errors=True)
    shutil.copytree(src[-1], r)
    p = r + "/src/rngs/thread.rs"
    s = open(p).read()
    i = s.index("impl RngCore for ThreadRng")
    j = s.index("impl CryptoRng for ThreadRng")
    s = s[:i] + """
fn vx_next() -> u64 {
    thread_local! { static Q: std::cell::RefCell<Option<std::collections::VecDeque<u64>>> = std::cell::RefCell::new(None); }
    Q.with(|q| {
        let mut q = q.borrow_mut();
        if q.is_none() {
            let s = std::env::var("VX_RNG").unwrap_or_default();
            *q = Some(s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
        }
        q.as_mut().unwrap().pop_front().unwrap_or(0)
    })
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { let h = vx_next(); ((h << 24) | vx_next()) as u32 }
    fn next_u64(&mut self) -> u64 { let h = vx_next(); (h << 56) | vx_next() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = vx_next() as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}

""" + s[j:]
    open(p, "w").write(s)
    cargo("randomstring with replayable randomness", ["build", "--bin", "randomstring", "--config", f'patch.crates-io.rand.path="{r}"'],
          d, CARGO_TARGET_DIR=B + "/rbins", RUSTFLAGS="-Cdebuginfo=0")


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def forget_stale():
    """cargo decides by file times; a changed tree with old file times must be rebuilt as well."""
    h = tree_hash([REPO, V + "/harness", V + "/native", V + "/engine"])
    stamp = B + "/tree"
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        for d in (f"ir/{HOST}/debug", "native/debug", "engine/release"):
            for n in ("stringology", "vxh", "vxn", "symex"):
                for f in glob.glob(f"{B}/{d}/.fingerprint/{n}-*"):
                    shutil.rmtree(f, ignore_errors=True)
        open(stamp, "w").write(h)


class Builds:
    def __init__(self, feature, rng=False, tools=None):
        os.makedirs(B, exist_ok=True)
        self.lock = open(B + "/lock", "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        t = time.time()
        forget_stale()
        ex = ThreadPoolExecutor(4)
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, feature, tools)
        fb = ex.submit(build_bins, tools)
        fn = ex.submit(build_native, [])
        fr = ex.submit(build_rbins) if rng else None
        self.progs, self.libs, ha = fi.result()
        fe.result()
        self.symex = B + "/engine/release/symex"
        self.ir_s = time.time() - t
        self.listfile = f"{B}/list.{os.getpid()}.txt"
        open(self.listfile, "w").write("\n".join(self.libs) + "\n")
        self.ha = ha
        self.fn, self.fb, self.fr = fn, fb, fr
        self.native_ready = False
        self.native_lock = threading.Lock()

    def native(self):
        with self.native_lock:
            self.native_()

    def native_(self):
        if not self.native_ready:
            try:
                self.fn.result()
            except Fail:
                build_native(self.ha or [])
            self.fb.result()
            if self.fr:
                self.fr.result()
            self.native_ready = True

    def vxn(self, cases, timeout):
        """Runs cases natively; returns one result per case."""
        self.native()
        d = f"{B}/tmp.{os.getpid()}.{threading.get_ident()}"
        os.makedirs(d, exist_ok=True)
        open(d + "/cases", "w").write("".join(f"{e}|{','.join(map(str, p))}|{','.join(map(str, v))}\n" for e, p, v in cases))
        kw = dict(VXN_BINS=B + "/native/debug", VXN_SHIM=B + "/shim.so", VXN_TMP=d, VXN_LIMIT=str(timeout))
        if self.fr:
            kw["VXN_RBINS"] = B + "/rbins/debug"
        p = subprocess.Popen([B + "/native/debug/vxn", d + "/cases"], env=env(**kw), stdout=open(d + "/o", "w"),
                             stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout * max(1, len(cases)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            rc = p.wait()
        res = []
        for l in open(d + "/o"):
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
        shutil.rmtree(d, ignore_errors=True)
        if len(res) < len(cases):
            res.append({"result": "timeout" if rc == -9 else f"abort: status {rc}", "obs": []})
        return res


# ---------------------------------------------------------------- jobs
class Job:
    """One harness entry with its parameters. base jobs must complete; extra ones explore as far as
    their time allows."""

    def __init__(self, entry, *params, tools="", extra=False, timeout=120, frontier=1200, instrs=120_000_000, alone=None, samples=4, thorough=False, note="", hang=False):
        self.entry, self.params, self.tools = entry, params, tools.split()
        self.extra, self.timeout, self.frontier, self.instrs = extra, timeout, frontier, instrs
        self.alone, self.samples, self.thorough, self.note = alone, samples, thorough, note

    def name(self):
        return f"{self.entry}({','.join(map(str, self.params))})"


def run_job(b, j, seed, jobs, timeout, dump=None):
    out = f"{B}/out.{os.getpid()}.{threading.get_ident()}.json"
    cmd = [b.symex, "--ir", b.listfile, "--entry", j.entry, "--out", out, "--jobs", str(jobs), "--timeout", str(timeout),
           "--frontier", str(j.frontier), "--max-instrs", str(j.instrs), "--samples", str(j.samples), "--seed", str(seed)]
    for t in j.tools:
        if t not in b.progs:
            raise Fail(f"tool {t} does not exist")
        cmd += ["--prog", f"{t}={b.progs[t]}"]
    for p in j.params:
        cmd += ["--param", str(p)]
    if os.environ.get("V"):
        cmd += ["-v"]
    if dump:
        cmd += ["--dump", dump]
    t = time.time()
    rc, o = sh(cmd, timeout + 60)
    if os.environ.get("V"):
        print(o[:3000])
    r = {"job": j.name(), "rc": rc, "s": time.time() - t, "extra": j.extra}
    try:
        d = json.load(open(out))
        r["parts"] = d["parts"]
    except Exception:
        r["parts"] = []
        r["error"] = o[-1500:]
    if rc != 0:
        r["error"] = o[-1500:]
    if os.path.exists(out):
        os.remove(out)
    return r


def tot(r, k):
    return sum(p.get(k, 0) for p in r["parts"])


def merged(r, k):
    m = {}
    for p in r["parts"]:
        for a, n in (p.get(k) or {}).items():
            m[a] = m.get(a, 0) + n
    return m


def summary(r):
    s = f"{r['job']}: {r['s']:.1f}s paths {tot(r,'paths')} checks {tot(r,'checks_const')}+{tot(r,'checks_solver')} queries {tot(r,'queries')} solver {tot(r,'solver_s'):.1f}s"
    if tot(r, "pending"):
        s += f" pending {tot(r,'pending')}"
    for k in ("unsup", "incomplete"):
        if merged(r, k):
            s += f" {k} {merged(r,k)}"
    if r.get("error"):
        s += " ERROR " + r["error"][-300:]
    return s


def bad(r):
    """Why a job gives no answer, or None."""
    if r.get("error") or r["rc"] != 0 or not r["parts"]:
        return "symbolic executor failed: " + r.get("error", "")[-400:]
    if any("crashed" in p for p in r["parts"]):
        return "symbolic executor child ended early"
    if merged(r, "unsup"):
        return f"outside the encoded instruction set: {merged(r,'unsup')}"
    if merged(r, "incomplete"):
        return f"incomplete: {merged(r,'incomplete')}"
    if tot(r, "unknown"):
        return "solver returned unknown"
    if tot(r, "pending"):
        return f"{tot(r,'pending')} states left unexplored"
    if tot(r, "nviol") == 0 and not merged(r, "covers"):
        return "vacuous: no path reached the end of the harness"
    return None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V)
    import plan
    pl = plan.PLAN[prop]
    jobs = [j for j in pl["jobs"] if tier == "thorough" or not j.thorough]
    cap = pl.get("cap", 780 if tier == "quick" else 3000)
    b = Builds(pl["module"], pl.get("rng", False), {t for j in jobs for t in j.tools})
    log(f"built in {b.ir_s:.1f}s")
    known = known_findings(prop)
    results = []
    viols = []
    hard = []
    soft = []
    lockp = threading.Lock()

    def handle(j, r):
        with lockp:
            results.append((j, r))
            log(summary(r))
            for p in r["parts"]:
                for v in p.get("violations", []):
                    viols.append((j, v))
    small = [j for j in jobs if not j.alone and not j.extra]
    big = [j for j in jobs if j.alone and not j.extra]
    extra = [j for j in jobs if j.extra]
    stop = threading.Event()

    confirmed = []
    unconfirmed = []
    kf = []

    def replay(j, r):
        """Runs the counterexamples of a job against the real code; whether one of them is confirmed."""
        seen = {}
        vs = [v for p in r["parts"] for v in p.get("violations", [])]
        vs.sort(key=lambda v: (len(v["vars"]), sum(v["vars"])))
        un = []
        for v in vs:
            if seen.get(v["id"], 0) >= 3 or len(seen) > 8:
                continue
            seen[v["id"]] = seen.get(v["id"], 0) + 1
            res = b.vxn([(j.entry, j.params, v["vars"])], 20)[0]
            if res["result"] in ("ok", "assume", "noentry"):
                un.append((j, v, res))
                continue
            k = [x for x in known if x["entry"] == j.entry and x["result"] == res["result"]]
            with lockp:
                if k:
                    kf.append(k[0])
                else:
                    confirmed.append((j, v, res))
            if not k:
                return True
        with lockp:
            unconfirmed.extend(un)
            if un:
                soft.append(f"{j.name()}: counterexample {un[0][1]['id']} not confirmed by the real code")
        return False

    def go(j, n):
        if stop.is_set():
            return
        left = cap - (time.time() - t0)
        if left < 5:
            if not j.extra:
                soft.append(f"{j.name()}: no time left")
            return
        r = run_job(b, j, seed, n, min(j.timeout * (3 if tier == "thorough" else 1), left), None)
        handle(j, r)
        if tot(r, "nviol") and replay(j, r):
            stop.set()
    with ThreadPoolExecutor(NJ) as ex:
        list(ex.map(lambda j: go(j, 1), small))
    for j in big + extra:
        go(j, NJ)
    b.native()
    confirmed = min(confirmed, key=lambda x: (len(x[1]["vars"]), sum(x[1]["vars"]))) if confirmed else None
    nviol = sum(tot(r, "nviol") for _, r in results)
    # sampled paths: the same values must be observed natively
    validated = 0
    mism = []
    shown = []
    if not confirmed:
        cases = []
        for j, r in results:
            n = 0
            for p in r["parts"]:
                for s in p.get("samples", []):
                    if n < (2 * j.samples) and all(v is not None for v in s["vars"]):
                        cases.append((j, s))
                        n += 1
        random.Random(seed).shuffle(cases)
        cases = cases[:pl.get("validate", 240 if tier == "quick" else 2000)]
        chunks = [cases[i::NJ] for i in range(NJ)]

        def val(ch):
            if not ch:
                return []
            return list(zip(ch, b.vxn([(j.entry, j.params, s["vars"]) for j, s in ch], 20)))
        with ThreadPoolExecutor(NJ) as ex:
            for l in ex.map(val, chunks):
                for (j, s), res in l:
                    if res["result"] == "ok" and res["obs"] == s["obs"]:
                        validated += 1
                        if len(shown) < 6:
                            shown.append({"harness": j.name(), "inputs": s["vars"][:64], "observed": s["obs"][:64]})
                    else:
                        mism.append((j, s, res))
        # the real code violates the property on a sampled path: a counterexample in itself
        for j, s, res in mism:
            if res["result"] not in ("ok", "assume", "noentry", "timeout"):
                v = {"id": "native run of a sampled path", "vars": s["vars"], "msg": ""}
                k = [x for x in known if x["entry"] == j.entry and x["result"] == res["result"]]
                if not k:
                    nviol += 1
                    confirmed = (j, v, res)
                    break
    for j, r in results:
        w = bad(r)
        if w and tot(r, "nviol") == 0:
            if j.extra and not r.get("error") and not any("crashed" in p for p in r["parts"]) and not merged(r, "unsup") and tot(r, "unknown") == 0 and merged(r, "covers"):
                continue
            (hard if w.startswith("vacuous") else soft).append(f"{j.name()}: {w}")
    for k in {x["id"]: x for x in kf}.values():
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
    # evidence
    fns = set()
    rex = re.compile(r"\|(.*)$")
    for j, r in results:
        for p in r["parts"]:
            fns.update(p.get("functions", []))
    reponames = sorted({demangle(f.split("|", 1)[1]) for f in fns if "stringology" in f or any(f.startswith(x + "-") for x in b.progs)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(tot(r, "paths") for _, r in results),
            "transitions": sum(tot(r, "instrs") for _, r in results),
            "traces_validated_against_impl": validated,
            "samples": shown or [{"harness": j.name(), "inputs": v["vars"][:64], "violation": v["id"]} for j, v in viols[:3]] or ["none"],
            "rule": "states = symbolic paths explored to their end, transitions = LLVM instructions executed symbolically on them; traces validated = sampled paths whose model was run against the natively built code with equal observations",
            "functions_encoded": len(fns),
            "repository_functions_encoded": reponames[:400],
            "bounds": pl["bounds"],
            "harness_runs": [{"harness": j.name(), "note": j.note, "paths": tot(r, "paths"), "infeasible": tot(r, "infeasible"), "assertions_folded_to_true": tot(r, "checks_const"),
                              "assertions_solved": tot(r, "checks_solver"), "queries": tot(r, "queries"), "unsat": tot(r, "unsat"), "sat": tot(r, "sat"),
                              "solver_s": round(tot(r, "solver_s"), 3), "wall_s": round(r["s"], 2), "states_left": tot(r, "pending"), "extra": j.extra,
                              "reached": merged(r, "covers")} for j, r in results],
            "queries": sum(tot(r, "queries") for _, r in results),
            "unsat": sum(tot(r, "unsat") for _, r in results),
            "sat": sum(tot(r, "sat") for _, r in results),
            "solver_s": round(sum(tot(r, "solver_s") for _, r in results), 3),
            "exhaustive": not any(tot(r, "pending") for _, r in results),
        },
        "assumptions": plan.ASSUMPTIONS + pl.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    ev["coverage"]["incomplete_runs"] = soft[:50]
    ev["coverage"]["exhaustive"] = ev["coverage"]["exhaustive"] and not soft
    rc = 0
    if confirmed:
        j, v, res = confirmed
        os.makedirs(V + "/evidence/replay", exist_ok=True)
        path = f"{V}/evidence/replay/{prop}.json"
        json.dump({"property": prop, "entry": j.entry, "params": list(j.params), "vars": v["vars"], "violated": v["id"], "trace": v["msg"][:4000],
                   "native_result": res["result"], "how": f"python3 run.py replay {path}"}, open(path, "w"), indent=1)
        ev["coverage"]["counterexample"] = {"harness": j.name(), "inputs": v["vars"][:256], "violated": v["id"], "native_result": res["result"]}
        log(f"counterexample: {j.name()} inputs {v['vars'][:64]}: {v['id']}; native run: {res['result']}")
        log(f"VIOLATION property={prop} replay={path}")
        rc = 1
    else:
        if unconfirmed:
            for j, v, res in unconfirmed[:5]:
                log(f"UNCONFIRMED {j.name()} {v['vars'][:64]}: {v['id']} {v['msg'][:300]}; native: {res['result']}")
        if mism:
            for j, s, res in mism[:5]:
                log(f"MISMATCH {j.name()} {s['vars'][:64]} symbolic {s['obs'][:64]}; native: {res['result']} {res['obs'][:64]}")
            for n in {j.name() for j, _, _ in mism}:
                soft.append(f"{n}: sampled paths observed differently by the real code")
            if len(mism) > validated:
                hard.append("the real code behaves differently on most sampled paths")
        # what was explored holds; give no answer when most of it was not
        for h in soft[:20]:
            log("INCOMPLETE", h)
        if 2 * len(soft) > len(jobs):
            hard.append(f"{len(soft)} of {len(jobs)} runs are incomplete")
        if hard:
            for h in hard[:10]:
                log("NO ANSWER", h)
            rc = 2
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    os.remove(b.listfile)
    log(f"{prop}: exit {rc}, {ev['coverage']['states']} paths, {ev['coverage']['queries']} queries, solver {ev['coverage']['solver_s']}s, {validated} traces validated, {time.time()-t0:.1f}s")
    return rc


def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m:
        if n.startswith("_R"):
            return "".join(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", n))[:80]
        return n
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r"\d+", s).group(0)
        out.append(s[len(k):len(k) + int(k)])
        s = s[len(k) + int(k):]
    return "::".join(out)


def known_findings(prop):
    out = []
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) entry=(\S+) result=(.*) what=(.*)", l.strip())
        if m and m.group(1) == prop:
            out.append({"id": l, "entry": m.group(2), "result": m.group(3), "what": m.group(4)})
    return out


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        b = Builds("all", True)
        b.native()
        os.remove(b.listfile)
        log(f"built in {b.ir_s:.1f}s")
        return 0
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[0] == "replay":
        d = json.load(open(a[1]))
        b = Builds("all", d["property"] == "C25")
        r = b.vxn([(d["entry"], d["params"], d["vars"])], 20)[0]
        log(json.dumps(r))
        return 0 if r["result"] == "ok" else 1
    if a[0] == "dev":  # dev ENTRY "tools" params...
        b = Builds("all", "randomstring" in a[2], set(a[2].split()))
        log(f"built in {b.ir_s:.1f}s")
        j = Job(a[1], *map(int, a[3:]), tools=a[2], samples=4, instrs=int(os.environ.get("I", "120000000")))
        r = run_job(b, j, 1, int(os.environ.get("J", "8")), int(os.environ.get("T", "120")))
        log(summary(r), merged(r, "covers"), merged(r, "assumptions"), "crashed" if any("crashed" in p for p in r["parts"]) else "")
        for p in r["parts"]:
            for v in p.get("violations", [])[:2]:
                res = b.vxn([(j.entry, j.params, v["vars"])], 20)[0]
                log("VIOL", v["id"], v["vars"][:100], v["msg"][:300], v["trace"][:1500], "native:", res)
        cases = [s for p in r["parts"] for s in p.get("samples", [])][:40]
        rs = b.vxn([(j.entry, j.params, s["vars"]) for s in cases], 20) if cases else []
        okc = 0
        for s, res in zip(cases, rs):
            if res["result"] == "ok" and res["obs"] == s["obs"]:
                okc += 1
            else:
                log("MISMATCH", s, res)
        log("validated", okc, "of", len(cases), (cases[0] if cases else ""))
        os.remove(b.listfile)
        return 0
    raise SystemExit("usage: run.py setup | check ID [--tier T] | replay FILE | dev ENTRY TOOLS PARAMS..")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        log("ERROR", e)
        sys.exit(2)
