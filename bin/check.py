#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--keep]
Decides one property: compiles /repo's current tree together with the harnesses to LLVM IR, executes the harnesses
of the property symbolically (irsym), lets z3 discharge every obligation, replays every counterexample against the
natively compiled code, and writes evidence/<PROPERTY>.json."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.path.join(V, ".work")
sys.path.insert(0, os.path.join(V, "bin"))
import props  # noqa: E402

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUST_MIN_STACK="33554432", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
ENV.pop("RUSTC_WRAPPER", None)
IRFLAGS = "-C no-vectorize-loops -C no-vectorize-slp --cfg posidonius_verif"
NATFLAGS = "--cfg posidonius_verif"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        fs = []
        if os.path.isfile(r):
            fs = [r]
        else:
            for d, dn, fn in os.walk(r):
                dn[:] = sorted(x for x in dn if x not in ("target", ".git", "__pycache__"))
                fs += [os.path.join(d, f) for f in sorted(fn)]
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def fail(msg):
    print("CHECK-ERROR " + msg)
    sys.exit(2)


def build_engine():
    key = tree_hash(os.path.join(V, "irsym/src"), os.path.join(V, "irsym/Cargo.toml"))
    stamp = os.path.join(W, "irsym.key")
    exe = os.path.join(W, "irsym/release/irsym")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    env = dict(ENV)
    env["RUSTFLAGS"] = ""
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(W, "irsym")], env=env, cwd=os.path.join(V, "irsym"))
    if r.returncode:
        log(r.stdout[-3000:])
        fail("engine build failed")
    open(stamp, "w").write(key)
    return exe


def src_key():
    return tree_hash("/repo/src", "/repo/Cargo.toml", "/repo/Cargo.lock", os.path.join(V, "harness/src"), os.path.join(V, "harness/Cargo.toml"))


def prep(td, key, profile):
    """cargo trusts mtimes; we trust contents: drop the two crates' artefacts whenever any source byte changed"""
    stamp = td + ".key"
    if os.path.exists(stamp) and open(stamp).read() == key:
        return True
    if os.path.isdir(td):
        for sub in ("deps", ".fingerprint", "incremental", "build"):
            d = os.path.join(td, profile, sub)
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if re.match(r"(lib)?(posidonius|hx|replay)\b|(lib)?(posidonius|hx|replay)[-_.]", f):
                        p = os.path.join(d, f)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    return False


def lockfile():
    shutil.copy("/repo/Cargo.lock", os.path.join(V, "harness/Cargo.lock"))


def build_ir(key):
    td = os.path.join(W, "ir")
    ll = os.path.join(td, "release/deps/hx.ll")
    if prep(td, key, "release") and os.path.exists(ll):
        return ll
    env = dict(ENV)
    env["RUSTFLAGS"] = IRFLAGS
    r = sh(["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--release", "--offline", "--target-dir", td, "--", "--emit=llvm-ir", "-C", "save-temps"], env=env, cwd=os.path.join(V, "harness"))
    if r.returncode or not os.path.exists(ll):
        log(r.stdout[-3000:])
        fail("IR build of /repo failed")
    for f in os.listdir(os.path.join(td, "release/deps")):  # save-temps leaves large intermediates
        if f.endswith(".bc") or ".rcgu." in f or f.endswith(".o"):
            os.remove(os.path.join(td, "release/deps", f))
    open(td + ".key", "w").write(key)
    return ll


def build_native(key):
    td = os.path.join(W, "native")
    exe = os.path.join(td, "debug/replay")
    if prep(td, key, "debug") and os.path.exists(exe):
        return exe
    env = dict(ENV)
    env["RUSTFLAGS"] = NATFLAGS
    r = sh(["cargo", "build", "--bin", "replay", "--features", "native", "--offline", "--target-dir", td], env=env, cwd=os.path.join(V, "harness"))
    if r.returncode:
        log(r.stdout[-3000:])
        fail("native build failed")
    open(td + ".key", "w").write(key)
    return exe


def run_native(exe, harness, point):
    """returns (status, failed ids, text); status: holds | violated | assume | error"""
    d = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        os.mkdir(os.path.join(d, "input"))
        open(os.path.join(d, "input/empty.dat"), "w").close()
        pf = os.path.join(d, "point.txt")
        with open(pf, "w") as f:
            for n, hx, _ in point:
                f.write("%s %s\n" % (n, hx))
        try:
            r = sh([exe, harness, pf], cwd=d, timeout=60)
        except subprocess.TimeoutExpired:
            return "error", [], "timeout"
        ids = re.findall(r"^FAIL ([^\t\n]+)", r.stdout, re.M)
        st = {0: "holds", 1: "violated", 77: "assume"}.get(r.returncode, "error")
        if st == "error" and r.returncode < 0:
            st, ids = "violated", ids + ["no-panic"]
        return st, ids, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    out = []
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) harness=(\S+) obligation=(\S+)(?: when=(\S+))? (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(harness=m.group(2), obligation=m.group(3), when=m.group(4), text=m.group(5)))
    return out


def matches(k, harness, fid, point):
    if k["harness"] != harness or not re.fullmatch(k["obligation"], fid):
        return False
    if k["when"]:
        vals = {n: v for n, _, v in point}
        for c in k["when"].split(","):
            n, v = c.split("=")
            if n not in vals or vals[n] is None or float(vals[n]) != float(v):
                return False
    return True


def demangle(s):
    f, n = s.split(" ", 1)
    ids, i = [], 0
    while i < len(n):
        m = re.compile(r"(\d+)_?").match(n, i)
        if m and 0 < int(m.group(1)) <= 120 and i > 1:
            k = int(m.group(1))
            t = n[m.end():m.end() + k]
            if len(t) == k and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", t):
                ids.append(t)
                i = m.end() + k
                continue
        if n[i] == "s" or n[i] == "C":  # disambiguator: skip base-62 up to '_'
            j = n.find("_", i)
            if 0 < j - i < 14 and re.fullmatch(r"[sC]s?[0-9A-Za-z]*", n[i:j]):
                i = j + 1
                continue
        i += 1
    ids = [x for x in ids if x not in ("posidonius", "core", "alloc", "std")]
    return f + "::" + "::".join(ids[-2:]) if ids else f + " " + n


def engine(exe, ll, h, tier):
    out = tempfile.mktemp(prefix="irsym-", suffix=".json")
    cmd = [exe, "--ir", ll, "--harness", h.name, "--out", out, "--time", str(h.timeout(tier))] + h.args(tier)
    t = time.time()
    try:
        r = sh(cmd, timeout=h.timeout(tier) + 60)
        if not os.path.exists(out):
            return dict(harness=h.name, error="engine died: " + r.stdout[-600:], failures=[], wall_s=time.time() - t)
        with open(out) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return dict(harness=h.name, error="engine time limit", failures=[], wall_s=time.time() - t)
    finally:
        if os.path.exists(out):
            os.remove(out)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = props.PROPS[pid]
    os.makedirs(W, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(W, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = src_key()
    lockfile()
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fi, fn = ex.submit(build_engine), ex.submit(build_ir, key), ex.submit(build_native, key)
        try:
            exe, ll, nat = fe.result(), fi.result(), fn.result()
        except SystemExit:
            raise
    fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - t0
    hs = [h for h in prop["harnesses"] if tier == "thorough" or not h.thorough]
    if "--only" in sys.argv:
        hs = [h for h in hs if h.name == sys.argv[sys.argv.index("--only") + 1]]
    with cf.ThreadPoolExecutor(max(1, min(8, len(hs)))) as ex:
        res = list(ex.map(lambda h: engine(exe, ll, h, tier), sorted(hs, key=lambda h: -h.cost)))
    known = known_findings(pid)
    hit_known, viol, undec, replays, agree, disagree = {}, [], [], 0, 0, []
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    byname = {h.name: h for h in hs}
    for d in res:
        hn = d["harness"]
        if d.get("error"):
            undec.append((hn, d["error"]))
        seen = set()
        for f in d.get("failures", []):
            pts = ([f["point"]] if f.get("point") else []) + f.get("extra", [])
            done = False
            for p in pts:
                st, ids, txt = run_native(nat, hn, p)
                replays += 1
                if st == "violated" and f["id"] in ids:
                    k = [i for i, k in enumerate(known) if matches(k, hn, f["id"], p)]
                    if k:
                        hit_known[k[0]] = True
                    elif (hn, f["id"]) not in seen:
                        seen.add((hn, f["id"]))
                        path = os.path.join(V, "evidence", "replay", "%s-%s-%s.json" % (pid, hn, re.sub(r"[^A-Za-z0-9_.-]", "_", f["id"])))
                        with open(path, "w") as fh:
                            json.dump(dict(property=pid, harness=hn, obligation=f["id"], verdict=f["verdict"], method=f["method"], detail=f["detail"], point=p, native_output=txt[-4000:], how="bin/replay.sh " + path), fh, indent=1)
                        viol.append((path, hn, f["id"]))
                    done = True
                    break
            if not done:
                undec.append((hn, "%s %s not settled: %s" % (f["id"], f["verdict"], f["detail"][:300])))
        # vacuity witnesses
        need = [r for r in byname[hn].reach if not d.get("reached", {}).get(r)]
        if need and not d.get("error"):
            undec.append((hn, "vacuous: never reached %s" % need))
        # concordance of the symbolic semantics with the compiled program on path witnesses
        for w in d.get("witnesses", [])[:6]:
            st, ids, txt = run_native(nat, hn, w)
            replays += 1
            if st == "holds":
                agree += 1
            elif st == "violated" and not any(matches(k, hn, i, w) for k in known for i in ids):
                disagree.append(dict(harness=hn, failed=ids[:5], point=w, output=txt[-500:]))
    for i in sorted(hit_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[i]["text"]))
    for path, hn, fid in viol:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        log("  harness %s obligation %s" % (hn, fid))
    tot = lambda k: sum(d.get(k, 0) or 0 for d in res)
    q = {}
    for d in res:
        for k, v in d.get("queries", {}).items():
            for a, b in v.items():
                q.setdefault(k, {}).setdefault(a, 0)
                q[k][a] += b
    meth = {}
    for d in res:
        for _, m, n in d.get("proved_obligations", []):
            meth[m] = meth.get(m, 0) + n
    fns = sorted({demangle(s) for d in res for s in d.get("functions", [])})
    cov = dict(
        explanation="Symbolic execution of the LLVM IR of /repo's current tree; every obligation decided by an SMT query over all values of the symbolic inputs inside the stated boxes, per feasible path.",
        harnesses={d["harness"]: dict(paths=d.get("paths"), proved=d.get("proved"), violated=d.get("violated"), inconclusive=d.get("inconclusive"), forks=d.get("forks"), pruned_infeasible=d.get("pruned"), branches_not_explored=d.get("branches_not_explored"), congruent_branches=d.get("congruent_branches"), terms_merged=d.get("merges"), feasibility_unknown_explored=d.get("unknown_feasibility"), solver_s=d.get("solver_s"), wall_s=d.get("wall_s"), symbolic_inputs=d.get("inputs"), reached=d.get("reached"), float_model=d.get("mode"), error=d.get("error")) for d in res},
        states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=agree,
        obligations_proved=tot("proved"), proof_methods=meth, queries=q, solver_s=round(tot("solver_s"), 2),
        instructions_executed=tot("instructions"), functions_encoded=fns, uninterpreted=sorted({u for d in res for u in d.get("uninterpreted", [])}),
        tolerance_proofs=tot("tolerance_proofs"), largest_query_bytes=max([d.get("largest_query_bytes", 0) or 0 for d in res] + [0]),
        native_replays=replays, native_disagreements=disagree, undecided=[list(u) for u in undec], bounds=prop["bounds"], build_s=round(build_s, 1),
        samples=[dict(harness=d["harness"], witness=w) for d in res for w in d.get("witnesses", [])[:1]][:3],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=props.COMMON_ASSUMPTIONS + prop.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d harnesses, %d paths, %d proved, %d violations, %d known, %d undecided, %d native agree, %d disagree, %.1f s (build %.1f)" % (pid, tier, len(res), tot("paths"), tot("proved"), len(viol), len(hit_known), len(undec), agree, len(disagree), time.time() - t0, build_s))
    for u in undec[:10]:
        log("  undecided:", u[0], u[1][:500])
    for u in disagree[:5]:
        log("  native disagreement:", u["harness"], u["failed"], u["output"][-200:])
    if viol:
        sys.exit(1)
    # an obligation without a verdict and without a counterexample is reported, not alarmed on; a check that decided
    # less than half of what it set out to decide gives no answer
    for u in undec[:20]:
        print("UNDECIDED property=%s %s: %s" % (pid, u[0], u[1][:160].replace("\n", " ")))
    lost = len([u for u in undec if not u[1].startswith(("engine", "vacuous"))]) + 30 * len([d for d in res if d.get("error")])
    if tot("proved") == 0 or lost > tot("proved"):
        print("CHECK-ERROR less than half of the obligations were decided (see evidence)")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
