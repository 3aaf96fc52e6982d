#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current working tree.

Builds the property's harnesses together with /repo's crate to LLVM IR, executes every
harness symbolically (engine/build/symex, Z3), replays counterexamples natively and
reports.  Exit 0: held on everything explored.  1: VIOLATION.  2: the check could not
answer (solver timeout, time limit, build failure, unreachable cover, ...).
"""
import fcntl, json, os, re, shutil, subprocess, sys, time, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
REPO = "/repo"
WORK = os.path.join(ROOT, "work")
SYMEX = os.path.join(ROOT, "engine/build/symex")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CORES = os.cpu_count() or 8

class CheckError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def errors_only(out):
    blocks = re.split(r"\n(?=error|warning)", out)
    e = [b for b in blocks if b.startswith("error")]
    return ("\n".join(e) if e else out[-2000:])[:3000]

def build_engine():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["make", "-s", "-C", os.path.join(ROOT, "engine")])
        if r.returncode != 0 or not os.path.exists(SYMEX):
            raise CheckError("engine build failed:\n" + r.stdout[-3000:])

def cargo_env(target, toolchain):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e

def forget_fleece(target):
    """Never trust time stamps for the code under test."""
    for d, _, _ in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for f in os.listdir(d):
                if f.startswith(("fleece-", "harness-", "replay-")):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)

def build_ir(prop, variant, work):
    target = os.path.join(work, "target-sym")
    forget_fleece(target)
    prof = {"release": "release", "ndebug": "ndebug"}[variant]
    deps = os.path.join(target, prof, "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("harness-") or f.startswith("libharness"):
                os.unlink(os.path.join(deps, f))
    cmd = ["cargo", "rustc", "--profile", prof, "--offline", "--locked", "--features", prop.lower(), "--",
           "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "relocation-model=static"]
    r = run(cmd, cwd=os.path.join(ROOT, "harness"), env=cargo_env(target, STABLE))
    if r.returncode != 0:
        raise CheckError("harness build failed:\n" + errors_only(r.stdout))
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
    if len(ll) != 1:
        raise CheckError(f"expected one .ll file, found {ll}")
    out = os.path.join(work, f"{prop}-{variant}.ll")
    shutil.move(ll[0], out)
    return out

class Native:
    """Native builds of the harness, made on demand."""
    def __init__(self, prop, work):
        self.prop, self.work, self.bins, self.failed = prop, work, {}, None
    def bin(self, kind):
        if self.failed:
            raise CheckError(self.failed)
        if kind in self.bins:
            return self.bins[kind]
        target = os.path.join(self.work, "target-native")
        if not self.bins:
            forget_fleece(target)
        env = cargo_env(target, STABLE)
        cmd = ["cargo", "build", "--offline", "--locked", "--features", self.prop.lower()]
        sub = "debug"
        if kind == "release":
            cmd.append("--release"); sub = "release"
        elif kind == "asan":
            target += "-asan"
            env = cargo_env(target, NIGHTLY)
            env["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
            forget_fleece(target)
            cmd += ["--target", "x86_64-unknown-linux-gnu"]; sub = "x86_64-unknown-linux-gnu/debug"
        r = run(cmd, cwd=os.path.join(ROOT, "replay"), env=env)
        if r.returncode != 0:
            self.failed = "native build failed:\n" + errors_only(r.stdout)
            raise CheckError(self.failed)
        p = os.path.join(self.work, f"replay-{kind}")
        shutil.copy(os.path.join(target, sub, "replay"), p)
        self.bins[kind] = p
        return p
    def run(self, kind, harness, hexin, params, timeout=20, reuse=False):
        """-> (failed, description)"""
        cmd = [self.bin("release" if kind == "valgrind" else kind), harness, hexin] + [str(p) for p in params]
        if kind == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
            timeout *= 4
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", RUST_BACKTRACE="0")
        if reuse:
            env["REPLAY_REUSE"] = "1"
        try:
            r = run(cmd, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return True, "does not terminate"
        if r.returncode == 0:
            return False, "ran to the end"
        if r.returncode == 3:
            return False, "input outside the harness's assumptions"
        tail = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith("note:")]
        key = [l for l in tail if l.startswith("FAIL") or "panicked at" in l or "ERROR: AddressSanitizer" in l]
        i = tail.index(key[0]) if key else max(0, len(tail) - 3)
        return True, f"{kind} build, exit {r.returncode}: " + " / ".join(tail[i:i + 3])[:600]

MEM = {"null-deref", "wild-pointer", "out-of-bounds", "use-after-free", "double-free", "invalid-free",
       "write-to-constant", "overlapping-memcpy", "uninitialised-read", "ub-assume", "unreachable", "trap"}

def replay(native, h, v, params, variant):
    order = ["debug", "release"] if variant != "ndebug" else ["release", "debug"]
    if v["kind"] in MEM:
        order = order + ["asan", "valgrind"]
    notes = []
    for k in order:
        ok, what = native.run(k, h["name"], v["input"], params)
        if ok:
            return what
        notes.append(f"{k}: {what}")
    # once more with an allocator that gives out freed blocks again as the engine does
    for k in order[:2]:
        ok, what = native.run(k, h["name"], v["input"], params, reuse=True)
        if ok:
            return what + " (allocator that reuses freed blocks)"
        notes.append(f"{k}, reusing: {what}")
    v["notes"] = notes
    return None

def kill_group(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass

def has_new(t, known):
    """Did this engine run find a violation that is not a listed finding?"""
    try:
        vs = json.load(open(t["out"]))["violations"]
    except (OSError, ValueError, KeyError):
        return False
    return any((t["h"]["name"], v["key"]) not in [(k[0], k[1]) for k in known] for v in vs)

GRACE = 45
def schedule(tasks, tlimit, known):
    """Run engine processes, at most CORES workers at a time.  Once a harness reports a violation the
    others get GRACE seconds more: the verdict is known (if the replay agrees; if not, there is an error anyway)."""
    pend = list(tasks); live = []; used = 0; cut = tlimit
    while pend or live:
        if time.time() > cut and cut < tlimit:
            for t in pend + live:
                t["cut"] = True
            pend = []
        i = 0
        while i < len(pend):
            t = pend[i]
            if used == 0 or used + t["jobs"] <= CORES:
                left = tlimit - time.time()
                t["p"] = subprocess.Popen(t["cmd"] + ["--time", str(max(1, int(left)))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
                t["t0"] = time.time(); used += t["jobs"]; live.append(t); pend.pop(i)
            else:
                i += 1
        time.sleep(0.02)
        for t in list(live):
            if t["p"].poll() is not None:
                t["log"] = t["p"].stdout.read(); t["wall"] = time.time() - t["t0"]
                used -= t["jobs"]; live.remove(t)
                if cut == tlimit and has_new(t, known):
                    cut = min(tlimit, time.time() + GRACE)
            elif time.time() > tlimit + 30 or t.get("cut"):
                kill_group(t["p"])

def known_findings(prop):
    """finding: property=<id> harness=<h> key=<violation key> :: text"""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = PROPS[prop]
    only = os.environ.get("ONLY")
    work = os.path.join(WORK, prop)
    os.makedirs(work, exist_ok=True)
    limit = float(os.environ.get("VERIF_LIMIT", conf.get("limit", {}).get(tier, 600 if tier == "quick" else 6 * 3600)))
    build_engine()
    tb = time.time()
    hs = [h for h in conf["harnesses"] if (not only or re.search(only, h["name"])) and (tier == "thorough" or not h.get("thorough_only"))]
    lls = {}
    for v in sorted({h["variant"] for h in hs}, reverse=True):
        lls[v] = build_ir(prop, v, work)
    build_s = time.time() - tb
    tasks = []
    known = known_findings(prop)
    for n, h in enumerate(hs):
        params = h[tier]
        jobs = h["tjobs"] if tier == "thorough" else h["jobs"]
        out = os.path.join(work, f"{h['name']}-{h['variant']}-{n}.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [SYMEX, "--ll", lls[h["variant"]], "--entry", h["name"], "--out", out, "--jobs", str(jobs),
               "--steps", str(h.get("steps", 20_000_000)), "--qtimeout", str(60_000 if tier == "quick" else 600_000)]
        if not any(k[0] == h["name"] for k in known):
            cmd += ["--grace", str(GRACE)]
        for x in params:
            cmd += ["--param", str(x)]
        tasks.append(dict(h=h, cmd=cmd, out=out, jobs=min(jobs, CORES), params=params))
    tasks.sort(key=lambda t: -t["jobs"])
    schedule(tasks, t0 + limit, known)
    native = Native(prop, work)
    errors, violations, suppressed = [], [], []
    tot = dict(paths=0, pruned=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, quick=0, solver_s=0.0)
    fns, rows, samples, validated = {}, [], [], 0
    for t in tasks:
        h = t["h"]
        if not os.path.exists(t["out"]):
            if t.get("cut"):
                continue
            errors.append(f"{h['name']}: engine failed: {t.get('log', '')[-500:]}")
            continue
        r = json.load(open(t["out"]))
        for k in tot:
            tot[k] += r[k]
        for f, n in r["functions"].items():
            fns[f] = max(fns.get(f, 0), n)
        rows.append(dict(harness=h["name"], build=h["variant"], params=t["params"], paths=r["paths"], pruned=r["pruned"],
                         instructions=r["steps"], queries=r["queries"] + r["quick"] + r["cached"], smt_calls=r["queries"],
                         solver_s=round(r["solver_s"], 3), max_query_s=round(r["max_query_s"], 3), wall_s=round(t["wall"], 2),
                         covers=r["covers"], violations=len(r["violations"])))
        vs = r["violations"]
        seen, tried = {}, {}
        if r["incomplete"] and not vs:
            errors.append(f"{h['name']}: not fully explored: {r['incomplete_why'][:5]}")
        if not vs:
            miss = [c for c in h["covers"] if c not in r["covers"]]
            if miss:
                errors.append(f"{h['name']}: situations never reached: {miss}")
            if r["paths"] == 0 and not r["incomplete"]:
                errors.append(f"{h['name']}: no path ran to its end")
        for v in vs:
            v["harness"] = h["name"]
            kf = [k for k in known if k[0] == h["name"] and k[1] == v["key"]]
            if kf:
                suppressed.append((kf[0][2], v)); continue
            try:
                # some inputs depend on where the allocator puts things: one that reproduces is enough
                if seen.get(v["key"]) is None and tried.get(v["key"], 0) < 6:
                    tried[v["key"]] = tried.get(v["key"], 0) + 1
                    seen[v["key"]] = replay(native, h, v, t["params"], h["variant"])
                    if seen[v["key"]]:
                        violations.append((h, t, v, seen[v["key"]]))
                    else:
                        errors.append(f"{h['name']}: counterexample did not reproduce natively: {v['kind']}: {v['msg']} input={v['input']} stack={v['stack'][:4]} ({v.get('notes')})")
            except CheckError as e:
                errors.append(str(e))
        # agreement of the encoding with the real code: solver models of explored paths, run natively
        if not vs:
            for s in r["samples"][:4]:
                try:
                    bad, what = native.run("release" if h["variant"] == "ndebug" else "debug", h["name"], s, t["params"])
                    if bad and "does not terminate" in what:
                        bad, what = native.run("release", h["name"], s, t["params"], timeout=120)
                except CheckError as e:
                    errors.append(str(e)); break
                if bad:
                    errors.append(f"{h['name']}: the symbolic run passes input {s} but natively: {what}")
                else:
                    validated += 1
                if len(samples) < 12:
                    samples.append(dict(harness=h["name"], input=s, native=what))
    rdir = os.path.join(ROOT, "evidence", "replay")
    n = 0
    for h, t, v, what in violations:
        n += 1
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{prop}-{n}.json")
        json.dump(dict(property=prop, harness=h["name"], params=t["params"], input=v["input"], kind=v["kind"], message=v["msg"],
                       where=v["stack"][:12], native=what, run=f"python3 {ROOT}/check.py --replay {p}"), open(p, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  {h['name']}: {v['kind']}: {v['msg']}\n  native: {what}\n  at: " + "\n      ".join(v["stack"][:6]))
    for text in dict.fromkeys(t for t, v in suppressed):
        print(f"KNOWN-FINDING: property={prop} {text}")
    errors = list(dict.fromkeys(errors))
    for e in errors[:20]:
        print(f"ERROR: {e}")
    mine = {f: n for f, n in fns.items() if f.rsplit(" ", 1)[-1].startswith("/repo/") or "/repo/src" in f}
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
              violations=len(violations),
              assumptions=["LLVM IR as emitted by rustc stable -O2 (fat LTO, std included) is what is executed; the engine's IR semantics and Z3 are trusted, cross-checked by native replay of the solver models of sampled paths",
                           "allocation never fails; heap blocks are never adjacent; formatting machinery of panics and errors is not executed"] + conf.get("assumptions", []),
              coverage=dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated,
                            samples=samples or [dict(note="no native samples on this run")],
                            bounds=conf["bounds"] if isinstance(conf["bounds"], str) else conf["bounds"][tier],
                            states_are="paths explored to their end, each standing for all inputs that follow it",
                            transitions_are="solver-decided branches where both sides were feasible",
                            instructions=tot["steps"], pruned_by_assumption=tot["pruned"],
                            feasibility_questions=tot["queries"] + tot["cached"] + tot["quick"], smt_solver_calls=tot["queries"],
                            sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2),
                            ir_build_s=round(build_s, 1), harnesses=rows, errors=errors,
                            functions_encoded=len(mine), functions=sorted(mine), known_findings=[x for x, _ in suppressed]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(rows)} harnesses, {tot['paths']} paths, {tot['steps']} instructions, {tot['queries']} SMT calls ({tot['solver_s']:.1f} s), build {build_s:.1f} s, wall {time.time() - t0:.1f} s")
    if os.environ.get("ROWS"):
        for r in rows:
            print("   ", {k: r[k] for k in ("harness", "params", "paths", "instructions", "smt_calls", "solver_s", "wall_s", "covers")})
    if violations:
        return 1
    return 2 if errors else 0

def do_replay(path):
    r = json.load(open(path))
    work = os.path.join(WORK, r["property"]); os.makedirs(work, exist_ok=True)
    nat = Native(r["property"], work)
    for k in ("debug", "release", "asan"):
        bad, what = nat.run(k, r["harness"], r["input"], r["params"])
        print(k, "->", what)
        if bad:
            return 1
    return 0

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            build_engine(); sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(do_replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except CheckError as e:
        print("ERROR:", e)
        sys.exit(2)
