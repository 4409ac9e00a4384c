#!/usr/bin/env python3
"""Decides a property of librrb by symbolic execution of its LLVM IR.

  check.py C01 [--tier quick|thorough]     exit 0 held / 1 violated / 2 no answer
  check.py --replay FILE                   runs one recorded counterexample natively
  check.py --setup                         builds the symbolic executor
  check.py --entry NAME --cfg w4 --param 0,1,2 [--errors N]   one job, for development
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
import jobs as J

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
RUSTUP = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
BIN = f"{RUSTUP}/toolchains/{TOOLCHAIN}/lib/rustlib/x86_64-unknown-linux-gnu/bin"
ENGINE = f"{HERE}/engine/target/release/rsym"
NPROC = os.cpu_count() or 4

# What each encoding is compiled with.
CFGS = {
    "w4": '--cfg librrb_verif_width="4" --cfg librrb_verif',
    "w64": "--cfg librrb_verif",
    "w4r": '--cfg librrb_verif_width="4" --cfg librrb_verif -C debug-assertions=off -C overflow-checks=off',
    "w64r": "--cfg librrb_verif -C debug-assertions=off -C overflow-checks=off",
}


class NoAnswer(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise NoAnswer(f"{what} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def build_engine():
    srcs = [os.path.join(HERE, "engine/src", f) for f in os.listdir(f"{HERE}/engine/src")]
    if os.path.exists(ENGINE) and all(os.path.getmtime(s) < os.path.getmtime(ENGINE) for s in srcs):
        return
    sh(["cargo", "build", "--release", "--offline"], "building the symbolic executor", cwd=f"{HERE}/engine", env=env())


def build_ir(cfg, work):
    """Compiles /repo and the harnesses to one LLVM module."""
    t = f"{work}/{cfg}"
    flags = ("--emit=llvm-bc,link -C embed-bitcode=no -C symbol-mangling-version=v0 -Zshare-generics=no "
             "-Awarnings -Zinline-mir=yes -Zmir-opt-level=2 " + CFGS[cfg])
    sh(["cargo", "build", "--offline", "--lib", "--target-dir", t], f"compiling the code under test ({cfg})",
       cwd=f"{HERE}/harness", env=env(RUSTFLAGS=flags))
    deps = f"{t}/debug/deps"
    bcs = [f"{deps}/{f}" for f in os.listdir(deps)
           if f.endswith(".bc") and re.match(r"(harness|librrb|rand_core|rand_xoshiro|archery)-", f)]
    sh([f"{BIN}/llvm-link", *bcs, "-o", f"{t}/all.bc"], "llvm-link")
    names = [n for n in entry_names()]
    sh([f"{BIN}/opt", "-passes=internalize,globaldce,function(sroa,early-cse)",
        "-internalize-public-api-list=" + ",".join(names), "-S", f"{t}/all.bc", "-o", f"{work}/{cfg}.ll"], "opt")
    shutil.rmtree(t, ignore_errors=True)
    return f"{work}/{cfg}.ll"


def entry_names():
    out = []
    for f in os.listdir(f"{HERE}/harness/src"):
        if f.endswith(".rs"):
            out += re.findall(r"\b(h\d\d_\w+)\b", open(f"{HERE}/harness/src/{f}").read())
    return sorted(set(out))


NATIVE = {
    "dev": ("", []),
    "release": ("", ["--release"]),
    "asan": ("-Zsanitizer=address -C debug-assertions=on", []),
}


def build_native(cfg, profile, work):
    flags, args = NATIVE[profile]
    t = f"{work}/native-{cfg}-{profile}"
    exe = f"{work}/replay-{cfg}-{profile}"
    if not os.path.exists(exe):
        width = '--cfg librrb_verif --cfg replay -Awarnings ' + ('--cfg librrb_verif_width="4" ' if cfg.startswith("w4") else "")
        cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", t, *args]
        if profile == "asan":
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sh(cmd, f"building the native replay ({cfg}, {profile})", cwd=f"{HERE}/harness", env=env(RUSTFLAGS=width + flags))
        sub = "x86_64-unknown-linux-gnu/" if profile == "asan" else ""
        os.rename(f"{t}/{sub}{'release' if profile == 'release' else 'debug'}/replay", exe)
        shutil.rmtree(t, ignore_errors=True)
    return exe


def native(exe, entry, params, inputs, timeout=60, cmd=None):
    """Runs one execution natively; what happened, in a word, and its output."""
    try:
        p = subprocess.run((cmd or [exe]) + [entry, ",".join(map(str, params)), ",".join(map(str, inputs))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env(ASAN_OPTIONS="detect_leaks=0", RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = p.stdout.decode(errors="replace")
    m = re.search(r"^REPLAY-(\S+)( \d+)?", out, re.M)
    if "Undefined Behavior" in out or "AddressSanitizer" in out:
        return "memory", out[-3000:]
    if p.returncode == 0 and m:
        return "ok", out[-2000:]
    if p.returncode < 0 or p.returncode in (134, 139):
        return "crash", out[-2000:]
    if p.returncode == 3:
        return "diverged", out[-2000:]
    if m and m.group(1) == "ASSERT":
        return "assert" + m.group(2), out[-2000:]
    return "panic", out[-2000:]


def miri(cfg, entry, params, inputs, work, seeds=0, order=""):
    flags = '--cfg librrb_verif --cfg replay -Awarnings ' + ('--cfg librrb_verif_width="4"' if cfg.startswith("w4") else "")
    e = env(RUSTFLAGS=flags, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
            + (f" -Zmiri-many-seeds=0..{seeds} -Zmiri-preemption-rate=0.05" if seeds else ""),
            XDG_CACHE_HOME=f"{work}/cache", REPLAY_ORDER=order)
    try:
        p = subprocess.run(["cargo", "miri", "run", "--offline", "--bin", "replay", "--target-dir", f"{work}/miri", "--",
                            entry, ",".join(map(str, params)), ",".join(map(str, inputs))],
                           cwd=f"{HERE}/harness", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = p.stdout.decode(errors="replace")
    if "Data race detected" in out:
        return "race", out[-3000:]
    if "Undefined Behavior" in out:
        return "memory", out[-3000:]
    if re.search(r"^REPLAY-(ASSERT|PANIC)", out, re.M):
        return "assert", out[-3000:]
    if re.search(r"^REPLAY-OK", out, re.M):
        return "ok", out[-2000:]
    return "other", out[-3000:]


def reproduce(cfg, entry, params, failure, work):
    """Replays a counterexample against the real code. (reproduced?, transcript)"""
    log = []
    inputs = failure["inputs"]
    base = "w4" if cfg.startswith("w4") else "w64"
    for profile in ("dev", "release", "asan"):
        if profile == "asan" and failure["kind"] != "memory":
            continue
        try:
            exe = build_native(base, profile, work)
        except NoAnswer as e:
            log.append(f"{profile}: {e}")
            continue
        what, out = native(exe, entry, params, inputs)
        log.append(f"{profile} build: {what}\n{out}")
        if what not in ("ok", "diverged"):
            return True, log
    if entry in J.THREADED:
        # one schedule in a hundred or so
        for order, seeds in (("first", 8), ("second", 8), ("", 64)):
            what, out = miri(base, entry, params, inputs, work, seeds, order)
            log.append(f"miri, {seeds} schedules, thread to end before the other: {order or 'none'}: {what}\n{out}")
            if what in ("race", "memory", "assert"):
                return True, log
    elif failure["kind"] == "memory":
        what, out = miri(base, entry, params, inputs, work)
        log.append(f"miri: {what}\n{out}")
        if what == "memory":
            return True, log
    return False, log


def run_job(job, work, deadline, errors=1):
    left = deadline - time.time()
    if left < 5:
        return dict(status="incomplete", entry=job["entry"], params=job["params"], job=job, skipped=True)
    out = tempfile.mktemp(dir=work, suffix=".json")
    cmd = [ENGINE, "--ir", f"{work}/{job['cfg']}.ll", "--entry", job["entry"], "--param", ",".join(map(str, job["params"])),
           "--time", str(int(min(left, job.get("time", 800)))), "--out", out, "--errors", str(errors)]
    for k in ("steps", "depth", "paths"):
        if k in job:
            cmd += [f"--{k}", str(job[k])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return dict(status="error", entry=job["entry"], params=job["params"], job=job, error=p.stdout[-2000:])
    r = json.load(open(out))
    os.unlink(out)
    r["job"] = job
    return r


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return sorted(set(p.stdout.split("\n")) - {""})
    except OSError:
        return sorted(names)


def load_known():
    out = []
    p = f"{HERE}/known-findings.json"
    if os.path.exists(p):
        out = json.load(open(p))["findings"]
    return out


def known_match(prop, job, failure, known):
    """A listed finding names the entry point and the assertion (or message) that fails, and the inputs where it does."""
    for k in known:
        if k.get("status") != "known" or k["property"] != prop or k["entry"] != job["entry"]:
            continue
        if k["kind"] == failure["kind"] and re.search(k["msg"], failure["msg"]) and re.search(k.get("func", ""), failure.get("func", "")):
            return k
    return None


def check(prop, tier):
    t0 = time.time()
    spec = J.PROPS[prop]
    joblist = spec["quick"]() if tier == "quick" else spec["thorough"]()
    budget = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix=f"rsym-{prop}-")
    evdir = f"{HERE}/evidence"
    os.makedirs(f"{evdir}/replays", exist_ok=True)
    evpath = f"{evdir}/{prop}.json"
    if os.path.exists(evpath):
        os.unlink(evpath)
    try:
        return check2(prop, tier, spec, joblist, work, deadline, t0, evpath)
    except NoAnswer as e:
        print(f"NO ANSWER property={prop}: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check2(prop, tier, spec, joblist, work, deadline, t0, evpath):
    known = load_known()
    cfgs = sorted({j["cfg"] for j in joblist})
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build_engine)] + [ex.submit(build_ir, c, work) for c in cfgs]
        fs += [ex.submit(build_native, c, "dev", work) for c in cfgs if c in ("w4", "w64")]
        for f in fs:
            f.result()
    t1 = time.time()
    results, bad, hits = [], [], {}
    order = sorted(joblist, key=lambda j: -j.get("cost", 1))
    stop = False
    with cf.ThreadPoolExecutor(NPROC) as ex:
        def go(job):
            if stop:
                return None
            nk = [k for k in known if k.get("status") == "known" and k["property"] == prop and k["entry"] == job["entry"]]
            return run_job(job, work, deadline, errors=1 if not nk else 1000)
        futs = [ex.submit(go, j) for j in order]
        for f in cf.as_completed(futs):
            r = f.result()
            if r is None:
                continue
            results.append(r)
            if r["status"] == "violation":
                for fl in r["failures"]:
                    k = known_match(prop, r["job"], fl, known)
                    if k:
                        hits[k["id"]] = k
                    else:
                        bad.append((r, fl))
                        stop = True
    solve_s = time.time() - t1
    verdict, lines, viol = 0, [], 0
    for r, fl in bad[:3]:
        ok, log = reproduce(r["job"]["cfg"], r["job"]["entry"], r["job"]["params"], fl, work)
        path = f"{HERE}/evidence/replays/{prop}-{r['job']['entry']}-{len(lines)}.json"
        json.dump(dict(property=prop, cfg=r["job"]["cfg"], entry=r["job"]["entry"], params=r["job"]["params"], inputs=fl["inputs"],
                       kind=fl["kind"], msg=fl["msg"], func=fl["func"], stack=demangle_list(fl["stack"]), reproduced=ok, transcript=log,
                       how=f"python3 {HERE}/check.py --replay {path}"), open(path, "w"), indent=1)
        if ok:
            viol += 1
            lines.append(f"VIOLATION property={prop} replay={path}")
            print(lines[-1])
            print(f"  {r['job']['entry']} params={r['job']['params']} cfg={r['job']['cfg']}: {fl['kind']}: {fl['msg']}")
            print(f"  where: {where(fl)}")
            verdict = 1
            break
        print(f"NOT REPRODUCED property={prop} {r['job']['entry']} params={r['job']['params']} {fl['kind']}: {fl['msg']} (see {path})")
        verdict = 2
    if not bad:
        for r in results:
            if r["status"] not in ("complete", "violation"):
                print(f"NO ANSWER property={prop} {r['job']['entry']} params={r['job']['params']}: {r['status']} "
                      f"{r.get('inconclusive', '')}{r.get('error', '')} paths={r.get('paths')}")
                verdict = 2
            for c in r["job"].get("covers", [1]):
                if r["status"] in ("complete", "violation") and str(c) not in r["covers"]:
                    print(f"NO ANSWER property={prop} {r['job']['entry']} params={r['job']['params']}: vacuous, witness {c} not reached")
                    verdict = 2
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {hits[k]['what']}")
    # The encoding against the compiled code: executions the engine explored, run natively.
    validated, diverged = 0, []
    if verdict == 0:
        todo = []
        for r in results:
            if r["job"]["cfg"] in ("w4", "w64"):
                seen = []
                for i in r.get("samples", []):
                    if i not in seen:
                        seen.append(i)
                todo += [(r, i) for i in seen[:3 if tier == "quick" else 10]]
        known_entries = {k["entry"] for k in known if k.get("status") == "known" and k["property"] == prop}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = [(r, i, ex.submit(native, f"{work}/replay-{r['job']['cfg']}-dev", r["job"]["entry"], r["job"]["params"], i)) for r, i in todo
                  if r["job"]["entry"] not in known_entries]
            for r, i, f in fs:
                what, out = f.result()
                if what == "ok":
                    validated += 1
                else:
                    diverged.append((r["job"]["entry"], r["job"]["params"], i, what))
        if diverged:
            print(f"NO ANSWER property={prop}: the encoding and the compiled code disagree: {diverged[:2]}")
            verdict = 2
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    fns = demangle({f for r in results for f in r.get("functions", [])})
    lib = [f for f in fns if "librrb" in f]
    samples = []
    for r in results:
        for i in r.get("samples", [])[:1]:
            samples.append(dict(entry=r["job"]["entry"], cfg=r["job"]["cfg"], params=r["job"]["params"], inputs=i))
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("instructions"), traces_validated_against_impl=validated,
            samples=samples[:12],
            exhaustive=all(r["status"] == "complete" for r in results),
            explanation="Symbolic execution of the LLVM IR of librrb and a harness. states: execution paths explored to their end; "
                        "transitions: IR instructions executed symbolically; traces_validated_against_impl: explored paths run again "
                        "natively with the solver's inputs, same verdict.",
            bounds=spec["bounds"], outside_bounds=spec["outside"],
            jobs=len(results), jobs_complete=sum(r["status"] == "complete" for r in results),
            queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), queries_unknown=tot("unknown"),
            decided_by_interval_refinement=tot("interval_decided"), forks=tot("forks"), infeasible_paths=tot("infeasible"),
            solver_s=round(tot("solver_s"), 2), symbolic_execution_wall_s=round(solve_s, 2),
            solver=next((r["solver"] for r in results if "solver" in r), ""),
            assertions_constant=sum(v[0] for r in results for v in r.get("asserts", {}).values()),
            assertions_decided_by_solver=sum(v[1] for r in results for v in r.get("asserts", {}).values()),
            functions_encoded=len(fns), librrb_functions_encoded=len(lib), librrb_functions=[short(f) for f in lib],
            encodings={c: CFGS[c] for c in cfgs},
            per_job=[dict(entry=r["job"]["entry"], cfg=r["job"]["cfg"], params=r["job"]["params"], status=r["status"], paths=r.get("paths"),
                          queries=r.get("queries"), wall_s=round(r.get("wall_s", 0), 1)) for r in results],
            known_findings_hit=sorted(hits)),
        assumptions=J.ASSUMPTIONS + spec.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(evpath, "w"), indent=1)
    if verdict == 0:
        print(f"OK property={prop} tier={tier} jobs={len(results)} paths={tot('paths')} queries={tot('queries')} "
              f"instructions={tot('instructions')} validated={validated} wall={time.time()-t0:.1f}s")
    return verdict


def short(f):
    return re.sub(r"\[[0-9a-f]{8,}\]", "", f)[:160]


def demangle_list(l):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(l), stdout=subprocess.PIPE, text=True)
        return [short(x) for x in p.stdout.split("\n") if x]
    except OSError:
        return l


def where(fl):
    st = demangle_list([fl["func"]] + fl["stack"])
    return " < ".join(s for s in st if "librrb" in s or "harness" in s)[:600]


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="rsym-replay-")
    try:
        ok, log = reproduce(d["cfg"], d["entry"], d["params"], d, work)
        print("\n".join(log))
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def dev(a):
    """One job, with the encodings kept in a scratch folder between calls."""
    work = a.work
    os.makedirs(work, exist_ok=True)
    build_engine()
    ll = f"{work}/{a.cfg}.ll"
    if a.rebuild or not os.path.exists(ll):
        build_ir(a.cfg, work)
        for f in os.listdir(work):
            if f.startswith("replay-"):
                os.unlink(f"{work}/{f}")
    job = dict(entry=a.entry, cfg=a.cfg, params=[int(x) for x in a.param.split(",") if x])
    if a.steps:
        job["steps"] = a.steps
    r = run_job(job, work, time.time() + a.time, a.errors)
    print({k: r.get(k) for k in ("status", "paths", "instructions", "queries", "solver_s", "wall_s", "covers", "inconclusive", "error", "infeasible")})
    for f in r.get("failures", [])[:a.errors]:
        print(f["kind"], f["msg"], f["inputs"][:30])
        print("   ", where(f))
        if a.native:
            ok, log = reproduce(a.cfg, a.entry, job["params"], f, work)
            print("    reproduced" if ok else "    NOT REPRODUCED", log[-1][:600])


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--setup", action="store_true")
    p.add_argument("--entry")
    p.add_argument("--cfg", default="w4")
    p.add_argument("--param", default="")
    p.add_argument("--errors", type=int, default=1)
    p.add_argument("--steps", type=int, default=0)
    p.add_argument("--time", type=float, default=120)
    p.add_argument("--work", default="/tmp/rsym-dev2")
    p.add_argument("--rebuild", action="store_true")
    p.add_argument("--native", action="store_true")
    a = p.parse_args()
    if a.setup:
        build_engine()
        return 0
    if a.replay:
        return replay(a.replay)
    if a.entry:
        return dev(a)
    return check(a.prop, a.tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        sys.exit(2)
