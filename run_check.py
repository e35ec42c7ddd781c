#!/usr/bin/env python3
"""Builds ADOL-C from /repo's working tree with instrumentation, drives one
property's workload against it, and decides from what the monitors observed.

  run_check.py <PID> [--tier quick|thorough] [--seed N]
  run_check.py <PID> --replay CASE [--run K] [--seed N]   one case, verbose

exit 0 held on everything explored / 1 violated (VIOLATION line) / 2 the check
itself could not do its work.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
from checks import CHECKS, CONFIGS  # noqa: E402

NPROC = 8
STALL_S = 120        # no progress for this long: the case is rerun alone
HANG_S = 240         # ... with this limit before it counts as a hang
MAX_RESTARTS = 12


class CheckError(Exception):
    pass


def sha_tree():
    h = hashlib.sha256()
    roots = ["ADOL-C", "CMakeLists.txt", "cmake"]
    files = []
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in (".git", "_build")]
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if re.search(r"/(test|boost-test|examples|doc)/", f):
            continue
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd, log, timeout=700, cwd=None):
    with open(log, "ab") as lf:
        lf.write(("$ " + " ".join(cmd) + "\n").encode())
        lf.flush()
        r = subprocess.run(cmd, stdout=lf, stderr=lf, cwd=cwd, timeout=timeout)
    return r.returncode


def harness_cmd(cfg, bdir, src, out):
    c = CONFIGS[cfg]
    return ([c["cxx"], "-std=c++20", "-w"] + c["flags"].split() +
            ["-I" + REPO + "/ADOL-C/include", "-I" + bdir + "/ADOL-C/include",
             "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/ADOL-C/c_interface",
             "-DADOLC_ADOUBLE_STDCZERO=1", "-DADOLC_BITWORD_BITS=32"] +
            c.get("defs", "").split() +
            (["-DADOLC_SPARSE=1"] if c.get("sparse", True) else []) +
            ["-c", os.path.join(HERE, "harness", src), "-o", out])


def build(runs):
    """-> {(cfg, src): binary}"""
    os.makedirs(CACHE, exist_ok=True)
    tree = sha_tree()
    bins, jobs = {}, []
    lockf = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        need = {}
        for r in runs:
            need.setdefault(r["cfg"], set()).update([r["src"]])
        for cfg, srcs in need.items():
            c = CONFIGS[cfg]
            key = hashlib.sha256((tree + json.dumps(c, sort_keys=True)).encode()).hexdigest()[:12]
            bdir = os.path.join(CACHE, "b-%s-%s" % (cfg, key))
            log = os.path.join(CACHE, "build-%s.log" % cfg)
            if not os.path.exists(os.path.join(bdir, ".done")):
                for old in os.listdir(CACHE):
                    if old.startswith("b-%s-" % cfg):
                        shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
                open(log, "w").close()
                cm = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                      "-DCMAKE_CXX_COMPILER=" + c["cxx"], "-DCMAKE_C_COMPILER=" + c["cc"],
                      "-DBUILD_SHARED_LIBS=OFF",
                      "-DENABLE_SPARSE=" + ("ON" if c.get("sparse", True) else "OFF"),
                      "-DBUILD_INTERFACE=OFF",
                      "-DENABLE_BOOST_POOL=" + ("ON" if c.get("boost", True) else "OFF"),
                      "-DCMAKE_CXX_FLAGS=-w " + c["flags"], "-DCMAKE_C_FLAGS=-w " + c["flags"]] + c.get("cmake", [])
                if c.get("sparse", True):
                    cm.append("-DColPack_DIR=/opt/vp/colpack-cmake")
                if sh(cm, log) != 0:
                    raise CheckError("cmake failed, see %s" % log)
            # harness objects compile next to the library
            procs = []
            hdrs = hashlib.sha256()
            for f in sorted(os.listdir(os.path.join(HERE, "harness"))):
                if f.endswith(".h"):
                    hdrs.update(open(os.path.join(HERE, "harness", f), "rb").read())
            for s in sorted(srcs):
                hk = hashlib.sha256(hdrs.digest() + open(os.path.join(HERE, "harness", s), "rb").read()).hexdigest()[:12]
                stem = os.path.join(bdir, "h-%s-%s" % (s.replace("/", "_"), hk))
                bins[(cfg, s)] = stem
                if not os.path.exists(stem):
                    lf = open(stem + ".log", "w")
                    procs.append((s, stem, subprocess.Popen(harness_cmd(cfg, bdir, s, stem + ".o"), stdout=lf, stderr=lf)))
            if not os.path.exists(os.path.join(bdir, ".done")):
                tg = ["adolc"]
                if sh(["ninja", "-C", bdir, "-j%d" % NPROC] + tg, log) != 0:
                    for _, _, p in procs:
                        p.kill()
                    raise CheckError("library build failed, see %s" % log)
                open(os.path.join(bdir, ".done"), "w").close()
            extra = {}
            for r in runs:
                if r["cfg"] == cfg and r.get("extra"):
                    objs = []
                    for pat in r["extra"]:
                        for f in sorted(glob.glob(os.path.join(REPO, pat))):
                            o = os.path.join(bdir, "x-" + os.path.basename(f) + ".o")
                            if not os.path.exists(o):
                                cmd = harness_cmd(cfg, bdir, "", o + ".tmp")
                                cmd[cmd.index("-c") + 1] = f
                                if sh(cmd, log) != 0:
                                    raise CheckError("%s does not compile, see %s" % (f, log))
                                os.rename(o + ".tmp", o)
                            objs.append(o)
                    extra[r["src"]] = objs
            for s, stem, p in procs:
                if p.wait() != 0:
                    raise CheckError("harness %s does not compile against /repo, see %s.log" % (s, stem))
                cmd = ([c["cxx"]] + c["flags"].split() + [stem + ".o", "-o", stem + ".tmp"] + extra.get(s, []) +
                       [os.path.join(bdir, "libadolc.a")] + (["-lColPack"] if c.get("sparse", True) else []) + ["-lpthread"])
                if sh(cmd, log) != 0:
                    raise CheckError("harness %s does not link, see %s" % (s, log))
                os.rename(stem + ".tmp", stem)
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()
    return bins, tree


def san_env(cfg, extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}
    e["OMP_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=12:quarantine_size_mb=32:malloc_fill_byte=255:max_malloc_fill_size=65536"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
    e["LSAN_OPTIONS"] = "exitcode=99"
    for k, v in extra.items():
        if k.endswith("_OPTIONS") and k in e:
            e[k] += ":" + v
        else:
            e[k] = v
    return e


def classify(err):
    kind, func = "exit", "?"
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ?([\w\- ]+?)( on | \(|:|$)", err, re.M)
    if m:
        kind = m.group(2).strip().replace(" ", "-")
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and not m:
        kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|[0-9.e+\-]+", "", m2.group(1).lower()))[:60].strip("-")
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w\- ]+)", err)
    if m3:
        kind = m3.group(1).strip().replace(" ", "-")
    mv = re.search(r"==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid read|Invalid write|Invalid free|Mismatched free|Uninitialised byte|Source and destination|Process terminating)", err)
    if mv and kind == "exit":
        kind = "memcheck-" + mv.group(1).lower().replace(" ", "-")
    m4 = re.search(r"Assertion `([^']*)' failed", err)
    if m4 and kind == "exit":
        kind = "assert"
    m5 = re.search(r"terminate called.*", err)
    if m5 and kind == "exit":
        kind = "terminate"
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (?:/[^ ]*/ADOL-C/[^ ]*)", err):
        func = re.sub(r"\(.*", "", m.group(1)).strip()
        break
    return kind, func


def run_one(binp, args, cwd, env, errf, progf, limit_stall, wrap=()):
    """-> (returncode | 'stall')"""
    with open(errf, "wb") as ef:
        p = subprocess.Popen(list(wrap) + [binp] + args, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
    last, t0 = None, time.time()
    while True:
        try:
            return p.wait(timeout=0.05 if time.time() - t0 < 1 else 0.3)
        except subprocess.TimeoutExpired:
            pass
        try:
            cur = open(progf, "rb").read()
        except OSError:
            cur = b""
        now = time.time()
        if cur != last:
            last, t0 = cur, now
        if now - t0 > limit_stall:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "stall"


def drive(pid, ri, run, binp, seed, tier, scratch):
    """all shards of one run -> (viols, done records, notes)"""
    count = run[tier] if tier in run else run["quick"]
    nsh = min(run.get("shards", NPROC), max(1, count))
    from concurrent.futures import ThreadPoolExecutor

    def shard(i):
        d = os.path.join(scratch, "r%d-s%d" % (ri, i))
        os.makedirs(d)
        outf, progf, errf = d + ".out", d + ".prog", d + ".err"
        env = san_env(run["cfg"], run.get("env", {}))
        env["VH_SCRATCH"] = d
        start, viols, notes = 0, [], []
        restarts = 0
        while True:
            args = ["--seed", str(seed), "--shard", str(i), "--nshards", str(nsh), "--count", str(count),
                    "--start", str(start), "--out", outf, "--progress", progf, "--tier", tier] + run.get("args", [])
            rc = run_one(binp, args, d, env, errf, progf, run.get("stall", STALL_S), CONFIGS[run["cfg"]].get("wrap", ()))
            if rc == 0:
                break
            try:
                pr = open(progf).read().split(None, 1)
            except OSError:
                pr = []
            if rc == 97 or not pr:
                raise CheckError("harness %s shard %d ended with %s: %s" % (run["src"], i, rc, open(errf, errors="replace").read()[-600:]))
            case = int(pr[0])
            phase = (pr[1] if len(pr) > 1 else "?").strip()
            if rc == "stall":
                a2 = ["--seed", str(seed), "--case", str(case), "--progress", progf, "--tier", tier] + run.get("args", [])
                rc2 = run_one(binp, a2, d, env, errf, progf, HANG_S, CONFIGS[run["cfg"]].get("wrap", ()))
                if rc2 == "stall":
                    viols.append({"case": case, "key": "hang:" + phase, "msg": "no progress in %d s, confirmed by a rerun" % HANG_S})
                else:
                    notes.append("case %d stalled once, not on rerun (inconclusive)" % case)
            else:
                err = open(errf, errors="replace").read()
                kind, func = classify(err)
                if kind == "exit":
                    kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
                tail = err if len(err) < 6000 else err[:200] + err[err.find("=="):][:5000]
                viols.append({"case": case, "key": "crash:%s:%s:%s" % (phase, kind, func), "msg": tail[:6000]})
            if phase in ("finish", "done"):
                break
            restarts += 1
            if restarts >= MAX_RESTARTS:
                notes.append("shard %d stopped after %d restarts" % (i, restarts))
                break
            start = case + 1
        dones = []
        if os.path.exists(outf):
            for line in open(outf, errors="replace"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j["t"] == "viol":
                    viols.append({"case": j["case"], "key": j["key"], "msg": j["msg"]})
                elif j["t"] == "done":
                    dones.append(j)
        shutil.rmtree(d, ignore_errors=True)
        return viols, dones, notes

    with ThreadPoolExecutor(nsh) as ex:
        res = list(ex.map(shard, range(nsh)))
    viols, dones, notes = [], [], []
    for v, d, n in res:
        viols += v
        dones += d
        notes += n
    return viols, dones, notes


def load_known(pid):
    """known: property=C03 key=<regex> :: description"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2) + r"\Z"), m.group(3), m.group(2)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", type=int)
    ap.add_argument("--run", type=int, default=0)
    a = ap.parse_args()
    if a.setup:  # every check builds what it needs; this only warms the cache
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        try:
            build([r for s in CHECKS.values() for r in s["runs"]])
        except (CheckError, subprocess.TimeoutExpired) as e:
            print("setup: cache not warmed:", e)
        return 0
    pid, spec = a.pid, CHECKS[a.pid]
    t0 = time.time()
    try:
        bins, tree = build(spec["runs"])
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("ERROR", pid, e)
        return 2
    tb = time.time() - t0
    if a.replay is not None:
        r = spec["runs"][a.run]
        with tempfile.TemporaryDirectory(dir=CACHE) as d:
            env = san_env(r["cfg"], r.get("env", {}))
            env["VH_SCRATCH"] = d
            p = subprocess.run(list(CONFIGS[r["cfg"]].get("wrap", ())) + [bins[(r["cfg"], r["src"])], "--seed", str(a.seed), "--case", str(a.replay), "--tier", a.tier] + r.get("args", []), cwd=d, env=env)
        return 1 if p.returncode else 0
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=CACHE)
    viols, events, distinct, samples, evals, notes = [], {}, set(), [], 0, []
    runs_info = []
    try:
        for ri, r in enumerate(spec["runs"]):
            ts = time.time()
            v, dones, n = drive(pid, ri, r, bins[(r["cfg"], r["src"])], a.seed, a.tier, scratch)
            for x in v:
                x["run"] = ri
            viols += v
            notes += n
            ev = sum(d["evaluations"] for d in dones)
            evals += ev
            for d in dones:
                for k, c in d["events"].items():
                    events[k] = events.get(k, 0) + c
                distinct.update(d["distinct"])
                samples += d["samples"]
            runs_info.append({"build": r["cfg"], "harness": r["src"], "cases": ev, "wall_s": round(time.time() - ts, 1)})
    except CheckError as e:
        print("ERROR", pid, e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = load_known(pid)
    hit, new = {}, {}
    for v in viols:
        for rx, desc, raw in known:
            if rx.match(v["key"]):
                hit[raw] = desc
                break
        else:
            new.setdefault(v["key"], v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
            "samples": (sorted(set(samples), key=len)[:3] or ["none"]),
            "events_observed": dict(sorted(events.items())), "runs": runs_info, "notes": notes[:20],
            "build_s": round(tb, 1), "source_tree": tree},
        "wall_s": round(time.time() - t0, 1),
        "assumptions": spec.get("assumptions", []),
        "violations": [{"key": k, "case": v["case"], "witness": v["msg"][:1500]} for k, v in list(new.items())[:20]],
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for raw, desc in hit.items():
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, desc, raw))
    if new:
        rd = os.path.join(CACHE, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (k, v) in enumerate(list(new.items())[:10]):
            path = os.path.join(rd, "%s-%d-%s.json" % (pid, a.seed, hashlib.sha256(k.encode()).hexdigest()[:8]))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": k, "case": v["case"], "run": v["run"], "seed": a.seed, "tier": a.tier, "witness": v["msg"],
                           "replay": "python3 /verif/run_check.py %s --replay %d --run %d --seed %d --tier %s" % (pid, v["case"], v["run"], a.seed, a.tier)}, f, indent=1)
            print("  %s: case %d: %s" % (k, v["case"], v["msg"][:300].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [k for k in spec.get("must", []) if not any(e == k or e.startswith(k + "_") for e in events)]
    if evals == 0 or not distinct or missing:
        print("ERROR", pid, "monitors observed too little: evaluations=%d distinct=%d missing=%s %s" % (evals, len(distinct), missing, notes))
        return 2
    print("OK %s tier=%s seed=%d evaluations=%d distinct=%d events=%d wall=%.1fs" % (pid, a.tier, a.seed, evals, len(distinct), sum(events.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
