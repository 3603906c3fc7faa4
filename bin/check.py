#!/usr/bin/env python3
"""Deterministic-simulation check driver.

  check.py <PROPERTY>                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py <PROPERTY> --replay FILE   rebuild and replay one recorded violation
  check.py --build-all                compile every scenario/configuration (setup)
  check.py <PROPERTY> --determinism N run N seeds several times in different processes and compare

Exit: 0 property held on everything explored; 1 violation (VIOLATION line printed); 2 the check
itself could not give an answer.
"""
import array, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1",
       "-ftrivial-auto-var-init=pattern", "-Wno-everything"]
BASE = ["-std=gnu++17", "-I" + os.path.join(REPO, "include"), "-I" + SIM]


def cpu_has(flag):
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return flag in line.split()
    except OSError:
        pass
    return False


CONFIGS = {
    # name: (compiler, flags, needed cpu flag)
    "sse2": ("clang++", ["-O1"], None),
    "scalar": ("clang++", ["-O1", "-DJS_DISABLE_SIMD"], None),
    "avx2": ("clang++", ["-O1", "-mavx2", "-mbmi"], "avx2"),
    "sse42": ("clang++", ["-O1", "-msse4.2"], "sse4_2"),
    "release": ("clang++", ["-O2", "-DNDEBUG"], None),
    "gcc": ("g++", ["-O1"], None),
    # every edge of the control flow is a scheduling point
    "fine": ("clang++", ["-O1", "-pthread", "-fsanitize-coverage=edge,trace-pc-guard"], None),
    "finescalar": ("clang++", ["-O1", "-pthread", "-DJS_DISABLE_SIMD", "-fsanitize-coverage=edge,trace-pc-guard"], None),
}

# property -> (quick configs, thorough configs, quick seconds, thorough seconds, batch)
ALLC = ["sse2", "scalar", "avx2", "sse42", "release", "gcc"]
PROPS = {}


def load_props():
    with open(os.path.join(SIM, "props.json")) as f:
        PROPS.update(json.load(f))


def sha(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(json.dumps(extra).encode())
    return h.hexdigest()[:20]


def tree_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(root, f) for f in files]
    return out


PARTS = 8


def cmdline(cfg):
    comp, flags, _ = CONFIGS[cfg]
    san = SAN if comp == "clang++" else [f for f in SAN if f != "-Wno-everything"] + ["-w"]
    return [comp] + BASE + flags + san


def uses_types(prop):
    with open(os.path.join(SIM, "scen_%s.cpp" % prop.lower())) as f:
        return re.search(r'#include "(types|typed|calls|universe|actors|mapmodel|soup)\.hpp"', f.read()) is not None


def compile_obj(name, src, cfg, extra):
    """Compiles one object of one configuration; cached by the content of everything it can include."""
    cmd = cmdline(cfg) + extra
    key = sha(tree_files() + glob.glob(os.path.join(SIM, "*.hpp")) + [src], cmd)
    out = os.path.join(BUILD, "%s-%s-%s.o" % (name, cfg, key))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (name, cfg))):
        try:
            os.unlink(old)
        except OSError:
            pass
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED %s %s\n%s\n" % (name, cfg, r.stdout[:6000]))
        raise SystemExit(2)
    os.rename(tmp, out)
    return out


def build_many(jobs):
    """jobs: (property, configuration) pairs -> {pair: binary}"""
    jobs = [(p, c) for p, c in jobs if not (CONFIGS[c][2] and not cpu_has(CONFIGS[c][2]))]
    objs, need = {}, []
    for p, c in jobs:
        if uses_types(p):
            for k in range(PARTS):
                need.append(("types%d" % k, os.path.join(SIM, "types.cpp"), c, ("-DPART=%d" % k,)))
    for p, c in jobs:
        need.append((p, os.path.join(SIM, "scen_%s.cpp" % p.lower()), c, ()))
    need = sorted(set(need), key=lambda n: (0 if n[0] == "types5" else 1 if n[0].startswith("types") else 2, n))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_obj, n, s, c, list(e)): (n, c) for n, s, c, e in need}
        for f in concurrent.futures.as_completed(futs):
            objs[futs[f]] = f.result()

    def link(p, c):
        parts = [objs[(p, c)]] + ([objs[("types%d" % k, c)] for k in range(PARTS)] if uses_types(p) else [])
        key = hashlib.sha256("|".join(parts).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "bin-%s-%s-%s" % (p, c, key))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, "bin-%s-%s-*" % (p, c))):
                os.unlink(old)
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(cmdline(c) + parts + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            if r.returncode != 0:
                sys.stderr.write("LINK FAILED %s %s\n%s\n" % (p, c, r.stdout[:6000]))
                raise SystemExit(2)
            os.rename(tmp, out)
        return out

    res = {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(link, p, c): (p, c) for p, c in jobs}
        for f in concurrent.futures.as_completed(futs):
            res[futs[f]] = f.result()
    return res


def hashes(binary, seed, cfg, start, count, stride=1, env=None):
    r = subprocess.run([binary, "hash", "--seed", str(seed), "--config", cfg, "--start", str(start), "--count",
                        str(count), "--stride", str(stride)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, env=env)
    return r.stdout


def replay(binary, path, trace=False, symbolize=False):
    env = dict(os.environ)
    tmp = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        cmd = [binary, "replay", path, "--stderr", os.path.join(tmp, "err")] + (["--trace"] if trace else [])
        if symbolize:
            env["ASAN_OPTIONS"] = "symbolize=1"
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) kind=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    load_props()
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        jobs = [(p, c) for p in sorted(PROPS) for c in PROPS[p]["quick"]]
        build_many(jobs)
        return 0
    if not args or args[0] not in PROPS:
        sys.stderr.write("usage: check.py <property>\n")
        return 2
    prop = args[0]
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"

    if len(args) >= 3 and args[1] == "--replay":
        cfg = "sse2"
        for line in open(args[2]):
            if line.startswith("config "):
                cfg = line.split()[1]
        b = build_many([(prop, cfg)])[(prop, cfg)]
        rc, out = replay(b, os.path.abspath(args[2]), trace=True, symbolize=True)
        print(out)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(args[2])))
        return rc
    if len(args) >= 3 and args[1] == "--determinism":
        n = int(args[2])
        bins = build_many([(prop, c) for c in spec["quick"]])
        bad = 0
        for (p, cfg), b in bins.items():
            jobs = []
            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                a = list(ex.map(lambda s: hashes(b, seed, cfg, s * (n // 16), n // 16), range(16)))
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                env = dict(os.environ)
                env["SIM_PAD"] = "x" * 3000
                c2 = list(ex.map(lambda s: hashes(b, seed, cfg, s, n // 8, 8, env), range(8)))
            A = dict(l.split(" ", 1) for x in a for l in x.splitlines())
            C = dict(l.split(" ", 1) for x in c2 for l in x.splitlines())
            diff = [k for k in A if k in C and A[k] != C[k]]
            bad += len(diff)
            print("%s %s: %d runs compared, %d differ %s" % (prop, cfg, len([k for k in A if k in C]), len(diff), diff[:5]))
        return 2 if bad else 0

    t0 = time.time()
    cfgs = spec[tier]
    bins = build_many([(prop, c) for c in cfgs])
    cfgs = [c for c in cfgs if (prop, c) in bins]
    build_s = time.time() - t0

    # determinism self-check: same seeds, different processes
    det_n = 12 if tier == "quick" else 200
    def det(c):
        b = bins[(prop, c)]
        return hashes(b, seed, c, 0, det_n), "".join(sorted(
            (hashes(b, seed, c, 1, (det_n) // 2, 2) + hashes(b, seed, c, 0, (det_n + 1) // 2, 2)).splitlines(True),
            key=lambda l: int(l.split()[0])))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for c, (x, y) in zip(cfgs, ex.map(det, cfgs)):
            if x != y:
                sys.stderr.write("DETERMINISM FAILURE property=%s config=%s\n%s\n---\n%s\n" % (prop, c, x, y))
                return 2

    seconds = spec.get("seconds", {}).get(tier, 25 if tier == "quick" else 1500)
    if os.environ.get("SIM_SECONDS"):
        seconds = float(os.environ["SIM_SECONDS"])
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        procs = []
        per = {c: 0 for c in cfgs}
        order = [cfgs[i % len(cfgs)] for i in range(max(NCPU, len(cfgs)))]
        total = {c: order.count(c) for c in cfgs}
        for i, c in enumerate(order):
            w = per[c]
            per[c] += 1
            base = os.path.join(work, "w%d" % i)
            cmd = [bins[(prop, c)], "run", "--seed", str(seed), "--config", c, "--start", str(w), "--stride",
                   str(total[c]), "--seconds", str(seconds), "--batch", str(spec.get("batch", 32)), "--out",
                   base + ".json", "--hashes", base + ".hash", "--stderr", base + ".err", "--replay-out",
                   base + ".replay"]
            procs.append((c, base, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        results = []
        for c, base, p in procs:
            rc = p.wait()
            if not os.path.exists(base + ".json"):
                sys.stderr.write("worker died: %s rc=%s\n" % (base, rc))
                return 2
            results.append((c, base, json.load(open(base + ".json"))))
        run_s = time.time() - t0 - build_s

        distinct = set()
        runs = steps = nontriv = 0
        counters = {}
        for c, base, r in results:
            runs += r["runs"]
            steps += r["steps"]
            nontriv += r["nontrivial"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            if os.path.exists(base + ".hash"):
                a = array.array("Q")
                with open(base + ".hash", "rb") as f:
                    a.frombytes(f.read())
                distinct.update(a)

        known = known_findings(prop)
        violations = []
        unrep = []
        for c, base, r in results:
            if r["status"] == "violation":
                violations.append((c, base, r))
            elif r["status"] == "unreproducible":
                unrep.append((c, base, r))
        exit_code = 0
        reported = []
        if violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            seen = set()
            for c, base, r in violations:
                if r["kind"] in seen:
                    continue
                b = bins[(prop, c)]
                rc1, o1 = replay(b, base + ".replay")
                rc2, o2 = replay(b, base + ".replay")
                if rc1 != 1 or rc2 != 1 or not o1.startswith("REPRODUCED") or o1.split("\n")[0] != o2.split("\n")[0]:
                    unrep.append((c, base, r))
                    continue
                seen.add(r["kind"])
                _, tr = replay(b, base + ".replay", trace=True, symbolize=True)
                name = "%s-%s-%s.replay" % (prop, c, hashlib.sha256(open(base + ".replay", "rb").read()).hexdigest()[:10])
                path = os.path.join(VERIF, "replays", name)
                with open(base + ".replay") as f:
                    txt = f.read()
                with open(path, "w") as f:
                    f.write(txt + "# --- event trace of the minimised run ---\n")
                    f.write("".join("# " + l + "\n" for l in tr.splitlines()[:400]))
                reported.append((r["kind"], r["msg"], path))
            for k, m, path in reported:
                print("violation kind=%s: %s" % (k, m[:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                exit_code = 1
        if unrep and exit_code == 0:
            for c, base, r in unrep:
                sys.stderr.write("UNREPRODUCIBLE property=%s config=%s kind=%s %s\n" % (prop, c, r["kind"], r["msg"][:800]))
            exit_code = 2

        # samples: the first runs, as traces
        samples = []
        for c in cfgs[:2]:
            r = subprocess.run([bins[(prop, c)], "trace", "--seed", str(seed), "--config", c, "--start", "0", "--count",
                                "2"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            t = r.stdout.decode("utf-8", "replace").splitlines()
            samples.append({"config": c, "runs": "0,1", "trace": [l[:300] for l in t[:40]]})

        faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
        probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(distinct),
                "rule": spec["rule"] + " Distinct: by the 64-bit hash of the whole event log of the run (every "
                        "delivery, request, release, returned token/value and fault, with contents).",
                "samples": samples,
                "simulated_runs_per_hour": int(runs / max(run_s, 0.001) * 3600),
                "seeds_per_hour": int(runs / max(run_s, 0.001) * 3600),
                "simulated_events": steps,
                "simulated_time": "the library has no clock; simulated time is the event count above",
                "nontrivial_runs": nontriv,
                "fault_kinds_injected": faults,
                "reach_probes": probes,
                "configurations": {c: sum(r["runs"] for cc, _, r in results if cc == c) for c in cfgs},
                "real_components": spec["real"],
                "stub_components": spec["stub"],
                "determinism_selfcheck_runs": det_n * 2 * len(cfgs),
            },
            "assumptions": spec["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(reported),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, m in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, m))
        print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d events, %.0f s build, %.0f s run, exit %d" %
              (prop, tier, seed, runs, len(distinct), steps, build_s, run_s, exit_code))
        return exit_code
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
