#!/usr/bin/env python3
"""Driver: builds the simulation harnesses from /repo's working tree and runs the seeded search.

  run.py check <ID> [--tier quick|thorough] [--seconds N]   run one property's check
  run.py replay <file> [--trace]                            rebuild and re-execute a replay file
  run.py setup                                              build everything once
  run.py determinism [ID ...]                               large determinism self-test
"""
import array, concurrent.futures, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.environ.get("DSIM_BUILD", os.path.join(HERE, ".build"))
OUT = os.path.join(HERE, ".out")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from props import PROPS, HARNESSES, REAL, STUB  # noqa: E402

CXX = "clang++"
RT_FLAGS = ["-O2", "-g1", "-std=c++17", "-fno-access-control"]
H_FLAGS = ["-O1", "-gline-tables-only", "-std=c++17", "-fsanitize=thread",
           "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-read-before-write=1",
           "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything"]
INC = ["-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(BUILD, "gen"),
       "-I/usr/include/eigen3"]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def tree_digest():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "shim"), os.path.join(HERE, "sim"),
                 os.path.join(HERE, "harness")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(REPO, "config.hpp.in"))
    for f in sorted(files):
        if os.path.isfile(f) and not (f.startswith(os.path.join(HERE, "harness")) and f.endswith(".cpp")):
            h.update(f.encode())
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    h.update(repr((RT_FLAGS, H_FLAGS)).encode())
    return h.hexdigest()[:20]


def gen_config():
    d = os.path.join(BUILD, "gen", "dcgp")
    os.makedirs(d, exist_ok=True)
    ver = "0.0"
    try:
        with open(os.path.join(REPO, "config.hpp.in")) as f:
            txt = f.read()
        with open(os.path.join(REPO, "CMakeLists.txt")) as f:
            m = re.search(r"set\s*\(\s*DCGP_PROJECT_VERSION\s+([0-9.]+)", f.read(), re.I)
        ver = m.group(1) if m else ver
    except OSError:
        txt = "#ifndef DCGP_CONFIG_HPP\n#define DCGP_CONFIG_HPP\n#endif\n"
    p = (ver.split(".") + ["0", "0"])[:3]

    def sub(mo):
        k = mo.group(1).upper()
        return p[0] if "MAJOR" in k else p[1] if "MINOR" in k else p[2] if "PATCH" in k else ver

    txt = re.sub(r"@([A-Za-z_0-9]+)@", sub, txt)
    txt = re.sub(r"^#cmakedefine.*$", "", txt, flags=re.M)
    path = os.path.join(d, "config.hpp")
    if not os.path.exists(path) or open(path).read() != txt:
        with open(path, "w") as f:
            f.write(txt)


def compile_one(src, obj, flags):
    cmd = [CXX] + flags + ["-c", src, "-o", obj + ".tmp"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:])
    os.replace(obj + ".tmp", obj)
    return None


def build(harnesses):
    """Builds the named harness executables from the current trees; returns {name: path}, seconds."""
    t0 = time.time()
    gen_config()
    dig = tree_digest()
    d = os.path.join(BUILD, dig)
    os.makedirs(d, exist_ok=True)
    for other in glob.glob(os.path.join(BUILD, "[0-9a-f]" * 20)):
        if os.path.basename(other) != dig and time.time() - os.path.getmtime(other) > 1800:
            shutil.rmtree(other, ignore_errors=True)
    jobs = {}

    def obj(s):  # object files also carry the digest of their own source
        with open(os.path.join(HERE, "harness", s + ".cpp"), "rb") as f:
            return os.path.join(d, "%s.%s.o" % (s, hashlib.sha256(f.read()).hexdigest()[:12]))

    for s in ("dsim", "runner"):
        jobs[os.path.join(d, s + ".o")] = (os.path.join(HERE, "sim", s + ".cpp"), RT_FLAGS)
    for h in harnesses:
        for s in HARNESSES[h]["src"]:
            jobs[obj(s)] = (os.path.join(HERE, "harness", s + ".cpp"), H_FLAGS + INC)
    todo = [(s, o, f) for o, (s, f) in jobs.items() if not os.path.exists(o)]
    order = HARNESSES.get("_slow", [])
    todo.sort(key=lambda x: -os.path.getsize(x[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for err in ex.map(lambda a: compile_one(*a), todo):
            if err:
                die(err)
    exes = {}
    for h in harnesses:
        hobjs = [obj(s) for s in HARNESSES[h]["src"]]
        exe = os.path.join(d, "%s.%s" % (h, hashlib.sha256(repr((hobjs, HARNESSES[h])).encode()).hexdigest()[:12]))
        if not os.path.exists(exe):
            objs = hobjs + [os.path.join(d, "dsim.o"), os.path.join(d, "runner.o")]
            cmd = [CXX, "-no-pie", "-rdynamic"] + objs + ["-o", exe + ".tmp"] + HARNESSES[h].get("libs", []) + [
                "-lpthread", "-ldl"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                die("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
            os.replace(exe + ".tmp", exe)
        exes[h] = exe
    return exes, time.time() - t0


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {"findings": [], "fixed": []}
    with open(p) as f:
        return json.load(f)


def symbolize(exe, text):
    pcs = sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", text)))
    if not pcs:
        return ""
    out = []
    for pc in pcs:
        r = subprocess.run(["addr2line", "-e", exe, "-fCi", "0x%x" % (int(pc, 16) - 1)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
        ls = r.stdout.splitlines()
        locs = ["%s (%s)" % (ls[i + 1], ls[i]) for i in range(0, len(ls) - 1, 2)]
        best = [x for x in locs if "/include/dcgp/" in x] or locs[:1]
        out.append("%s %s" % (pc, best[0] if best else "?"))
    return "; ".join(out)


def check(pid, tier, seconds=None, seed=None):
    t0 = time.time()
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    print("VERIF_SEED=%d property=%s tier=%s" % (seed, pid, tier), flush=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    hs = spec["harness"] if isinstance(spec["harness"], list) else [spec["harness"]]
    exes, bsec = build(hs)
    print("built %s in %.1fs" % (",".join(hs), bsec), flush=True)
    known = load_known()
    kf = [k for k in known["findings"] if k["property"] == pid]
    secs = seconds or (spec.get("quick_s", 45) if tier == "quick" else spec.get("thorough_s", 540))
    ncpu = max(1, min(8, os.cpu_count() or 1))
    cpus = sorted(os.sched_getaffinity(0))
    procs = []
    nw = max(ncpu, len(hs))
    per = [nw // len(hs)] * len(hs)
    widx = 0
    for hi, h in enumerate(hs):
        for w in range(per[hi]):
            out = os.path.join(OUT, "%s.%s.%d" % (pid, h, w))
            for f in glob.glob(out + ".*"):
                os.unlink(f)
            cmd = [exes[h], "run", "--prop", pid, "--harness", h, "--seed", str(seed), "--start", str(w), "--stride",
                   str(per[hi]), "--time", str(secs), "--out", out, "--cpu", str(cpus[widx % len(cpus)]),
                   "--shrink-time", "40" if tier == "quick" else "90", "--recheck",
                   str(spec.get("recheck", 20))]
            if kf:
                cmd += ["--known", ",".join(k["key"] for k in kf)]
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                           start_new_session=True), h, w, out))
            widx += 1
    # wait; once one worker reports a violation the others are stopped early
    deadline = time.time() + secs + 240  # a run that hangs is executed several times, 20 s each
    hit = None
    stopped = set()
    while any(p.poll() is None for p, _, _, _ in procs):
        time.sleep(0.1)
        for p, h, w, out in procs:
            if p.poll() == 1 and hit is None:
                hit = (h, w, out)
        if hit or time.time() > deadline:
            break
    for p, h, w, out in procs:
        if p.poll() is None:
            stopped.add(p.pid)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    if stopped and not hit:
        die("%d workers did not finish in time" % len(stopped))
    errs = []
    tot = {}
    agg = {k: {} for k in ("probes", "faults", "fault_runs", "known_hits", "known_index")}
    inter, states = set(), set()
    for p, h, w, out in procs:
        err = p.stderr.read()
        if p.returncode not in (0, 1) and p.pid not in stopped:
            errs.append("worker %s/%d exit %s: %s" % (h, w, p.returncode, err[-1500:]))
        if p.returncode == 1 and hit is None:
            hit = (h, w, out)
        try:
            with open(out + ".json") as f:
                j = json.load(f)
        except (OSError, ValueError):
            continue
        for k, v in j.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    agg[k][a] = agg[k].get(a, 0) + b
            elif k.startswith("max"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        for ext, st in ((".inter", inter), (".states", states)):
            try:
                a = array.array("Q")
                with open(out + ext, "rb") as f:
                    a.frombytes(f.read())
                st.update(a)
            except OSError:
                pass
    # fresh-process determinism check on the sampled runs
    verified = diverged = 0
    samples = []
    if not errs:
        vp = []
        for p, h, w, out in procs:
            if os.path.exists(out + ".verify"):
                vp.append(subprocess.Popen([exes[h], "verify", "--prop", pid, "--seed", str(seed), "--file",
                                            out + ".verify", "--time", "8" if tier == "quick" else "40"],
                                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        for p in vp:
            o, e = p.communicate()
            try:
                j = json.loads(o)
                verified += j["verified"]
                diverged += j["diverged"]
            except ValueError:
                errs.append("verify: " + o + e)
            if p.returncode:
                errs.append("a run diverged in a fresh process: " + e[-500:])
        for h in hs:
            for idx in (0, 1):
                r = subprocess.run([exes[h], "one", "--prop", pid, "--seed", str(seed), "--index", str(idx), "--trace",
                                    "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                ls = [x for x in r.stdout.splitlines()]
                head = [x for x in ls if " switch " not in x][:14]
                samples.append({"harness": h, "index": idx, "lines": head + ls[-1:]})
    viol, gate = None, []
    if hit:
        h, w, out = hit
        with open(out + ".violation.json") as f:
            v = json.load(f)
        rep = os.path.join(OUT, "%s-%s-seed%d-run%d.replay" % (pid, v["class"], seed, v["index"]))
        shutil.copy(out + ".replay", rep)
        where = symbolize(exes[h], v["detail"])
        if where:
            with open(rep, "a") as f:
                f.write("where %s\n" % where)
        for _ in range(2):
            r = subprocess.run([exes[h], "replay", "--file", rep], stdout=subprocess.PIPE, text=True)
            if r.returncode != 1:
                gate.append("replay gate failed for %s: %s" % (rep, r.stdout))
        viol = (v, rep, where, h)
    runs = tot.get("runs", 0)
    wall = time.time() - t0
    runwall = max(1e-9, tot.get("wall", 0) / max(1, len(procs)))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(states),
            "rule": spec["rule"],
            "samples": samples or [{"note": "run stopped early"}],
            "runs_nontrivial": tot.get("nontrivial", 0),
            "runs_multithreaded": tot.get("multi", 0),
            "distinct_interleavings": len(inter),
            "distinct_measure": "distinct_interleavings = distinct hashes of the sequence (from-thread, to-thread, "
                                "code location) of all context switches; distinct_nontrivial = distinct hashes of the "
                                "whole event log (schedule + operations + observed values), non-trivial runs only",
            "runs_per_hour_one_seed_per_run": int(runs / runwall * 3600),
            "simulated_seconds": round(tot.get("sim_ns", 0) / 1e9, 3),
            "scheduling_points": tot.get("steps", 0), "context_switches": tot.get("switches", 0),
            "max_threads_in_a_run": tot.get("max_threads", 0), "max_steps_in_a_run": tot.get("max_steps", 0),
            "max_cpu_ms_of_a_run": tot.get("max_run_cpu_ms", 0),
            "budget_exhausted_runs": tot.get("budget", 0),
            "faults_injected": agg["faults"], "runs_with_fault": agg["fault_runs"], "probes": agg["probes"],
            "determinism": {"same_process_reruns": tot.get("rechecked", 0), "fresh_process_reruns": verified,
                            "diverged": diverged},
            "components_real": spec.get("real", REAL), "components_stub": spec.get("stub", STUB),
            "known_finding_hits": agg["known_hits"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": 1 if viol else 0,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s (hit in %d runs)" % (pid, k["what"], agg["known_hits"].get(k["key"], 0)))
    print("runs=%d nontrivial=%d states=%d interleavings=%d switches=%d faults=%s wall=%.1fs" % (
        runs, tot.get("nontrivial", 0), len(states), len(inter), tot.get("switches", 0), agg["faults"], wall))
    if gate or (errs and not viol):
        die("\n".join(errs + gate))
    if errs: # a violation that repeats exactly stands, whatever other runs did
        print("note: " + "\n".join(errs))
    if not viol and not runs:
        die("no run was executed")
    need = [p for p in spec.get("must_probe", []) if not (agg["probes"].get(p) or agg["faults"].get(p))]
    if need and not viol:
        print("note: probes never hit: " + ", ".join(need))
    if viol:
        v, rep, where, h = viol
        print("violation class=%s scenario=%s: %s" % (v["class"], v["scenario"], v["detail"]))
        if where:
            print("  at " + where)
        print("  minimised from %d to %d choices" % (v["from"], v["choices"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep), flush=True)
        sys.exit(1)
    print("OK property=%s" % pid)


def replay(path, trace):
    h = None
    with open(path) as f:
        for line in f:
            if line.startswith("harness "):
                h = line.split()[1]
    exes, _ = build([h])
    r = subprocess.run([exes[h], "replay", "--file", path] + (["--trace", "1"] if trace else []))
    sys.exit(r.returncode)


def determinism(ids):
    """Many seeds, each executed in several separate processes pinned to different CPUs; event logs compared."""
    bad = 0
    for pid in ids or sorted(PROPS):
        hs = PROPS[pid]["harness"]
        hs = hs if isinstance(hs, list) else [hs]
        exes, _ = build(hs)
        os.makedirs(OUT, exist_ok=True)
        for h in hs:
            n = 0
            ps = []
            for s in range(1, 9):
                out = os.path.join(OUT, "det.%s.%s.%d" % (pid, h, s))
                ps.append((s, out, subprocess.Popen([exes[h], "run", "--prop", pid, "--seed", str(s), "--time", "12",
                                                     "--recheck", "1", "--out", out, "--cpu", str(s % 8)],
                                                    stderr=subprocess.PIPE, text=True)))
            for s, out, p in ps:
                e = p.communicate()[1]
                if p.returncode:
                    print("det", pid, h, s, p.returncode, e)
                    bad += 1
            vs = [subprocess.Popen([exes[h], "verify", "--prop", pid, "--seed", str(s), "--file", out + ".verify",
                                    "--time", "60", "--cpu", str((s + 3 + k) % 8)], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True) for s, out, _ in ps for k in range(3)]
            for v in vs:
                o, e = v.communicate()
                try:
                    n += json.loads(o)["verified"]
                except ValueError:
                    pass
                if v.returncode:
                    print("det", pid, h, o, e[-400:])
                    bad += 1
            print("determinism %s/%s: %d fresh-process re-executions, bad=%d" % (pid, h, n, bad), flush=True)
            for f in glob.glob(os.path.join(OUT, "det.*")):
                os.unlink(f)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        secs = None
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--seconds" in a:
            secs = float(a[a.index("--seconds") + 1])
        check(a[1], tier, secs)
    elif a[0] == "replay":
        replay(a[1], "--trace" in a)
    elif a[0] == "setup":
        _, s = build([h for h in HARNESSES if not h.startswith("_")])
        print("setup: built in %.1fs" % s)
    elif a[0] == "determinism":
        determinism(a[1:])
