#!/usr/bin/env python3
"""Builds the simulator around /repo's current sources and decides one property by seeded simulated runs.

  check.py PROP            the check for PROP (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE   replays one minimised plan; exit 1 if it still violates
  check.py --build         builds every flavour (setup)
Exit: 0 held, 1 VIOLATION, 2 the check itself could not give an answer.
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
CACHE = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
WORKERS = 8
WRAP = "-Wl," + ",".join("--wrap=" + s for s in
                         "malloc free calloc realloc exit abort __assert_fail clock time".split())
HARNESS = ["hooks", "world", "gen", "main", "plan", "io", "judge"]

# property -> (runs quick, runs thorough, flavours)
CFG = json.load(open(os.path.join(VERIF, "campaigns.json")))

FLAVOURS = {
    # the library as the ngen framework builds it
    "ngen": dict(model="-O1 -g -DNGEN -DBMI_ACTIVE -fsanitize-coverage=trace-pc", harness="-O1 -g", link="-no-pie -rdynamic " + WRAP,
                 main=False, extra=[]),
    # the standalone program: its own main() is one more function of the system under simulation
    "std": dict(model="-O1 -g -DBMI_ACTIVE -fsanitize-coverage=trace-pc", harness="-O1 -g -DSIM_STD", link="-no-pie -rdynamic " + WRAP,
                main=True, extra=["std"]),
    # the library under AddressSanitizer and UBSan (memory seam replaced by the sanitizers')
    "asan": dict(model="-O1 -g -DNGEN -DBMI_ACTIVE -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -fsanitize-coverage=trace-pc",
                 harness="-O1 -g -DSIM_ASAN", link="-fsanitize=address,undefined -no-pie -rdynamic " +
                 "-Wl," + ",".join("--wrap=" + s for s in "exit abort __assert_fail clock time".split()), main=False, extra=[]),
    # the standalone program under the same sanitizers
    "asanstd": dict(model="-O1 -g -DBMI_ACTIVE -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -fsanitize-coverage=trace-pc",
                    harness="-O1 -g -DSIM_ASAN -DSIM_STD", link="-fsanitize=address,undefined -no-pie -rdynamic " +
                    "-Wl," + ",".join("--wrap=" + s for s in "exit abort __assert_fail clock time".split()), main=True, extra=["std"]),
}


def die(msg):
    print("check: " + msg, file=sys.stderr)
    sys.exit(2)


def sources(with_main):
    """(path, language) of the model's sources: the repository's own list, else every file of src/."""
    try:
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"if\(STANDALONE\)\s*add_executable\(\S+\s+([^)]*)\)", cm)
        files = [f for f in m.group(1).split() if re.search(r"\.(cxx|cpp|cc|c)$", f)]
        files = [os.path.normpath(os.path.join(REPO, f)) for f in files]
        assert files and all(os.path.exists(f) for f in files)
    except Exception:
        src = os.path.join(REPO, "src")
        files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cxx")) + [os.path.join(REPO, "giuh/giuh.c")]
    out = []
    for f in files:
        if "bmi_main" in os.path.basename(f) and not with_main:
            continue
        out.append(f)
    return out


def tree_key(flavour):
    h = hashlib.sha256()
    h.update(repr(sorted(FLAVOURS[flavour].items())).encode())
    roots = [os.path.join(REPO, d) for d in ("src", "include", "bmi", "giuh")] + [SIM]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if re.search(r"\.(cxx|hxx|cc|cpp|hpp|h|c)$", f):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read() if os.path.exists(os.path.join(REPO, "CMakeLists.txt")) else b"")
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:24]


def build(flavour):
    F = FLAVOURS[flavour]
    final = os.path.join(CACHE, flavour + "-" + tree_key(flavour))
    exe = os.path.join(final, "lasamsim")
    if os.path.exists(exe):
        return exe
    os.makedirs(CACHE, exist_ok=True)
    olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith(flavour + "-")), key=os.path.getmtime)
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    jobs, objs = [], []
    for f in sources(F["main"]):
        o = os.path.join(tmp, "m_" + os.path.basename(f) + ".o")
        cmd = (["gcc"] if f.endswith(".c") else ["g++", "-std=c++14"]) + ["-w"] + F["model"].split()
        if "bmi_main" in os.path.basename(f):
            cmd += ["-Dmain=lasam_standalone_main"]
        jobs.append(cmd + ["-I" + REPO, "-c", f, "-o", o])
        objs.append(o)
    for f in HARNESS + F["extra"]:
        o = os.path.join(tmp, "s_" + f + ".o")
        jobs.append(["g++", "-std=c++17", "-w"] + F["harness"].split() + ["-I" + REPO, "-c", os.path.join(SIM, f + ".cc"), "-o", o])
        objs.append(o)

    def run(cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        with ThreadPoolExecutor(8) as ex:
            for cmd, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode:
                    die("build failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])
        r = run(["g++"] + F["link"].split() + objs + ["-ldl", "-lm", "-o", os.path.join(tmp, "lasamsim")])
        if r.returncode:
            die("link failed:\n" + r.stdout[-3000:])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, final)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def env_for(scratch, limit):
    e = dict(os.environ)
    e["LASAMSIM_TMP"] = scratch
    e["LASAMSIM_SECONDS"] = str(limit)
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    return e


def popcount(b):
    return bin(int.from_bytes(b, "little")).count("1")


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    C = CFG[prop]
    limit = C.get("limit_quick", 240) if tier == "quick" else C.get("limit_thorough", 2400)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    total = dict(runs=0, updates=0, process_runs=0, sim_s=0, blocks=0)
    counters, meters, viols, samples, flav_info = {}, {}, [], [], []
    unconfirmed = 0
    sig = sched = cov = 0
    hashes = set()
    build_s = 0.0
    for fl in C["flavours"]:
        b0 = time.time()
        exe = build(fl["name"])
        build_s += time.time() - b0
        runs = fl[tier]
        scratch = tempfile.mkdtemp(prefix="lasamsim-")
        try:
            procs = []
            for w in range(WORKERS):
                n = runs // WORKERS + (1 if w < runs % WORKERS else 0)
                if n == 0:
                    continue
                out = os.path.join(scratch, "w%d.json" % w)
                cmd = [exe, "campaign", prop, str(seed * 1000000 + fl.get("offset", 0) + w), str(n), str(WORKERS), out, REPLAYS] + (["deep"] if tier == "thorough" else [])
                procs.append((out, subprocess.Popen(cmd, env=env_for(scratch, limit), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            fr = 0
            for out, p in procs:
                err = p.communicate()[1]
                if p.returncode not in (0, 1) or not os.path.exists(out):
                    die("worker failed (%s): %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
                d = json.load(open(out))
                fr += d["runs"]
                for k in total:
                    total[k] += d[k]
                for k, v in d["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in d["meters"].items():
                    if isinstance(v, (int, float)):
                        meters[k] = max(meters.get(k, v), v)
                unconfirmed += d["unconfirmed"]
                viols += [dict(v, flavour=fl["name"]) for v in d["violations"]]
                samples += d["samples"]
                b = open(out + ".bits", "rb").read()
                S, K = (1 << 20) // 8, (1 << 16) // 8
                sig |= int.from_bytes(b[:S], "little")
                sched |= int.from_bytes(b[S:2 * S], "little")
                cov |= int.from_bytes(b[2 * S:2 * S + K], "little")
                rest = b[2 * S + K:]
                hashes.update(struct.unpack("<%dQ" % (len(rest) // 8), rest))
            flav_info.append(dict(flavour=fl["name"], runs=fr, planned=runs))
            # a violation counts only if its replay file reproduces it in a fresh process
            for v in viols:
                if v["flavour"] != fl["name"]:
                    continue
                r = subprocess.run([exe, "replay", v["replay"]], env=env_for(scratch, 600), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode != 1 or v["class"] not in r.stdout.decode(errors="replace"):
                    die("violation of seed %s did not replay in a fresh process: %s" % (v["seed"], r.stdout[-500:]))
                with open(v["replay"]) as f:
                    t = f.read()
                with open(v["replay"], "w") as f:
                    f.write("# flavour " + fl["name"] + "\n" + t)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if viols:
            break
    viols.sort(key=lambda v: v["seed"])
    wall = time.time() - t0
    sim_wall = max(wall - build_s, 1e-9)
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")}
    ev = dict(
        property=prop, tier=tier, seed=seed, level=C["level"], wall_s=round(wall, 2), violations=len(viols),
        coverage=dict(
            evaluations=total["runs"], distinct_nontrivial=len(hashes),
            rule="One evaluation is one seeded plan (catchments, environment, schedule of operations and faults) decided by one or more simulated "
                 "executions in fresh process images. Counted as distinct and non-trivial: plans with different recorded histories in which at least one "
                 "injected fault fired or the wetting-front structure changed.",
            samples=samples[:2],
            seeds=dict(first=seed * 1000000, flavours=flav_info),
            simulated_executions=total["process_runs"], runs_per_hour=int(total["runs"] / sim_wall * 3600),
            forcing_intervals=total["updates"], simulated_hours=round(total["sim_s"] / 3600.0, 1),
            basic_blocks_executed=total["blocks"],
            faults_injected=faults, probes=probes,
            distinct_operation_and_fault_schedules=popcount(sched.to_bytes(1 << 17, "little")),
            distinct_profile_structures=popcount(sig.to_bytes(1 << 17, "little")),
            state_measure="layers, fronts per layer, saturation and bottom flags of every front, ponding, rain, PET, percolation, runoff, ET and the option flags",
            distinct_code_blocks=popcount(cov.to_bytes(1 << 13, "little")),
            largest_deviations={k: v for k, v in sorted(meters.items())},
            unconfirmed=unconfirmed, components=C["components"], build_s=round(build_s, 1)),
        assumptions=C.get("assumptions", []))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for v in viols:
        print("violation: %s (seed %s, %d operations after minimisation): %s" % (v["class"], v["seed"], v["ops"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if viols:
        return 1
    if unconfirmed:
        die("%d violations did not repeat: the simulation is not deterministic" % unconfirmed)
    print("%s held: %d plans, %d executions, %.0f simulated hours, %d faults, %.1f s" % (prop, total["runs"], total["process_runs"], total["sim_s"] / 3600, sum(faults.values()), wall))
    return 0


def replay(path):
    t = open(path).read()
    m = re.search(r"^# flavour (\S+)", t, re.M)
    exe = build(m.group(1) if m else "ngen")
    scratch = tempfile.mkdtemp(prefix="lasamsim-")
    try:
        r = subprocess.run([exe, "replay", os.path.abspath(path)], env=env_for(scratch, 600))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        for f in FLAVOURS:
            build(f)
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in CFG:
        die("usage: check.py PROP | --replay FILE | --build")
    sys.exit(check(sys.argv[1]))
