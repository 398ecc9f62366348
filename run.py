#!/usr/bin/env python3
"""Builds the checks of one property from /repo's working tree and runs them.

usage: run.py PROPERTY [--replay FILE] [--only CHECK] [--scale X] [--seed N] [--tier T]

Exit 0: held on everything explored; 1: violated (a VIOLATION line is printed);
2: the machinery itself could not run.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = ["-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-DCEREAL_THREAD_SAFE=1", "-pthread",
        "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "standins"),
        "-iquote", os.path.join(REPO, "include/albatross"), "-I" + os.path.join(REPO, "include"),
        "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse",
        "-isystem", "/usr/include/libfccp"]
LIBS = ["-lzstd", "-lz", "-lpthread"]
TSAN = ["-fsanitize=thread"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def sh(cmd, log):
    with open(log, "w") as f:
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    opt = {}
    while args:
        k = args.pop(0)
        opt[k.lstrip("-")] = args.pop(0)
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    seed = opt.get("seed", os.environ.get("VERIF_SEED", "1"))
    try:
        seed = str(abs(int(seed)))
    except ValueError:
        seed = str(sum(ord(c) * 31 ** i for i, c in enumerate(seed)) % (1 << 31))
    cdir = os.path.join(HERE, "checks", pid)
    units = sorted(f for f in os.listdir(cdir) if f.endswith(".cc"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return build_and_run(pid, cdir, units, tier, seed, opt, scratch, t0)
    finally:
        if "keep" not in opt:
            shutil.rmtree(scratch, ignore_errors=True)


def header(path):
    m = re.search(r"^// pbt:(.*)$", open(path).read(2000), re.M)
    return dict(kv.split("=", 1) for kv in (m.group(1).split() if m else []))


def unit_cmd(src, obj, h, san):
    cmd = ["g++"] + BASE + ["-" + h.get("opt", "O1")] + san
    if h.get("debug") == "1":
        cmd.append("-g1")
    cmd += ["-D" + d for d in h.get("defs", "").split(",") if d]
    return cmd + ["-c", src, "-o", obj]


def tsan_works(scratch):
    """ThreadSanitizer can refuse some address space layouts; probe it once."""
    src, exe = os.path.join(scratch, "probe.cc"), os.path.join(scratch, "probe")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main(){int x=0;std::thread t([&]{x=1;});t.join();return x-1;}\n")
    if sh(["g++"] + TSAN + ["-pthread", src, "-o", exe], exe + ".log") != 0:
        return False
    return all(sh([exe], exe + ".log") == 0 for _ in range(3))


def build_and_run(pid, cdir, units, tier, seed, opt, scratch, t0):
    libs, jobs = list(LIBS), []
    heads = {u: header(os.path.join(cdir, u)) for u in units}
    for u in units:
        for l in heads[u].get("libs", "").split(","):
            if l and "-l" + l not in libs:
                libs.insert(0, "-l" + l)
    san = SAN if any(h.get("san") == "1" for h in heads.values()) else []
    # the same checks are also run under ThreadSanitizer where a unit asks for it
    tsan_units = [u for u in units if heads[u].get("tsan") == "1"] if tsan_works_cached(units, heads, scratch) else []
    pbt_cc = os.path.join(HERE, "lib/pbt.cc")
    for u in units:
        jobs.append((u, u, unit_cmd(os.path.join(cdir, u), os.path.join(scratch, u + ".o"), heads[u], san)))
    jobs.append(("pbt.cc", "pbt.cc", unit_cmd(pbt_cc, os.path.join(scratch, "pbt.cc.o"), {}, san)))
    for u in tsan_units:
        jobs.append((u, u + ".tsan", unit_cmd(os.path.join(cdir, u), os.path.join(scratch, u + ".tsan.o"), heads[u], TSAN)))
    if tsan_units:
        jobs.append(("pbt.cc", "pbt.cc.tsan", unit_cmd(pbt_cc, os.path.join(scratch, "pbt.cc.tsan.o"), {}, TSAN)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rcs = list(ex.map(lambda j: sh(j[2], os.path.join(scratch, j[1] + ".log")), jobs))
    built = [n for (_, n, _), rc in zip(jobs, rcs) if rc == 0]
    bad = [n for (_, n, _), rc in zip(jobs, rcs) if rc != 0]
    for n in bad:
        print("note: %s does not compile against this tree; its checks are skipped:" % n)
        print(open(os.path.join(scratch, n + ".log"), errors="replace").read()[:1500])
    exes = [("", [n for n in built if not n.endswith(".tsan")], san),
            (".tsan", [n for n in built if n.endswith(".tsan")], TSAN)]
    ready = []
    for suffix, names, flags in exes:
        if "pbt.cc" + suffix not in names or len(names) < 2:
            continue
        exe = os.path.join(scratch, "check" + suffix)
        link = ["g++"] + flags + ["-pthread", "-o", exe] + \
            [os.path.join(scratch, n + ".o") for n in names] + libs
        if sh(link, exe + ".log") != 0:
            print(open(exe + ".log", errors="replace").read()[:3000])
            print("error: link failed for %s%s" % (pid, suffix))
            if not suffix:
                return 2
            continue
        ready.append((suffix, exe))
    if not ready or ready[0][0]:
        print("error: nothing could be built for %s" % pid)
        return 2
    t1 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    supp = os.path.join(scratch, "tsan.supp")
    with open(supp, "w") as f:  # reference counts inside the uninstrumented libstdc++
        f.write("race:std::__exception_ptr\nrace:__cxa_\nrace:std::runtime_error\n")
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MALLOC_ARENA_MAX="4",
               TSAN_OPTIONS="halt_on_error=1:exitcode=66:suppressions=" + supp)
    results, parts = [], []
    for suffix, exe in ready:
        part = ev if not suffix else os.path.join(scratch, "evidence%s.json" % suffix)
        scale = float(opt.get("scale", "1")) * (0.15 if suffix else 1)
        rundir = os.path.join(scratch, "run" + suffix)
        os.makedirs(rundir, exist_ok=True)
        cmd = [exe, "--property", pid, "--tier", tier, "--seed", seed, "--scratch", rundir,
               "--known", os.path.join(HERE, "known_findings.txt"),
               "--replay-dir", os.path.join(HERE, "replays"),
               "--workers", opt.get("workers", "8"), "--scale", repr(scale),
               "--max-wall", opt.get("max-wall", "420" if tier == "quick" else "3300"),
               "--assumption", '"sources not compiling against this tree: %s"' % (",".join(bad) or "none")]
        if "replay" in opt:
            cmd += ["--replay", os.path.abspath(opt["replay"])]
        elif "only" not in opt:
            cmd += ["--evidence", part]
            parts.append((suffix, part))
        if "only" in opt:
            cmd += ["--only", opt["only"]]
        sys.stdout.flush()
        p = subprocess.Popen(cmd, env=env, start_new_session=True, cwd=scratch)
        try:
            results.append(p.wait())
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if results[-1] != 0:
            break
    merge_evidence(ev, parts)
    print("%s: build %.1f s, run %.1f s" % (pid, t1 - t0, time.time() - t1))
    rc = max(results, key=lambda r: 0 if r == 0 else (2 if r == 1 else 1))
    return rc if rc in (0, 1) else 2


def tsan_works_cached(units, heads, scratch):
    return any(h.get("tsan") == "1" for h in heads.values()) and tsan_works(scratch)


def merge_evidence(ev, parts):
    """Adds what the ThreadSanitizer run covered to the evidence file."""
    extra = [p for s, p in parts if s and os.path.exists(p)]
    if not extra or not os.path.exists(ev):
        return
    e = json.load(open(ev))
    for p in extra:
        x = json.load(open(p))
        e["coverage"]["threadsanitizer_evaluations"] = x["coverage"]["evaluations"]
        e["wall_s"] += x["wall_s"]
    json.dump(e, open(ev, "w"))


if __name__ == "__main__":
    sys.exit(main())
