#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py <PROPERTY> [quick|thorough]   build from /repo, search, judge, report
  check.py replay <file>                 replay a reported violation
  check.py build [NAME...]               only build the harness binaries
  check.py determinism [N]               large same-seed-twice comparison
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo),
VERIF_TIME (seconds of search, overrides the tier's), VERIF_JOBS.
"""
import hashlib, json, os, struct, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
GUARD = "LAGER_SIMULATION"
sys.path.insert(0, HERE)
from checks import BINARIES, CHECKS, QUICK_SECS, THOROUGH_SECS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash(name):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "lager"), os.path.join(HERE, "sim"), os.path.join(HERE, "scen"),
             os.path.join(HERE, "shim")]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if r.endswith("scen") and f.endswith(".cpp") and f != BINARIES[name]["src"]:
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(json.dumps(BINARIES[name], sort_keys=True).encode())
    h.update(open(os.path.join(HERE, "check.py"), "rb").read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def build(name):
    b = BINARIES[name]
    out = os.path.join(BUILD, name + "-" + tree_hash(name))
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    tmp = os.path.join(out, "w%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    inc = ["-I" + os.path.join(HERE, "sim")]
    if b.get("shim"):
        inc += ["-I" + os.path.join(HERE, "shim")]
    inc += ["-I" + REPO, "-I" + os.path.join(REPO, "example")]
    threads = b.get("threads")
    # gcc's use-after-scope instrumentation has false alarms on exception paths
    cxx = "g++" if threads else "clang++"
    base = [cxx, "-std=c++20", "-g1", "-pipe", "-D" + GUARD + "=1"] + inc
    san = ["-fsanitize=thread"] if threads else (["-fsanitize=address"] if b.get("asan", True) else [])
    jobs = [(base + san + b.get("flags", ["-O1"]) + ["-c", os.path.join(HERE, "scen", b["src"]), "-o", tmp + "/scen.o"])]
    # the kernel itself is never TSan-instrumented
    ksan = [] if threads else san
    jobs.append(base + ksan + ["-O2", "-c", os.path.join(HERE, "sim", "sim_main.cpp"), "-o", tmp + "/main.o"])
    objs = [tmp + "/scen.o", tmp + "/main.o"]
    if threads:
        jobs.append(base + ["-O2", "-c", os.path.join(HERE, "sim", "rt_threads.cpp"), "-o", tmp + "/rt.o"])
        objs.append(tmp + "/rt.o")
    if b.get("alloc"):
        jobs.append(base + ksan + ["-O2", "-c", os.path.join(HERE, "sim", "alloc.cpp"), "-o", tmp + "/alloc.o"])
        objs.append(tmp + "/alloc.o")
    t0 = time.time()
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(run, jobs))
    if res[0].returncode and b.get("plain"):
        # the tree may have stopped accepting one of the many spellings the
        # scenarios use; decide with the plain ones rather than not at all
        log("build of %s failed, once more with plain expressions only:\n%s" % (name, res[0].stdout[-1500:]))
        jobs[0] = jobs[0] + ["-DSIM_PLAIN=1"]
        res[0] = run(jobs[0])
    for r, j in zip(res, jobs):
        if r.returncode:
            raise BuildError("build of %s failed:\n%s\n%s" % (name, " ".join(j), r.stdout[-6000:]))
    r = run([cxx] + (ksan) + objs + ["-o", tmp + "/exe"] + b.get("libs", []) + ["-lpthread", "-ldl"])
    if r.returncode:
        raise BuildError("link of %s failed:\n%s" % (name, r.stdout[-6000:]))
    os.rename(tmp + "/exe", exe)
    for o in os.listdir(tmp):
        os.unlink(os.path.join(tmp, o))
    os.rmdir(tmp)
    log("built %s in %.1f s" % (name, time.time() - t0))
    return exe


def build_all(names):
    with cf.ThreadPoolExecutor(max(1, JOBS // 2)) as ex:
        return dict(zip(names, ex.map(build, names)))


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                # known: id=<ID> property=<P> <what fails>
                parts = line[6:].split(None, 2)
                out[parts[0].split("=")[1]] = (parts[1].split("=")[1], parts[2])
    return out


def child_env():
    e = dict(os.environ)
    e["SIM_KNOWN"] = ",".join(sorted(known_findings()))
    for k in ("SIM_NOASLR", "SIM_LIVE", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        e.pop(k, None)
    return e


def read_hashes(path, total, sched):
    try:
        with open(path, "rb") as f:
            d = f.read()
        n = struct.unpack_from("<Q", d, 0)[0]
        total.update(struct.unpack_from("<%dQ" % n, d, 8))
        m = struct.unpack_from("<Q", d, 8 + 8 * n)[0]
        sched.update(struct.unpack_from("<%dQ" % m, d, 16 + 8 * n))
    except (OSError, struct.error):
        pass


def search(exe, scen, prop, seed, tier, secs, scratch):
    procs = []
    for w in range(JOBS):
        o = os.path.join(scratch, "%s.%d" % (scen, w))
        cmd = [exe, "search", "--scenario", scen, "--prop", prop, "--seed", str(seed), "--tier", tier,
               "--from", str(w), "--step", str(JOBS), "--time", str(secs), "--out", o + ".json", "--hashes", o + ".bin"]
        procs.append((w, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(), text=True, errors="replace")))
    found, errors, stats = [], [], []
    deadline = time.time() + secs + 90
    pend = list(procs)
    first = None
    while pend:
        for p in list(pend):
            if p[2].poll() is not None:
                pend.remove(p)
                if p[2].returncode == 1 and first is None:
                    first = time.time()
        # once one worker has a violation the others get a few more seconds
        if pend and ((first and time.time() > first + 4) or time.time() > deadline):
            for p in pend:
                p[2].kill()
            pend = []
        time.sleep(0.05)
    for w, o, p in procs:
        out, err = p.communicate()
        rc = p.returncode
        for line in out.splitlines():
            if line.startswith("FOUND run="):
                found.append((int(line.split()[1].split("=")[1]), line))
        if rc not in (0, 1) and rc != -9:
            errors.append("worker %d rc=%s %s %s" % (w, rc, out[-500:], err[-1500:]))
        if rc == 1:
            log(err[-3000:])
        if os.path.exists(o + ".json"):
            try:
                stats.append((json.load(open(o + ".json")), o + ".bin"))
            except ValueError:
                pass
    return found, errors, stats


def determinism_sample(exe, scen, prop, seed, tier, n=24):
    def one(frm, step, cnt):
        return run([exe, "hashes", "--scenario", scen, "--prop", prop, "--seed", str(seed), "--tier", tier,
                    "--from", str(frm), "--step", str(step), "--max", str(cnt)], env=child_env())
    with cf.ThreadPoolExecutor(JOBS) as ex:
        a = ex.submit(one, 0, 1, n)
        b = [ex.submit(one, i, 3, n // 3) for i in range(3)]
        ra, rb = a.result(), [x.result() for x in b]
    if ra.returncode or any(r.returncode for r in rb):
        return None, 0
    la = sorted(ra.stdout.split("\n"))
    lb = sorted("\n".join(r.stdout for r in rb).split("\n"))
    la = [x for x in la if x]
    lb = [x for x in lb if x]
    return sum(1 for x in la if x not in set(lb)), len(la)


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = CHECKS[prop]["scenarios"]
    names = sorted({b for b, s, w in plan})
    try:
        exes = build_all(names)
    except BuildError as e:
        log(str(e))
        return 2
    secs = float(os.environ.get("VERIF_TIME", 0)) or (THOROUGH_SECS if tier == "thorough" else QUICK_SECS)
    secs *= CHECKS[prop].get("factor", 1.0)
    wsum = float(sum(w for b, s, w in plan))
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    kf = known_findings()
    ev = dict(property=prop, tier=tier, seed=seed, level=CHECKS[prop].get("level", "exploration"), violations=0)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=CHECKS[prop]["rule"], samples=[], scenarios={})
    tot = dict(nontrivial=0, steps=0, events=0, sim_time_us=0)
    faults, probes, known = {}, {}, {}
    hashes, scheds = set(), set()
    rc, verdict = 0, None
    search_wall = 0.0
    try:
        for b, scen, w in plan:
            s0 = time.time()
            found, errors, stats = search(exes[b], scen, prop, seed, tier, secs * w / wsum, scratch)
            search_wall += time.time() - s0
            sc = dict(runs=0, binary=b, real=BINARIES[b].get("real", []), stub=BINARIES[b].get("stub", []))
            for st, hf in stats:
                sc["runs"] += st["runs"]
                for k in tot:
                    tot[k] += st[k]
                for src, dst in ((st["faults"], faults), (st["probes"], probes), (st["known"], known)):
                    for k, v in src.items():
                        dst[k] = dst.get(k, 0) + v
                if st.get("sample") and len(cov["samples"]) < 6:
                    cov["samples"].append("%s: %s" % (scen, st["sample"]))
                h2, s2 = set(), set()
                read_hashes(hf, h2, s2)
                hashes |= {(scen, x) for x in h2}
                scheds |= {(scen, x) for x in s2}
            cov["evaluations"] += sc["runs"]
            cov["scenarios"][scen] = sc
            if found:
                ev["violations"] = len(found)
                notes = []
                for run_idx, line in sorted(found)[:5]:
                    path = os.path.join(HERE, "replays", "%s-%s-s%d-r%d.replay" % (prop, scen, seed, run_idx))
                    m = run([exes[b], "min", "--scenario", scen, "--prop", prop, "--seed", str(seed), "--tier", tier,
                             "--run", str(run_idx), "--out", path, "--budget", "30"], env=child_env())
                    if m.returncode:
                        notes.append("%s\n%s" % (line, m.stdout[-800:]))
                        continue
                    r = run([exes[b], "replay", path], env=child_env())
                    if r.returncode == 1 and "REPRODUCED" in r.stdout:
                        verdict = path
                        print(line)
                        print(m.stdout.strip())
                        print("\n".join(r.stdout.strip().split("\n")[-60:]))
                        break
                    notes.append("%s\nreplay rc=%d\n%s" % (line, r.returncode, r.stdout[-800:]))
                if verdict:
                    rc = 1
                    break
                log("violations did not reproduce:\n" + "\n".join(notes))
                rc = 2
                break
            if errors:
                log("harness errors in %s:\n%s" % (scen, "\n".join(errors[:3])))
                rc = 2
                break
            bad, n = determinism_sample(exes[b], scen, prop, seed, tier)
            sc["determinism_sample"] = dict(runs=n, divergent=bad)
            if bad:
                log("determinism sample of %s diverged: %s of %d" % (scen, bad, n))
                rc = 2
                break
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)
    cov["distinct_nontrivial"] = len(hashes)
    cov["nontrivial_runs"] = tot["nontrivial"]
    cov["distinct_schedules"] = len(scheds)
    cov["scheduler_steps"] = tot["steps"]
    cov["events_recorded"] = tot["events"]
    cov["simulated_time_s"] = tot["sim_time_us"] / 1e6
    cov["seeds_per_hour"] = int(cov["evaluations"] / max(search_wall, 1e-3) * 3600)
    cov["runs_per_hour"] = cov["seeds_per_hour"]
    cov["faults_injected"] = faults
    cov["reach_probes"] = probes
    cov["known_findings_met"] = known
    ev["coverage"] = cov
    ev["assumptions"] = CHECKS[prop].get("assumptions", [])
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for kid, (kp, text) in sorted(kf.items()):
        if kp == prop and rc == 0:
            print("KNOWN-FINDING: property=%s %s [%s; met %d times in this run]" % (prop, text, kid, known.get(kid, 0)))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, verdict))
    elif rc == 0:
        print("OK property=%s runs=%d distinct=%d wall=%.1fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return rc


def replay(path):
    scen = None
    for line in open(path):
        if line.startswith("scenario "):
            scen = line.split()[1]
    for p in CHECKS.values():
        for b, s, w in p["scenarios"]:
            if s == scen:
                exe = build(b)
                return subprocess.call([exe, "replay", path], env=child_env())
    log("no binary has scenario", scen)
    return 2


def determinism(n):
    worst = 0
    seen = set()
    names = sorted({b for p in CHECKS.values() for b, s, w in p["scenarios"]})
    exes = build_all(names)
    for prop in CHECKS:
        for b, s, w in CHECKS[prop]["scenarios"]:
            if (b, s, prop) in seen:
                continue
            seen.add((b, s, prop))
            for seed in (1, 2, 3):
                bad, k = determinism_sample(exes[b], s, prop, seed, "quick", n)
                print("%s %-20s seed=%d runs=%d divergent=%s" % (prop, s, seed, k, bad), flush=True)
                if bad or bad is None:
                    worst = 2
    return worst


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "build":
        try:
            build_all(a[1:] or sorted(BINARIES))
        except BuildError as e:
            log(str(e))
            return 2
        return 0
    if a[0] == "determinism":
        return determinism(int(a[1]) if len(a) > 1 else 300)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
