#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by seeded simulation of the current /repo tree.

exit 0  the property held on every simulated run (known findings are printed)
exit 1  violation; prints VIOLATION property=<id> replay=<path>
exit 2  the check itself could not give an answer
"""
import json, os, shutil, struct, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
QUICK_S, THOROUGH_S = 45, 600
WORKERS = 8
BASE = ("The four query tools, the PSDD library, the SDD library and both command-line mains run as the real code; "
        "htd and KaHyPar are replaced by stubs that return seeded arbitrary legal answers.")
FAULT_STATS = ("alloc fault", "fault:", "crash", "torn", "io ")


def err(msg):
    print("check error: " + msg)
    sys.exit(2)


def load_known(prop):
    """known-findings.txt: 'finding: property=<id> class=<class> <what fails>' and 'fixed: property=<id> <commit> <what failed>'"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                cls, what = rest.split(" ", 1)
                out[cls[len("class="):]] = what
    return out


def run(cmd, timeout, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout, p.stderr


def main():
    if len(sys.argv) < 2:
        err("usage: check.py PROPERTY [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("SIM_SECONDS", QUICK_S if tier == "quick" else THOROUGH_S))
    t0 = time.time()
    exe = B.build(blocks=prop == "C18")
    if not exe:
        err("the simulator does not build against /repo")
    build_s = time.time() - t0
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay_dir = os.path.join(VERIF, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="psddsim-")
    try:
        return decide(prop, tier, seed, secs, exe, build_s, ev_dir, replay_dir, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, secs, exe, build_s, ev_dir, replay_dir, tmp, t0):
    print("VERIF_SEED=%d tier=%s property=%s simulator=%s" % (seed, tier, prop, os.path.basename(exe)), flush=True)
    known = load_known(prop)
    env = dict(os.environ, SIM_KNOWN=",".join(known))
    base = 1 + seed * 100000000
    procs = []
    for k in range(WORKERS):
        d = os.path.join(tmp, "w%d" % k)
        os.makedirs(d)
        procs.append(subprocess.Popen([exe, "batch", prop, str(base + k), str(WORKERS), "1000000000", str(secs), d],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env))
    res = []
    for k, p in enumerate(procs):
        try:
            o, e = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            err("a worker did not finish")
        if not o.strip():
            err("worker %d: %s" % (k, e.strip()[-600:]))
        try:
            j = json.loads(o.strip().splitlines()[-1])
        except ValueError:
            err("worker %d: unreadable result %r %s" % (k, o[-200:], e[-300:]))
        j["rc"], j["stderr"] = p.returncode, e
        res.append(j)

    # ---- violations: replay in a fresh process before reporting
    viols, flaky = [], []
    for j in res:
        for v in j["viol"]:
            rc, o, e = run([exe, "exec", v["path"]], 300, env)
            try:
                x = json.loads(o.strip().splitlines()[-1])
            except (ValueError, IndexError):
                x = {}
            same = x.get("violation") and x.get("class") == v["class"] and (x.get("hash") == v["hash"] or v["class"].endswith(":hang"))
            (viols if same else flaky).append((v, x))
    viols.sort(key=lambda p: (os.path.getsize(p[0]["path"]), p[0]["seed"]))
    reported = []
    seen = set()
    for v, x in viols:
        if v["class"] in seen:
            continue
        seen.add(v["class"])
        dst = os.path.join(replay_dir, os.path.basename(v["path"]))
        shutil.copyfile(v["path"], dst)
        reported.append((v, dst))

    # ---- determinism: the first seeds again, in other processes, with another division of the work
    det_n, det_bad = 0, []
    if not reported:
        n = 48 if tier == "quick" else 400
        a = [subprocess.Popen([exe, "hashes", prop, str(base + i), "3", str(n // 3)], stdout=subprocess.PIPE, text=True) for i in range(3)]
        b = [subprocess.Popen([exe, "hashes", prop, str(base + i * (n // 4)), "1", str(n // 4)], stdout=subprocess.PIPE, text=True) for i in range(4)]
        A = sorted(l for p in a for l in p.communicate()[0].splitlines())
        Bl = sorted(l for p in b for l in p.communicate()[0].splitlines())
        det_n = len(A)
        det_bad = [l for l in set(A) ^ set(Bl)]

    # ---- evidence
    st, known_hits, traces = {}, {}, set()
    for j in res:
        for k, v in j["stats"].items():
            st[k] = st.get(k, 0) + v
        for k, v in j["known"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        try:
            b = open(j["traces"], "rb").read()
            traces.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
    tot = lambda k: sum(j[k] for j in res)
    runs, wall = tot("runs"), max(j["wall"] for j in res)
    rc, sample, _ = run([exe, "dump", prop, str(base)], 60)
    faults = {k: v for k, v in sorted(st.items()) if k.startswith("fault") or k.startswith("alloc fault") or k.startswith("io")}
    probes = {k: v for k, v in sorted(st.items()) if k.startswith("probe")}
    ops = {k[3:]: v for k, v in sorted(st.items()) if k.startswith("op ")}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(traces),
        "rule": "One evaluation is one simulated run: a plan (variables, vtrees, managers, clients, sequence of operations, faults) drawn from one seed and executed in a fresh simulated process. "
                "A run is non-trivial when the property's own operation ran on state that other steps produced; distinct counts different combined hashes of the sequence of operations with their outcomes and of the structure of the PSDDs and networks reached.",
        "samples": [sample.splitlines()[:60]],
        "seeds_per_hour": int(runs / max(wall, 1e-6) * 3600),
        "simulated_steps": tot("steps"),
        "simulated_time": "the system has no timers; simulated time is counted in steps (client operations), %d in this run; the simulated clocks, which only two vtree heuristics read, were read %d times and advanced by %.1f s" % (tot("steps"), st.get("clock: reads", 0), st.get("clock: simulated ms", 0) / 1000.0),
        "property_checks_executed": tot("own"),
        "faults_injected_total": tot("faults"),
        "faults": faults,
        "probes": probes,
        "operations": ops,
        "other_counts": {k: v for k, v in sorted(st.items()) if k not in faults and k not in probes and not k.startswith("op ")},
        "runs_ended_by_trouble_in_other_properties": tot("foreign_crashes"),
        "violations_excused_by_counterfactual": tot("excused"),
        "determinism": {"seeds_rerun_in_other_processes": det_n, "divergences": len(det_bad), "workers": WORKERS},
        "seed_range": [min(j["first"] for j in res), max(j["last"] for j in res)],
        "real_code": "psdd library, libsdd, nlohmann json, csvparser, psdd_inference and uai_compiler mains",
        "stubs": "htd and KaHyPar (seeded arbitrary legal answers), file system under /simfs/, allocator, clock",
        "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(reported),
          "assumptions": ["/repo/lib/linux/libsdd.a is trusted (binary only)", "faults strike operator new, simulated files and generator draws; malloc inside libsdd and gmp never fails"]}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%d runs, %d distinct non-trivial, %d steps, %d faults, %.0f runs/s" % (runs, len(traces), tot("steps"), tot("faults"), runs / max(wall, 1e-6)))
    for cls, n in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, known[cls], n))
    if reported:
        for v, dst in reported:
            print("class %s seed %s: %s" % (v["class"], v["seed"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
        return 1
    for j in res:
        if j["rc"] != 0 or j["errors"]:
            err("worker error: " + j["stderr"].strip()[-600:])
    if flaky:
        err("a violation did not replay in a fresh process: %s / %s" % (json.dumps(flaky[0][0]), json.dumps(flaky[0][1])))
    if det_bad:
        err("the simulation is not deterministic: " + det_bad[0])
    if runs == 0 or not traces:
        err("no non-trivial run was executed")
    for j in res:
        if j["foreign_sample"]:
            print("note: a run was ended by trouble outside this property: " + j["foreign_sample"])
            break
    print("property %s held" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main())
