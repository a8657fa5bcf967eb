#!/usr/bin/env python3
"""check.py ID [quick|thorough]   run the check of one property
   check.py --replay FILE         rebuild and replay one recorded violation
   check.py --build [ID...]       build only"""
import json, os, re, signal, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import simbuild
from plans import PLANS, COMMON_ASSUMPTIONS

NW = int(os.environ.get("SIM_WORKERS", "8"))
FINDINGS = os.path.join(ROOT, "known_findings.txt")


def known_findings(pid):
    """KNOWN-FINDING: property=<id> class=<regex> msg=<regex> :: text"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) msg=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def build_job(pid, variant):
    p = PLANS[pid]
    kw = dict(p.get("build", {}))
    kw.update(p.get("build_" + variant, {}))
    if p.get("addon"):
        simbuild.addon()
    return simbuild.build(pid, variant, **kw)


def merge(total, j):
    for k in ("runs", "evals", "steps", "events", "switches", "threads", "determinism_reruns", "sim_ns", "interleavings"):
        total[k] = total.get(k, 0) + j[k]
    total["work_max"] = max(total.get("work_max", 0), j["work_max"])
    total.setdefault("hashes", set()).update(j.get("loghashes", []))
    total["nontrivial"] = total.get("nontrivial", 0) + j["nontrivial"]
    for n, (a, b) in j["faults"].items():
        x = total.setdefault("faults", {}).setdefault(n, [0, 0])
        x[0] += a
        x[1] += b
    for n, a in j["probes"].items():
        total.setdefault("probes", {})[n] = total.setdefault("probes", {}).get(n, 0) + a
    total.setdefault("samples", []).extend(j["samples"][:1])
    if j["edges_total"]:
        total["edges"] = max(total.get("edges", 0), j["edges"])
        total["edges_total"] = j["edges_total"]
    total["rule"] = j["rule"]
    total["truncated"] = total.get("truncated", False) or j["truncated"]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        for pid in (sys.argv[2:] or sorted(PLANS)):
            for v in sorted({ph[0] for t in PLANS[pid]["phases"].values() for ph in t}):
                build_job(pid, v)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    plan = PLANS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        bins = {}
        for ph in plan["phases"][tier]:
            if ph[0] not in bins:
                bins[ph[0]] = build_job(pid, ph[0])
    except simbuild.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    build_s = time.time() - t0
    known = known_findings(pid)
    total, viol, errors, per_phase, seen_known = {}, [], [], [], {}
    work = os.path.join(simbuild.BUILD, f"run-{pid}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    kfile = os.path.join(work, "known.txt")
    with open(kfile, "w") as f:
        for c, m, _ in known:
            f.write(c + "\t" + m + "\n")
    scale = float(os.environ.get("SIM_SCALE", "1"))
    ts = time.time()
    for pi, (variant, count, wall) in enumerate(plan["phases"][tier]):
        if viol or errors:
            break
        procs = []
        tph = time.time()
        base = (seed * 1000003 + pi * 7919 + 17) & 0x7FFFFFFF
        for w in range(NW):
            out = os.path.join(work, f"{pi}-{w}.json")
            cmd = [bins[variant], "--base", str(base), "--first", str(w), "--stride", str(NW), "--count", str(max(1, int(count * scale) // NW)),
                   "--wall", str(wall * scale), "--out", out, "--replaydir", rdir, "--binary", variant, "--tier", tier, "--known", kfile]
            env = dict(os.environ, SIM_ROOT=ROOT, SIM_REPO=simbuild.REPO, **plan.get("env", {}))
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True, env=env), out))
        deadline = time.time() + wall * scale + 240
        pend = list(range(NW))
        stop_at = None
        while pend:
            for i in list(pend):
                if procs[i][0].poll() is not None:
                    pend.remove(i)
                    rc = procs[i][0].returncode
                    if rc == 1 and stop_at is None:
                        stop_at = time.time() + 1
                    if rc not in (0, 1) and stop_at is None:
                        stop_at = time.time() + 1
            now = time.time()
            if pend and (now > deadline or (stop_at and now > stop_at)):
                if now > deadline and not stop_at:
                    errors.append("a search worker did not stop in time")
                for i in pend:
                    try:
                        os.killpg(procs[i][0].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    procs[i][0].wait()
                    procs[i] = (None, procs[i][1])
                pend = []
            time.sleep(0.02)
        ph = dict(variant=variant, wall_s=0)
        before = total.get("runs", 0)
        for p, out in procs:
            if p is None:
                continue
            err = p.stderr.read()
            if os.path.exists(out):
                try:
                    j = json.load(open(out))
                except ValueError:
                    errors.append("unreadable worker result")
                    continue
                merge(total, j)
                viol += j["violations"]
                for k, n in j.get("known", {}).items():
                    seen_known[k] = seen_known.get(k, 0) + n
                if j["error"]:
                    errors.append(j["error"])
            elif p.returncode not in (0,):
                errors.append(f"worker exit {p.returncode}: {err[-800:]}")
        ph["wall_s"] = round(time.time() - tph, 2)
        ph["runs"] = total.get("runs", 0) - before
        ph["seeds"] = f"mix64({base}, 0..{ph['runs']})"
        per_phase.append(ph)
    search_s = max(time.time() - ts, 1e-3)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    # ------------------------------------------------------------------ report
    cov = dict(
        evaluations=total.get("evals", 0),
        distinct_nontrivial=len(total.get("hashes", ())),
        rule=total.get("rule", ""),
        samples=total.get("samples", [])[:3],
        simulated_runs=total.get("runs", 0),
        runs_per_hour=int(total.get("runs", 0) / search_s * 3600),
        seeds_per_hour=int(total.get("runs", 0) / search_s * 3600),
        simulated_time_s=round(total.get("sim_ns", 0) / 1e9, 6),
        scheduler_steps=total.get("steps", 0),
        preemptive_switches=total.get("switches", 0),
        simulated_threads_started=total.get("threads", 0),
        logged_events=total.get("events", 0),
        distinct_interleavings=total.get("interleavings", 0),
        interleaving_measure="hash of the sequence of (thread, synchronisation operation, object) of a run, counted per worker process",
        faults_injected={k: dict(times=v[0], runs_with=v[1]) for k, v in sorted(total.get("faults", {}).items())},
        rare_conditions_reached=total.get("probes", {}),
        determinism_reruns=total.get("determinism_reruns", 0),
        code_edges_reached=total.get("edges", 0), code_edges_total=total.get("edges_total", 0),
        largest_measured_work=total.get("work_max", 0),
        stopped_by_time_cap=total.get("truncated", False),
        phases=per_phase, build_s=round(build_s, 2), search_s=round(search_s, 2), workers=NW,
        real_components=plan["real"], stubbed_components=plan["stub"],
        known_findings_seen=seen_known,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=plan["level"], coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for c, m, text in known:
        print(f"KNOWN-FINDING: property={pid} {text} (seen {seen_known.get(c + chr(9) + m, 0)} times in this run)")
    print(f"{pid} {tier}: {cov['simulated_runs']} simulated runs, {cov['evaluations']} oracle evaluations, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{sum(v['times'] for v in cov['faults_injected'].values())} faults, build {build_s:.1f}s search {search_s:.1f}s")
    if viol:
        for v in viol[:3]:
            print(f"VIOLATION property={pid} replay={v['replay']}")
            print(f"  class={v['class']} {v['msg']} (minimised to {v['ops']} operations, {v['sched']} schedule entries)")
        return 1
    if errors:
        print("CHECK ERROR: " + "; ".join(errors))
        return 2
    if not total.get("runs"):
        print("CHECK ERROR: nothing was run")
        return 2
    return 0


def replay(path):
    pid = variant = None
    for line in open(path):
        w = line.split()
        if w[:1] == ["property"]:
            pid = w[1]
        if w[:1] == ["binary"]:
            variant = w[1]
    b = build_job(pid, variant)
    env = dict(os.environ, SIM_ROOT=ROOT, SIM_REPO=simbuild.REPO, **PLANS[pid].get("env", {}))
    p = subprocess.run([b, "--replay", path], env=env)
    if p.returncode == 1:
        print(f"VIOLATION property={pid} replay={path}")
    return p.returncode


if __name__ == "__main__":
    sys.exit(main())
