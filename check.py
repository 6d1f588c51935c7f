#!/usr/bin/env python3
"""check.py PROP [--replay FILE] — decide one property by seeded simulation.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Anything else: harness error.
"""

import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


def env_for(hashseed):
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED=str(hashseed % 4294967295),
        PYTHONPATH=HERE,
        PYTHONDONTWRITEBYTECODE="1",
        GIT_CONFIG_GLOBAL=os.path.join(HERE, "dst", "gitconfig"),
        GIT_CONFIG_NOSYSTEM="1",
        GIT_TERMINAL_PROMPT="0",
        TZ="UTC",
        LC_ALL="C.UTF-8",
        PYTHONIOENCODING="utf-8",
        HOME="/tmp",
    )
    for k in ("LANG", "LANGUAGE", "PYTHONSTARTUP", "COLUMNS", "NO_COLOR", "ConEmuANSI", "TERM"):
        e.pop(k, None)
    return e


def replay(path):
    with open(path) as f:
        r = json.load(f)
    code = (
        "import sys,os\n"
        "from dst import engine\n"
        "same,o,r=engine.replay_file(sys.argv[1])\n"
        "print('VIOLATION', o.viol) if o.viol else print('no violation', o.harness or '')\n"
        "[print('   ', x) for x in o.sim.ops]\n"
        "print('EXACT' if same else 'DIFFERENT')\n"
        "sys.stdout.flush(); os._exit(0 if same else 3)\n"
    )
    p = subprocess.run(
        [PY, "-c", code, path], env=env_for(int(r["hashseed"] or 0)), cwd=HERE, capture_output=True, text=True, timeout=300
    )
    return p.returncode, p.stdout + p.stderr


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        rc, out = replay(sys.argv[sys.argv.index("--replay") + 1])
        print(out)
        if rc == 0:
            print(f"VIOLATION property={prop} replay={sys.argv[sys.argv.index('--replay') + 1]}")
            return 1
        return 0 if "no violation" in out else 3
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print(f"{prop}: VERIF_SEED={seed} tier={tier}", flush=True)
    cfg = json.load(open(os.path.join(HERE, "dst", "budget.json")))
    b = cfg.get(prop, cfg["default"])
    runs = int(os.environ.get("DST_RUNS", b[tier]["runs"]))
    deadline = float(os.environ.get("DST_DEADLINE", b[tier]["wall"]))
    nw = min(WORKERS, max(1, runs))
    procs = []
    for w in range(nw):
        cnt = runs // nw + (1 if w < runs % nw else 0)
        hs = (seed * 1000003 + w * 7919 + 17) % 4294967295
        procs.append(
            dict(
                w=w,
                count=cnt,
                hs=hs,
                p=subprocess.Popen(
                    [PY, "-m", "dst.engine", prop, str(seed), str(w), str(nw), str(cnt), str(deadline), tier, f"/tmp/dst-{prop}-w{w}"],
                    env=env_for(hs),
                    cwd=HERE,
                    stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE,
                    text=True,
                ),
            )
        )
    viols, harness, stats, notes = [], [], [], []
    import selectors
    import threading

    lock = threading.Lock()
    last = [time.time()]

    def pump(e):
        for line in e["p"].stdout:
            try:
                m = json.loads(line)
            except ValueError:
                notes.append(line.strip()[:200])
                continue
            with lock:
                last[0] = time.time()
                e["last"] = time.time()
                if "viol" in m:
                    m["viol"]["w"] = e["w"]
                    viols.append(m["viol"])
                elif "harness" in m:
                    harness.append(m)
                elif "stats" in m:
                    m["hs"] = e["hs"]
                    stats.append(m)
                elif "note" in m:
                    notes.append(m["note"])

    ths = [threading.Thread(target=pump, args=(e,), daemon=True) for e in procs]
    errs = {}

    def pump_err(e):
        errs[e["w"]] = e["p"].stderr.read()[-4000:]

    ths2 = [threading.Thread(target=pump_err, args=(e,), daemon=True) for e in procs]
    for t in ths + ths2:
        t.start()
    hard = deadline + 150
    stuck = []
    while any(t.is_alive() for t in ths):
        time.sleep(0.05)
        if viols:
            # let others go: one confirmed violation is enough
            t1 = time.time()
            while time.time() - t1 < 1.0 and any(t.is_alive() for t in ths):
                time.sleep(0.05)
            for e in procs:
                if e["p"].poll() is None:
                    e["p"].kill()
            break
        if time.time() - t0 > hard:
            for e in procs:
                if e["p"].poll() is None:
                    stuck.append(e["w"])
                    e["p"].kill()
            break
    for t in ths + ths2:
        t.join(10)
    for e in procs:
        e["p"].wait()
    import shutil

    for e in procs:
        d = f"/tmp/dst-{prop}-w{e['w']}"
        if e["p"].returncode != 0 and os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
            try:
                os.unlink(d + ".lock")
            except OSError:
                pass

    agg = dict(runs=0, steps=0, switches=0, preempts=0, sim_s=0.0, leaked=0, audited=0)
    faults, probes, modes, known = {}, {}, {}, {}
    scheds, nontriv, samples, mism = set(), set(), [], []
    for m in stats:
        s = m["stats"]
        for k in agg:
            agg[k] += s[k]
        for src, dst in ((s["faults"], faults), (s["probes"], probes), (s["modes"], modes), (s["known"], known)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        scheds.update(m["scheds"])
        nontriv.update(m["nontriv"])
        samples += m["samples"]
        mism += s["mismatch"]
    wall = time.time() - t0

    # cross-process determinism audit under another hash seed
    xmis, xaud = [], 0
    if stats and not viols and not harness and not os.environ.get("DST_NOXAUDIT"):
        picks = []
        for m in stats:
            picks += [tuple(x) for x in m["hashes"][:: max(1, len(m["hashes"]) // 3)]][:3]
        code = (
            "import sys,json,os\n"
            "from dst import engine,simfs\n"
            "mod=engine.load(sys.argv[1])\n"
            "base,fd=engine.grab_scratch('/tmp/dst-%s-w99'%sys.argv[1])\n"
            "out=os.fdopen(os.dup(1),'w')\n"
            "dn=os.open('/dev/null',os.O_RDWR); os.dup2(dn,1); os.dup2(dn,2)\n"
            "hasattr(mod,'setup_worker') and mod.setup_worker(base)\n"
            "for s in json.loads(sys.argv[2]):\n"
            "    o=engine.run_one(mod,s,base); out.write(json.dumps([s,o.hash])+'\\n'); out.flush()\n"
            "simfs.wipe(base); os.unlink(base+'.lock')\n"
            "os._exit(0)\n"
        )
        try:
            p = subprocess.run(
                [PY, "-c", code, prop, json.dumps([x[0] for x in picks])],
                env=env_for(424242 + seed),
                cwd=HERE,
                capture_output=True,
                text=True,
                timeout=120,
            )
            got = dict(json.loads(x) for x in p.stdout.splitlines() if x.startswith("["))
            xaud = len(got)
            xmis = [s for s, h in picks if s in got and got[s] != h]
        except subprocess.TimeoutExpired:
            notes.append("cross-process audit timed out")

    sys.path.insert(0, HERE)
    info = cfg.get("_info", {}).get(prop, {})
    meta = json.load(open(os.path.join(HERE, "dst", "meta.json"))).get(prop, {})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(nontriv),
            "rule": meta.get("rule", "")
            + " Non-trivial: at least one fault fired, or the scheduler switched threads, or the scenario marked the run;"
            " distinct: by the hash of the full event log.",
            "samples": samples[:4] or [{"note": "no sample collected"}],
            "runs_per_hour": int(agg["runs"] / max(wall, 1e-6) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(wall, 1e-6) * 3600),
            "simulated_seconds": round(agg["sim_s"], 3),
            "scheduler_steps": agg["steps"],
            "thread_switches": agg["switches"],
            "preemptions": agg["preempts"],
            "distinct_schedules": len(scheds),
            "fault_kinds_fired": faults,
            "probes_hit": probes,
            "workload_modes": modes,
            "determinism_audit": {
                "same_process_reruns": agg["audited"],
                "same_process_mismatches": mism,
                "cross_process_other_hashseed_reruns": xaud,
                "cross_process_mismatches": xmis,
            },
            "real_components": meta.get("real", []),
            "stubbed_components": meta.get("stub", []),
            "workers": nw,
            "notes": notes[:10],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    kf = []
    try:
        kf = [e for e in json.load(open(os.path.join(HERE, "KNOWN_FINDINGS.json"))).get("findings", []) if e["property"] == prop]
    except FileNotFoundError:
        pass
    for e in kf:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")

    print(
        f"{prop}: {agg['runs']} runs, {len(nontriv)} distinct non-trivial, {len(scheds)} schedules, faults {faults}, "
        f"probes {probes}, modes {modes}, mismatches {len(mism)}/{len(xmis)}, {wall:.1f}s"
    )
    if viols:
        v = viols[0]
        try:
            rc, out = replay(v["replay"])
        except subprocess.TimeoutExpired:
            rc, out = (0 if v.get("hung") else 4), "replay timed out"
        print(f"{prop}: {v['kind']}: {v['msg']}")
        print(f"{prop}: seed {v['seed']}; replay {'reproduces exactly' if rc == 0 else 'DIFFERS: ' + out[-1500:]}")
        print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
        return 1
    if harness:
        print(f"{prop}: HARNESS ERROR in seed {harness[0]['seed']}\n{harness[0]['harness']}", file=sys.stderr)
        return 2
    if stuck or len(stats) < nw:
        print(f"{prop}: worker(s) gave no result: stuck={stuck} {[(e['w'], e['p'].returncode) for e in procs]}", file=sys.stderr)
        for w, t in errs.items():
            if t:
                print(f"worker {w}: {t[-1500:]}", file=sys.stderr)
        return 2
    if mism or xmis:
        print(f"{prop}: WARNING determinism audit mismatches: {mism[:3]} {xmis[:3]}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
