#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and dst/meta.json from one table."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, real=(), stub=(), rule="", assume=(), note="", claimed=True):
    P.append(locals())


def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append(
        dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=None, state=None, claimed=False)
    )
    NA.append({"property": id, "reason": reason})


U = "edk2toollib/utility_functions.py"
SIMTHREADS = "thread scheduler, locks, clocks (simulator; preemption at lock operations, simulated I/O and every source line of the library)"

exec(open(os.path.join(HERE, "tools", "table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p.get("state"):
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p.get("observe"):
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["title"]
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["qtext"]},
                        "why_tests_cant": p["why"],
                        "anchors": a,
                    },
                    ensure_ascii=False,
                )
                + "\n"
            )
    checks, meta = [], {}
    pending = []
    for p in P:
        if not p["claimed"]:
            continue
        if not os.path.exists(os.path.join(HERE, "dst", "props", p["id"].lower() + ".py")):
            pending.append(p["id"])
            NA.append({"property": p["id"], "reason": "Simulation planned, check not built yet."})
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                "technique": "deterministic simulation with fault injection (seeded schedule/fault search, shrunk replay)",
                "level": "exploration",
                "level_note": p["note"]
                or "Seeded search over generated workloads, schedules and fault sequences against a reference model; a clean run is evidence over the explored seeds, not a proof.",
            }
        )
        meta[p["id"]] = {"rule": p["rule"], "real": list(p["real"]), "stub": list(p["stub"]), "assumptions": list(p["assume"])}
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {
            "guard": "none",
            "enable": "No hooks were added to /repo: the simulator replaces the standard-library seams (threads, locks, clocks, processes, files, sockets, sqlite connections) in its own process before importing edk2toollib from /repo.",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": NA,
        "notes": "check.py ID explores (VERIF_SEED, VERIF_TIER); check.py ID --replay FILE replays a failure exactly. Replay files are written to evidence/replays/.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    json.dump(meta, open(os.path.join(HERE, "dst", "meta.json"), "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties,", len(checks), "checks, pending", pending)


main()
