#!/usr/bin/env python3
"""check.py ID: decides one property by seeded simulation.  Exit 0 held / 1 violated / 2 the check itself failed."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import builder
from profiles import PROFILES, KINDS
VERIF = builder.VERIF

def sh(cmd, timeout=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def batch(sim, profile, seed0, count, workers, seconds, maxfail=4):
    """count runs with consecutive seeds, dealt to worker processes; the outcome does not depend on how many"""
    ps = [subprocess.Popen([sim, "run", profile, str(seed0), str(count), str(w), str(workers), str(seconds), str(maxfail)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace") for w in range(workers)]
    r = dict(runs=0, judged=0, hash=0, other=0, fails=[], others=[], harness=[], counts={}, states=set(), seconds=0.0, lost=0)
    for p in ps:
        out, _ = p.communicate()
        if p.returncode != 0: r["lost"] += 1
        for line in out.splitlines():
            k, _, v = line.partition(" ")
            if k in ("runs", "judged", "other") and v.isdigit(): r[k] += int(v)
            elif k == "hash": r["hash"] ^= int(v)
            elif k == "seconds": r["seconds"] = max(r["seconds"], float(v))
            elif k == "fail": s, c, m = v.split(" ", 2); r["fails"].append((int(s), c, m))
            elif k == "other": r["others"].append(v)
            elif k == "harness": r["harness"].append(v)
            elif k == "count": n, name = v.split(" ", 1); r["counts"][name] = r["counts"].get(name, 0) + int(n)
            elif k == "state": r["states"].add(v)
    r["fails"].sort()
    return r

def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3).strip()))
    except FileNotFoundError: pass
    return out

def main():
    prop = sys.argv[1]; P = PROFILES[prop]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    seed0 = 1 + (seed - 1) * 1_000_000_007
    workers = builder.JOBS
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    rep_dir = os.path.join(VERIF, "replays"); os.makedirs(rep_dir, exist_ok=True)
    violations, unstable, noted, parts = [], [], [], []
    known = known_findings(prop)
    for var in P["variants"]:
        try: sim, dropped = builder.build(var["name"], var.get("defs", ""), var.get("tags", "all"), var.get("parts"), var.get("engine", "world"))
        except builder.BuildError as e:
            print(f"cannot build the simulator ({var['name']}):\n{e}"); return 2
        tb = time.time()
        n = var[tier]; limit = 420 if tier == "quick" else 36000
        b = batch(sim, prop, seed0, n, workers, limit / len(P["variants"]))
        probe = [batch(sim, prop, seed0, min(n, 240), w, 120, 10**6) for w in (1, 3)] if not b["fails"] else [b, b]     # the same seeds, dealt differently
        b["variant"], b["dropped"], b["sim"], b["want"] = var["name"], dropped, sim, n
        b["deterministic"] = probe[0]["hash"] == probe[1]["hash"]
        b["wall"] = time.time() - tb
        parts.append(b)
        if b["harness"]: print("harness:", b["harness"][0]); return 2
        # every reported failure: same result when run again, minimised, and reproduced from its file by a fresh process
        seen = set()
        for s, cls, msg in b["fails"]:
            if len(violations) >= 2: break
            key = (cls, re.sub(r"[-+0-9.e]+", "#", msg))
            if key in seen: continue
            path = os.path.join(rep_dir, f"{prop}-{var['name']}-{s}.replay")
            rc, out = sh([sim, "shrink", prop, str(s), path, "45"])
            if rc != 0: unstable.append((s, cls, msg)); continue
            rc, out2 = sh([sim, "replay", path])
            if rc != 1 or "REPRODUCED" not in out2: unstable.append((s, cls, msg)); continue
            seen.add(key); info = json.loads(out.splitlines()[1]); text = open(path, errors="replace").read()
            hit = next((k for k in known if k[0].search(text)), None)
            if hit: noted.append(hit[1]); continue
            violations.append((s, info["class"], info["message"], path, out.splitlines()[0]))
    wall = time.time() - t0
    runs = sum(b["runs"] for b in parts); states = set().union(*(b["states"] for b in parts)); counts = {}
    for b in parts:
        for k, v in b["counts"].items(): counts[k] = counts.get(k, 0) + v
    simsec = sum(b["seconds"] for b in parts) or 1e-9
    rc, sample = sh([parts[-1]["sim"], "one", prop, str(seed0)])
    faults = {k: v for k, v in sorted(counts.items()) if k.startswith(("fault.", "episode.", "preempt."))}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(violations),
        assumptions=P.get("assumptions", []),
        coverage=dict(
            evaluations=runs, distinct_nontrivial=len(states), rule=P["rule"],
            samples=[sample[:6000]],
            seeds=[seed0, seed0 + max(b["want"] for b in parts) - 1],
            runs_per_hour=int(runs / simsec * 3600), seeds_per_hour=int(runs / simsec * 3600),
            simulated_time=dict(unit="scheduler steps (the library has no clock)", steps=counts.get("steps", 0)),
            judged_passes=sum(b["judged"] for b in parts),
            faults_injected=faults,
            operations={k[3:]: v for k, v in sorted(counts.items()) if k.startswith("op.")},
            probes={k: v for k, v in sorted(counts.items()) if not k.startswith(("op.", "fault.", "episode.", "steps", "preempt."))},
            real_components=P["real"], stubbed_components=P["stub"],
            variants=[dict(name=b["variant"], runs=b["runs"], wanted=b["want"], seconds=b["seconds"], deterministic_across_worker_counts=b["deterministic"], not_relevant=b["other"], programs_left_out=b["dropped"], lost_workers=b["lost"]) for b in parts],
            unstable=[dict(seed=u[0], cls=u[1], message=u[2]) for u in unstable]))
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"{prop} {tier}: {runs} simulated runs ({int(runs / simsec * 3600)}/h), {counts.get('steps', 0)} steps, {sum(b['judged'] for b in parts)} judged passes, {len(states)} distinct points, {sum(v for k, v in faults.items())} faults/episodes; {wall:.1f} s")
    for k in sorted(set(noted)): print(f"KNOWN-FINDING: property={prop} {k}")
    for s, cls, msg, path, how in violations:
        print(f"seed {s}: {cls}: {msg} ({how})"); print(f"VIOLATION property={prop} replay={path}")
    if violations: return 1
    for s, cls, msg in unstable: print(f"unstable, not reported: seed {s} {cls} {msg}")
    if unstable: return 2
    if runs == 0 or any(b["lost"] for b in parts): print("simulation workers were lost"); return 2
    return 0

if __name__ == "__main__": sys.exit(main())
