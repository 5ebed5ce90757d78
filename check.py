#!/usr/bin/env python3
"""Entry point of the checks.

  check.py C01                 run the check of property C01 (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       run a stored plan again and report what it shows
  check.py --determinism       compare event logs across processes, hash seeds and worker counts
"""

import argparse
import collections
import hashlib
import json
import os
import resource
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

# number of plans per tier; a plan is one simulated history
COUNTS = {
    "C01": (15000, 300000), "C02": (30000, 600000), "C03": (45000, 800000), "C04": (40000, 800000), "C05": (45000, 800000),
    "C06": (32000, 500000), "C07": (18000, 300000), "C08": (9000, 150000), "C09": (14000, 250000), "C10": (16000, 300000),
    "C11": (28000, 500000), "C12": (9500, 180000), "C13": (11000, 200000), "C14": (28000, 400000),
}
WALL = {"quick": 300, "thorough": 3 * 3600}
WORKERS = min(8, os.cpu_count() or 1)


def worker_main(a):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(1000)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from sim import engine

    def emit(rec):
        out.write(json.dumps(rec) + "\n")
        out.flush()

    engine.work(a["prop"], a["base"], a["start"], a["stride"], a["count"], a["tier"], a["deadline"], emit)
    emit({"end": True})


def spawn(a, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([PY, os.path.join(HERE, "check.py"), "--worker", json.dumps(a)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE, text=True)


def sub(args, timeout=300):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([PY, os.path.join(HERE, "check.py")] + args, capture_output=True, text=True, env=env, cwd=HERE, timeout=timeout)


def sweep(prop, base, tier, count, workers=WORKERS, wall=300, stop=True, hs=lambda w: w * 17 + 1):
    """Run `count` plans on `workers` processes; returns records and errors."""
    deadline = time.time() + wall
    recs, errors, found = [], [], threading.Event()
    lock = threading.Lock()
    procs = []

    def tend(w):
        n = len(range(w, count, workers))
        done = 0
        crashes = 0
        while done < n and not (stop and found.is_set()):
            a = {"prop": prop, "base": base, "start": w + done * workers, "stride": workers, "count": n - done, "tier": tier, "deadline": deadline}
            p = spawn(a, hs(w))
            procs.append(p)
            ended = False
            errbuf = []
            et = threading.Thread(target=lambda: errbuf.append(p.stderr.read()), daemon=True)
            et.start()
            for line in p.stdout:
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if "end" in rec or "stop" in rec:
                    ended = True
                    if "stop" in rec:
                        done = n
                    break
                done += 1
                with lock:
                    recs.append(rec)
                if "v" in rec:
                    rec["hashseed"] = hs(w)
                    found.set()
                    ended = True
                    if stop:
                        break
            p.stdout.close()
            if stop and found.is_set():
                p.kill()
            p.wait()
            et.join(2)
            if ended:
                if done >= n or (stop and found.is_set()):
                    break
                continue
            if stop and found.is_set():
                break
            # the process ended without saying so: a fault of the harness or of the sandbox
            crashes += 1
            with lock:
                errors.append({"seed": w + done * workers, "rc": p.returncode, "err": (errbuf[0] if errbuf else "")[-1500:]})
            if crashes >= 3:
                break
            # same seed again in a fresh process

    ts = [threading.Thread(target=tend, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    while any(t.is_alive() for t in ts):
        if stop and found.is_set():
            time.sleep(0.2)
            for p in procs:
                if p.poll() is None:
                    p.kill()
        time.sleep(0.05)
    for t in ts:
        t.join()
    return recs, errors


def known_list(prop):
    """Findings listed in the committed file: name of the probe plan -> text."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                name, _, text = line.split(" ", 2)[2].partition(" ")
                out[name] = text
    return out


def check(prop, tier, seed):
    from sim import engine

    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    base = f"{seed}"
    count = COUNTS[prop][0 if tier == "quick" else 1]
    if os.environ.get("VERIF_COUNT"):
        count = int(os.environ["VERIF_COUNT"])
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "exploration")
    mod = engine.module(prop)
    # known findings: replay each listed history
    known_seen = []
    listed = known_list(prop)
    extra_v = None
    for name, text, plan, kind in getattr(mod, "known", lambda: [])():
        v, _, conc = engine.execute(mod, plan)
        if v and v["kind"] == kind:
            if name in listed:
                known_seen.append(name)
                print(f"KNOWN-FINDING: property={prop} {listed[name]}", flush=True)
            else:
                extra_v = {"v": v, "plan": conc, "i": "known:" + name}
    recs, errors = sweep(prop, base, tier, count, wall=WALL[tier])
    viols = sorted((r for r in recs if "v" in r), key=lambda r: r["i"])
    if extra_v:
        viols.insert(0, extra_v)
    confirmed = None
    unconfirmed = []
    for r in viols[:8]:
        c = confirm(prop, r)
        if c:
            confirmed = c
            break
        unconfirmed.append(r["i"])
    wall = time.time() - t0
    write_evidence(prop, tier, seed, level, mod, recs, errors, confirmed, known_seen, wall, count)
    n = len(recs)
    print(f"{prop}: {n} simulated histories, {sum(r['runs'] for r in recs)} runs of the tool, {len({r['sig'] for r in recs})} distinct, {wall:.1f} s")
    if confirmed:
        print(confirmed["msg"])
        print(f"VIOLATION property={prop} replay={confirmed['path']}", flush=True)
        return 1
    if unconfirmed:
        print(f"ERROR: violations of seeds {unconfirmed} did not reproduce in a fresh process")
        return 2
    if errors and n < count:
        print("ERROR: worker failures: " + json.dumps(errors[:3])[:3000])
        return 2
    if n < min(count, 50):
        print(f"ERROR: only {n} of {count} histories ran")
        return 2
    return 0


def confirm(prop, r):
    """Minimise in one process, replay in another; None unless it fails the same way."""
    path = os.path.join(EVID, f"{prop}.violation.json")
    body = {"property": prop, "seed": r["i"], "hashseed": r.get("hashseed", 0), "violation": r["v"], "plan": r["plan"]}
    full = os.path.join(EVID, f"{prop}.violation-full.json")
    json.dump(body, open(full, "w"))
    try:
        q = sub(["--replay", full])
    except subprocess.TimeoutExpired:
        q = None
    if q is not None and q.returncode != 1:
        return None
    if q is not None and r["v"]["kind"] != "timeout":
        try:
            sub(["--minimise", full, path], timeout=200)
            q = sub(["--replay", path])
            if q.returncode == 1:
                b = json.load(open(path))
                return {"path": path, "msg": f"{b['violation']['kind']}: {b['violation']['msg']} (seed {r['i']}, minimised {b.get('minimised')})"}
        except (subprocess.TimeoutExpired, OSError, ValueError):
            pass
    json.dump(body, open(path, "w"))
    return {"path": path, "msg": f"{r['v']['kind']}: {r['v']['msg']} (seed {r['i']})"}


def replay(path):
    from sim import engine

    b = json.load(open(path))
    v, st, _ = engine.execute(engine.module(b["property"]), b["plan"])
    if v and v["kind"] == b["violation"]["kind"]:
        print(f"{v['kind']}: {v['msg']}")
        print(f"event log {st.sig()}")
        print(f"VIOLATION property={b['property']} replay={path}")
        return 1
    print("not reproduced" + (f": now {v}" if v else ""))
    return 0


def minimise(src, dst):
    from sim import engine

    b = json.load(open(src))
    mod = engine.module(b["property"])
    plan, v, info = engine.minimise(mod, b["plan"], b["violation"])
    b.update(plan=plan, violation=v, minimised=info)
    json.dump(b, open(dst, "w"), indent=1)


def clip(x, n=3000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def write_evidence(prop, tier, seed, level, mod, recs, errors, confirmed, known_seen, wall, asked):
    fired, probes = collections.Counter(), collections.Counter()
    for r in recs:
        fired.update(r["fired"])
        probes.update(r["probes"])
    nontriv = {r["sig"] for r in recs if not r["triv"]}
    runs = sum(r["runs"] for r in recs)
    allsig = hashlib.sha256("".join(r["sig"] for r in sorted(recs, key=lambda r: r["i"])).encode()).hexdigest()[:16]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": len(recs), "distinct_nontrivial": len(nontriv), "rule": getattr(mod, "RULE", ""),
            "samples": [clip(r["sample"]) for r in recs if "sample" in r][:2],
            "histories_planned": asked,
            "simulated_runs_of_the_tool": runs,
            "distinct_event_logs": len({r["sig"] for r in recs}),
            "histories_per_hour": round(len(recs) / wall * 3600), "runs_per_hour": round(runs / wall * 3600),
            "simulated_seconds": round(sum(r["sim"] for r in recs), 3),
            "system_calls_simulated": sum(r["ops"] for r in recs),
            "instrumented_lines_or_instructions": sum(r["lines"] for r in recs),
            "task_switches": sum(r["sw"] for r in recs),
            "faults_fired": dict(fired.most_common()), "probes": dict(probes.most_common()),
            "history_digest": allsig,
            "real_components": ["palworld_save_tools (all modules, from /repo's working tree)", "CPython io/json/zlib/argparse/struct", "recordclass (unless FORCE_STDLIB_ONLY)"],
            "simulated_components": ["file system incl. page cache, journal and power loss", "file descriptors, stdin, stdout", "clock", "randomness", "pids", "environment and locale", "scheduler", "signals and kills", "allocation failure"],
            "known_findings_seen": known_seen, "worker_errors": errors[:3],
        },
        "assumptions": ["stat calls are never made to fail", "the kernel's rename is atomic; the journal of the simulated file system commits in order",
                        "zlib, json and the interpreter are correct"] + list(getattr(mod, "ASSUME", [])),
        "wall_s": round(wall, 2), "violations": 1 if confirmed else 0,
    }
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)


def determinism(props, n):
    """The same seeds in different processes, worker counts and hash seeds give the same logs."""
    rc = 0
    for prop in props:
        runs = []
        for workers, hs in ((8, lambda w: w * 17 + 1), (3, lambda w: 1000 + w), (5, lambda w: 0)):
            recs, errors = sweep(prop, "det", "quick", n, workers=workers, wall=600, stop=False, hs=hs)
            runs.append({r["i"]: r["sig"] for r in recs})
            if errors:
                print(prop, errors[:1])
        diff = [i for i in runs[0] if any(x.get(i) != runs[0][i] for x in runs[1:])]
        print(f"{prop}: {len(runs[0])} histories x {len(runs)} executions, {len(diff)} differ {diff[:5]}", flush=True)
        rc |= bool(diff) or len(runs[0]) < n
    return int(rc)


def selftest():
    """Quick sanity of the sandbox before any check: the simulator and the model work here."""
    from sim import engine

    for prop in sorted(COUNTS):
        mod = engine.module(prop)
        for i in range(2):
            engine.one(mod, f"self:{i}", "quick")
    print("ok")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--minimise", nargs=2)
    ap.add_argument("--worker")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.worker:
        return worker_main(json.loads(a.worker))
    if a.replay or a.minimise:
        # the order of sets and dictionaries of strings is one of the things a history fixes
        want = str(json.load(open(a.replay or a.minimise[0])).get("hashseed", 0))
        if os.environ.get("PYTHONHASHSEED") != want:
            sys.stdout.flush()
            os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED=want))
    if a.replay:
        return replay(a.replay)
    if a.minimise:
        return minimise(*a.minimise)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.determinism:
        return determinism([a.prop] if a.prop else sorted(COUNTS), a.determinism)
    return check(a.prop.upper(), "thorough" if a.tier == "thorough" else "quick", seed)


if __name__ == "__main__":
    sys.exit(main())
