#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and stores them under /verif/seeded.
usage: plant.py [ids...]   (definitions: bugs.py)"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs

SEED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def tests(cwd):
    out = []
    for env in ("", "FORCE_STDLIB_ONLY=1 "):
        r = sh(env + f"PYTHONPATH={cwd} PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH {PY} -m pytest -q -n 8 -p no:cacheprovider --timeout=120 tests", cwd)
        out.append(r.stdout.strip().splitlines()[-1])
    return out


def main():
    want = sys.argv[1:]
    base = None
    for b in bugs.BUGS:
        if want and b["id"] not in want:
            continue
        if not want and os.path.exists(os.path.join(SEED, b["id"], "patch.diff")):
            continue
        d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        c = os.path.join(d, "repo")
        try:
            subprocess.run(["cp", "-a", "/repo", c], check=True)
            folder = os.path.join(d, "demo")
            os.mkdir(folder)
            shutil.copy(os.path.join(HERE, "mini.py"), folder)
            with open(os.path.join(folder, "demo.py"), "w") as f:
                f.write("from mini import *\n\n" + b["demo"].strip() + "\n")
            with open(os.path.join(folder, "demo.sh"), "w") as f:
                f.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            demo = f"bash {folder}/demo.sh"
            if base is None:
                base = tests(c)
                print("baseline", base)
            r0 = sh(demo, c, timeout=300)
            for file, old, new in b["edits"]:
                p = os.path.join(c, "palworld_save_tools", file)
                s = open(p).read()
                assert s.count(old) >= 1, (b["id"], file, old)
                open(p, "w").write(s.replace(old, new, 1) if not b.get("all") else s.replace(old, new))
            diff = sh("git diff", c).stdout
            r1 = sh(demo, c, timeout=300)
            t = tests(c)
            strip = lambda x: [y.split(" in ")[0] for y in x]
            ok = r0.returncode == 0 and r1.returncode != 0 and strip(t) == strip(base)
            print(b["id"], "OK" if ok else "REJECTED", "demo", r0.returncode, r1.returncode, t, r0.stderr[-300:] if r0.returncode else "", r1.stdout[-150:], r1.stderr[-150:] if ok else r1.stderr[-400:])
            if ok:
                dst = os.path.join(SEED, b["id"])
                shutil.rmtree(dst, ignore_errors=True)
                os.makedirs(dst)
                for f in ("mini.py", "demo.py", "demo.sh"):
                    shutil.copy(os.path.join(folder, f), dst)
                open(os.path.join(dst, "patch.diff"), "w").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
