"""C05: nothing but the output file changes."""

from ..common import *
from .. import gen

RULE = ("A run is one command (valid or not, convert or resave test) inside a tree of bystander files whose names resemble outputs, backups and temporaries, healthy or under faults; "
        "the whole tree (names, contents, modes, link targets) is compared before and after, every open for writing is examined, and writes outside the tree are refused and reported. "
        "Non-trivial: every run; distinct: different operation log and tree.")
ASSUME = ["left-overs are accepted after a kill, power loss or interrupt, and where removing them was itself made to fail"]


def make(seed, tier="quick"):
    r = rng_of("C05", seed)
    doc = gen.gen_doc(r, knobs={"count": 1, "width": 1}, world=r.random() < 0.3)
    x = r.random()
    cmd = "resave_test" if x < 0.2 else "convert"
    to_json = cmd == "resave_test" or r.random() < 0.5
    src = sav_name(r) if to_json else json_name(r)
    if r.random() < 0.15 and cmd == "convert":
        src = r.choice(["noext", "x.dat", "a.JSON", "b.SAV"])
    d = r.choice(["", "", "sub/", "/sim/other/"])
    out = None if r.random() < 0.5 else r.choice(["out", "sub/deep/out.json", "/sim/other/o.sav", "out.tmp", "missing/o", "lnk", "sub"])
    plan = {"docs": [doc], "cmd": cmd, "to_json": to_json, "src": src, "dir": d, "out": out, "flag": r.random() < 0.5 or not src.endswith((".sav", ".json")),
            "same": r.random() < 0.05, "damage": r.random() < 0.12, "wrongflag": r.random() < 0.06, "exists": r.random() < 0.5, "consent": r.choice(["-f", "y", "n", "^eof", "^intr", "q"]),
            "ord": r.getrandbits(30), "ro": r.random() < 0.1, "missing_in": r.random() < 0.05, "srclink": r.random() < 0.1, "stale": r.random() < 0.3}
    spec = env_opts(r, 0.5)
    if r.random() < 0.55:
        spec["want"] = wants(r, ALL)
    plan["spec"] = spec
    return plan


def bystanders(w, names, r):
    sfx = [".tmp", ".bak", ".part", ".new", ".old", "~", ".json", ".sav", ".orig", ".lock", "0", ".swp", ".resave.json", ".resave.sav", ".resave.sav.json", ".json.json"]
    for n in names:
        for s in r.sample(sfx, 5):
            p = n + s
            if p not in w.fs.ents and p not in names:
                w.fs.put(p, ("bystander " + p).encode(), r.choice([0o644, 0o600, 0o444]))
        d, b = n.rsplit("/", 1)
        for x in aim.novel().names:
            for p in (n + x, n.rsplit(".", 1)[0] + x, d + "/" + x, d + "/." + b + x):
                if p not in w.fs.ents and p not in names and r.random() < 0.5:
                    w.fs.put(p, ("bystander " + p).encode())
        for q in ("." + b, "." + b + ".tmp", "tmp" + b, b.split(".")[0], "out.json.tmp", "tmp", "temp.sav", ".tmp"):
            p = d + "/" + q
            if q and p not in w.fs.ents and p not in names and r.random() < 0.5:
                w.fs.put(p, ("bystander " + p).encode())


def tree(w):
    out = {}
    for p, n in w.fs.ents.items():
        out[p] = (n.kind, bytes(n.data) if n.kind == "f" else n.target, n.mode)
    return out


def run(plan, st):
    doc = plan["docs"][0]
    w = World()
    for d in ("/sim/w/sub/deep", "/sim/other", "/sim/real"):
        w.fs.put_dir(d)
    r = rng_of(plan["ord"])
    to_json = plan["to_json"]
    src = plan["dir"] + plan["src"]
    data = M.enc_sav(doc) if to_json else json_bytes(doc, {})
    if plan["damage"]:
        data = r.choice([data[: r.randint(0, len(data) - 1)], b"", data[:20] + r.randbytes(40) + data[60:]])
    sp = absn(src)
    w.fs.put("/sim/w/lnk.target", b"behind a link")
    w.fs.put_link("/sim/w/lnk", "lnk.target")
    if plan["srclink"]:
        w.fs.put("/sim/real/source", data)
        w.fs.put_link(sp, "/sim/real/source")
    elif not plan["missing_in"]:
        w.fs.put(sp, data, 0o444 if plan["ro"] else 0o644)
    args, stdin = [], []
    if plan["cmd"] == "resave_test":
        if src.startswith("-"):
            src = "/sim/w/" + src
        outs = [sp + ".resave.json", sp + ".resave.sav"]
        av = [src]
        stdin = [plan["consent"] if plan["consent"] != "-f" else "y"] * 2
    else:
        tj = to_json
        if plan["wrongflag"]:
            tj = not tj
            args.append(["--to-json" if tj else "--from-json"])
        elif plan["flag"]:
            args.append(["--to-json" if tj else "--from-json"])
        out = plan["out"] or default_output(src, tj)
        if plan["same"]:
            out = src
        outs = [absn(out)]
        if plan["out"] or plan["same"]:
            args.append(out_arg(r, out))
        if plan["consent"] == "-f":
            args.append(force_arg(r))
        else:
            stdin = [plan["consent"]]
        av = argv(r, args, src)
    names = [sp] + outs
    if plan["exists"]:
        for o in outs:
            if o not in w.fs.ents and o.rsplit("/", 1)[0] in w.fs.ents:
                w.fs.put(o, b"older output", r.choice([0o644, 0o600, 0o664]))
    bystanders(w, [n for n in names if n.rsplit("/", 1)[0] in w.fs.ents], r)
    before = tree(w)
    allowed = set(outs)
    for o in outs:
        try:
            allowed.add(w.fs.resolve(o))
        except OSError:
            pass
    inp = {sp}
    try:
        inp.add(w.fs.resolve(sp))
    except OSError:
        pass
    watch = set(before) - allowed

    def mon(_):
        e = w.fs.ents
        for p in watch:
            n = e.get(p)
            if n is None:
                return bad("removed", f"during the run: {p} vanished")
            k, c, _m = before[p]
            if k == "f" and (len(n.data) != len(c) or n.data != c):
                return bad("altered", f"during the run: {p} changed")
        return None

    w.monitor = mon
    spec = plan["spec"]
    spec["stdin"] = stdin
    spec["argv"] = av
    mark = len(w.log)
    st.trivial = False
    try:
        p = run_cmd(w, st, plan["cmd"], spec)
        if w.violation:
            return w.violation
        if p.escapes:
            return bad("outside", f"{av}: touched {p.escapes[:3]} outside its directories")
        for e in w.log[mark:]:
            if e[1] == "opened" and e[3] == "w" and e[2] in inp and not (e[2] in allowed):
                return bad("input-opened-for-writing", f"{av}: {e[2]}")
        after = tree(w)
        for q in sorted(set(before) | set(after)):
            if q in allowed or before.get(q) == after.get(q):
                continue
            if q in before:
                kind = "removed" if q not in after else "altered"
                return bad(kind, f"{av} (exit {p.exit}): {q} {kind}")
            excuse = p.exit in (-9, "hang", 130) or any(x.startswith(("intr", "kill", "power")) for x in w.fired) or any("unlink" in x or x.startswith("sticky") for x in w.fired)
            if excuse:
                st.probes["leftover_excused"] += 1
            else:
                return bad("stray", f"{av} (exit {p.exit}): left {q} behind")
        st.note(sorted(set(after) - set(before)))
    finally:
        w.monitor = None
        st.absorb(w)
    return None
