"""C02: the output path is all-or-nothing at every instant and after every ending."""

from ..common import *
from .. import gen

RULE = ("A run is one conversion (or resave test) over an output path that is absent, an older file, a link or an empty file, hit by 1-3 faults "
        "placed inside it (errors, full disk, short or torn writes, kill, power loss with loss of unsynced data, interrupt at any line); the content of the output "
        "path is checked after every file-system change, after the run, and after a further power loss. Non-trivial: a fault fired; distinct: different operation log.")


def make(seed, tier="quick"):
    r = rng_of("C02", seed)
    doc = gen.gen_doc(r, limit=200000, knobs={"count": 1} if r.random() < 0.6 else {})
    to_json = r.random() < 0.5
    resave = r.random() < 0.15
    prev = r.choice(["absent", "file", "file", "file", "same", "empty", "link", "dangling", "big"])
    src = sav_name(r) if (to_json or resave) else json_name(r)
    while src.startswith("-") and resave:
        src = sav_name(r)
    out = None if r.random() < 0.6 or resave else r.choice(["out", "/sim/other/out", "sub/out.bin", "Out put"])
    spec = env_opts(r, 0.5)
    spec["want"] = wants(r, ALL)
    return {"docs": [doc], "to_json": to_json, "resave": resave, "prev": prev, "src": src, "out": out, "spec": spec,
            "sections": pick_sections(r) if to_json else None, "minify": r.random() < 0.5, "consent": r.choice(["-f", "y"]),
            "late": r.getrandbits(30), "ord": r.getrandbits(30)}


OLD = b"older content \x00\xff that must survive\n" * 3


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    to_json, src = plan["to_json"], plan["src"]
    ctx = M.Ctx(None if plan["sections"] is None else set(plan["sections"]))
    o_json = Oracle(lambda b: wrong_json(b, doc, ctx))
    o_sav = Oracle(lambda b: wrong_sav(b, payload, M.save_type_for(doc["hdr"]["cls"])))
    w = World()
    for d in ("/sim/w/sub", "/sim/other"):
        w.fs.put_dir(d)
    r = rng_of(plan["ord"])
    args = []
    if plan["resave"]:
        cmd = "resave_test"
        w.fs.put(absn(src), M.enc_sav(doc))
        targets = {absn(src) + ".resave.json": Oracle(lambda b: wrong_json(b, doc, M.Ctx())), absn(src) + ".resave.sav": o_sav}
        av = [src]
        stdin = ["y"] * 4
    else:
        cmd = "convert"
        w.fs.put(absn(src), M.enc_sav(doc) if to_json else json_bytes(doc, {}))
        out = plan["out"] or default_output(src, to_json)
        targets = {absn(out): o_json if to_json else o_sav}
        if to_json:
            args += section_arg(r, plan["sections"])
            if plan["minify"]:
                args.append(["--minify-json"])
        if plan["out"]:
            args.append(out_arg(r, plan["out"]))
        stdin = ["y"] * 2
        if plan["consent"] == "-f":
            args.append(force_arg(r))
            stdin = []
        av = argv(r, args, src)
    for t, o in targets.items():
        prev = plan["prev"]
        if prev == "file":
            w.fs.put(t, OLD)
        elif prev == "empty":
            w.fs.put(t, b"")
        elif prev == "big":
            w.fs.put(t, OLD * 2000)
        elif prev == "same":
            w.fs.put(t, M.enc_sav(doc) if not t.endswith("json") and not (to_json and not plan["resave"]) else json_bytes(doc, {"sections": plan["sections"]}))
        elif prev == "link":
            w.fs.put("/sim/real/target", OLD)
            if "/sim/real/target" in [getattr(n, "target", None) for n in w.fs.ents.values()]:
                w.fs.put(t, OLD)
            else:
                w.fs.put_link(t, "/sim/real/target")
        elif prev == "dangling":
            w.fs.put_dir("/sim/real")
            w.fs.put_link(t, "/sim/real/" + t.rsplit("/", 1)[1])
    old = {t: w.fs.content(t) for t in targets}

    def check(when):
        for t, o in targets.items():
            b = w.fs.content(t)
            if b == old[t]:
                continue
            if b is None:
                return bad("lost", f"{when}: {t} vanished (previous content: {len(old[t])} bytes)")
            why = o(b)
            if why:
                return bad("torn", f"{when}: {t} holds {len(b)} bytes that are neither the old content nor a complete output: {why}")
        return None

    w.monitor = lambda _: check("during the run")
    spec = plan["spec"]
    spec["stdin"] = stdin
    spec["argv"] = av
    try:
        p = run_cmd(w, st, cmd, spec)
        if w.violation:
            return w.violation
        v = check(f"after the run (exit {p.exit})")
        if v:
            return v
        if not any(k not in ("chunked_io",) for k in w.fired) and p.exit != 0:
            return bad("not-converted", f"{av} exit {p.exit} {p.exc}")
        w.fs.power_loss(rng_of(plan["late"]))
        st.probes["late_power_loss"] += 1
        v = check(f"after power loss following the run (exit {p.exit})")
        if v:
            return v
    finally:
        w.monitor = None
        st.absorb(w)
    return None
