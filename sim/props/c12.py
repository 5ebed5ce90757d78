"""C12: after any disturbed runs, a clean repetition gives what an undisturbed first run gives."""

from ..common import *
from .. import gen

RULE = ("A run is a history of 1-4 disturbed runs of one conversion or resave test (kill, torn write, power loss with loss of unsynced data, I/O errors, full disk, interrupts, out of memory, refused or closed input), optionally with the output "
        "removed or a power cycle in between, followed by one undisturbed run with consent that must exit 0 within a bounded number of operations and leave exactly the bytes of an undisturbed first run. "
        "Non-trivial: a fault fired; distinct: different operation log.")


def make(seed, tier="quick"):
    r = rng_of("C12", seed)
    doc = gen.gen_doc(r, limit=120000, knobs={"count": 1} if r.random() < 0.7 else {})
    cmd = "resave_test" if r.random() < 0.25 else "convert"
    steps = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        s = {"spec": {**env_opts(r, 0.6), "want": wants(r, ALL + CRASH + ["linemem"])}, "between": r.choice(["", "", "power", "settle", "rm", "stale"]), "force": r.random() < 0.6,
             "replies": [r.choice(["y", "y", "n", "^eof"]) for _ in range(2)]}
        steps.append(s)
    return {"docs": [doc], "cmd": cmd, "to_json": r.random() < 0.5, "sections": pick_sections(r), "minify": r.random() < 0.5, "nan": r.random() < 0.15, "steps": steps,
            "out": r.choice([None, None, "o", "sub/o.x", "link"]), "prev": r.random() < 0.4, "final": env_opts(r, 0.7), "consent": r.choice(["-f", "y"]), "ord": r.getrandbits(30)}


def setup(plan):
    doc = plan["docs"][0]
    w = World()
    for d in ("/sim/w/sub", "/sim/real"):
        w.fs.put_dir(d)
    src = "a.sav" if plan["to_json"] or plan["cmd"] == "resave_test" else "a.sav.json"
    w.fs.put(absn(src), M.enc_sav(doc) if src == "a.sav" else json_bytes(doc, {}))
    if plan["out"] == "link":
        w.fs.put_link("/sim/w/link", "/sim/real/t")
    return w, src


def run(plan, st):
    resave = plan["cmd"] == "resave_test"
    to_json = plan["to_json"]
    r = rng_of(plan["ord"])

    def line(force):
        if resave:
            return ["a.sav"]
        a = []
        if to_json:
            a += section_arg(r, plan["sections"])
            if plan["minify"]:
                a.append(["--minify-json"])
            if plan["nan"]:
                a.append(["--convert-nan-to-null"])
        if plan["out"]:
            a.append(out_arg(r, plan["out"]))
        if force:
            a.append(force_arg(r))
        return argv(r, a, src)

    w0, src = setup(plan)
    outs = [absn("a.sav.resave.json"), absn("a.sav.resave.sav")] if resave else [absn(plan["out"] or default_output(src, to_json))]
    av0 = line(False)
    p0 = run_cmd(w0, st, plan["cmd"], {"argv": av0, "stdin": [], **plan["final"]})
    if p0.exit != 0:
        return bad("not-converted", f"undisturbed first run {av0}: exit {p0.exit} {p0.exc}")
    want = [w0.fs.content(o) for o in outs]
    nops = w0.tasks[-1].nops
    w, src = setup(plan)
    if plan["prev"]:
        for o in outs:
            w.fs.put(w.fs.resolve(o), b"older\n")
    try:
        for s in plan["steps"]:
            spec = s["spec"]
            spec["argv"] = spec.get("argv") or line(s["force"])
            spec["stdin"] = ["y", "y"] if s["force"] and resave else s["replies"]
            run_cmd(w, st, plan["cmd"], spec)
            b = s["between"]
            if b == "power":
                w.fs.power_loss(rng_of("between", spec.get("seed", 0)))
                st.fired["power_loss_between"] += 1
            elif b == "settle":
                w.fs.settle()
            elif b == "rm":
                for o in outs:
                    if w.fs.content(o) is not None:
                        w.fs.unlink(w.fs.resolve(o))
            elif b == "stale":
                w.fs.put(w.fs.resolve(outs[-1]), b"x" * 70000)
        if any(k not in ("chunked_io",) for k in w.fired):
            st.trivial = False
        force = plan["consent"] == "-f" and not resave
        spec = {"argv": line(force), "stdin": [] if force else ["y", "y"], **plan["final"], "op_cap": 20 * nops + 500}
        p = run_cmd(w, st, plan["cmd"], spec)
        if p.exit != 0:
            return bad("cannot-repeat", f"after {len(plan['steps'])} disturbed runs, {spec['argv']} gives exit {p.exit} {p.exc} {p.text()[-150:]!r}")
        for o, b in zip(outs, want):
            c = w.fs.content(o)
            if c != b:
                return bad("differs", f"{o}: {'missing' if c is None else str(len(c)) + ' bytes'} instead of the {len(b)} bytes of an undisturbed first run")
        st.probes["repeated"] += 1
    finally:
        st.absorb(w)
    return None


def shrink(plan):
    yield from shrink_plan(plan)
    for k, v in (("out", None), ("prev", False), ("sections", None), ("minify", False), ("final", {}), ("consent", "-f")):
        if plan[k] != v:
            yield {**plan, k: v}
