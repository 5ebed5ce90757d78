"""C01: decompressed bytes are conserved along every chain of conversions."""

from ..common import *
from .. import gen

RULE = ("A run is one chain of 2-6 conversions of a generated save (CLI runs and library read/write), with random sections, "
        "layout options, names and process configuration; two thirds of the chains also meet faults (I/O errors, short transfers, "
        "full disk, kills, power loss, interrupts), each disturbed step being repeated until it succeeds. Non-trivial: a fault fired "
        "or short I/O occurred; distinct: different hash of the complete operation log, outputs and exit codes.")


def make(seed, tier="quick"):
    r = rng_of("C01", seed)
    doc = gen.gen_doc(r, knobs={"jumbo": True})
    faulty = r.random() < 0.5
    steps = []
    kind = "sav"
    for i in range(r.choice([2, 2, 2, 3, 4, 6])):
        opts = env_opts(r)
        if faulty and r.random() < 0.6:
            opts["want"] = wants(r, ALL)
        s = {"kind": kind, "spec": opts}
        if kind == "sav" and r.random() < 0.15:
            s["lib"] = True
            s["sections"] = pick_sections(r)
            opts.pop("want", None)
            steps.append(s)
            continue
        if kind == "sav":
            s["sections"] = pick_sections(r)
            s["minify"] = r.random() < 0.5
        s["out"] = None if r.random() < 0.5 else r.choice([f"o{i}", "sub/o%d" % i, "/sim/other/o%d" % i]) + (".json" if kind == "sav" else ".sav")
        if s["out"] and r.random() < 0.15:
            s["out"] = s["out"].rsplit(".", 1)[0]  # no extension: next step needs a flag
        s["consent"] = r.choice(["-f", "y", "Y"])
        s["ord"] = r.getrandbits(30)
        steps.append(s)
        kind = "json" if kind == "sav" else "sav"
    if kind == "json":
        steps.append({"kind": "json", "spec": env_opts(r), "out": None, "consent": "-f", "ord": 1})
    return {"docs": [doc], "name": sav_name(r), "steps": steps}


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    w = World()
    cur = plan["name"]
    w.fs.put("/sim/w/" + cur, M.enc_sav(doc))
    for d in ("/sim/w/sub", "/sim/other"):
        w.fs.put_dir(d)
    try:
        kind = "sav"
        for n, s in enumerate(plan["steps"]):
            if s["kind"] != kind:
                return None  # not a chain (only while minimising)
            if s.get("lib"):
                v = lib_step(w, st, cur, s, payload)
                if v:
                    return v
                continue
            to_json = s["kind"] == "sav"
            r = rng_of(s["ord"])
            args = []
            if to_json:
                args += section_arg(r, s.get("sections"))
                if s.get("minify"):
                    args.append(["--minify-json"])
            ext = ".sav" if to_json else ".json"
            if not cur.endswith(ext):
                args.append(["--to-json" if to_json else "--from-json"])
            out = s["out"] or default_output(cur, to_json)
            if s["out"]:
                args.append(out_arg(r, s["out"]))
            spec = s["spec"]
            disturbed = bool(spec.get("want") or spec.get("faults"))
            for attempt in range(2):
                a = list(args)
                spec["stdin"] = []
                if s["consent"] == "-f" or attempt:
                    a.append(force_arg(r))
                else:
                    spec["stdin"] = [s["consent"]]
                if attempt == 0:
                    spec.setdefault("argv", argv(r, a, cur))
                    p = run_cmd(w, st, "convert", spec)
                else:
                    st.probes["repeated"] += 1
                    p = run_cmd(w, st, "convert", {"argv": argv(r, a, cur), "stdin": [], "seed": spec.get("seed", 0)})
                if p.exit == 0:
                    break
                if not disturbed:
                    return bad("not-converted", f"step {n} {p.argv[1:]} exit {p.exit} {p.exc}")
            if p.exit != 0:
                return bad("not-converted", f"step {n} repeated after a disturbed run: exit {p.exit} {p.exc}")
            b = w.fs.content(absn(out))
            if b is None:
                return bad("no-output", f"step {n} {p.argv[1:]} succeeded without output {out}")
            if not to_json:
                why = wrong_sav(b, payload, M.save_type_for(doc["hdr"]["cls"]))
                if why:
                    return bad("not-conserved", f"step {n} {p.argv[1:]}: {why}")
                st.probes["sav_compared"] += 1
            cur = out
            kind = "json" if to_json else "sav"
            w.fs.settle()  # time passes between the steps of a chain
    finally:
        st.absorb(w)
    return None


def lib_step(w, st, cur, s, payload):
    box = {}

    def go(task):
        L = Lib()
        with open(absn(cur), "rb") as f:
            data = f.read()
        raw, t = L.pal.decompress_sav_to_gvas(data)
        g = L.read(raw, s.get("sections"))
        out = L.write(g)
        out2 = L.write(L.load(json.loads(L.json(g))))
        box["r"] = (raw, out, out2, L.pal.compress_gvas_to_sav(out, t), t)

    def safe(task):
        box["o"] = Outcome(go, task)

    run_lib(w, st, s["spec"], safe)
    o = box.get("o")
    if o is None or not o.ok:
        return bad("not-converted", f"library read/write: {o}")
    raw, out, out2, sav, t = box["r"]
    if raw != payload:
        return bad("not-conserved", "decompressed payload differs")
    if out != payload or out2 != payload:
        return bad("not-conserved", "library read/write changed the payload" + ("" if out != payload else " (through JSON)"))
    why = wrong_sav(sav, payload, t)
    if why:
        return bad("not-conserved", "library compress: " + why)
    st.probes["lib_compared"] += 1
    return None


# The known finding: NaN values with other than the canonical bits.
def known():
    doc = gen.small_doc(rng_of("C01", "known"))
    doc["props"] = [{"n": "F", "t": "Float", "id": None, "v": 0xFFC00000}]
    plan = {"docs": [doc], "name": "nan.sav", "steps": [
        {"kind": "sav", "spec": {}, "out": None, "consent": "-f", "ord": 1},
        {"kind": "json", "spec": {}, "out": None, "consent": "-f", "ord": 1}]}
    return [("nan-payload", "a float NaN stored as 0xffc00000 (any NaN with a sign or payload bit) comes back as the canonical NaN 0x7fc00000 after SAV to JSON to SAV", plan, "not-conserved")]
