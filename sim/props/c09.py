"""C09: producing bytes or a view from a loaded document leaves it as it was."""

from ..common import *
from .. import gen

RULE = ("A run loads one generated document (from save bytes or from JSON, any sections) and performs 2-7 seeded calls on it: write, dump, JSON encoding, writes that fail "
        "(missing encoders, a broken copy), a call interrupted or out of memory at a seeded line; after every call the whole document is compared "
        "with its state after loading, and every completed call must give the right result. Non-trivial: a call failed or was interrupted, or at least three calls completed; distinct: different log of outcomes and fault positions.")

OPS = ["write", "write", "write", "json", "dump", "write_none", "write_less", "write_bad"]


def make(seed, tier="quick"):
    r = rng_of("C09", seed)
    faulty = r.random() < 0.6
    knobs = {"count": r.choice([1, 1, 2])}
    if faulty:  # every line is traced
        knobs["bigstr"] = False
    doc = gen.gen_doc(r, limit=60000 if faulty else 120000, knobs=knobs, world=r.random() < 0.9)
    steps = []
    for _ in range(r.choice([2, 3, 3, 4, 7])):
        s = {"k": r.choice(OPS)}
        if s["k"] == "write_less":
            s["drop"] = r.getrandbits(20)
        if s["k"] == "write_bad":
            s["s"] = r.getrandbits(30)
        if faulty and r.random() < 0.6 and s["k"] in ("write", "json", "dump"):
            s["at"] = r.random() if r.random() < 0.8 else 1 - r.random() ** 4 * 0.05
            s["f"] = r.choice(["intr", "mem"])
        steps.append(s)
    steps.append({"k": "write"})
    steps.append({"k": "json"})
    return {"docs": [doc], "from": r.choice(["sav", "sav", "json", "legacy"]), "sections": pick_sections(r), "steps": steps,
            "env": {"FORCE_STDLIB_ONLY": "1"} if r.random() < 0.3 else {}, "variant": "instr" if faulty and r.random() < 0.25 else "line" if faulty else "plain"}


class Boom(Exception):
    pass


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    ctx = M.Ctx(None if plan["sections"] is None or plan["from"] != "sav" else set(plan["sections"]))
    w = World()
    w.fs.put_dir("/sim/w")
    res = []
    bad_lines = plan.setdefault("lines", {})

    def go(task):
        L = Lib()
        if plan["from"] == "sav":
            g = L.read(payload, plan["sections"])
        else:
            v = json_bytes(doc, {"legacy": plan["from"] == "legacy"})
            g = L.load(json.loads(v))
        first = snap_doc(g)
        cp = L.types.PALWORLD_CUSTOM_PROPERTIES

        def call(s):
            k = s["k"]
            if k == "write":
                return L.write(g)
            if k == "json":
                return L.json(g)
            if k == "dump":
                return snap(g.dump())
            if k == "write_none":
                return g.write({})
            if k == "write_less":
                r = rng_of("less", s["drop"])
                return g.write({a: b for a, b in cp.items() if r.random() < 0.6})

            # encoders that fail at some record
            r = rng_of("boom", s["s"])
            left = [r.choice([0, 1, 2, 5])]

            def wrap(f):
                def enc(*a, **kw):
                    left[0] -= 1
                    if left[0] < 0:
                        raise Boom("encoder failed")
                    return f(*a, **kw)

                return enc

            return g.write({a: (b[0], wrap(b[1])) for a, b in cp.items()})

        total = {}
        for n, s in enumerate(plan["steps"]):
            if "f" in s and str(n) not in bad_lines:
                # rehearse once on another copy of the document to know how long the call is
                if s["k"] not in total:
                    g0 = g
                    g = L.read(payload, plan["sections"]) if plan["from"] == "sav" else L.load(json.loads(json_bytes(doc, {})))
                    w.places = []
                    Outcome(call, s)
                    total[s["k"]] = w.places
                    w.places = None
                    g = g0
                k = total[s["k"]]
                pick = rng_of("at", s["at"])
                if k and pick.random() < 0.5:
                    bad_lines[str(n)] = pick.choice(pick_place(pick, by_place(k), plan["variant"]))
                else:
                    bad_lines[str(n)] = max(1, int(s["at"] * len(k)))
            if "f" in s:
                k = task.nlines + bad_lines[str(n)]
                task.linefaults[k] = {"line": k, "f": s["f"]}
            o = Outcome(call, s)
            task.linefaults.clear()
            d = snap_diff(first, snap_doc(g))
            res.append((n, o, d))
            if d:
                return

    out = {}

    def safe(task):
        out["o"] = Outcome(go, task)

    p = run_lib(w, st, {"variant": plan["variant"], "env": plan["env"], "line_cap": 60_000_000}, safe).proc
    try:
        o = out.get("o")
        if o is None or not o.ok:
            return bad("not-loaded", f"{o or p.exc}")
        fine = 0
        for n, o, d in res:
            s = plan["steps"][n]
            st.note(n, o.ok, o.exc)
            what = f"step {n} {s['k']}" + (f" ({s['f']} at line {bad_lines[str(n)]})" if "f" in s else "")
            if d:
                return bad("document-changed", f"{what} ({o!r}) changed the document: {d}")
            if o.ok and ("f" not in s or s["f"] == "intr"):
                v = judge(plan, s, o.value, doc, payload, ctx)
                if v:
                    return bad("wrong-result", f"{what}: {v}")
                fine += 1
                st.probes["ok:" + s["k"]] += 1
            elif not o.ok and s["k"] in ("write", "json", "dump") and "f" not in s:
                return bad("wrong-result", f"{what} failed: {o}")
            else:
                st.probes["failed:" + s["k"]] += 1
                if not o.ok:
                    st.trivial = False
                if s["k"].startswith("write_"):
                    st.fired["failing_write"] += not o.ok
        if fine >= 3:
            st.trivial = False
    finally:
        st.absorb(w)
    return None


def judge(plan, s, v, doc, payload, ctx):
    k = s["k"]
    if k == "json" and plan["from"] == "legacy":
        # it gives back the JSON it was loaded from
        return M.json_diff(json.loads(json_bytes(doc, {"legacy": True})), json.loads(v))
    if k == "json":
        return wrong_json(v.encode("utf-8", "surrogatepass"), doc, ctx)
    if k.startswith("write"):
        return None if v == payload else "bytes differ from the save"
    return None
