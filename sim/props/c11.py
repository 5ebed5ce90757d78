"""C11: the verdict of the resave test is truthful."""

import struct

from ..common import *
from .. import gen
from .c06 import MUTS, mutate, undetectable

RULE = ("A run is one resave test over a generated save: canonical, readable but not reproducible (unusual flag bytes, text stored in the wide form, unusual NaN, wrong size fields, save type not matching the class), "
        "cut or damaged; with left-over files of earlier runs of this or another save, any replies, and in half of the runs faults (I/O errors, bit flips while reading, full disk, kills, interrupts). "
        "Healthy runs must agree with a separate conversion there and back; exit 0 or the success text always requires the resaved file to hold the same payload and type. Non-trivial: a fault fired, the input is not canonical or files were left over; distinct: different log.")

ODD = ["bool2", "wide", "type", "nanbits", "size", "optflag", "neglen"]


def make(seed, tier="quick"):
    r = rng_of("C11", seed)
    x = r.random()
    cfg = "good" if x < 0.35 else "odd" if x < 0.7 else "damaged" if x < 0.85 else "cut"
    doc = gen.gen_doc(r, knobs={"count": 1} if r.random() < 0.7 else {"jumbo": True})
    plan = {"docs": [doc], "cfg": cfg, "odd": r.choice(ODD), "s": r.getrandbits(40), "muts": [{"s": r.getrandbits(40), "m": r.choice(MUTS)}],
            "left": [r.choice(["none", "none", "none", "same", "other", "garbage", "empty"]) for _ in range(2)],
            "replies": [r.choice(["y", "y", "y", "y", "y", "y", "Y", "Y", "n", "^eof", "x", "^intr"]) for _ in range(3)], "src": r.choice(["a.sav", "Level.sav", "名.sav", "noext", "x.json", "sub/a.sav"])}
    spec = env_opts(r, 0.5)
    if r.random() < 0.5:
        spec["want"] = wants(r, ALL + ["flip", "flip", "flip", "linemem"])
    plan["spec"] = spec
    return plan


def odd(doc, kind, r):
    """Bytes of a save that can be read but may not come back the same; (payload, type)."""
    base = M.enc_gvas(doc)
    t = doc["cont"]["type"]
    end = len(bytes.fromhex(doc["trailer"]))
    none = M.fstr("None")
    cut = len(base) - end - len(none)
    if kind == "type":
        return base, 0x31 if t == 0x32 else 0x32
    name = M.fstr("Odd%d" % r.randrange(100))
    if kind == "bool2":
        p = name + M.fstr("BoolProperty") + struct.pack("<Q", 0) + bytes([r.choice([2, 128, 255])]) + b"\0"
    elif kind == "wide":
        w = "plain".encode("utf-16-le") + b"\0\0"
        s = struct.pack("<i", -(len(w) // 2)) + w
        p = name + M.fstr("StrProperty") + struct.pack("<Q", len(s)) + b"\0" + s
    elif kind == "neglen":
        p = name + M.fstr("StrProperty") + struct.pack("<Q", 5) + b"\0" + struct.pack("<i", 1) + b"\0"
    elif kind == "nanbits":
        p = name + M.fstr("FloatProperty") + struct.pack("<Q", 4) + b"\0" + struct.pack("<I", r.choice([0x7FC00001, 0xFFC00000, 0x7F800001]))
    elif kind == "size":
        p = name + M.fstr("IntProperty") + struct.pack("<Q", r.choice([0, 5, 400])) + b"\0" + struct.pack("<i", 7)
    else:
        p = name + M.fstr("IntProperty") + struct.pack("<Q", 4) + bytes([r.choice([2, 255])]) + r.randbytes(16) + struct.pack("<i", 7)
    return base[:cut] + p + base[cut:], t


def truth(content, st):
    """Does a separate conversion there and back reproduce the save?"""
    w = World()
    w.fs.put("/sim/w/t.sav", content)
    p = run_cmd(w, st, "convert", {"argv": ["t.sav"], "stdin": []})
    if p.exit != 0:
        return False
    p = run_cmd(w, st, "convert", {"argv": ["t.sav.json", "-o", "u.sav"], "stdin": []})
    return p.exit == 0 and same(content, w.fs.content("/sim/w/u.sav"))


def same(a, b):
    try:
        return b is not None and M.strict_unwrap(a) == M.strict_unwrap(b)
    except M.Bad:
        return False


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    r = rng_of("c11", plan["s"])
    cfg = plan["cfg"]
    content = M.enc_sav(doc)
    if cfg == "odd":
        p, t = odd(doc, plan["odd"], r)
        content = M.wrap(p, t)
    elif cfg == "damaged":
        for m in plan["muts"]:
            content = mutate(content, m, doc, payload)
    elif cfg == "cut":
        content = M.wrap(payload[: r.randrange(len(payload))], doc["cont"]["type"])
    if undetectable(content, payload) and cfg == "damaged":
        return None
    w = World()
    w.fs.put_dir("/sim/w/sub")
    src = plan["src"]
    a = absn(src)
    w.fs.put(a, content)
    outs = [a + ".resave.json", a + ".resave.sav"]
    prompts = 0
    for o, k in zip(outs, plan["left"]):
        if k == "none":
            continue
        prompts += 1
        js = o.endswith("json")
        if k == "same":
            w.fs.put(o, json_bytes(doc, {}) if js else M.enc_sav(doc))
        elif k == "other":
            d2 = {**doc, "trailer": "0102", "hdr": {**doc["hdr"], "ue4": 9}}
            w.fs.put(o, json_bytes(d2, {}) if js else M.enc_sav(d2))
        else:
            w.fs.put(o, b"{ stale" if k == "garbage" else b"")
    spec = plan["spec"]
    spec["argv"] = [src]
    spec["stdin"] = list(plan["replies"])
    disturbed = bool(spec.get("want") or spec.get("faults"))
    if disturbed or cfg != "good" or prompts:
        st.trivial = False
    try:
        p = run_cmd(w, st, "resave_test", spec)
        if w.fs.content(a) != content:
            return bad("input-changed", "the resave test changed its input")
        ok = same(content, w.fs.content(outs[1]))
        if p.exit == 0 and not ok:
            return bad("false-success", f"{cfg} {plan['odd'] if cfg == 'odd' else ''}: exit 0 but the resaved file does not hold the same payload and type")
        if "are the same" in p.text() and not ok and not w.fired["power_loss"]:
            return bad("false-verdict", f"{cfg}: success reported, but the resaved file does not hold the same payload and type")
        if p.exit == 0 and cfg == "good" and not w.fired["memory_error"]:  # (memory running out may leave records undecoded, see C14)
            why = wrong_json(w.fs.content(outs[0]) or b"", doc, M.Ctx())
            if why:
                return bad("false-success", f"exit 0 but the JSON in between is wrong: {why}")
        hit = [x for x in w.fired if x not in ("chunked_io", "intr_prompt", "stdin_error")]
        if hit:
            st.probes["disturbed:" + ("pass" if p.exit == 0 else "no")] += 1
            return None
        # healthy: the verdict has to agree with a separate conversion
        script, consent = list(plan["replies"]), True
        for _ in range(prompts):
            while script and script[0] == "x":
                script.pop(0)
            if not script or script.pop(0).casefold() != "y":
                consent = False
                break
        if not consent:
            # it may also have failed before it reached the second prompt
            if p.exit == 0:
                return bad("false-success", f"exit 0 without consent, replies {plan['replies']}")
            st.probes["declined"] += 1
            return None
        want = truth(content, st)
        if cfg == "good" and not want:
            return bad("false-failure", "a canonical save does not survive conversion")
        if (p.exit == 0) != want:
            return bad("wrong-verdict", f"{cfg} {plan['odd'] if cfg == 'odd' else ''}: exit {p.exit} {p.exc}, but a separate conversion {'reproduces' if want else 'does not reproduce'} the save")
        st.probes[f"{cfg}{':' + plan['odd'] if cfg == 'odd' else ''}:{'same' if want else 'not'}"] += 1
    finally:
        st.absorb(w)
    return None
