"""C14: every run ends, and interrupts are not swallowed."""

import struct

from ..common import *
from .. import gen

RULE = ("A run is either (a) a hostile or damaged save or JSON document (huge or negative counts and lengths, cuts, self-repeating data, random bytes, overlong reply streams) converted with a cap on executed lines proportional to its size; "
        "(b) a valid conversion or resave test interrupted by Ctrl-C before or after a seeded operation or at a seeded line; (c) the same with an allocation failure at a seeded line. "
        "Non-trivial: the input was changed or the fault fired; distinct: different log.")

HOST = ["count", "count", "count", "strlen", "strlen", "cut", "flip", "random", "blob", "blob", "mapcount", "deep", "json_deep", "json_strange", "repeat", "customver", "zlibbomb"]
BIG = [0x7FFFFFFF, 0xFFFFFFFF, 0x80000000, 0x10000000, 0x01000000, 0x7FFFFFFE, 0xFFFFFF00, 0x80000001, 1000000, 65536]


def make(seed, tier="quick"):
    r = rng_of("C14", seed)
    x = r.random()
    cfg = "hostile" if x < 0.45 else "prompt" if x < 0.52 else "intr" if x < 0.8 else "mem"
    doc = gen.gen_doc(r, limit=150000, knobs={"count": 1 if r.random() < 0.7 else 2}, world=r.random() < 0.85)
    cmd = "convert" if r.random() < 0.8 or cfg == "hostile" else "resave_test"
    plan = {"docs": [doc], "cfg": cfg, "cmd": cmd, "to_json": r.random() < (0.85 if cfg == "hostile" else 0.5), "host": r.choice(HOST), "s": r.getrandbits(40), "sections": pick_sections(r, 0.2),
            "prev": r.random() < 0.3, "spec": {"seed": r.getrandbits(20)}, "replies": []}
    if cfg == "prompt":
        plan["prev"] = True
        plan["replies"] = [r.choice(["", "x", "yes", "no", "\x00", "yy"])] * r.choice([10, 500, 3000]) + r.choice([["^eof"], ["^eof"], ["n"], ["y"], ["^intr"], ["^err"]])
    elif cfg == "intr":
        plan["spec"]["want"] = [{"cat": r.choice(["intr", "lineintr", "lineintr", "lineintr"]), "s": r.getrandbits(40)}]
    elif cfg == "mem":
        plan["spec"]["want"] = [{"cat": "linemem", "s": r.getrandbits(40)} for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return plan


def hostile(plan):
    """A hostile payload (or JSON text)."""
    doc = plan["docs"][0]
    r = rng_of("host", plan["s"])
    k = plan["host"]
    base = bytearray(M.enc_gvas(doc))
    if k in ("count", "strlen", "mapcount"):
        # 4-byte fields that look like small counts or lengths
        c = [i for i in range(16, len(base) - 4) if base[i + 1 : i + 4] == b"\0\0\0" and base[i] < 64]
        for _ in range(r.choice([1, 1, 2])):
            if c:
                i = r.choice(c)
                base[i : i + 4] = struct.pack("<I", r.choice(BIG))
    elif k == "cut":
        del base[r.randrange(len(base)) :]
    elif k == "flip":
        for _ in range(r.choice([1, 2, 5])):
            base[r.randrange(len(base))] = r.getrandbits(8)
    elif k == "random":
        n = len(M.enc_gvas({**doc, "props": [], "trailer": ""})) - 9
        base[n:] = r.choice([r.randbytes(r.randint(0, 3000)), bytes(r.randint(0, 3000)), b"\xff" * 1000, b"\x01\0\0\0\0" * 300, (M.fstr("A") + M.fstr("ArrayProperty")) * 50])
    elif k == "blob":
        # huge counts inside embedded records
        from .c07 import blobs

        d = copy.deepcopy(doc)
        bs = blobs(d)
        if bs:
            kinds = sorted({b["blob"]["kind"] for b in bs})
            kk = r.choice(kinds)
            b = r.choice([x for x in bs if x["blob"]["kind"] == kk])["blob"]
            raw = bytearray(M.enc_blob(b)) or bytearray(r.randbytes(8))
            for _ in range(r.choice([1, 1, 3])):
                i = r.randrange(len(raw))
                v = struct.pack("<I", r.choice(BIG)) if r.random() < 0.7 else r.randbytes(4)
                raw[i : i + 4] = v
            b["hex"] = bytes(raw).hex()
            b.pop("cut", None)
            b.pop("tail", None)
            base = bytearray(M.enc_gvas(d))
    elif k == "deep":
        head = M.enc_gvas({**doc, "props": [], "trailer": ""})[:-9]
        one = M.fstr("N") + M.fstr("StructProperty") + struct.pack("<Q", 100) + M.fstr("S") + bytes(16) + b"\0"
        base = bytearray(head + one * r.choice([10, 200, 2000]))
    elif k == "repeat":
        n = r.randrange(len(base))
        base[n:n] = base[max(0, n - 200) : n] * r.choice([2, 20])
    elif k == "customver":
        i = 26 + len(M.fstr(doc["hdr"]["branch"])) + 4
        base[i : i + 4] = struct.pack("<I", r.choice(BIG))
    elif k == "zlibbomb":
        n = len(base) - len(bytes.fromhex(doc["trailer"]))
        base[n:] = bytes(r.choice([100000, 400000]))
    return bytes(base)


def hostile_json(plan):
    doc = plan["docs"][0]
    r = rng_of("host", plan["s"])
    t = json_bytes(doc, {})
    k = plan["host"]
    if k == "json_deep":
        n = r.choice([100, 5000, 200000])
        return b"[" * n + b"]" * n if r.random() < 0.5 else t[:-1] + b',"x":' + b"[" * n + b"]" * n + b"}"
    if k == "cut":
        return t[: r.randrange(len(t))]
    v = json.loads(t)

    def walk(x, depth=0):
        if isinstance(x, dict):
            for q in list(x):
                if r.random() < 0.05:
                    x[q] = r.choice([None, [], {}, "", -1, 1e308, "x" * 1000, [None] * 50, True, 2**70])
                elif r.random() < 0.03:
                    del x[q]
                else:
                    walk(x[q], depth + 1)
        elif isinstance(x, list):
            for y in x:
                walk(y, depth + 1)

    walk(v)
    return json.dumps(v).encode()


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    cfg, cmd = plan["cfg"], plan["cmd"]
    to_json = plan["to_json"] or cmd == "resave_test"
    r = rng_of("c14", plan["s"])
    w = World()
    w.fs.put_dir("/sim/w")
    src = "a.sav" if to_json else "a.sav.json"
    content = M.enc_sav(doc) if to_json else json_bytes(doc, {})
    size = len(payload)
    if cfg == "hostile":
        if to_json:
            h = hostile(plan)
            size = len(h)
            content = M.wrap(h, M.save_type_for(doc["hdr"]["cls"]))
            st.trivial = h == payload
        else:
            content = hostile_json(plan)
            size = len(content)
            st.trivial = False
        st.fired["hostile_" + plan["host"]] += 1
    w.fs.put(absn(src), content)
    outs = [absn("a.sav.resave.json"), absn("a.sav.resave.sav")] if cmd == "resave_test" else [absn(default_output(src, to_json))]
    if plan["prev"]:
        for o in outs:
            w.fs.put(o, b"older")
    spec = plan["spec"]
    spec["argv"] = [src] if cmd == "resave_test" else argv(r, section_arg(r, plan["sections"]) if to_json else [], src)
    spec["stdin"] = list(plan["replies"]) or ["y"] * 3
    if cmd == "resave_test" and plan["replies"]:
        spec["stdin"].append("y")  # for its second prompt
    # the slowest real inputs need about 3 lines per byte
    spec["line_cap"] = 60000 + 250 * size
    spec["op_cap"] = 5000 + 40 * len(plan["replies"]) + size
    if cfg == "hostile" or cfg == "prompt":
        spec["variant"] = "line"
    try:
        p = run_cmd(w, st, cmd, spec)
        if p.exit == "hang":
            return bad("no-end", f"{cfg} {plan['host'] if cfg == 'hostile' else ''} (size {size}): {p.exc[1]}")
        n = w.tasks[-1].nlines
        if cfg == "hostile":
            st.probes["lines_per_byte_x10<=%d" % (10 * (int(n / max(1, size)) + 1))] += 1
        if cfg == "prompt":
            end = plan["replies"][-1]
            if (p.exit == 0) != (end == "y"):
                return bad("prompt", f"replies ending in {end}: exit {p.exit} {p.exc}")
        if cfg == "intr":
            hit = w.fired["intr_op"] + w.fired["intr_line"]
            if hit:
                st.trivial = False
                st.probes["interrupted"] += 1
                if p.exit == 0:
                    return bad("swallowed", f"{spec['argv']} interrupted at {spec['faults']}, yet exit 0")
            elif p.exit != 0:
                return bad("failed", f"not interrupted, exit {p.exit} {p.exc}")
        if cfg == "mem" and w.fired["memory_error"]:
            st.trivial = False
            st.probes["mem:" + ("absorbed" if p.exit == 0 else "reported")] += 1
            if p.exit == 0:
                why = absorbed(plan, w, st, outs, payload, doc, cmd, to_json)
                if why:
                    return bad("swallowed", f"out of memory at {spec['faults']}, yet exit 0: {why}")
    finally:
        st.absorb(w)
    return None


def absorbed(plan, w, st, outs, payload, doc, cmd, to_json):
    """After an absorbed allocation failure the product must still hold the same save."""
    if cmd == "resave_test":
        return wrong_sav(w.fs.content(outs[1]) or b"", payload)
    b = w.fs.content(outs[0])
    if b is None:
        return "no output"
    if not to_json:
        return wrong_sav(b, payload)
    q = run_cmd(w, st, "convert", {"argv": ["a.sav.json", "-o", "back.sav"], "stdin": []})
    if q.exit != 0:
        return f"the JSON does not convert back: {q.exc}"
    return wrong_sav(w.fs.content("/sim/w/back.sav"), payload)


def shrink(plan):
    yield from shrink_plan(plan)
    for k, v in (("sections", None), ("prev", False)):
        if plan[k] != v:
            yield {**plan, k: v}
