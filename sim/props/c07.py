"""C07: data cut short, left over or unknown is refused or carried verbatim."""

from ..common import *
from .. import gen

RULE = ("A run takes a generated save and cuts the stream (or one embedded record) at a byte, appends left-over bytes, or swaps in unknown record kinds, inside an intact container, "
        "and reads it with a random selection of sections: 20 variants through the library, or one through the two CLI conversions (also with an early end of file while reading). "
        "The read must fail or the document must convert back to the same bytes. Non-trivial: the data was changed; distinct: different log of outcomes.")


def make(seed, tier="quick"):
    r = rng_of("C07", seed)
    doc = gen.gen_doc(r, limit=200000, knobs={"count": r.choice([1, 1, 2])}, world=r.random() < 0.9)
    mode = "lib" if r.random() < 0.75 else "cli"
    n = 20 if mode == "lib" else 1
    return {"docs": [doc], "mode": mode, "muts": [one(r) for _ in range(n)], "spec": env_opts(r, 0.7), "ord": r.getrandbits(30)}


def one(r):
    return {"s": r.getrandbits(40), "m": r.choice(["cut", "cut", "tail", "blobcut", "blobcut", "blobcut", "blobcut", "blobtail", "blobtail", "blobtail", "blobzero", "kind", "kind", "ptype", "trailer", "static", "static", "string"]),
            "sections": pick_sections(r, 0.25), "via": r.choice(["json", "json", "direct"])}


def blobs(doc):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "blob" in x and isinstance(x["blob"], dict):
                out.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(doc["props"])
    return out


UNKNOWN = {
    "group": ["EPalGroupType::Undefined", "EPalGroupType::Neutral2", ""],
}


def variant(doc, m):
    """(payload of the changed document, was it changed)"""
    r = rng_of("c07", m["s"])
    k = m["m"]
    base = M.enc_gvas(doc)
    if k == "asis":
        return base
    if k == "cut":
        return base[: r.choice([r.randrange(len(base)), r.randrange(len(base)), len(base) - 1 - r.randrange(min(40, len(base)))])]
    if k == "tail":
        return base + r.choice([b"\0", r.randbytes(r.randint(1, 30)), bytes(r.randint(1, 20)), b"\x05\0\0\0None\0"])
    d = copy.deepcopy(doc)
    if k == "trailer":
        d["trailer"] = r.randbytes(r.randint(0, 40)).hex()
        return M.enc_gvas(d)
    bs = blobs(d)
    if k.startswith("blob"):
        if not bs:
            return base[: len(base) // 2]
        # spread over kinds of records, not over their number
        kinds = sorted({b["blob"]["kind"] for b in bs})
        kk = r.choice(kinds)
        b = r.choice([x for x in bs if x["blob"]["kind"] == kk])["blob"]
        raw = M.enc_blob(b)
        if k == "blobcut":
            if not raw:
                raw = r.randbytes(3)
            n = len(raw)
            raw = raw[: r.choice([r.randrange(n), r.randrange(n), max(0, n - 1), max(0, n - 4), n // 2])]
        elif k == "blobtail":
            raw = raw + r.choice([b"\0", b"\1", bytes(4), bytes(r.randint(1, 20)), r.randbytes(r.randint(1, 40)), raw[:16]])
        else:
            raw = bytes(r.randint(1, 60))
            if not carries_zeros(b["kind"]):
                raw = M.enc_blob(b) + raw
        b["hex"] = raw.hex()
        b.pop("cut", None)
        b.pop("tail", None)
        return M.enc_gvas(d)
    if k == "kind":
        return unknown_kind(d, r)
    if k == "string":
        return unterminated(d, r, base)
    if k == "static":
        static_array(d, r)
        return M.enc_gvas(d)
    # an unknown property type
    p = r.choice(["ByteProperty", "SetProperty", "DoubleProperty", "TextProperty", "UInt32Property", "ObjectProperty", "", "Ünknown"])
    head = M.enc_gvas({**d, "props": [], "trailer": ""})
    head = head[: -len(M.fstr("None"))]
    import struct

    return head + M.fstr("New") + M.fstr(p) + struct.pack("<Q", 4) + b"\0" + r.randbytes(r.choice([4, 4, 20])) + M.fstr("None") + bytes(4)


def unterminated(d, r, base):
    """The last character of a string overwritten: its terminator is gone."""
    found = []

    def walk(x):
        if isinstance(x, str) and len(x) > 2 and min(x) > " ":  # (shorter ones look like numbers)
            e = M.fstr(x)
            i = base.find(e)
            if i >= 0:
                found.append((i + len(e), x))
        elif isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(d)
    if not found:
        return base[:-1]
    end, x = r.choice(found)
    b = r.choice([b"c", b"A", b" ", b"\1"]) if x.isascii() else r.choice([b"a\0", b"\x16\x4e", b"\0\1", b"\1\0"])
    return base[: end - len(b)] + b + base[end:]


def static_array(d, r):
    """Make a property one or several elements of a static array: the name is repeated, and elements carry an index."""
    lists = []

    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if x and all(isinstance(p, dict) and "n" in p and "t" in p for p in x):
                lists.append(x)
            for v in x:
                walk(v)

    walk(d["props"])
    if not lists:
        d["props"].append({"n": "A", "t": "Int", "id": None, "v": 1})
        lists = [d["props"]]
    odd = [p for ps in lists for p in ps if p["t"] == "Map" or p["t"] == "Array" and p["at"] == "StructProperty" and "blob" not in p]
    if odd and r.random() < 0.4:
        # keys that a map removes from its default; an array whose inner property has an identifier of its own
        p = r.choice(odd)
        if p["t"] == "Array":
            p["agid"] = r.choice([M.ZERO, r.randbytes(16).hex()])
        elif p["v"]:
            p["rem"] = [copy.deepcopy(k) for k, _ in p["v"][: r.choice([1, 1, 2])]]
            if r.random() < 0.5:
                p["v"] = []
        elif p["kt"] != "StructProperty":
            p["rem"] = [{"IntProperty": 0, "BoolProperty": False}.get(p["kt"], "")]
        else:
            p["ix"] = 1
        return
    ps = r.choice(lists)
    i = r.randrange(len(ps))
    p = ps[i]
    what = r.choice(["repeat", "repeat", "array", "index", "apart"])
    if what == "index":
        p["ix"] = r.choice([1, 1, 2, 255, 65536, 2**31, 2**32 - 1])
    elif what == "array":
        more = [copy.deepcopy(p) for _ in range(r.choice([1, 1, 3]))]
        for j, q in enumerate(more):
            q["ix"] = j + 1
        ps[i + 1 : i + 1] = more
    else:
        q = copy.deepcopy(p)
        if q["t"] in ("Int", "Int64", "FixedPoint64") and r.random() < 0.7:
            q["v"] = (q["v"] + 1) % 100
        ps.insert(i + 1 if what == "repeat" else r.choice([0, len(ps)]), q)


def carries_zeros(kind):
    return False


def unknown_kind(d, r):
    """Records of kinds the tool does not know, with arbitrary content."""

    def walk(x, f):
        if isinstance(x, dict):
            f(x)
            for v in list(x.values()):
                walk(v, f)
        elif isinstance(x, list):
            for v in x:
                walk(v, f)

    raw = lambda: r.randbytes(r.choice([0, 1, 8, 32, 33, r.randint(0, 90)])).hex()
    what = r.choice(["camp", "work", "concrete", "module", "group"])

    def f(x):
        if x.get("t") == "Map" and x.get("n") == "ModuleMap" and what in ("camp", "module"):
            for it in x["v"]:
                if r.random() < 0.7:
                    it[0] = r.choice(["EPalBaseCampModuleType::Brand", "X", "", "EPalMapObjectConcreteModelModuleType::Novel", "漢"])
                    for p in it[1]:
                        if p.get("n") == "RawData":
                            p["blob"]["hex"] = raw()
                            p["blob"].pop("empty", None)
        if isinstance(x.get("v"), list) and x.get("n") == "WorkSaveData" and what == "work":
            for it in x["v"]:
                for p in it:
                    if p.get("n") == "WorkableType":
                        p["v"] = r.choice(["EPalWorkableType::Novel", "", "X", "EPalWorkableType::Illegal"])
                    if p.get("n") == "RawData":
                        p["blob"]["hex"] = raw()
                        p["blob"].pop("empty", None)
        if isinstance(x.get("v"), list) and x.get("n") == "MapObjectSaveData" and what == "concrete":
            for it in x["v"]:
                for p in it:
                    if p.get("n") == "MapObjectId":
                        p["v"] = r.choice(["NovelObject", "", "漢字", "Trap_LegHold"])
                    if p.get("n") == "ConcreteModel":
                        for q in p["v"]:
                            if q.get("n") == "RawData":
                                q["blob"]["hex"] = raw()
                                q["blob"].pop("empty", None)
        if isinstance(x.get("v"), list) and x.get("n") == "GroupSaveDataMap" and what == "group":
            for it in x["v"]:
                for p in it[1]:
                    if p.get("n") == "GroupType":
                        p["v"] = r.choice(["EPalGroupType::Novel", "", "X"])
                    if p.get("n") == "RawData":
                        if r.random() < 0.5:
                            p["blob"]["hex"] = raw()

    walk(d["props"], f)
    return M.enc_gvas(d)


def run(plan, st):
    doc = plan["docs"][0]
    base = M.enc_gvas(doc)
    w = World()
    w.fs.put_dir("/sim/w")
    spec = plan["spec"]
    try:
        data = []
        for m in plan["muts"]:
            p = variant(doc, m)
            data.append(p)
            if p != base:
                st.trivial = False
                st.fired["content_" + m["m"]] += 1
        if plan["mode"] == "lib":
            res = []
            for i, p in enumerate(data):
                w.fs.put(f"/sim/w/{i}.sav", M.wrap(p, 0x31, level=1))

            def go(task):
                L = Lib()
                for i, m in enumerate(plan["muts"]):
                    with open(f"{i}.sav", "rb") as f:
                        raw, _ = L.pal.decompress_sav_to_gvas(f.read())
                    o = Outcome(L.read, raw, m["sections"])
                    if o.ok:
                        g = o.value
                        if m["via"] == "json":
                            j = Outcome(L.json, g)
                            o = Outcome(lambda: L.write(L.load(json.loads(j.value)))) if j.ok else j
                        else:
                            o = Outcome(L.write, g)
                        res.append((i, True, o))
                    else:
                        res.append((i, False, o))

            spec["line_cap"] = 200_000_000
            t = run_lib(w, st, spec, go)
            for i, was_read, o in res:
                m = plan["muts"][i]
                st.note(i, was_read, o.ok, o.exc)
                if not was_read:
                    st.probes["refused:" + m["m"]] += 1
                elif not o.ok:
                    return bad("unwritable", f"{m}: read without an error but cannot be written back: {o}")
                elif o.value != data[i]:
                    a, b = o.value, data[i]
                    if only_nan_bits(a, b):
                        if plan.get("probe"):
                            return bad("nan-bits", "a NaN came back with other bits")
                        st.probes["nan_bits"] += 1
                        continue
                    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    return bad("not-verbatim", f"{m}: read without an error and written back differently at byte {k} (length {len(a)} instead of {len(b)})")
                else:
                    st.probes["carried:" + m["m"]] += 1
            if len(res) != len(data):
                return bad("no-end", f"did not finish: {t.proc.exc}")
            return None
        m = plan["muts"][0]
        r = rng_of(plan["ord"])
        w.fs.put("/sim/w/x.sav", M.wrap(data[0], M.save_type_for(doc["hdr"]["cls"])))
        spec["argv"] = argv(r, section_arg(r, m["sections"]), "x.sav")
        spec["stdin"] = []
        p = run_cmd(w, st, "convert", spec)
        if p.exit != 0:
            st.probes["refused:" + m["m"]] += 1
            if w.fs.content("/sim/w/x.sav.json") is not None:
                return bad("output-on-failure", f"{m}: exit {p.exit} but a JSON file was written")
            return None
        q = run_cmd(w, st, "convert", {"argv": ["x.sav.json", "-o", "y.sav"], "stdin": []})
        if q.exit != 0:
            return bad("unwritable", f"{m}: JSON was produced but does not convert back: {q.exc}")
        why = wrong_sav(w.fs.content("/sim/w/y.sav"), data[0])
        if why:
            try:
                known = only_nan_bits(M.strict_unwrap(w.fs.content("/sim/w/y.sav"))[0], data[0])
            except M.Bad:
                known = False
            if not known:
                return bad("not-verbatim", f"{m}: {why}")
            st.probes["nan_bits"] += 1
        st.probes["carried:" + m["m"]] += 1
    finally:
        st.absorb(w)
    return None


# The known finding of C01 shows here too: four left-over bytes of an item record that are taken for a NaN.
def known():
    i = 0
    while True:
        doc = gen.gen_doc(rng_of("C07", "known", i), knobs={"count": 1, "width": 1}, sections=["DynamicItem"], world=True)
        bs = [b for b in blobs(doc) if b["blob"]["kind"] == "dynamic_item"]
        if bs:
            break
        i += 1
    bs[0]["blob"] = {"kind": "dynamic_item", "it": "unknown", "id": [M.ZERO, M.ZERO, "Hat"], "v": "3412c0ff"}
    plan = {"docs": [doc], "mode": "lib", "muts": [{"s": 1, "m": "asis", "sections": None, "via": "json"}], "spec": {}, "ord": 1, "probe": True}
    return [("nan-payload", "", plan, "nan-bits")]
