"""C03: exit status 0 exactly for a complete and correct conversion."""

from ..common import *
from .. import gen

RULE = ("A run is one command line over a generated tree: valid conversions on a healthy system (must succeed and equal the reference model), unusable command lines "
        "or inputs (must fail and write nothing), and valid conversions under I/O faults (exit 0 only with a complete and correct output). "
        "Non-trivial: any run of the tool whose exit status and output were decided by the model; distinct: different operation log, exit and output.")

BADARGS = ["missing", "dir", "both", "noext", "outdir_missing", "out_is_dir", "noargs", "unknown_opt", "two", "empty_name", "out_no_value"]
BADFILES = ["empty", "not_gvas", "gvas_magic", "gvas_version", "cv_format", "json_as_sav", "sav_as_json", "json_cut", "json_utf8", "json_list", "json_nohdr",
            "json_noprops", "json_notrailer", "raw_payload", "json_badcustom", "json_badtype", "json_badguid", "json_nul", "zeros", "json_missing_value", "json_overflow",
            "json_badtrailer", "json_wrongtype", "json_wrongtype", "json_damaged", "json_damaged"]


def make(seed, tier="quick"):
    r = rng_of("C03", seed)
    x = r.random()
    cfg = "clean" if x < 0.45 else "faulty" if x < 0.75 else "badarg" if x < 0.85 else "badfile"
    to_json = r.random() < 0.5
    f = {"doc": 0, "as": "json"}
    knobs = {}
    if not to_json:
        f["sections"] = pick_sections(r)
        f["raw"] = r.random() < 0.4
        if f["raw"]:
            knobs["surrogates"] = False
        f["indent"] = r.choice([None, None, 1, "\t", 4])
        f["sep"] = r.choice([None, [",", ":"], [" , ", " : "]])
        f["shuffle"] = r.getrandbits(20) if r.random() < 0.3 else None
        f["ints"] = r.random() < 0.2
        f["nan"] = r.random() < 0.15
        if f["nan"]:
            knobs["inf"] = False
        knobs["jsonarr"] = r.random() < 0.4
        f["legacy"] = r.random() < 0.25
        f["rawrec"] = r.getrandbits(20) if r.random() < 0.25 else None
        f["noid"] = r.random() < 0.15
        f["upper"] = r.random() < 0.15
    knobs["jumbo"] = True
    doc = gen.gen_doc(r, knobs=knobs, sections=["Work"] if f.get("legacy") and r.random() < 0.7 else None, world=True if f.get("legacy") else None)
    if f.get("raw") and has_surrogate(M.view_gvas(doc)):
        f["raw"] = False
    plan = {"docs": [doc], "cfg": cfg, "to_json": to_json, "file": f, "sections": pick_sections(r) if to_json else None,
            "nan": to_json and r.random() < 0.25, "minify": r.random() < 0.4, "consent": r.choice(["-f", "y", "fresh", "fresh"]), "ord": r.getrandbits(30), "ro": r.random() < 0.15}
    ext = r.random()
    if to_json:
        plan["src"] = sav_name(r) if ext < 0.7 else r.choice(["save", "x.sav.bak", "data.json", "Level.SAV", "a.txt"])
    else:
        plan["src"] = json_name(r) if ext < 0.7 else r.choice(["doc", "x.json.txt", "data.sav", "D.JSON", "a.txt"])
    plan["dirn"] = r.choice(["", "", "sub/", "/sim/other/", "./", "../w/", "sub/../"])
    if plan["src"].startswith("-") and plan["dirn"]:
        pass
    plan["flag"] = ext >= 0.7 or r.random() < 0.2
    plan["out"] = None if r.random() < 0.5 else r.choice(["out", "/sim/other/o.dat", "sub/o.x", "o.json", "o.sav", "sp ace", "./o", "ö.json"])
    spec = env_opts(r)
    if cfg == "faulty":
        spec["want"] = wants(r, ["err", "err", "err", "sticky", "full", "short", "eof"])
    plan["bad"] = r.choice(BADARGS) if cfg == "badarg" else r.choice(BADFILES) if cfg == "badfile" else None
    plan["spec"] = spec
    return plan


def prop_nodes(x, out):
    """Every property (a dictionary that names its kind) in a document, in its order."""
    if isinstance(x, dict):
        if isinstance(x.get("type"), str) and x["type"].endswith("Property") and "value" in x:
            out.append(x)
        for y in x.values():
            prop_nodes(y, out)
    elif isinstance(x, list):
        for y in x:
            prop_nodes(y, out)


def deep_set(v, r, what):
    """Damage the meaning of a JSON document while keeping it JSON."""
    if what == "json_nohdr":
        del v["header"]
    elif what == "json_noprops":
        del v["properties"]
    elif what == "json_notrailer":
        del v["trailer"]
    elif what == "json_badcustom":
        v["properties"]["Zz"] = {"id": None, "value": 1, "type": "IntProperty", "custom_type": ".no.such.Type"}
    elif what == "json_badtype":
        v["properties"]["Zz"] = {"id": None, "value": 1, "type": "QuantumProperty"}
    elif what == "json_badguid":
        v["properties"]["Zz"] = {"struct_type": "Guid", "struct_id": "00000000-0000-0000-0000-000000000000", "id": None, "value": "not-a-guid", "type": "StructProperty"}
    elif what == "json_missing_value":
        v["properties"]["Zz"] = {"id": None, "type": "IntProperty"}
    elif what == "json_overflow":
        v["properties"]["Zz"] = {"id": None, "value": 2**40, "type": "IntProperty"}
    elif what == "json_badtrailer":
        # (characters outside the alphabet are skipped by lenient decoders: not judged here)
        v["trailer"] = (v["trailer"] or "AAAA").rstrip("=")[:-1] + r.choice(["", "="])
        while len(v["trailer"].rstrip("=")) % 4 == 0 or len(v["trailer"]) % 4 == 0:
            v["trailer"] = v["trailer"].rstrip("=") + "A"
    elif what == "json_damaged":
        # one property somewhere in the document without something it needs, or of an unknown kind
        nodes = []
        prop_nodes(v["properties"], nodes)
        nodes = [n for n in nodes if "custom_type" not in n]
        r.shuffle(nodes)
        for n in nodes:
            ways = [k for k in ("type", "value", "struct_type", "struct_id", "array_type", "key_type", "value_type") if k in n]
            ways = ["-" + k for k in ways] + ["+type"]
            if n["type"] == "MapProperty" and n["value"]:
                ways += ["+key_type", "+value_type", "-entry"]
            if n["type"] == "ArrayProperty" and n["value"].get("values") and n["array_type"] != "StructProperty":
                ways += ["+array_type"]
            way = r.choice(ways)
            if way == "-entry":
                del r.choice(n["value"])[r.choice(["key", "value"])]
            elif way[0] == "-":
                del n[way[1:]]
            else:
                n[way[1:]] = r.choice(["QuantumProperty", "Property", "", "intproperty", "IntProperty\0", "TextProperty"])
            break
        else:
            v["properties"]["Zz"] = {"id": None, "value": 1}
    elif what == "json_wrongtype":
        h = v["header"]
        x = r.random()
        if x < 0.3:
            k = r.choice(sorted(h))
            h[k] = r.choice(["1", 2**70, 1.5, None, [1], {"a": 1}]) if isinstance(h[k], int) else r.choice([5, None, [["x"]], {"a": 1}, True])
        else:
            g = "00000000-0000-0000-0000-000000000001"
            v["properties"]["Zz"] = r.choice([
                {"id": None, "value": r.choice(["5", 1.5, None, [5], 2**31, -(2**31) - 1]), "type": "IntProperty"},
                {"id": None, "value": r.choice(["5", 1.5, None, 2**63]), "type": "Int64Property"},
                {"id": None, "value": r.choice(["5", [1.0], {}]), "type": "FloatProperty"},
                {"id": None, "value": r.choice([5, None, ["x"], True]), "type": "StrProperty"},
                {"id": None, "value": r.choice([5, None, ["x"]]), "type": "NameProperty"},
                {"id": r.choice(["xyz", 5, g + "0"]), "value": 1, "type": "IntProperty"},
                {"id": None, "value": {"type": "E", "value": r.choice([5, None])}, "type": "EnumProperty"},
                {"id": None, "array_type": "ByteProperty", "value": {"values": r.choice([[1, 256], [-1], ["a"], [1.5], [None]])}, "type": "ArrayProperty"},
                {"id": None, "array_type": "NameProperty", "value": {"values": [r.choice([5, None])]}, "type": "ArrayProperty"},
                {"id": None, "array_type": "Guid", "value": {"values": [r.choice(["", "0", g[:-1]])]}, "type": "ArrayProperty"},
                {"id": None, "struct_type": "Vector", "struct_id": g, "value": r.choice([{"x": 1, "y": 2}, {"x": "1", "y": 2, "z": 3}, []]), "type": "StructProperty"},
                {"id": None, "struct_type": "DateTime", "struct_id": g, "value": r.choice([-1, 2**64, "x", 0.5]), "type": "StructProperty"},
                {"id": None, "struct_type": "Guid", "struct_id": r.choice([None, "zz"]), "value": g, "type": "StructProperty"},
                {"id": None, "key_type": "IntProperty", "value_type": "BoolProperty", "key_struct_type": None, "value_struct_type": None, "value": [{"key": r.choice(["1", None, 2**31]), "value": True}], "type": "MapProperty"},
            ])
    return v


def run(plan, st):
    doc = plan["docs"][0]
    cfg, to_json = plan["cfg"], plan["to_json"]
    r = rng_of(plan["ord"])
    w = World()
    for d in ("/sim/w/sub", "/sim/other"):
        w.fs.put_dir(d)
    src = plan["dirn"] + plan["src"]
    payload = M.enc_gvas(doc)
    content = M.enc_sav(doc) if to_json else json_bytes(doc, plan["file"])
    bd = plan["bad"]
    flag = plan["flag"]
    if cfg == "badfile":
        content, to_json, src, flag = bad_content(bd, doc, payload, r, plan)
    args = []
    if to_json:
        args += section_arg(r, plan["sections"])
        if plan["nan"]:
            args.append(["--convert-nan-to-null"])
    if plan["minify"]:
        args.append(["--minify-json"])
    ends = src.endswith(".sav") if to_json else src.endswith(".json")
    if flag or not ends:
        args.append(["--to-json" if to_json else "--from-json"])
    out = plan["out"] or default_output(src, to_json)
    if absn(out) == absn(src):
        out = plan["out"] = "out"
    if plan["out"]:
        args.append(out_arg(r, plan["out"]))
    w.fs.put(w.fs.resolve(absn(src)), content, 0o444 if plan.get("ro") else 0o644)
    outp = absn(out)
    OLD = b"previous"
    stdin = []
    if plan["consent"] != "fresh":
        w.fs.put(w.fs.resolve(outp), OLD)
        if plan["consent"] == "-f":
            args.append(force_arg(r))
        else:
            stdin = ["y"]
    av = argv(r, args, src)
    if cfg == "badarg":
        av, outp = bad_args(bd, w, r, args, src, outp, to_json, plan)
    spec = plan["spec"]
    spec["stdin"] = stdin
    spec["argv"] = av
    before = w.fs.snapshot()
    st.trivial = False
    try:
        p = run_cmd(w, st, "convert", spec)
        b = w.fs.content(outp) if outp else None
        if cfg in ("badarg", "badfile"):
            st.probes[cfg + ":" + bd] += 1
            if p.exit == 0:
                return bad("false-success", f"{bd}: {av} exited 0")
            if p.exit in (-9, "hang"):
                return bad("no-end", f"{bd}: {av} {p.exit}")
            diff = {k for k in set(before) | set(w.fs.snapshot()) if before.get(k) != w.fs.snapshot().get(k)}
            if diff:
                return bad("wrote-on-failure", f"{bd}: {av} exit {p.exit} changed {sorted(diff)}")
            return None
        if p.exit == 0:
            if b is None:
                return bad("no-output", f"{av} exited 0 without writing {out}")
            ctx = M.Ctx(None if plan["sections"] is None else set(plan["sections"]), plan["nan"])
            why = wrong_json(b, doc, ctx, plan["minify"] or None) if to_json else wrong_sav(b, payload, M.save_type_for(doc["hdr"]["cls"]))
            if why:
                return bad("wrong-output", f"{av} exited 0: {why}")
            st.probes["json_view_checked" if to_json else "sav_content_checked"] += 1
        elif cfg == "clean":
            return bad("false-failure", f"{av} exit {p.exit} {p.exc} {p.text()[-200:]!r}")
    finally:
        st.absorb(w)
    return None


def bad_args(bd, w, r, args, src, outp, to_json, plan):
    dflt = lambda: absn(default_output(src, to_json))
    if bd == "missing":
        return argv(r, args, "nowhere/" + plan["src"] if r.random() < 0.3 else "no-" + plan["src"].lstrip("-")), None
    if bd == "dir":
        w.fs.put_dir("/sim/w/folder.sav" if to_json else "/sim/w/folder.json")
        return argv(r, [a for a in args], "folder.sav" if to_json else "folder.json"), None
    if bd == "both":
        args = [a for a in args if a[0] not in ("--to-json", "--from-json")] + [["--to-json"], ["--from-json"]]
        r.shuffle(args)
        return argv(r, args, src), outp
    if bd == "noext":
        n = r.choice(["plain", "x.txt", "save.sav.gz", "json", "sav", "Level.sav.", "a.jsonl"])
        w.fs.put("/sim/w/" + n, w.fs.content(absn(src)))
        return argv(r, [a for a in args if a[0] not in ("--to-json", "--from-json")], n), None
    args = [a for a in args if not a[0].startswith(("-o", "--output"))]
    if bd == "outdir_missing":
        return argv(r, args + [["-o", "no/such/dir/out"]], src), None
    if bd == "out_is_dir":
        w.fs.put_dir("/sim/w/adir")
        return argv(r, args + [["-o", "adir"]] + [["-f"]], src), None
    if bd == "noargs":
        return [], None
    if bd == "unknown_opt":
        return argv(r, args + [["--no-such-option"]], src), None
    if bd == "two":
        return [x for a in args for x in a] + ["--", src, "second"], None
    if bd == "empty_name":
        return argv(r, args, ""), None
    if bd == "out_no_value":
        return ["x.sav", "-o"], None
    raise HarnessError(bd)


def bad_content(bd, doc, payload, r, plan):
    t = doc["cont"]["type"]
    sav = lambda p: M.wrap(p, t)
    J = bd.startswith("json") and bd != "json_as_sav" or bd == "sav_as_json"
    src = "b.json" if J else "b.sav"
    flag = False
    if bd == "empty":
        c = b""
        if r.random() < 0.5:
            src, J = "b.json", True
    elif bd == "zeros":
        c = bytes(r.randint(1, 400))
        if r.random() < 0.3:
            src, J = "b.json", True
    elif bd == "not_gvas":
        c = sav(r.randbytes(r.randint(0, 200)))
    elif bd == "gvas_magic":
        c = sav(b"GVAT" + payload[4:])
    elif bd == "gvas_version":
        c = sav(payload[:4] + r.choice([b"\2\0\0\0", b"\4\0\0\0", b"\0\0\0\0", b"\3\1\0\0"]) + payload[8:])
    elif bd == "cv_format":
        d = doc["hdr"]
        i = 26 + len(M.fstr(d["branch"]))
        if payload[i : i + 4] != b"\3\0\0\0":
            raise HarnessError("offset of the custom version format")
        c = sav(payload[:i] + b"\2\0\0\0" + payload[i + 4 :])
    elif bd == "json_as_sav":
        c = json_bytes(doc, {})
    elif bd == "sav_as_json":
        c = M.enc_sav(doc)
    elif bd == "raw_payload":
        c = payload
    elif bd == "json_cut":
        b = json_bytes(doc, {})
        c = b[: r.randint(0, len(b) - 1)]
    elif bd == "json_utf8":
        b = json_bytes(doc, {})
        i = r.randint(0, len(b))
        c = b[:i] + b"\xff\xfe" + b[i:]
    elif bd == "json_nul":
        b = json_bytes(doc, {})
        i = r.choice([0, 1, len(b) // 2, len(b)])
        c = b[:i] + b"\x00" * 4 + b[i:]
    elif bd == "json_list":
        c = r.choice([b"[]", b"null", b"3", b'"x"', b"{}"])
    else:
        c = json.dumps(deep_set(json.loads(json_bytes(doc, {})), r, bd)).encode()
    return c, not J, src, flag
