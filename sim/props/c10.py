"""C10: results depend only on input and options."""

import os
import sys

from ..common import *
from .. import gen

RULE = ("A run is one process with a seeded history of 0-8 operations (command-line conversions with any options, library reads and writes, damaged inputs, failures, interrupts, out of memory, "
        "caller edits to earlier results and argument tables, replaced files, clock jumps, changes of directory) in a seeded environment (UUID implementation, debug switch, locale encoding, hash seed), "
        "followed by 1-3 probe conversions whose results must equal the reference model. Non-trivial: the history is non-empty or the environment differs from the default; distinct: different log.")

HIST = ["cli_json", "cli_json", "cli_json", "cli_sav", "cli_bad", "lib_read", "lib_read", "lib_default", "lib_mutate", "lib_mutate", "lib_load_mutate", "lib_damaged", "lib_damaged", "lib_write_fail",
        "lib_props_mutate", "jump", "chdir", "uuid"]
PROBE = ["cli_json", "cli_json", "cli_sav", "lib_rw", "lib_json", "lib_jsonback", "conv_json", "conv_sav", "lib_default", "lib_ids"]
OTHER_ENV = {"TZ": ["Asia/Tokyo", "UTC-14", "America/St_Johns"], "LANG": ["C", "tr_TR.UTF-8", "ja_JP.SJIS"], "LC_ALL": ["C", "POSIX", "de_DE"], "HOME": ["/sim/other", "/nonexistent", ""],
             "USER": ["nobody"], "PWD": ["/elsewhere"], "TMPDIR": ["/sim/other"], "COLUMNS": ["20", "400"], "NO_COLOR": ["1"], "CI": ["true"], "TERM": ["dumb"], "PYTHONOPTIMIZE": ["2"],
             "PYTHONUTF8": ["0"], "PYTHONIOENCODING": ["ascii"], "LOGLEVEL": ["DEBUG"], "VERBOSE": ["1"], "LC_NUMERIC": ["de_DE.UTF-8"], "LC_CTYPE": ["C"], "LANGUAGE": ["fr"], "PALWORLD_DEBUG": ["1"], "DEBUG_MODE": ["1"], "SOURCE_DATE_EPOCH": ["0"]}
NAMES = ["/sim/w/a.sav", "/sim/w/b.sav"]


def make(seed, tier="quick"):
    r = rng_of("C10", seed)
    ndocs = r.choice([1, 2, 3])
    kn = {"count": 1, "bigstr": False}
    docs = [gen.gen_doc(r, limit=100000, knobs=kn) for _ in range(ndocs)]
    if ndocs > 1 and r.random() < 0.3:
        # same shape, other values
        docs[1] = copy.deepcopy(docs[0])
        docs[1]["hdr"]["ue4"] ^= 1
        docs[1]["trailer"] = "00000001"
    steps = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8] + aim.novel().lengths(40))):
        s = op(r, r.choice(HIST), ndocs)
        if r.random() < 0.25 and s["k"] not in ("jump", "chdir", "uuid"):
            s["f"] = r.choice(["intr", "mem", "err"])
            s["at"] = int(10 ** r.uniform(0, 4))
        steps.append(s)
    probes = [op(r, r.choice(PROBE), ndocs) for _ in range(r.choice([1, 2, 3]))]
    env = {}
    if r.random() < 0.4:
        env["FORCE_STDLIB_ONLY"] = r.choice(["1", "1", "true"])
    if r.random() < 0.3:
        env["DEBUG"] = r.choice(["1", "1", "0"])
    if r.random() < 0.3:
        for k in r.sample(sorted(OTHER_ENV), r.choice([1, 2, 4])):
            env[k] = r.choice(OTHER_ENV[k])
    if r.random() < 0.7:
        env.update(aim.novel().environment(r))
    return {"docs": docs, "steps": steps, "probes": probes, "spec": {"env": env, "locale": r.choice(["utf-8", "cp1252", "ascii", "cp932", "latin-1", "utf-16"]), "seed": r.getrandbits(30),
            "variant": "line" if any(s.get("f") in ("intr", "mem") for s in steps) else "plain", "bufsize": r.choice([8192, 8192, 512]), "tty": r.random() < 0.2}, "now": r.choice([0, 0, -1.7e9, 3e9])}


def op(r, k, n):
    return {"k": k, "d": r.randrange(n), "sections": pick_sections(r, 0.5), "nan": r.random() < 0.6, "minify": r.random() < 0.5, "name": r.randrange(2), "s": r.getrandbits(30), "raw": r.random() < 0.6}


def scramble(x, r, depth=0):
    """A caller edits, empties or overwrites what it was given."""
    if isinstance(x, dict):
        for k in list(x):
            y = x[k]
            if isinstance(y, (dict, list)) and r.random() < 0.8:
                scramble(y, r, depth + 1)
            if r.random() < 0.3:
                x[k] = r.choice([None, 0, "edited", -1])
            elif r.random() < 0.1:
                del x[k]
        if r.random() < 0.1:
            x["__edited__"] = 1
    elif isinstance(x, list):
        for y in list(x)[:20]:
            scramble(y, r, depth + 1)
        if r.random() < 0.5:
            x.clear()
        elif r.random() < 0.5:
            x.append(None)


def run(plan, st):
    v, res = history(plan, st, World())
    if v:
        return v
    # the same probes alone, in a fresh process with the default environment
    for i, (s, o) in enumerate(zip(plan["probes"], res)):
        alone = {**plan, "steps": [], "probes": [s], "spec": {"env": {}, "locale": "utf-8", "seed": 1}, "now": 0}
        v, res2 = history(alone, Stats(), World())
        if v:
            return v
        a = res2[0]
        st.runs += 1
        if a.ok != o.ok or a.exc != o.exc or (a.ok and a.value != o.value):
            return bad("depends-on-history", f"probe {i} {s['k']} after {[x['k'] for x in plan['steps']]} in {plan['spec']['env']} {plan['spec']['locale']}: {o!r}, alone {a!r}, values {'equal' if a.value == o.value else 'differ'}")
    return None


def history(plan, st, w):
    docs = plan["docs"]
    w.now += plan["now"]
    w.fs.put_dir("/sim/w")
    w.fs.put_dir("/sim/other")
    res = []
    spec = plan["spec"]
    if plan["steps"] or spec["env"] or spec["locale"] != "utf-8":
        st.trivial = False

    def main_call(L, args):
        """One command line in this very process."""
        old = sys.argv
        sys.argv = ["palworld-save-tools"] + args
        try:
            L.conv.main()
            return 0
        except SystemExit as e:
            return 0 if e.code is None else e.code
        finally:
            sys.argv = old

    def files(s, d, js):
        a = NAMES[s["name"]]
        b = a + ".json"
        for p in (a, b):
            if w.fs.content(p) is not None:
                w.fs.unlink(p)
        if js:
            w.fs.put(b, json_bytes(d, {"raw": s["raw"] and not has_surrogate(M.view_gvas(d))}))
        else:
            w.fs.put(a, M.enc_sav(d))
        return a, b

    def do(L, s, task, probe):
        k = s["k"]
        d = docs[s["d"]]
        r = rng_of("op", s["s"])
        secs = s["sections"]
        if k == "cli_json":
            a, b = files(s, d, False)
            args = ["-f", a] + [x for y in section_arg(r, secs) for x in y] + ([] if s["nan"] else ["--convert-nan-to-null"]) + (["--minify-json"] if s["minify"] else [])
            code = main_call(L, args)
            return code, w.fs.content(b)
        if k == "conv_json":
            a, b = files(s, d, False)
            kw = {"allow_nan": s["nan"], "minify": s["minify"]}
            if secs is not None:
                kw["custom_properties_keys"] = secs or ["none"]
            L.conv.convert_sav_to_json(a, b, force=True, **kw)
            return 0, w.fs.content(b)
        if k == "cli_sav":
            a, b = files(s, d, True)
            return main_call(L, ["-f", b]), w.fs.content(a)
        if k == "conv_sav":
            a, b = files(s, d, True)
            L.conv.convert_json_to_sav(b, a)
            return 0, w.fs.content(a)
        if k == "cli_bad":
            files(s, d, False)
            return main_call(L, r.choice([[], ["--to-json", "--from-json", "x"], ["missing.sav"], ["--bogus"], [NAMES[0], "-o", "no/dir/x"], [NAMES[s["name"]], "--from-json", "-f", "-o", "zz"]])), None
        payload = M.enc_gvas(d)
        if k == "lib_rw":
            return 0, L.write(L.read(payload, secs))
        if k == "lib_json":
            return 0, L.json(L.read(payload, secs, s["nan"]), s["nan"])
        if k == "lib_jsonback":
            return 0, L.write(L.load(json.loads(json_bytes(d, {"sections": secs}))))
        if k == "lib_ids":
            return 0, ids_of(L, L.read(payload, secs, s["nan"]))
        if k == "lib_read":
            L.read(payload, secs, s["nan"])
            return None
        if k == "lib_default":
            # every optional argument left out
            g = L.gvas.GvasFile.read(payload)
            return 0, g.write()
        if k == "lib_mutate":
            g = L.read(payload, secs, s["nan"])
            if r.random() < 0.5:
                scramble(g.dump(), r)
            scramble(g.properties, r)
            if r.random() < 0.5:
                g.header.custom_versions.clear()
            g.header.save_game_class_name = "edited"
            g.trailer = b"edited"
            return None
        if k == "lib_load_mutate":
            v = json.loads(json_bytes(d, {}))
            g = L.load(v)
            L.write(g)
            scramble(v, r)
            scramble(g.properties, r)
            return None
        if k == "lib_damaged":
            o = Outcome(L.read, payload[: r.randrange(len(payload))], secs)
            b = bytearray(M.enc_sav(d))
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            o = Outcome(L.pal.decompress_sav_to_gvas, bytes(b))
            return None
        if k == "lib_write_fail":
            g = L.read(payload, secs)
            v = Outcome(g.write, {})
            scramble(g.properties, r)
            v = Outcome(L.write, g)
            return None
        if k == "lib_props_mutate":
            # the caller's own tables, emptied after the call
            hints = dict(L.types.PALWORLD_TYPE_HINTS)
            cp = dict(L.props(secs))
            g = L.gvas.GvasFile.read(payload, hints, cp)
            hints.clear()
            cp.clear()
            Outcome(g.write, cp)
            return None
        if k == "jump":
            w.now += r.choice([-1e9, -3600, 1e-6, 86400, 5e8])
            return None
        if k == "chdir":
            os.chdir(r.choice(["/sim/w", "/sim/other", "/sim"]))
            return None
        if k == "uuid":
            U = L.arc.UUID
            xs = [r.randbytes(16) for _ in range(3)] + [bytes(16)]
            us = [U(b) for b in xs]
            return [str(u) for u in us] + [len({*us})]
        raise HarnessError(k)

    box = {}

    def go(task):
        L = Lib()
        for s in plan["steps"]:
            if s.get("f") in ("intr", "mem"):
                n = task.nlines + s["at"]
                task.linefaults[n] = {"line": n, "f": s["f"]}
            elif s.get("f") == "err":
                n = task.nops + 1 + s["at"] % 12
                task.opfaults[n] = {"op": n, "f": "err", "no": "EIO"}
            o = Outcome(do, L, s, task, False)
            task.linefaults.clear()
            task.opfaults.clear()
            st.note(s["k"], o.ok, o.exc)
            st.probes["hist:" + s["k"] + ("" if o.ok else ":failed")] += 1
        for s in plan["probes"]:
            res.append(Outcome(do, L, s, task, True))

    def safe(task):
        box["o"] = Outcome(go, task)

    run_lib(w, st, spec, safe)
    try:
        o = box.get("o")
        if o is None or not o.ok:
            raise HarnessError(f"history: {o}")
        for i, (s, o) in enumerate(zip(plan["probes"], res)):
            why = judge(s, o, docs[s["d"]])
            if why:
                return bad("depends-on-history", f"probe {i} {s['k']} after {[x['k'] for x in plan['steps']]} in {spec['env']} {spec['locale']}: {why}"), res
            st.probes["probe:" + s["k"]] += 1
            if o.ok and isinstance(o.value[1], (bytes, str)):
                b = o.value[1]
                st.note(hashlib.sha256(b if isinstance(b, bytes) else b.encode("utf-8", "surrogatepass")).hexdigest())
    finally:
        st.absorb(w, 1_700_000_000.0 + plan["now"])
    return None, res


def judge(s, o, d):
    k = s["k"]
    payload = M.enc_gvas(d)
    if k == "lib_default":
        # needs type hints unless no map holds structures; success must still be exact
        if o.ok and o.value[1] != payload:
            return "bytes differ from the save"
        return None
    if not o.ok:
        return f"failed: {o}"
    code, b = o.value
    if code != 0:
        return f"exit {code}"
    if b is None:
        return "no output"
    if k == "lib_ids":
        return f"identifiers: {b}" if b[:1] == ["disagree"] else None
    ctx = M.Ctx(None if s["sections"] is None else set(s["sections"]), not s["nan"])
    if k in ("cli_json", "conv_json"):
        return wrong_json(b, d, ctx, s["minify"] or None)
    if k == "lib_json":
        return wrong_json(b.encode("utf-8", "surrogatepass"), d, ctx)
    if k in ("cli_sav", "conv_sav"):
        return wrong_sav(b, payload, M.save_type_for(d["hdr"]["cls"]))
    return None if b == payload else "bytes differ from the save"


def shrink(plan):
    for c in shrink_list(plan["probes"]):
        if c:
            yield {**plan, "probes": c}
    yield from shrink_plan(plan)
