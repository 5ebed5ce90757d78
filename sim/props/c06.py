"""C06: a damaged container is never converted as if it were intact."""

from ..common import *
from .. import gen

RULE = ("A run takes one generated save in one container variant and applies storage damage: in library mode 25 damaged versions are read through the simulated disk and decompressed; "
        "in command mode one damaged version (or a bit flip while the file is read) goes through convert or the resave test. Damage: bit flips, truncation, lost, zeroed, swapped or duplicated sectors, "
        "garbage, inserted or removed bytes, damaged header fields, and header and body of two versions of the save combined. Non-trivial: the damaged bytes differ from the intact ones; distinct: different log of outcomes.")


def make(seed, tier="quick"):
    r = rng_of("C06", seed)
    doc = gen.gen_doc(r, knobs={"count": 1} if r.random() < 0.5 else {"jumbo": True})
    doc["cont"]["type"] = r.choice([0x31, 0x32])
    if r.random() < 0.3:
        doc["cont"]["cnk"] = True
    mode = "lib" if r.random() < 0.4 else "cli"
    n = 25 if mode == "lib" else 1
    plan = {"docs": [doc], "mode": mode, "muts": [[{"s": r.getrandbits(40), "m": r.choice(MUTS)} for _ in range(r.choice([1, 1, 1, 2, 3]))] for _ in range(n)], "spec": env_opts(r, 0.6),
            "cmd": "resave_test" if mode == "cli" and r.random() < 0.25 else "convert", "consent": r.random() < 0.5}
    if mode == "cli" and r.random() < 0.25:
        plan["muts"] = []
        plan["spec"]["want"] = [{"cat": r.choice(["flip", "flip", "eof"]), "s": r.getrandbits(40)} for _ in range(r.choice([1, 1, 2]))]
    return plan


MUTS = ["flip", "flip", "flip", "cut", "cut", "tail", "zero", "swap", "dup", "garbage", "ins", "del", "header", "header", "splice", "splice", "splice_same", "splice_same", "byte", "lencut", "type"]


def other_version(payload, r, same_len):
    """Payload of an older version of the same save."""
    b = bytearray(payload)
    for _ in range(r.randint(1, 30)):
        b[r.randrange(len(b))] = r.getrandbits(8)
    if not same_len:
        i = r.randrange(len(b))
        if r.random() < 0.5:
            b[i:i] = r.randbytes(r.randint(1, 40))
        else:
            del b[i : i + r.randint(1, 40)]
    return bytes(b)


def mutate(b, m, doc, payload):
    r = rng_of("mut", m["s"])
    k = m["m"]
    n = len(b)
    if n == 0:
        return b
    a = bytearray(b)
    c = doc["cont"]
    hl = 24 if c.get("cnk") else 12
    if k == "flip":
        for _ in range(r.choice([1, 1, 2, 8])):
            i = r.randrange(n)
            a[i] ^= 1 << r.randrange(8)
    elif k == "byte":
        a[r.randrange(n)] = r.getrandbits(8)
    elif k == "cut":
        del a[r.choice([r.randrange(n), n - 1, max(0, n - 4), max(0, n - 5), hl, min(11, n - 1), n // 2 // 512 * 512]) :]
    elif k == "tail":
        a += r.choice([b"\0", bytes(r.randint(1, 600)), r.randbytes(r.randint(1, 50)), bytes(a[:12]), bytes(a)])
    elif k == "zero":
        i = r.randrange(n)
        j = min(n, i + r.choice([1, 4, 16, 512]))
        a[i:j] = bytes(j - i)
    elif k == "swap":
        s = r.choice([1, 4, 16, 64, 512])
        i, j = r.randrange(n), r.randrange(n)
        x, y = bytes(a[i : i + s]), bytes(a[j : j + s])
        if len(x) == len(y) and abs(i - j) >= s:
            a[i : i + s], a[j : j + s] = y, x
    elif k == "dup":
        s = r.choice([1, 16, 512])
        i = r.randrange(n)
        a[i:i] = a[i : i + s]
    elif k == "garbage":
        i = r.randrange(n)
        s = min(n - i, r.choice([1, 8, 100, 512]))
        a[i : i + s] = r.randbytes(s)
    elif k == "ins":
        i = r.randint(0, n)
        a[i:i] = r.randbytes(r.randint(1, 9))
    elif k == "del":
        i = r.randrange(n)
        del a[i : i + r.randint(1, 9)]
    elif k == "header":
        i = r.randrange(min(hl, n))
        a[i] = r.choice([a[i] ^ (1 << r.randrange(8)), 0, 255, a[i] + 1 & 255, a[i] - 1 & 255])
    elif k == "type":
        i = hl - 1
        if i < n:
            a[i] = r.choice([0x30, 0x31, 0x32, 0x33, 0, 255])
    elif k == "lencut":
        # a shorter file whose compressed length was updated by a tool that did not know better
        d = r.randint(1, 12)
        if n > hl + d:
            a = a[: n - d]
            o = hl - 8
            cl = int.from_bytes(a[o : o + 4], "little")
            a[o : o + 4] = max(0, cl - d).to_bytes(4, "little")
    elif k.startswith("splice"):
        p2 = other_version(payload, r, k == "splice_same")
        q = M.wrap(p2, c["type"], c.get("cnk", False), c.get("level", 6), c.get("strategy", 0))
        # header of one version, body of the other (a torn overwrite)
        x = q[:hl] + bytes(b[hl:]) if r.random() < 0.5 else bytes(b[:hl]) + q[hl:]
        a = bytearray(x)
        if k == "splice_same" and r.random() < 0.3:
            a = bytearray(bytes(b[: hl - 8]) + b[hl - 8 : hl - 4] + q[hl - 4 : hl] + q[hl:])
    return bytes(a)


def damaged(plan, muts):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    b = M.enc_sav(doc)
    for m in muts:
        b = mutate(b, m, doc, payload)
    return b


def undetectable(b, payload):
    """Another complete version of the container: no reader could tell."""
    try:
        p, _ = M.strict_unwrap(b)
    except M.Bad:
        return False
    return p != payload


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    intact = M.enc_sav(doc)
    w = World()
    w.fs.put_dir("/sim/w")
    spec = plan["spec"]
    try:
        if plan["mode"] == "lib":
            files = []
            for i, ms in enumerate(plan["muts"]):
                b = damaged(plan, ms)
                if undetectable(b, payload):
                    st.probes["undetectable"] += 1
                    continue
                if b == intact:
                    st.probes["undamaged"] += 1
                else:
                    st.trivial = False
                    for m in ms:
                        st.fired["storage_" + m["m"]] += 1
                w.fs.put(f"/sim/w/{i}.sav", b)
                files.append(i)
            res = []

            def go(task):
                L = Lib()
                for i in files:
                    with open(f"{i}.sav", "rb") as f:
                        data = f.read()
                    res.append((i, Outcome(L.pal.decompress_sav_to_gvas, data)))

            run_lib(w, st, spec, go)
            for i, o in res:
                if o.ok:
                    p = o.value[0]
                    if p != payload:
                        return bad("accepted-damage", f"damage {plan['muts'][i]} was accepted: payload of {len(p)} bytes instead of {len(payload)}")
                    st.probes["accepted_exact"] += 1
                else:
                    st.probes["refused"] += 1
                st.note(i, o.exc)
            if len(res) != len(files):
                return bad("no-end", "reading a damaged container did not return")
            return None
        b = damaged(plan, plan["muts"][0]) if plan["muts"] else intact
        if undetectable(b, payload):
            st.probes["undetectable"] += 1
            return None
        if b != intact:
            st.trivial = False
            for m in plan["muts"][0]:
                st.fired["storage_" + m["m"]] += 1
        w.fs.put("/sim/w/d.sav", b)
        resave = plan["cmd"] == "resave_test"
        outp = "/sim/w/d.sav.resave.json" if resave else "/sim/w/d.sav.json"
        old = None
        spec["argv"] = ["d.sav"]
        spec["stdin"] = []
        if plan["consent"] and not resave:
            old = b"older"
            w.fs.put(outp, old)
            spec["argv"] = ["-f", "d.sav"]
        p = run_cmd(w, st, plan["cmd"], spec)
        c = w.fs.content(outp)
        if p.exit == 0 or c != old:
            why = "no output" if c is None else wrong_json(c, doc, M.Ctx())
            if why:
                return bad("accepted-damage", f"exit {p.exit} for a damaged save: {why}")
            st.probes["accepted_exact"] += 1
            if resave and p.exit == 0:
                s = w.fs.content("/sim/w/d.sav.resave.sav")
                why = "no output" if s is None else wrong_sav(s, payload)
                if why:
                    return bad("accepted-damage", f"resave test passed: {why}")
        else:
            st.probes["refused"] += 1
        if b == intact and not any(x not in ("chunked_io",) for x in w.fired) and p.exit != 0 and not resave:
            return bad("false-refusal", f"intact save refused: {p.exc}")
    finally:
        st.absorb(w)
    return None
