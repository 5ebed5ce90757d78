"""C04: an existing output is replaced only with consent."""

from ..common import *
from .. import gen

RULE = ("A run is one conversion or resave test whose output already exists, with a random stream of replies (end of input, read errors and interrupts included), with and without --force, "
        "healthy or hit by faults and interrupts at any operation or line; the output path is watched after every file-system change and consent is decided by a model of the reply stream. "
        "Non-trivial: every such run; distinct: different operation log.")

OTHER = ["yes", "no", "", "yy", "nn", "yn", "ny", "1", "true", "ok", "Yes", "NO", "y/n", "ya", "never", "да", "ｙ", "q", "exit", "\x00", "n't", "maybe", "j", " y", "y ", "\ty", "y.", " n", "n ", "'y'", "-y", "ỳ", "Ｙ"]


def make(seed, tier="quick"):
    r = rng_of("C04", seed)
    doc = gen.gen_doc(r, knobs={"count": 1, "width": 1}, world=r.random() < 0.3)
    cmd = "resave_test" if r.random() < 0.2 else "convert"
    N = aim.novel()
    other = OTHER + [x for x in N.strs * 5 if x.casefold() not in ("y", "n") and "\n" not in x]
    replies = [r.choice(other) for _ in range(r.choice([0, 0, 0, 1, 2, 5, 30] + [n + k for n in N.lengths(1000) for k in (0, 1)]))]
    end = r.choice(["y", "y", "Y", "n", "n", "N", "^eof", "^eof", "^intr", "^err"])
    plan = {"docs": [doc], "cmd": cmd, "to_json": r.random() < 0.5, "replies": replies + [end], "more": r.choice([[], [], ["y"] * 3, ["n"] * 3]),
            "closed": r.random() < 0.05, "force": cmd == "convert" and r.random() < 0.2, "prev": r.choice(["file", "file", "file", "empty", "link", "input", "valid"]),
            "out": r.choice([None, None, "o", "sub/o", "/sim/other/o"]), "ord": r.getrandbits(30), "flag": r.random() < 0.2,
            "second": r.choice(["y", "n", "absent", "^eof"]), "mode": r.choice([0o644] * 6 + [0o444, 0o400, 0o600, 0o000, 0o755])}
    spec = env_opts(r, 0.5)
    if r.random() < 0.5:
        spec["want"] = wants(r, ALL + INTR, 1 if r.random() < 0.8 else 2)
    plan["spec"] = spec
    return plan


def decide(script):
    """Index after the deciding reply and whether it is consent."""
    for i, x in enumerate(script):
        if x in ("^eof", "^intr", "^err"):
            return i + 1, False
        if x.casefold() in ("y", "n"):
            return i + 1, x.casefold() == "y"
    return len(script), False


OLD = b"precious older content\n"


def run(plan, st):
    doc = plan["docs"][0]
    payload = M.enc_gvas(doc)
    w = World()
    for d in ("/sim/w/sub", "/sim/other", "/sim/real"):
        w.fs.put_dir(d)
    r = rng_of(plan["ord"])
    script = list(plan["replies"])
    spec = plan["spec"]
    resave = plan["cmd"] == "resave_test"
    to_json = plan["to_json"] or resave
    src = "a.sav" if to_json else "a.sav.json"
    w.fs.put(absn(src), M.enc_sav(doc) if to_json else json_bytes(doc, {}))
    if resave:
        outs = [absn("a.sav.resave.json"), absn("a.sav.resave.sav")]
        if plan["second"] == "absent":
            outs = outs[: 1 if r.random() < 0.5 else 2]
    else:
        out = plan["out"] or default_output(src, to_json)
        if plan["prev"] == "input":
            out = src
        outs = [absn(out)]
    for o in outs:
        if resave and plan["second"] == "absent" and o is outs[-1] and len(outs) == 2:
            w.fs.put(o, OLD)
            w.fs.ents.pop(outs[0], None)
            w.fs.dents.pop(outs[0], None)
            continue
        if plan["prev"] == "link":
            t = "/sim/real/" + o.rsplit("/", 1)[1]
            w.fs.put(t, OLD)
            w.fs.put_link(o, t)
        elif plan["prev"] == "empty":
            w.fs.put(o, b"")
        elif plan["prev"] == "valid":
            w.fs.put(o, json_bytes(doc, {"indent": 3}) if to_json and not o.endswith("resave.sav") else M.wrap(payload, 0x31, level=1))
        elif plan["prev"] != "input" or resave:
            w.fs.put(o, OLD)
    for o in outs:
        if w.fs.content(o) is not None and absn(src) != o:
            w.fs.lookup(o)[1].mode = plan.get("mode", 0o644)
    ro = plan.get("mode", 0o644) & 0o600 != 0o600
    old = {o: w.fs.content(o) for o in outs if w.fs.content(o) is not None}
    watch = [o for o in outs if o in old]
    # the sequence of prompts: one per existing output
    if plan["force"]:
        script = []
    k, yes = decide(script)
    if resave and len(watch) == 2:
        # what follows the first consent is read at the second prompt
        script = script[:k] + ([plan["second"]] if plan["second"] != "absent" else []) + plan["more"]
        k2, yes2 = decide(script[k:])
    else:
        script = script[:k] + plan["more"]
        k2, yes2 = 0, True
    spec["stdin"] = None if plan["closed"] else script
    if plan["closed"]:
        yes = False
    args = []
    if not resave:
        if plan["out"] or plan["prev"] == "input":
            args.append(out_arg(r, out))
        if plan["force"]:
            args.append(force_arg(r))
        if plan["flag"]:
            args.append(["--to-json" if to_json else "--from-json"])
    spec["argv"] = argv(r, args, src)
    box = {}

    def consent(i):
        """Consent for the i-th existing output, given what has been read so far."""
        if plan["force"]:
            return True
        p = box["t"].proc
        log = p.stdin.log if p.stdin is not None else []
        a, y = decide(log) if log else (0, False)
        if i == 0:
            return y
        b, y2 = decide(log[a:]) if log[a:] else (0, False)
        return y and y2

    def check(when):
        for i, o in enumerate(watch):
            if w.fs.content(o) != old[o] and not consent(i):
                return bad("no-consent", f"{when}: {o} changed without consent; replies read: {box['t'].proc.stdin.log if box['t'].proc.stdin else None}")
        return None

    def mon(_):
        box.setdefault("t", w.tasks[-1])
        return check("during the run")

    w.monitor = mon
    st.trivial = False
    try:
        p = run_cmd(w, st, plan["cmd"], spec)
        box["t"] = w.tasks[-1]
        if w.violation:
            return w.violation
        v = check(f"after the run (exit {p.exit})")
        if v:
            return v
        if p.exit == 0 and not all(consent(i) for i in range(len(watch))):
            return bad("success-without-consent", f"exit 0 with replies {script}")
        hit = [x for x in w.fired if x not in ("chunked_io", "intr_prompt", "stdin_error")]
        if not hit:
            want = plan["force"] or (yes and (yes2 if len(watch) == 2 else True))
            if want and p.exit != 0 and ro:
                st.probes["not_permitted"] += 1
                return None
            if want and p.exit != 0:
                return bad("consent-ignored", f"{spec['argv']} replies {script}: exit {p.exit} {p.exc}")
            if want:
                b = w.fs.content(outs[0])
                why = wrong_json(b, doc, M.Ctx()) if to_json else wrong_sav(b, payload)
                if why:
                    return bad("consent-ignored", f"output not converted after consent: {why}")
                st.probes["consented"] += 1
            else:
                st.probes["declined"] += 1
    finally:
        w.monitor = None
        st.absorb(w)
    return None
