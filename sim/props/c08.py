"""C08: threads of one program do not affect each other."""

from ..common import *
from .. import gen

RULE = ("A run is one process with 2-4 threads that unwrap, read, dump, encode, write and convert generated saves (own, same bytes, or one shared loaded document), "
        "with 1-400 seeded preemptions between lines or bytecode instructions of the tool's code, placed inside a rehearsed sequential run; a third of the runs also have a failing thread "
        "(damaged data or out of memory). Non-trivial: at least one preemption took place; distinct: different sequence of preemptions and results.")

OPS = ["unwrap", "rw", "rw", "json", "json", "jsonback", "tojson", "tosav", "bad", "resave"]
SHARED = ["swrite", "swrite", "sjson", "sdump", "sids"]


def make(seed, tier="quick"):
    r = rng_of("C08", seed)
    variant = "instr" if r.random() < 0.3 else "line"
    kn = {"count": 1, "bigstr": False, "bulk": False}
    lim = 6000 if variant == "instr" else 30000
    theme = [r.choice(gen.SECTIONS)] if r.random() < 0.45 else None
    if theme:  # all threads work on the same kind of records, with different content, so that they meet in the same code
        docs = [gen.gen_doc(r, limit=lim, knobs={**kn, "count": r.choice([1, 2, 3]), "width": 1}, sections=theme, world=True) for _ in range(r.choice([2, 2, 3]))]
    else:
        docs = [gen.gen_doc(r, limit=lim, knobs={**kn, "width": r.choice([1, 2])}, sections=r.sample(gen.SECTIONS, r.choice([1, 1, 2])) if r.random() < 0.8 else None, world=r.random() < 0.85)
                for _ in range(r.choice([1, 2, 2]))]
    shared = r.random() < (0.2 if theme else 0.4)
    tasks = []
    same = r.random() < (0.7 if theme else 0.3)
    for i in range(r.choice([2, 2, 2, 3, 4])):
        if same and tasks:  # all threads do the same, so that they meet in the same code
            tasks.append(json.loads(json.dumps(tasks[0])))
            for op in tasks[-1]["ops"]:
                op["d"] = (op["d"] + i) % len(docs) if theme else op["d"]
            continue
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(SHARED) if shared and r.random() < 0.8 else r.choice(OPS)
            ops.append({"k": k, "d": r.randrange(len(docs)), "sections": None if theme and r.random() < 0.8 else pick_sections(r, 0.25), "nan": r.random() < 0.75, "cut": r.getrandbits(24), "minify": r.random() < 0.5})
        tasks.append({"ops": ops})
    if r.random() < 0.15:
        tasks[r.randrange(len(tasks))]["mem"] = r.random()
    x = r.random()
    mode = {"n": r.choice([1, 2, 3, 5]) if x < 0.4 else r.choice([10, 30, 100, 400]), "s": r.getrandbits(40), "near": r.random() < 0.3, "rare": r.random() < 0.85, "meet": r.random() < 0.6}
    return {"docs": docs, "tasks": tasks, "shared": shared, "from_json": r.random() < 0.4, "variant": variant,
            "env": {"FORCE_STDLIB_ONLY": "1"} if r.random() < 0.3 else {}, "want": mode}


def prepare(plan):
    w = World()
    p = Proc(w, {"variant": plan["variant"], "env": plan["env"], "seed": 5})
    box = {}
    for i, d in enumerate(plan["docs"]):
        w.fs.put(f"/sim/w/in{i}.sav", M.enc_sav(d))
        w.fs.put(f"/sim/w/in{i}.json", json_bytes(d, {}))

    def warm(task):
        L = box["L"] = Lib()
        if plan["shared"]:
            d = plan["docs"][0]
            box["doc"] = L.load(json.loads(json_bytes(d, {}))) if plan["from_json"] else L.read(M.enc_gvas(d))
            box["snap"] = snap_doc(box["doc"])

    Task(p, lib_body(warm))
    w.run()
    return w, p, box


def body(plan, box, tid, spec, out):
    docs = plan["docs"]

    def go(task):
        L = box["L"]
        for n, op in enumerate(spec["ops"]):
            d = docs[op["d"]]
            out.append(Outcome(perform, L, box, d, op, f"{tid}_{n}"))

    return go


def perform(L, box, d, op, tag):
    k = op["k"]
    if k == "unwrap":
        raw, t = L.pal.decompress_sav_to_gvas(M.enc_sav(d))
        return [raw, t, L.pal.compress_gvas_to_sav(raw, t)]
    if k == "rw":
        return L.write(L.read(M.enc_gvas(d), op["sections"]))
    if k == "json":
        return L.json(L.read(M.enc_gvas(d), op["sections"], op["nan"]), op["nan"])
    if k == "jsonback":
        return L.write(L.load(json.loads(json_bytes(d, {}))))
    if k == "bad":
        b = M.enc_gvas(d)
        return L.write(L.read(b[: op["cut"] % len(b)], op["sections"]))
    if k == "tojson":
        kw = {} if op["sections"] is None else {"custom_properties_keys": op["sections"] or [""]}
        L.conv.convert_sav_to_json(f"in{op['d']}.sav", f"out{tag}.json", force=True, minify=op["minify"], allow_nan=op["nan"], **kw)
        return None
    if k == "tosav":
        L.conv.convert_json_to_sav(f"in{op['d']}.json", f"out{tag}.sav", force=True)
        return None
    if k == "resave":
        g = L.read(M.enc_gvas(d), op["sections"])
        a = L.write(g)
        s = L.json(g)
        return [a, s, L.write(L.load(json.loads(s)))]
    g = box["doc"]
    if k == "swrite":
        return L.write(g)
    if k == "sjson":
        return L.json(g)
    if k == "sids":
        return ids_of(L, g)
    return snap(g.dump())


def all_tasks(plan, sched, faults, places=None):
    w, p, box = prepare(plan)
    w.places = places
    outs = []
    w.fine = True
    w.gstep = 0
    w.sched = sched
    ts = []
    for i, spec in enumerate(plan["tasks"]):
        out = []
        outs.append(out)
        ts.append(Task(p, lib_body(body(plan, box, i, spec, out)), {"faults": faults.get(i, []), "line_cap": 30_000_000}))
    p.finished = False
    w.run()
    steps = w.gstep
    w.fine = False
    w.places = None
    p.finalize()
    return w, p, box, outs, ts, steps


def meet(r, places, lens, m, variant):
    """Stop one thread at a place of the code, let another run from its start up to the same place (or a few
    steps further), and go on with the first: both are inside the same code."""
    a = r.randrange(len(lens) - 1)
    b = r.randrange(a + 1, len(lens))
    off = [sum(lens[:i]) for i in range(len(lens) + 1)]
    wa = by_place(places[off[a] : off[a + 1]])
    wb = by_place(places[off[b] : off[b + 1]])
    common = {x: v for x, v in wa.items() if x in wb}
    if not common:
        return None
    here = pick_place(r, common, variant, 0.5)
    x = next(x for x, v in common.items() if v is here)
    k = r.choice(here)
    j = r.choice(wb[x])
    k += r.choice([0, 0, 0, 1, 2, r.randint(0, 30)])
    j += r.choice([0, 0, 1, 1, 2, 4, r.randint(0, 30), r.randint(0, 300)])
    s = [[off[a] + k, b - a - 1], [off[a] + k + j, 0]]
    t = s[-1][0]
    for _ in range(r.choice([0, 0, 1, 2, 5]) if m["near"] else 0):
        t += r.choice([1, 2, 3, r.randint(1, 40), r.randint(1, 400)])
        s.append([t, r.randrange(4)])
    return s


def weave(r, places, lens, variant):
    """Switch threads again and again around one set of places: those that touch changing shared state, or
    one function's."""
    off = [sum(lens[:i]) for i in range(len(lens) + 1)]
    c = W.codes()
    near = set()
    if r.random() < 0.8:
        near = {x for x in set(places) if x[1] > 1 and c.hot(variant, x)}
    if not near:
        where = by_place(places)
        here = pick_place(r, where, variant, 0)
        x = next(x for x, v in where.items() if v is here)
        near = {y for y in where if y[:2] == x[:2]} if r.random() < 0.7 else {x}
    at = [[k + 1 for k, x in enumerate(places[off[i] : off[i + 1]]) if x in near] for i in range(len(lens))]
    used = [0] * len(lens)
    skip = r.choice([[0], [0, 0, 1], [0, 1, 2, 5], [0, 10]])
    cur, out = 0, []
    while len(out) < 300:
        live = [i for i in range(len(lens)) if used[i] < lens[i]]
        if not live:
            break
        if cur not in live:
            cur = live[0]
        left = [k for k in at[cur] if k > used[cur]]
        n = r.choice(skip)
        stop = left[n] + r.choice([0, 1, 1, 2, r.randint(0, 20)]) if n < len(left) else lens[cur] + 1
        if stop > lens[cur] or len(live) < 2:
            used[cur] = lens[cur]
            continue
        used[cur] = stop
        others = [i for i in live if i != cur]
        k = r.randrange(len(others))
        out.append([sum(used), k])
        cur = others[k]
    return out


def run(plan, st):
    if plan.get("want"):
        places = [] if plan["want"]["rare"] else None
        w, p, box, outs, ts, steps = all_tasks(plan, {}, {}, places)
        plan["alone"] = [[[o.ok, o.exc] for o in out] for out in outs]
        m = plan.pop("want")
        r = rng_of("sched", m["s"])
        n = max(2, steps)
        pts = set()
        lens = [t.nlines for t in ts]
        if places and sum(lens) != len(places):
            places = None
        sched = None
        hot = False
        if places:
            c = W.codes()
            off = [sum(lens[:i]) for i in range(len(lens) + 1)]
            hot = sum(any(x[1] > 1 and c.hot(plan["variant"], x) for x in set(places[off[i] : off[i + 1]])) for i in range(len(lens))) > 1
        if places and (m["meet"] or hot and r.random() < 0.7):
            sched = weave(r, places, lens, plan["variant"]) if r.random() < (0.8 if hot else 0.5) else meet(r, places, lens, m, plan["variant"])
        if sched:
            pass
        elif places:
            # preempt at a place chosen among the distinct places of the code, so that code that runs
            # once (set-up on first use, error paths) is cut as often as the hot loops
            where = by_place(places)
            for _ in range(min(m["n"], 30)):
                k = r.choice(pick_place(r, where, plan["variant"], 0.25))
                pts |= {min(n, k + j) for j in range(r.choice([1, 1, 1, 3]))}
                if m["near"]:
                    pts.add(min(n, k + r.randint(1, 60)))
        elif m["near"]:
            c = r.randint(1, n)
            pts = {max(1, min(n, c + r.randint(0, 300))) for _ in range(m["n"])}
        else:
            pts = {r.randint(1, n) for _ in range(m["n"])}
        plan["sched"] = sched or [[k, r.randrange(4)] for k in sorted(pts)]
        plan["faults"] = {str(i): [{"line": max(1, int(t["mem"] * max(1, ts[i].nlines))), "f": "mem"}] for i, t in enumerate(plan["tasks"]) if "mem" in t}
    faults = {int(k): v for k, v in plan["faults"].items()}
    w, p, box, outs, ts, steps = all_tasks(plan, {a: b for a, b in plan["sched"]}, faults)
    st.runs += 1
    st.lines += sum(t.nlines for t in ts)
    st.ops += sum(t.nops for t in ts)
    try:
        for i, spec in enumerate(plan["tasks"]):
            out = outs[i]
            if p.exc and p.exc[0] == "SimHang":
                return bad("no-end", p.exc)
            for n, op in enumerate(spec["ops"]):
                if i in faults:
                    if not all(o.ok for o in out):
                        st.probes["failing_thread"] += 1
                    break  # the thread that ran out of memory is not judged
                if n >= len(out):
                    return bad("no-result", f"thread {i} operation {n} {op['k']} gave no result")
                o = out[n]
                st.note(i, n, o.ok, o.exc)
                v = judge(plan, w, i, n, op, o)
                if v:
                    return v
        if plan["shared"]:
            d = snap_diff(box["snap"], snap_doc(box["doc"]))
            if d:
                return bad("document-changed", d)
            st.probes["shared_doc"] += 1
    finally:
        st.absorb(w)
    return None


def judge(plan, w, i, n, op, o):
    k = op["k"]
    d = plan["docs"][op["d"]]
    where = f"thread {i} operation {n} ({k})"
    ok, exc = plan["alone"][i][n] if i < len(plan["alone"]) and n < len(plan["alone"][i]) else (True, None)
    if k == "bad":
        if o.ok != ok or o.exc != exc:
            return bad("differs", f"{where}: {o} instead of {'success' if ok else exc} alone")
        return None
    if not o.ok:
        if not ok and o.exc == exc:
            return bad("fails-alone", f"{where}: {o}")
        return bad("differs", f"{where}: failed with {o}; alone it succeeds")
    payload = M.enc_gvas(d)
    ctx = M.Ctx(None if op["sections"] is None else set(op["sections"]), not op["nan"])
    v = o.value
    if k == "unwrap":
        if v[0] != payload or v[1] != d["cont"]["type"]:
            return bad("differs", f"{where}: wrong payload or type")
        why = wrong_sav(v[2], payload, v[1])
        return bad("differs", f"{where}: {why}") if why else None
    if k in ("rw", "jsonback"):
        return bad("differs", f"{where}: bytes differ from the save") if v != payload else None
    if k == "json":
        why = wrong_json(v.encode("utf-8", "surrogatepass"), d, ctx)
        return bad("differs", f"{where}: {why}") if why else None
    if k == "resave":
        if v[0] != payload or v[2] != payload:
            return bad("differs", f"{where}: bytes differ from the save")
        why = wrong_json(v[1].encode("utf-8", "surrogatepass"), d, M.Ctx(ctx.enabled))
        return bad("differs", f"{where}: {why}") if why else None
    if k == "tojson":
        b = w.fs.content(f"/sim/w/out{i}_{n}.json")
        why = "no output" if b is None else wrong_json(b, d, ctx)
        return bad("differs", f"{where}: {why}") if why else None
    if k == "tosav":
        b = w.fs.content(f"/sim/w/out{i}_{n}.sav")
        why = "no output" if b is None else wrong_sav(b, payload, M.save_type_for(d["hdr"]["cls"]))
        return bad("differs", f"{where}: {why}") if why else None
    d = plan["docs"][0]
    if k == "swrite":
        return bad("differs", f"{where}: bytes differ from the shared document") if v != M.enc_gvas(d) else None
    if k == "sids":
        return bad("differs", f"{where}: identifiers {v}") if v[:1] == ["disagree"] else None
    if k == "sjson":
        why = wrong_json(v.encode("utf-8", "surrogatepass"), d, M.Ctx())
        return bad("differs", f"{where}: {why}") if why else None
    return None


def shrink(plan):
    for i, t in enumerate(plan["tasks"]):
        if len(plan["tasks"]) > 2:
            yield {**plan, "tasks": plan["tasks"][:i] + plan["tasks"][i + 1 :], "alone": plan["alone"][:i] + plan["alone"][i + 1 :],
                   "faults": {str(int(k) - (int(k) > i)): v for k, v in plan["faults"].items() if int(k) != i}}
    if plan["faults"]:
        yield {**plan, "faults": {}}
    yield from shrink_plan(plan)
