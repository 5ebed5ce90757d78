"""C13: overlapping runs never produce a mixed file."""

from ..common import *
from .. import gen

RULE = ("A run is 2-3 simultaneous processes of the tool in one simulated machine - writers of one output path from different saves, a writer and readers of the file it produces, resave tests of one save - "
        "with 1-60 seeded switches between their file operations and, in half of the runs, a kill, power loss, error or interrupt in one of them; the shared paths are checked after every file-system change. "
        "Non-trivial: at least one switch took place; distinct: different interleaved operation log.")


def make(seed, tier="quick"):
    r = rng_of("C13", seed)
    kind = r.choice(["write_json", "write_sav", "read_json", "read_sav", "resave", "pingpong"])
    n = r.choice([2, 2, 3])
    docs = [gen.gen_doc(r, limit=80000, knobs={"count": 1, "width": r.choice([1, 2])}, world=r.random() < 0.5) for _ in range(n)]
    if r.random() < 0.3:
        # results of very different length
        docs[0]["trailer"] = r.randbytes(r.choice([9000, 30000])).hex()
    plan = {"docs": docs, "kind": kind, "prev": r.choice(["absent", "valid", "valid", "link"]), "s": r.getrandbits(30), "procs": []}
    for i in range(n):
        spec = env_opts(r, 0.5)
        if r.random() < 0.6:
            spec["bufsize"] = r.choice([16, 256, 1024, 8192])
        spec["minify"] = r.random() < 0.5
        plan["procs"].append(spec)
    if r.random() < 0.5:
        plan["procs"][r.randrange(n)]["want"] = wants(r, CRASH + CRASH + INTR + ["err", "full", "sticky"], 1)
    plan["want"] = {"n": r.choice([1, 2, 3, 5, 10, 20, 60]), "s": r.getrandbits(40)}
    return plan


def setup(plan):
    """World and the roles: [(cmd, argv, stdin, role)]"""
    docs = plan["docs"]
    w = World()
    for d in ("/sim/w", "/sim/real"):
        w.fs.put_dir(d)
    k = plan["kind"]
    jobs = []
    n = len(plan["procs"])
    if k in ("write_json", "read_json"):
        shared = "/sim/w/out.json"
        initial = json_bytes(docs[-1], {"indent": 2})
    elif k in ("write_sav", "read_sav"):
        shared = "/sim/w/out.sav"
        initial = M.enc_sav({**docs[-1], "cont": {**docs[-1]["cont"], "level": 1}})
    elif k == "pingpong":
        shared = "/sim/w/out.json"
        initial = json_bytes(docs[-1], {"indent": 2})
    else:
        shared, initial = None, None
    for i, p in enumerate(plan["procs"]):
        mn = ["--minify-json"] if p["minify"] else []
        if k == "write_json" or (k == "read_json" and i == 0) or (k == "pingpong" and i == 0):
            w.fs.put(f"/sim/w/in{i}.sav", M.enc_sav(docs[i]))
            jobs.append(("convert", [f"in{i}.sav", "-o", "out.json", "-f"] + mn, ["y"], ("w", i, "json", shared)))
        elif k == "write_sav" or (k == "read_sav" and i == 0):
            w.fs.put(f"/sim/w/in{i}.json", json_bytes(docs[i], {}))
            jobs.append(("convert", [f"in{i}.json", "-o", "out.sav", "-f"], ["y"], ("w", i, "sav", shared)))
        elif k == "read_json" or (k == "pingpong" and i == 1):
            jobs.append(("convert", ["out.json", "-o", f"copy{i}.sav"], [], ("r", i, "sav", f"/sim/w/copy{i}.sav")))
        elif k == "read_sav":
            jobs.append(("convert", ["out.sav", "-o", f"copy{i}.json"] + mn, [], ("r", i, "json", f"/sim/w/copy{i}.json")))
        elif k == "pingpong":
            # reads what the reader makes
            jobs.append(("convert", ["copy1.sav", "-o", "last.json"], [], ("rr", i, "json", "/sim/w/last.json")))
        else:
            w.fs.put("/sim/w/in.sav", M.enc_sav(docs[0]))
            jobs.append(("resave_test", ["in.sav"], ["y"] * 6, ("s", i, None, None)))
    if shared:
        if plan["prev"] == "link":
            w.fs.put("/sim/real/t", initial)
            w.fs.put_link(shared, "/sim/real/t")
        elif plan["prev"] == "valid":
            w.fs.put(shared, initial)
    return w, jobs, shared


def oracle(docs, kind):
    """Which documents these bytes are the complete product of."""

    def which(b):
        out = []
        for i, d in enumerate(docs):
            why = wrong_json(b, d, M.Ctx()) if kind == "json" else wrong_sav(b, M.enc_gvas(d), M.save_type_for(d["hdr"]["cls"]))
            if not why:
                out.append(i)
        return out

    return Oracle(which)


def run(plan, st):
    docs = plan["docs"]
    w, jobs, shared = setup(plan)
    kind = plan["kind"]
    if plan.get("want"):
        m = plan.pop("want")
        r = rng_of("sched", m["s"])
        total = 0
        for (cmd, av, stdin, role), spec in zip(jobs, plan["procs"]):
            x = {**spec, "argv": av, "stdin": list(stdin)}
            if spec.get("want"):
                resolve(w, cmd, x)
                spec["faults"] = x.get("faults", [])
                spec["variant"] = x.get("variant", "plain")
                del spec["want"]
            total += dry(w, cmd, x)[0].nops
        pts = {r.randint(1, max(2, total)) for _ in range(m["n"])}
        plan["sched"] = [[a, r.randrange(3)] for a in sorted(pts)]
    tasks = [start_command(w, cmd, {**spec, "argv": av, "stdin": list(stdin)}) for (cmd, av, stdin, role), spec in zip(jobs, plan["procs"])]
    w.coarse = True
    w.sched = {a: b for a, b in plan["sched"]}
    # paths that must always hold one complete version
    paths = {}
    if shared:
        writers = [docs[r[1]] for _, _, _, r in jobs if r[0] == "w"]
        paths[shared] = (w.fs.content(shared), oracle(writers, shared.rsplit(".", 1)[1]), [i for i, j in enumerate(jobs) if j[3][0] == "w"])
        pool = writers + ([docs[-1]] if plan["prev"] != "absent" else [])
        for i, (_, _, _, role) in enumerate(jobs):
            if role[0] in ("r", "rr"):
                paths[role[3]] = (None, oracle(pool, role[2]), [i])
    else:
        paths["/sim/w/in.sav.resave.json"] = (None, oracle(docs[:1], "json"), list(range(len(jobs))))
        paths["/sim/w/in.sav.resave.sav"] = (None, oracle(docs[:1], "sav"), list(range(len(jobs))))

    def check(when):
        for p, (old, o, who) in paths.items():
            b = w.fs.content(p)
            done = [i for i in who if tasks[i].proc.exit == 0 and tasks[i].proc.finished] if w.powered else []
            if b == old:
                if done and not (b is not None and o(b)):
                    return bad("undone", f"{when}: run {done} succeeded, yet {p} {'is missing' if b is None else 'has its old content'}")
                continue
            if b is None:
                return bad("lost", f"{when}: {p} vanished")
            if not o(b):
                return bad("mixed", f"{when}: {p} holds {len(b)} bytes that are the complete product of no run and not the earlier content")
        return None

    w.monitor = lambda _: check("while running")
    try:
        w.run()
        w.coarse = False
        st.runs += len(tasks)
        st.ops += sum(t.nops for t in tasks)
        ex = [t.proc.exit for t in tasks]
        st.note(kind, [str(x) for x in ex])
        if w.violation:
            return w.violation
        if "hang" in ex:
            return bad("no-end", f"{kind}: {[t.proc.exc for t in tasks]}")
        v = check("at the end")
        if v:
            return v
        hit = [x for x in w.fired if x != "chunked_io"]
        for i, ((cmd, av, _, role), t) in enumerate(zip(jobs, tasks)):
            st.probes[f"{role[0]}:{'ok' if ex[i] == 0 else 'killed' if ex[i] == -9 else 'failed'}"] += 1
            if role[0] == "r" and plan["prev"] != "absent" and not plan["procs"][i].get("faults") and ex[i] != 0 and w.powered and ex[i] != -9 and not w.fired["disk_full_set"]:
                return bad("reader-failed", f"{kind}: reader {i} exit {ex[i]} {t.proc.exc}, although a complete version was there all the time")
            if not hit and role[0] in ("w", "s") and ex[i] not in (0,):
                st.probes["healthy_writer_failed"] += 1
        after_run(w)
    finally:
        w.monitor = None
        st.absorb(w)
    return None


def shrink(plan):
    yield from shrink_plan(plan)
    for i, s in enumerate(plan["procs"]):
        for c in shrink_spec(s):
            yield {**plan, "procs": plan["procs"][:i] + [c] + plan["procs"][i + 1 :]}
