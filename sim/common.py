"""Shared parts of the property checks: histories of runs, oracles, fault placement."""

import collections
import copy
import hashlib
import importlib
import json
import random
import re

from . import aim
from . import model as M
from . import world as W
from .world import HarnessError, Proc, SimHang, SimKilled, Task, World, start_command

PKG = W.PKG


def rng_of(*parts):
    return random.Random(":".join(str(p) for p in parts))


def bad(kind, msg):
    return {"kind": kind, "msg": str(msg)[:600]}


class Stats:
    """What one plan covered."""

    def __init__(self):
        self.runs = 0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.ops = 0
        self.lines = 0
        self.switches = 0
        self.h = hashlib.sha256()
        self.trivial = True

    def note(self, *xs):
        self.h.update(repr(xs).encode("utf-8", "backslashreplace"))

    def absorb(self, world, t0=1_700_000_000.0):
        self.fired.update(world.fired)
        self.simtime += world.now - t0
        self.switches += world.switches
        if world.fired or world.switches:
            self.trivial = False
        self.h.update(world.digest().encode())

    def sig(self):
        return self.h.hexdigest()[:16]


# ------------------------------------------------------------------ files


def file_bytes(f, docs):
    """Content described by a file entry of a plan."""
    if "hex" in f:
        return bytes.fromhex(f["hex"])
    if "text" in f:
        return f["text"].encode("utf-8", "surrogatepass")
    d = docs[f["doc"]]
    if f["as"] == "sav":
        return M.enc_sav(d)
    if f["as"] == "payload":
        return M.enc_gvas(d)
    return json_bytes(d, f)


def ctx_of(f):
    s = f.get("sections")
    return M.Ctx(None if s is None else set(s), f.get("nan", False))


def json_bytes(d, f):
    ctx = ctx_of(f)
    if f.get("rawrec") is not None:
        ctx.rawrec = rng_of("rawrec", f["rawrec"])
    v = M.view_gvas(d, ctx)
    if f.get("noid"):
        drop_null_ids(v)
    if f.get("upper"):
        v = upper_ids(v)
    if f.get("legacy"):
        legacy_transform(v)
    if f.get("shuffle") is not None:
        v = shuffle_keys(v, rng_of("shuffle", f["shuffle"]))
    if f.get("ints"):
        v = ints_for_floats(v)
    txt = json.dumps(v, ensure_ascii=not f.get("raw", False), indent=f.get("indent"), separators=tuple(f["sep"]) if f.get("sep") else None)
    return txt.encode("utf-8", "surrogatepass")


def drop_null_ids(v):
    """Hand-written JSON leaves out the empty "id" of a property."""
    if isinstance(v, list):
        for x in v:
            drop_null_ids(x)
    elif isinstance(v, dict):
        if v.get("id", 0) is None and isinstance(v.get("type"), str) and v["type"].endswith("Property") and "value" in v:
            del v["id"]
        for x in v.values():
            drop_null_ids(x)


GUID_TEXT = re.compile("^[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$")


def upper_ids(v):
    """Other programs write identifiers in capitals."""
    if isinstance(v, list):
        return [upper_ids(x) for x in v]
    if isinstance(v, dict):
        if v.get("type") in ("StrProperty", "NameProperty", "EnumProperty"):
            return v
        return {k: upper_ids(x) for k, x in v.items()}
    if isinstance(v, str) and GUID_TEXT.match(v):
        return v.upper()
    return v


def has_surrogate(x):
    if isinstance(x, str):
        return any(0xD800 <= ord(c) <= 0xDFFF for c in x)
    if isinstance(x, dict):
        return any(has_surrogate(k) or has_surrogate(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(has_surrogate(v) for v in x)
    return False


ORDERED = {"properties", "object", "hatched_character_save_parameter"}


def shuffle_keys(v, r):
    """Another program may write the members of an object in any order; the members of a
    property list are ordered, so those keep their order."""
    if isinstance(v, list):
        return [shuffle_keys(x, r) for x in v]
    if not isinstance(v, dict):
        return v
    items = [(k, shuffle_keys(x, r)) for k, x in v.items()]
    # a property list: every member is a property (has a "type" next to its value)
    if items and not any(isinstance(x, dict) and "type" in x and "value" in x for _, x in items):
        r.shuffle(items)
    return dict(items)


def ints_for_floats(v):
    if isinstance(v, list):
        return [ints_for_floats(x) for x in v]
    if isinstance(v, dict):
        return {k: ints_for_floats(x) for k, x in v.items()}
    if isinstance(v, float) and v == v and abs(v) < 2**31 and v == int(v) and (v != 0 or str(v) == "0.0"):
        return int(v)
    return v


def legacy_transform(v):
    """Releases before the transform fix read the ten numbers of a work transform in
    another order and wrote no "v2" member; rewrite a view the way they wrote it."""
    if isinstance(v, list):
        for x in v:
            legacy_transform(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            if k == "transform" and isinstance(x, dict) and "v2" in x:
                del x["v2"]
                if x.get("type") == 1:
                    n = [x["rotation"][c] for c in "xyzw"] + [x["translation"][c] for c in "xyz"] + [x["scale3d"][c] for c in "xyz"]
                    for c in ("rotation", "translation", "scale3d"):
                        del x[c]
                    x["location"] = dict(zip("xyz", n[:3]))
                    x["rotation"] = dict(zip("xyzw", n[3:7]))
                    x["scale"] = dict(zip("xyz", n[7:]))
            else:
                legacy_transform(x)


def put_files(world, files, docs):
    for f in files:
        if f.get("dir"):
            world.fs.put_dir(f["p"])
        elif "link" in f:
            world.fs.put_link(f["p"], f["link"])
        else:
            world.fs.put(f["p"], file_bytes(f, docs), f.get("mode", 0o644))


# ------------------------------------------------------------------ oracles


def wrong_json(b, doc, ctx, minify=None):
    """Why these bytes are not the complete JSON of the document (None if they are)."""
    try:
        v = json.loads(b.decode("utf-8"))
    except (ValueError, RecursionError) as e:
        return f"not JSON: {e}"
    d = M.json_diff(M.view_gvas(doc, ctx), v)
    if d:
        return d
    if ctx.nan_to_null and any(x in b for x in (b"NaN", b"Infinity")) and has_const(v):
        return "NaN or Infinity in JSON despite --convert-nan-to-null"
    if minify is True and (b"\n" in b.strip() or b"\t" in b):
        return "JSON is not minified"
    return None


def has_const(v):
    if isinstance(v, float):
        return v != v or v in (float("inf"), float("-inf"))
    if isinstance(v, dict):
        return any(map(has_const, v.values()))
    if isinstance(v, list):
        return any(map(has_const, v))
    return False


def wrong_sav(b, payload, save_type=None):
    try:
        p, t = M.strict_unwrap(b)
    except M.Bad as e:
        return f"not a valid save container: {e}"
    if p != payload:
        i = next((i for i, (x, y) in enumerate(zip(p, payload)) if x != y), min(len(p), len(payload)))
        return f"payload differs at byte {i} (length {len(p)} instead of {len(payload)})"
    if save_type is not None and t != save_type:
        return f"save type 0x{t:x} instead of 0x{save_type:x}"
    return None


def only_nan_bits(a, b):
    """Whether a differs from b only in the bits of NaN values (known finding of C01)."""
    if len(a) != len(b):
        return False

    def nan(x):
        if len(x) == 4:
            return x[3] & 0x7F == 0x7F and x[2] & 0x80 and (x[2] & 0x7F or x[1] or x[0])
        return len(x) == 8 and x[7] & 0x7F == 0x7F and x[6] & 0xF0 == 0xF0 and (x[6] & 0xF or any(x[:6]))

    i = 0
    while i < len(a):
        if a[i] == b[i]:
            i += 1
            continue
        for n in (4, 8):
            o = next((o for o in range(max(0, i - n + 1), i + 1) if nan(a[o : o + n]) and nan(b[o : o + n])), None)
            if o is not None:
                i = o + n
                break
        else:
            return False
    return True


class Oracle:
    """Decides, with a cache, whether some bytes are the right product."""

    def __init__(self, fn):
        self.fn = fn
        self.seen = {}

    def __call__(self, b):
        h = hashlib.sha256(b).digest()
        if h not in self.seen:
            self.seen[h] = self.fn(b)
        return self.seen[h]


def default_output(name, to_json):
    if to_json:
        return name + ".json"
    return name[: -len(".json")] if name.endswith(".json") else name + ".sav"


def absn(p, cwd="/sim/w"):
    return p if p.startswith("/") else cwd + "/" + p


# ------------------------------------------------------------------ running


def run_cmd(world, st, cmd, spec):
    """One run of a command; spec["want"] asks for faults, which are resolved here into
    concrete positions (and written back into the spec, so that the plan is concrete)."""
    if spec.get("want"):
        resolve(world, cmd, spec)
    t = start_command(world, cmd, spec)
    t0 = world.now
    world.run()
    p = t.proc
    st.runs += 1
    st.ops += t.nops
    st.lines += t.nlines
    st.note(cmd, spec.get("argv"), str(p.exit), p.exc, t.nlines, hashlib.sha256(bytes(p.out)).hexdigest())
    if p.exit == 0:
        st.probes["exit0"] += 1
    elif p.exit == -9:
        st.probes["killed"] += 1
    elif p.exit == "hang":
        st.probes["hang"] += 1
    else:
        st.probes["exit_nonzero"] += 1
    after_run(world)
    return p


def after_run(world):
    """The machine comes back after power loss; limits set by a fault end with the run."""
    world.powered = True
    world.fs.cap = {1: None, 2: None}


def clone_world(world):
    w = World(world.seed)
    w.fs = copy.deepcopy(world.fs)
    w.now = world.now
    return w


def by_place(places):
    """Steps of a rehearsal grouped by the place in the code, in order of first appearance
    (code that runs while modules are imported is left out)."""
    where = {}
    for k, x in enumerate(places):
        if x[1] > 1:
            where.setdefault(x, []).append(k + 1)
    return where or {("", 0, 0): [1]}


def pick_place(r, where, variant="line", hot=0.15):
    """The steps at one place: one that touches state outliving a call, any place alike, or first a file,
    then a function, then a place in it."""
    x = r.random()
    if x < hot:
        c = W.codes()
        v = [v for x, v in where.items() if c.hot(variant, x)]
        if v:
            return r.choice(v)
    if r.random() < 0.5:
        return r.choice(list(where.values()))
    f = r.choice(list(dict.fromkeys(x[0] for x in where)))
    g = r.choice(list(dict.fromkeys(x[1] for x in where if x[0] == f)))
    return r.choice([v for x, v in where.items() if x[0] == f and x[1] == g])


def dry(world, cmd, spec, places=None):
    """Fault-free rehearsal on a copy of the world: (task, ops)."""
    w = clone_world(world)
    w.places = places
    s = {k: v for k, v in spec.items() if k not in ("faults", "want")}
    t = start_command(w, cmd, s)
    w.run()
    ops = [(k[1], k[2]) for k in w.log if k[1] != "opened"]
    return t, ops, w


def resolve(world, cmd, spec):
    want = spec.pop("want")
    need_lines = any(x["cat"].startswith("line") for x in want)
    if need_lines and spec.get("variant", "plain") == "plain":
        spec["variant"] = "line"
    places = [] if need_lines else None
    t, ops, _ = dry(world, cmd, spec, places)
    fs = spec.setdefault("faults", [])
    for x in want:
        f = place(rng_of("place", x["s"]), x["cat"], ops, t.nlines, x.get("only"), places, spec.get("variant", "line"))
        if f is not None:
            fs.append(f)


ERRS = {
    "open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "ENOENT", "EPERM", "ENOMEM"],
    "read": ["EIO", "EIO", "ESTALE", "EINTR", "ENOMEM"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR", "EPERM"],
    "fsync": ["EIO", "ENOSPC", "EDQUOT"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EACCES", "EPERM", "EIO", "ENOSPC", "EXDEV", "EBUSY", "EROFS"],
    "unlink": ["EACCES", "EIO", "EBUSY"],
    "link": ["EPERM", "EIO"],
    "mkdir": ["ENOSPC", "EACCES"],
    "chmod": ["EPERM", "EIO"],
    "truncate": ["EIO", "ENOSPC"],
    "stdout": ["EPIPE", "EIO", "ENOSPC"],
    "stderr": ["EPIPE"],
    "stdin": ["EIO"],
}
WRITEY = ("write", "fsync", "rename", "chmod", "unlink", "link", "truncate", "mkdir")


def place(r, cat, ops, nlines, only=None, places=None, variant="line"):
    """A concrete fault of the category, placed inside the rehearsed run."""
    n = len(ops)
    if cat.startswith("line"):
        if nlines < 1:
            return None
        x = r.random()
        if places and x < 0.5:  # a line that runs once is hit as often as one in a hot loop
            ln = r.choice(pick_place(r, by_place(places), variant))
        else:
            ln = r.randint(1, nlines) if x < 0.8 else max(1, nlines - int(r.random() ** 2 * min(nlines, 400)))
        return {"line": ln, "f": {"lineintr": "intr", "linemem": "mem", "linekill": "kill"}[cat]}
    if n == 0:
        return None

    def choose(ok):
        c = [i for i in range(n) if ok(ops[i])]
        if not c:
            return None
        first = next((i for i in range(n) if ops[i][0] in WRITEY), n)
        tail = [i for i in c if i >= first - 1]
        if tail and r.random() < 0.6:
            # few kinds of steps, not many repeated writes, are where the risk is
            if r.random() < 0.5:
                kinds = sorted({ops[i][0] for i in tail})
                k = r.choice(kinds)
                tail = [i for i in tail if ops[i][0] == k]
            return r.choice(tail)
        return r.choice(c)

    if only:
        sel = lambda o: o[0] in only
    else:
        sel = lambda o: True
    if cat == "err":
        i = choose(lambda o: sel(o) and o[0] in ERRS)
        return None if i is None else {"op": i + 1, "f": "err", "no": r.choice(ERRS[ops[i][0]])}
    if cat == "sticky":
        i = choose(lambda o: sel(o) and o[0] in ("write", "read", "fsync", "open", "rename", "close"))
        if i is None:
            return None
        kinds = r.choice([[ops[i][0]], ["write", "fsync", "close"], ["write", "fsync", "close", "rename", "unlink", "open", "truncate"], ["read"]])
        return {"op": i + 1, "f": "errs", "kinds": kinds, "no": r.choice(["EIO", "ENOSPC", "EROFS"])}
    if cat == "full":
        i = choose(lambda o: sel(o) and o[0] in ("open", "write"))
        return None if i is None else {"op": i + 1, "f": "full", "extra": r.choice([0, 0, 1, 100, 1000, r.randint(0, 20000)]), "dev": 1 if r.random() < 0.8 else 2}
    if cat == "short":
        i = choose(lambda o: sel(o) and o[0] in ("read", "write"))
        return None if i is None else {"op": i + 1, "f": "short", "frac": r.random()}
    if cat == "eof":
        i = choose(lambda o: o[0] == "read")
        return None if i is None else {"op": i + 1, "f": "eof"}
    if cat == "flip":
        c = [i for i in range(n) if ops[i][0] == "read"]
        if not c:
            return None
        return {"op": r.choice(c) + 1, "f": "flip", "off": r.choice([r.randint(0, 30), r.getrandbits(24)]), "mask": 1 << r.randrange(8)}
    i = choose(sel)
    if i is None:
        return None
    if cat == "kill":
        f = r.choice(["kill", "killafter", "killmid"])
        return {"op": i + 1, "f": f, **({"frac": r.random()} if f == "killmid" else {})}
    if cat == "power":
        f = r.choice(["power", "powerafter", "powermid"])
        return {"op": i + 1, "f": f, "seed": r.getrandbits(30), **({"frac": r.random()} if f == "powermid" else {})}
    if cat == "intr":
        return {"op": i + 1, "f": r.choice(["intr", "intrafter"])}
    raise HarnessError(cat)


def wants(r, cats, n=None):
    n = n if n is not None else r.choice([1, 1, 1, 2, 3])
    return [{"cat": r.choice(cats), "s": r.getrandbits(40)} for _ in range(n)]


IOERR = ["err", "err", "err", "sticky", "full", "short", "eof"]
CRASH = ["kill", "power", "linekill"]
INTR = ["intr", "lineintr"]
ALL = IOERR + CRASH + INTR


def env_opts(r, plain=0.4):
    """Configuration knobs of a run that must not matter."""
    s = {"seed": r.getrandbits(30)}
    if r.random() < plain:
        return s
    if r.random() < 0.4:
        s["chunk"] = r.getrandbits(16)
    if r.random() < 0.4:
        s["bufsize"] = r.choice([16, 512, 8192, 65536])
    env = {}
    if r.random() < 0.3:
        env["FORCE_STDLIB_ONLY"] = "1"
    if r.random() < 0.2:
        env["DEBUG"] = "1"
    if aim.novel().env and r.random() < 0.7:
        env.update(aim.novel().environment(r))
    if env:
        s["env"] = env
    if r.random() < 0.3:
        s["locale"] = r.choice(["cp1252", "ascii", "cp932", "latin-1", "utf-8"])
    if r.random() < 0.3:
        s["tty"] = True
    return s


STEMS = ["Level", "a", "Level.backup", "my save", "Üñï", "名前", "x.sav", "-dash", "LevelMeta", "0123", "p.json"]


def stem(r):
    """The name of a save without its extension."""
    if aim.novel().names and r.random() < 0.3:
        x = r.choice(aim.novel().names)
        return r.choice([x, "a" + x, x + "a"])
    return r.choice(STEMS)


def sav_name(r):
    return stem(r) + ".sav"


def json_name(r):
    return stem(r) + r.choice([".sav.json", ".json", ".sav.json"])


def argv(r, args, positional):
    """Options in any order around the positional argument."""
    args = list(args)
    if positional.startswith("-"):
        return [x for a in args for x in a] + ["--", positional]
    k = r.randint(0, len(args))
    args.insert(k, [positional])
    return [x for a in args for x in a]


def section_arg(r, secs):
    """--custom-properties for a set of sections (None = leave the default)."""
    if secs is None:
        return [["--custom-properties", "all"]] if r.random() < 0.2 else []
    s = list(secs)
    r.shuffle(s)
    j = r.choice([",", ", ", " ,"])
    t = j.join(s) if s else r.choice(["", "none"])
    return [["--custom-properties=" + t]] if r.random() < 0.5 or t.startswith("-") else [["--custom-properties", t]]


def pick_sections(r, p=0.35):
    if r.random() > p:
        return None
    allp = sorted(M.CUSTOM_PATHS)
    x = r.random()
    if x < 0.2:
        return []
    if x < 0.5:
        return [r.choice(allp)]
    q = r.random()
    return [s for s in allp if r.random() < q]


def force_arg(r):
    return [r.choice(["--force", "-f"])]


def out_arg(r, p):
    if p.startswith("-"):
        return ["--output=" + p]
    return r.choice([["--output", p], ["-o", p], ["--output=" + p], ["-o" + p]])


# ------------------------------------------------------------------ library runs


class Lib:
    """The package's library interface inside a simulated process."""

    def __init__(self):
        im = importlib.import_module
        self.gvas = im(PKG + ".gvas")
        self.pal = im(PKG + ".palsav")
        self.types = im(PKG + ".paltypes")
        self.js = im(PKG + ".json_tools")
        self.arc = im(PKG + ".archive")
        self.conv = im(PKG + ".commands.convert")

    def props(self, sections=None):
        cp = self.types.PALWORLD_CUSTOM_PROPERTIES
        return cp if sections is None else {k: cp[k] for k in cp if k in sections}

    def read(self, payload, sections=None, allow_nan=True):
        return self.gvas.GvasFile.read(payload, self.types.PALWORLD_TYPE_HINTS, self.props(sections), allow_nan=allow_nan)

    def load(self, obj):
        return self.gvas.GvasFile.load(obj)

    def write(self, g):
        return g.write(self.types.PALWORLD_CUSTOM_PROPERTIES)

    def json(self, g, allow_nan=True):
        return json.dumps(g.dump(), cls=self.js.CustomEncoder, allow_nan=allow_nan)


def ids_of(L, g):
    """Text, standard form, equality and hash of every identifier in a document; None if they agree."""
    U = L.arc.UUID
    seen = []

    def walk(x):
        if isinstance(x, U):
            seen.append(x)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)) and not (x and isinstance(x[0], int)):
            for y in x:
                walk(y)

    walk(g.properties)
    out = []
    for u in seen[:60]:
        s = str(u)
        v = U.from_str(s)
        if str(u.UUID()) != s or str(v) != s or not (u == v) or u != v or hash(u) != hash(v) or not (u == s):
            return ["disagree", s, str(u.UUID()), str(v)]
        out.append(s)
    return out


class Outcome:
    """Result of a library call: a value, or the class of the exception."""

    __slots__ = ("ok", "value", "exc", "msg")

    def __init__(self, fn, *a, **k):
        self.value = self.exc = self.msg = None
        self.ok = False
        try:
            self.value = fn(*a, **k)
            self.ok = True
        except (SimKilled, SimHang, HarnessError):
            raise
        except BaseException as e:
            self.exc = type(e).__name__
            self.msg = str(e)[:200]
            W._clear(e)

    def __repr__(self):
        return "ok" if self.ok else f"{self.exc}: {self.msg}"


def lib_body(fn):
    def body(task):
        try:
            r = fn(task)
            task.proc.exit = 0
            return r
        except SimKilled as e:
            W._clear(e)
            task.proc.exit = -9
        except SimHang as e:
            task.proc.exc = ("SimHang", str(e))
            W._clear(e)
            task.proc.exit = "hang"
        return None

    return body


def run_lib(world, st, spec, fn):
    """Run fn(task) as a simulated single-threaded program that uses the library."""
    p = Proc(world, spec)
    t = Task(p, lib_body(fn), spec)
    world.run()
    p.finalize()
    st.runs += 1
    st.ops += t.nops
    st.lines += t.nlines
    st.note(t.nops, t.nlines)
    return t


# ------------------------------------------------------------------ shrinking


def shrink_doc(d):
    """Smaller variants of a document that keep its records whole."""
    for i in range(len(d["props"])):
        c = copy.deepcopy(d)
        del c["props"][i]
        yield c
    for i, p in enumerate(d["props"]):
        if p["n"] == "worldSaveData":
            for j in range(len(p["v"])):
                c = copy.deepcopy(d)
                del c["props"][i]["v"][j]
                yield c
    # whole items of collections, at any depth
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            if x.get("t") in ("Map", "Array") and isinstance(x.get("v"), list) and "n" in x:
                for i in range(len(x["v"])):
                    paths.append(path + ["v", i])
            for k, v in x.items():
                walk(v, path + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, path + [i])

    walk(d["props"], ["props"])
    for path in paths[:60]:
        c = copy.deepcopy(d)
        y = c
        for k in path[:-1]:
            y = y[k]
        del y[path[-1]]
        yield c
    if d["trailer"] != "00000000":
        yield {**d, "trailer": "00000000"}
    if d["hdr"]["cv"]:
        c = copy.deepcopy(d)
        c["hdr"]["cv"] = []
        yield c
    if d["cont"].get("cnk"):
        yield {**d, "cont": {**d["cont"], "cnk": False}}


def shrink_list(x):
    n = len(x)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield x[:i] + x[i + k :]
        k //= 2


SIMPLE = ("chunk", "bufsize", "env", "locale", "tty")


def shrink_spec(s):
    for f in shrink_list(s.get("faults", [])):
        yield {**s, "faults": f}
    for k in SIMPLE:
        if k in s:
            yield {a: b for a, b in s.items() if a != k}


def shrink_plan(plan):
    """Generic candidates: fewer steps, fewer faults, fewer switches, smaller documents."""
    for key in ("steps", "muts", "sched", "extra"):
        if isinstance(plan.get(key), list) and plan[key]:
            for c in shrink_list(plan[key]):
                yield {**plan, key: c}
    for key in ("docs",):
        for i, d in enumerate(plan.get(key, [])):
            for c in shrink_doc(d):
                yield {**plan, key: plan[key][:i] + [c] + plan[key][i + 1 :]}
    for i, s in enumerate(plan.get("steps", [])):
        if isinstance(s, dict) and "spec" in s:
            for c in shrink_spec(s["spec"]):
                yield {**plan, "steps": plan["steps"][:i] + [{**s, "spec": c}] + plan["steps"][i + 1 :]}
    if isinstance(plan.get("spec"), dict):
        for c in shrink_spec(plan["spec"]):
            yield {**plan, "spec": c}


# ------------------------------------------------------------------ loaded documents


def snap(x):
    """Everything observable of a loaded value, as plain data."""
    if isinstance(x, dict):
        return {"d": [[snap(k), snap(v)] for k, v in x.items()]}
    if isinstance(x, tuple):  # a list does not equal a tuple
        return ["(", *[snap(v) for v in x]]
    if isinstance(x, list):
        return [snap(v) for v in x]
    if isinstance(x, (bytes, bytearray, memoryview)):
        return "b:" + bytes(x).hex()
    if isinstance(x, float):
        return "f:" + ("nan" if x != x else x.hex())
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return f"i:{x}"
    if isinstance(x, str):
        return "s:" + x
    return "o:" + str(x)


HEADER = ["magic", "save_game_version", "package_file_version_ue4", "package_file_version_ue5", "engine_version_major", "engine_version_minor",
          "engine_version_patch", "engine_version_changelist", "engine_version_branch", "custom_version_format", "custom_versions", "save_game_class_name"]


def snap_doc(g):
    return [[snap(getattr(g.header, k)) for k in HEADER], snap(g.properties), snap(g.trailer)]


def snap_diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:80]} became {str(b)[:80]}"
    if isinstance(a, dict):
        return snap_diff(a["d"], b["d"], path)
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            key = x[0] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and x[0] != "(" else i
            d = snap_diff(x, y, f"{path}/{key}")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: {len(a)} members became {len(b)}"
        return None
    return None if a == b else f"{path}: {str(a)[:80]} became {str(b)[:80]}"
