"""Builds small saves by hand, for the demonstrations (no code of the tool)."""
import base64, contextlib, io, json, os, struct, subprocess, sys, tempfile, zlib

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
PY = sys.executable
Z = bytes(16)


def fs(s):
    if s == "":
        return struct.pack("<i", 0)
    if all(ord(c) < 128 for c in s):
        return struct.pack("<i", len(s) + 1) + s.encode() + b"\0"
    b = s.encode("utf-16-le", "surrogatepass")
    return struct.pack("<i", -(len(b) // 2 + 1)) + b + b"\0\0"


def og(u):
    return b"\0" if u is None else b"\1" + u


def prop(n, t, body, pre=b"", id=None, size=None):
    return fs(n) + fs(t) + struct.pack("<Q", len(body) if size is None else size) + pre + og(id) + body


def pint(n, v, id=None):
    return prop(n, "IntProperty", struct.pack("<i", v), id=id)


def pstr(n, v, id=None):
    return prop(n, "StrProperty", fs(v), id=id)


def pname(n, v):
    return prop(n, "NameProperty", fs(v))


def penum(n, et, v):
    return prop(n, "EnumProperty", fs(v), pre=fs(et))


def pstruct(n, st, body, sid=Z, id=None):
    return prop(n, "StructProperty", body, pre=fs(st) + sid, id=id)


def pbytes(n, b, id=None):
    return prop(n, "ArrayProperty", struct.pack("<I", len(b)) + b, pre=fs("ByteProperty"), id=id)


def parr(n, tn, items):
    data = b"".join(items)
    body = struct.pack("<I", len(items)) + fs(n) + fs("StructProperty") + struct.pack("<Q", len(data)) + fs(tn) + Z + b"\0" + data
    return prop(n, "ArrayProperty", body, pre=fs("StructProperty"))


def pmap(n, kt, vt, items):
    body = struct.pack("<II", 0, len(items)) + b"".join(k + v for k, v in items)
    return prop(n, "MapProperty", body, pre=fs(kt) + fs(vt))


NONE = fs("None")


def gvas(props, cls="/Script/Pal.PalWorldPlayerSaveGame", trailer=b"\0\0\0\0"):
    h = struct.pack("<iiii", 0x53415647, 3, 522, 1008) + struct.pack("<HHHI", 5, 1, 1, 0) + fs("++UE5+Release-5.1") + struct.pack("<iI", 3, 0) + fs(cls)
    return h + b"".join(props) + NONE + trailer


def world(props, cls="/Script/Pal.PalWorldSaveGame"):
    return gvas([pstruct("worldSaveData", "PalWorldSaveData", b"".join(props) + NONE)], cls)


def wrap(p, t=0x31, cnk=False):
    a = zlib.compress(p)
    n = len(a)
    b = zlib.compress(a) if t == 0x32 else a
    r = struct.pack("<II", len(p), n) + b"PlZ" + bytes([t]) + b
    return (b"\0" * 8 + b"CNK0" + r) if cnk else r


def unwrap(b):
    p = zlib.decompress(b[12:])
    return (zlib.decompress(p) if b[11] == 0x32 else p), b[11]


def cli(args, cwd, stdin="", cmd="convert", env=None, timeout=60):
    e = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    return subprocess.run([PY, "-m", "palworld_save_tools.commands." + cmd] + args, cwd=cwd, input=stdin, capture_output=True, text=True, env=e, timeout=timeout)


def lib():
    from palworld_save_tools import gvas as G, palsav as P, paltypes as T, json_tools as J, archive as A

    return G, P, T, J, A


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def put(p, b):
    with open(p, "wb") as f:
        f.write(b)


def get(p):
    with open(p, "rb") as f:
        return f.read()


def roundtrip(p):
    """library: bytes -> document -> JSON -> document -> bytes"""
    G, P, T, J, A = lib()
    with quiet():
        g = G.GvasFile.read(p, T.PALWORLD_TYPE_HINTS, T.PALWORLD_CUSTOM_PROPERTIES)
        return G.GvasFile.load(json.loads(json.dumps(g.dump(), cls=J.CustomEncoder))).write(T.PALWORLD_CUSTOM_PROPERTIES)
