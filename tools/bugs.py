"""Planted bugs, written from the properties and the code. Edited file, old text, new text."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


bug("c01-packed-vector-bits", "C01",
    [("archive.py", "        massaged_value = value ^ (value >> 63)\n        return 65 - FArchiveWriter.count_leading_zeroes(massaged_value)", "        return value.bit_length() + 1")],
    "a foliage instance whose largest packed coordinate is a negative power of two", "the coordinate is written with one bit more than stored, so the save changes",
    """
G, P, T, J, A = lib()
w = A.FArchiveWriter()
w.packed_vector(1, -8, 3, 1)
import struct
r = A.FArchiveReader(struct.pack("<I", 64 | 4) + bytes([8, 3, 1]))
assert r.packed_vector(1) == (-8, 3, 1)
sys.exit(w.bytes() != struct.pack("<I", 64 | 4) + bytes([0xF8, 3, 1]))
""")

bug("c01-zero-property-id", "C01",
    [("archive.py", "        if u is None:\n            self.bool(False)", "        if u is None or not any(b for b in str(u) if b not in \"0-\"):\n            self.bool(False)")],
    "a property that carries an explicit all-zero id", "the id flag and the 16 bytes are dropped when writing",
    """
p = gvas([pint("A", 5, id=Z)])
sys.exit(roundtrip(p) != p)
""")

bug("c02-early-create", "C02",
    [("commands/convert.py", '    print(f"Decompressing sav file")\n    with open(filename, "rb") as f:', '    print(f"Decompressing sav file")\n    # fail early if the output cannot be written\n    open(output_path, "ab").close()\n    with open(filename, "rb") as f:')],
    "an output that does not exist yet and a run that fails or is killed before it has written", "an empty output file appears",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)]))[:-3])
    r = cli(["a.sav"], d)
    sys.exit(r.returncode == 0 or os.path.exists(d + "/a.sav.json"))
""")

bug("c02-move-aside", "C02",
    [("commands/convert.py", '    print(f"Writing SAV file to {output_path}")\n', '    print(f"Writing SAV file to {output_path}")\n    backup_path = output_path + ".old"\n    if os.path.isfile(output_path):\n        os.replace(output_path, backup_path)\n'),
     ("commands/convert.py", "        f.write(sav_file)\n", "        f.write(sav_file)\n    if os.path.isfile(backup_path):\n        os.remove(backup_path)\n")],
    "a kill or error between moving the old output aside and putting the new one in place", "the previous output is gone from its path",
    """
import signal
with tempfile.TemporaryDirectory() as d, quiet():
    from palworld_save_tools.commands import convert as C
    G, P, T, J, A = lib()
    g = G.GvasFile.read(gvas([pint("A", 1)]))
    put(d + "/a.sav.json", json.dumps(g.dump(), cls=J.CustomEncoder).encode())
    put(d + "/a.sav", b"precious")
    real = os.fsync
    seen = []
    def fsync(fd):
        seen.append(os.path.exists(d + "/a.sav"))
        raise OSError(5, "I/O error")
    os.fsync = fsync
    try:
        C.convert_json_to_sav(d + "/a.sav.json", d + "/a.sav", force=True)
    except OSError:
        pass
    os.fsync = real
    bad = not (os.path.exists(d + "/a.sav") and get(d + "/a.sav") == b"precious")
sys.exit(bad)
""")

bug("c03-no-strip", "C03",
    [("commands/convert.py", 'type=lambda t: [s.strip() for s in t.split(",")],', 'type=lambda t: t.split(","),')],
    "a --custom-properties list with spaces after the commas", "sections asked for are silently not decoded, exit status 0",
    """
S1, S2 = ".worldSaveData.ItemContainerSaveData.Value.RawData", ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.RawData"
p = world([pmap("ItemContainerSaveData", "StructProperty", "StructProperty", [(pint("I", 1) + NONE, pbytes("RawData", bytes(12)) + NONE)])])
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(p, 0x32))
    r = cli(["a.sav", "--custom-properties", S2 + ", " + S1], d)
    sys.exit(r.returncode != 0 or b"permission" not in get(d + "/a.sav.json"))
""")

bug("c03-class-suffix", "C03",
    [("commands/convert.py", '''        "Pal.PalWorldSaveGame" in gvas_file.header.save_game_class_name
        or "Pal.PalLocalWorldSaveGame" in gvas_file.header.save_game_class_name
''', '''        gvas_file.header.save_game_class_name.endswith("Pal.PalWorldSaveGame")
        or gvas_file.header.save_game_class_name.endswith("Pal.PalLocalWorldSaveGame")
''')],
    "a save whose class name continues after the known part (a blueprint subclass)", "the save is written with single instead of double compression",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)], cls="/Script/Pal.PalWorldSaveGame_C"), 0x32))
    cli(["a.sav"], d)
    r = cli(["a.sav.json", "-o", "b.sav"], d)
    sys.exit(r.returncode != 0 or get(d + "/b.sav")[11] != 0x32)
""")

bug("c04-prefix-reply", "C04",
    [("commands/convert.py", '        reply = input(f"{question} (y/n): ").casefold()', '        reply = input(f"{question} (y/n): ").casefold()[:1]')],
    "an existing output and a reply that merely begins with y, such as \"yikes, no\"", "an existing output is overwritten without a clear yes",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b"old")
    r = cli(["a.sav"], d, stdin="yikes, no\\nn\\n")
    sys.exit(get(d + "/a.sav.json") != b"old" or r.returncode == 0)
""")

bug("c04-eof-is-yes", "C04",
    [("commands/convert.py", '        reply = input(f"{question} (y/n): ").casefold()', '        try:\n            reply = input(f"{question} (y/n): ").casefold()\n        except EOFError:\n            # not interactive, nobody to ask\n            return reply is None')],
    "an existing output and a closed or empty standard input", "an existing output is overwritten although nobody agreed",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b"old")
    r = cli(["a.sav"], d, stdin="")
    sys.exit(get(d + "/a.sav.json") != b"old")
""")

bug("c05-touch-input", "C05",
    [("commands/convert.py", '    with open(filename, "rb") as f:\n        data = f.read()\n        raw_gvas, _ = decompress_sav_to_gvas(data)', '    with open(filename, "rb") as f:\n        data = f.read()\n    if not data.rstrip(b"\\0"):\n        # an empty shell left by a crash of the game\n        os.remove(filename)\n    raw_gvas, _ = decompress_sav_to_gvas(data)')],
    "an input file that holds only zero bytes or nothing (torn by a crash)", "the input file is deleted",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", bytes(300))
    r = cli(["a.sav"], d)
    sys.exit(not os.path.exists(d + "/a.sav"))
""")

bug("c05-scratch-file", "C05",
    [("commands/convert.py", '    with open(filename, "r", encoding="utf8") as f:\n        data = json.load(f)\n    gvas_file = GvasFile.load(data)', '    with open(filename, "r", encoding="utf8") as f:\n        text = f.read()\n    work_path = os.path.splitext(output_path)[0] + ".tmp"\n    with open(work_path, "w", encoding="utf8") as f:\n        f.write(text.lstrip("\\ufeff"))\n    with open(work_path, "r", encoding="utf8") as f:\n        data = json.load(f)\n    os.remove(work_path)\n    gvas_file = GvasFile.load(data)')],
    "a neighbouring file with the name of the scratch file, or JSON that does not parse", "an unrelated file is overwritten and removed, or a scratch file stays behind",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav.json", b'{"header": ')
    r = cli(["a.sav.json"], d)
    sys.exit(sorted(os.listdir(d)) != ["a.sav.json"])
""")

bug("c06-no-checksum", "C06",
    [("palsav.py", "        uncompressed_data = zlib.decompress(uncompressed_data)", "        # the outer stream was already verified, skip header and checksum\n        uncompressed_data = zlib.decompress(uncompressed_data[2:-4], -15)"),
     ("palsav.py", "    uncompressed_data = zlib.decompress(data[data_start_offset:])", "    uncompressed_data = zlib.decompressobj().decompress(data[data_start_offset:])")],
    "a doubly compressed save whose stored bytes are damaged so that the stream still ends (for instance the last sectors lost or the final checksum gone together with changed bytes)", "changed data is accepted",
    """
import random
G, P, T, J, A = lib()
p = gvas([pstr("A%d" % i, "value %d" % (i * 7919)) for i in range(40)])
good = wrap(p, 0x32)
r = random.Random(3)
bad = 0
inner = zlib.compress(p)
for _ in range(3000):
    x = bytearray(inner)
    x[r.randrange(2, len(x) - 4)] ^= 1 << r.randrange(8)
    o = zlib.compressobj(0)
    body = o.compress(bytes(x)) + o.flush()
    d = struct.pack("<II", len(p), len(inner)) + b"PlZ\\x32" + body
    d = bytearray(d)
    try:
        q, _ = P.decompress_sav_to_gvas(bytes(d))
    except Exception:
        continue
    bad += q != p
sys.exit(bad > 0)
""")

bug("c07-item-container-rest", "C07",
    [("rawdata/item_container.py", '    if not reader.eof():\n        raise Exception("Warning: EOF not reached")\n    return data', '    if not reader.eof():\n        print("Warning: EOF not reached")\n    return data')],
    "an item container record with bytes after the known fields (a newer game version)", "the extra bytes are dropped when writing",
    """
p = world([pmap("ItemContainerSaveData", "StructProperty", "StructProperty", [(pint("I", 1) + NONE, pbytes("RawData", bytes(12) + b"\\1\\2\\3") + NONE)])])
try:
    q = roundtrip(p)
except Exception:
    sys.exit(0)
sys.exit(q != p)
""")

bug("c07-connector-limit", "C07",
    [("rawdata/connector.py", "        while not reader.eof():\n", "        while not reader.eof() and len(data[\"other_connectors\"]) < 4:\n")],
    "a connector record with more than four entries", "the entries after the fourth are dropped",
    """
G, P, T, J, A = lib()
from palworld_save_tools.rawdata import connector as C
b = struct.pack("<iBI", 1, 2, 0) + (b"\\3" + struct.pack("<I", 0)) * 5
with quiet():
    try:
        d = C.decode_bytes(A.FArchiveReader(b""), b)
    except Exception:
        sys.exit(0)
sys.exit(C.encode_bytes(d) != b)
""")

bug("c08-shared-guid-buffer", "C08",
    [("archive.py", "        # in the hot loop, avoid function calls\n        b = self.data.read(16)\n        if len(b) != 16:", "        # in the hot loop, avoid allocations\n        n = self.data.readinto(_guid_buffer)\n        b = bytes(_guid_buffer)\n        if n != 16:"),
     ("archive.py", "class FArchiveReader:\n", "_guid_buffer = bytearray(16)\n\n\nclass FArchiveReader:\n")],
    "two threads reading saves, switched between filling and copying the shared buffer", "one save gets identifiers of the other",
    """
import threading
G, P, T, J, A = lib()
# drive the interleaving by hand: another read happens between the two steps of the first
a, b = bytes([1]) * 16, bytes([2]) * 16
stop = [False]
def trace(frame, event, arg):
    if frame.f_code.co_name == "guid" and event == "line" and not stop[0] and frame.f_locals.get("self") is ra:
        hits.append(1)
        if len(hits) >= 2:
            sys.settrace(None)
            t = threading.Thread(target=lambda: A.FArchiveReader(b).guid())
            t.start(); t.join()
            stop[0] = True
    return trace
bad = False
for k in range(2, 6):
    hits = [1] * (2 - k)
    n = [0]
    ra = A.FArchiveReader(a)
    def tr(frame, event, arg):
        if frame.f_code.co_name == "guid" and event == "line":
            n[0] += 1
            if n[0] == k - 1:
                t = threading.Thread(target=lambda: A.FArchiveReader(b).guid())
                t.start(); t.join()
        return tr
    sys.settrace(tr)
    u = ra.guid()
    sys.settrace(None)
    bad |= u.raw_bytes != a
sys.exit(bad)
""")

bug("c08-shared-section-table", "C08",
    [("commands/convert.py", '''    gvas_file = GvasFile.read(
        raw_gvas, PALWORLD_TYPE_HINTS, custom_properties, allow_nan=allow_nan
    )
''', '''    disabled = {
        k: v for k, v in PALWORLD_CUSTOM_PROPERTIES.items() if k not in custom_properties
    }
    original = dict(PALWORLD_CUSTOM_PROPERTIES)
    for k in disabled:
        PALWORLD_CUSTOM_PROPERTIES.pop(k, None)
    try:
        gvas_file = GvasFile.read(
            raw_gvas,
            PALWORLD_TYPE_HINTS,
            PALWORLD_CUSTOM_PROPERTIES,
            allow_nan=allow_nan,
        )
    finally:
        PALWORLD_CUSTOM_PROPERTIES.update(original)
''')],
    "one thread converting with a restricted section list while another reads or writes", "the other thread sees the restricted table: undecoded sections or an encoder missing",
    """
import threading
from palworld_save_tools.commands import convert as C
G, P, T, J, A = lib()
p = world([pmap("ItemContainerSaveData", "StructProperty", "StructProperty", [(pint("I", 1) + NONE, pbytes("RawData", bytes(12)) + NONE)])])
keys = list(T.PALWORLD_CUSTOM_PROPERTIES)
res = []
def other():
    g = G.GvasFile.read(p, T.PALWORLD_TYPE_HINTS, T.PALWORLD_CUSTOM_PROPERTIES)
    res.append(json.dumps(g.dump(), cls=J.CustomEncoder))
with tempfile.TemporaryDirectory() as d, quiet():
    other()
    put(d + "/a.sav", wrap(p, 0x32))
    real = A.FArchiveReader.properties_until_end
    def slow(self, path=""):
        A.FArchiveReader.properties_until_end = real
        t = threading.Thread(target=other); t.start(); t.join()
        return real(self, path)
    A.FArchiveReader.properties_until_end = slow
    C.convert_sav_to_json(d + "/a.sav", d + "/o.json", custom_properties_keys=["x"])
sys.exit(res[0] != res[1])
""")

bug("c09-pop-type", "C09",
    [("archive.py", '''        nested_writer = self.copy()
        size: int
        property_type = property["type"]
        size = nested_writer.property_inner(property_type, property)
''', '''        nested_writer = self.copy()
        size: int
        # only the payload goes to the type-specific writers
        property_type = property.pop("type")
        size = nested_writer.property_inner(property_type, property)
        property["type"] = property_type
''')],
    "a write that fails or is interrupted in the middle (for instance Ctrl-C)", "properties of the loaded document lose their type, later writes fail",
    """
G, P, T, J, A = lib()
p = gvas([pstruct("S", "X", pint("A", 1) + NONE)])
g = G.GvasFile.read(p)
before = json.dumps(g.dump(), cls=J.CustomEncoder)
real = A.FArchiveWriter.i32
def boom(self, v):
    if v == 1 and sys._getframe(1).f_code.co_name == "property_inner":
        raise KeyboardInterrupt
    real(self, v)
A.FArchiveWriter.i32 = boom
try:
    g.write()
except KeyboardInterrupt:
    pass
A.FArchiveWriter.i32 = real
sys.exit(json.dumps(g.dump(), cls=J.CustomEncoder) != before)
""")

bug("c10-table-shrinks", "C10",
    [("commands/convert.py", '''    custom_properties = {}
    if len(custom_properties_keys) > 0 and custom_properties_keys[0] == "all":
        custom_properties = PALWORLD_CUSTOM_PROPERTIES
    else:
        for prop in PALWORLD_CUSTOM_PROPERTIES:
            if prop in custom_properties_keys:
                custom_properties[prop] = PALWORLD_CUSTOM_PROPERTIES[prop]
''', '''    custom_properties = PALWORLD_CUSTOM_PROPERTIES
    if len(custom_properties_keys) == 0 or custom_properties_keys[0] != "all":
        for prop in list(custom_properties):
            if prop not in custom_properties_keys:
                del custom_properties[prop]
''')],
    "a second conversion in the same process after one with fewer sections", "sections are no longer decoded, or decoded JSON cannot be written",
    """
from palworld_save_tools.commands import convert as C
p = world([pmap("ItemContainerSaveData", "StructProperty", "StructProperty", [(pint("I", 1) + NONE, pbytes("RawData", bytes(12)) + NONE)])])
with tempfile.TemporaryDirectory() as d, quiet():
    put(d + "/a.sav", wrap(p, 0x32))
    C.convert_sav_to_json(d + "/a.sav", d + "/1.json")
    C.convert_sav_to_json(d + "/a.sav", d + "/2.json", custom_properties_keys=["x"])
    C.convert_sav_to_json(d + "/a.sav", d + "/3.json")
    bad = get(d + "/1.json") != get(d + "/3.json")
sys.exit(bad)
""")

bug("c10-locale", "C10",
    [("commands/convert.py", '    with open(filename, "r", encoding="utf8") as f:\n', '    with open(filename, "r") as f:\n')],
    "JSON with unescaped non-ASCII text in a locale whose encoding is not UTF-8", "text is misread or the conversion fails",
    """
with tempfile.TemporaryDirectory() as d:
    p = gvas([pstr("A", "Ünï")])
    put(d + "/a.sav", wrap(p))
    cli(["a.sav"], d)
    v = json.loads(get(d + "/a.sav.json"))
    put(d + "/b.json", json.dumps(v, ensure_ascii=False).encode("utf-8"))
    r = cli(["b.json", "-o", "b.sav"], d, env={"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "utf-8"})
    sys.exit(r.returncode != 0 or unwrap(get(d + "/b.sav"))[0] != p)
""")

bug("c12-lock-file", "C12",
    [("commands/convert.py", '''    print(f"Loading JSON from {filename}")
''', '''    print(f"Loading JSON from {filename}")
    lock_path = output_path + ".lock"
    os.close(os.open(lock_path, os.O_CREAT | os.O_EXCL))
'''), ("commands/convert.py", "        f.write(sav_file)\n", "        f.write(sav_file)\n    os.remove(lock_path)\n")],
    "a run that was killed or failed after taking the lock", "every later run of the same conversion fails",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    cli(["a.sav"], d)
    good = get(d + "/a.sav.json")
    put(d + "/a.sav.json", good[:50])
    cli(["a.sav.json", "-o", "b.sav"], d)
    put(d + "/a.sav.json", good)
    r = cli(["a.sav.json", "-o", "b.sav", "-f"], d)
    sys.exit(r.returncode != 0)
""")

bug("c13-two-opens", "C13",
    [("commands/convert.py", '    with open(filename, "rb") as f:\n        data = f.read()\n        raw_gvas, _ = decompress_sav_to_gvas(data)', '    with open(filename, "rb") as f:\n        header = f.read(12)\n    if header[8:11] not in (b"PlZ", b"CNK"):\n        print(f"{filename} does not look like a Palworld save")\n    with open(filename, "rb") as f:\n        f.seek(12)\n        data = header + f.read()\n        raw_gvas, _ = decompress_sav_to_gvas(data)')],
    "another run replacing the input between the two opens", "header and body of two versions are combined: the reader fails or mixes",
    """
from palworld_save_tools.commands import convert as C
import builtins
with tempfile.TemporaryDirectory() as d, quiet():
    one, two = wrap(gvas([pint("A", 1)])), wrap(gvas([pint("A", 1), pstr("B", "longer")]))
    put(d + "/a.sav", one)
    real = builtins.open
    n = [0]
    def op(f, mode="r", *a, **k):
        r = real(f, mode, *a, **k)
        if f == d + "/a.sav" and "r" in mode:
            n[0] += 1
            if n[0] == 1:
                real_close = r.close
                with real(d + "/t", "wb") as h:
                    h.write(two)
                os.replace(d + "/t", d + "/a.sav")
        return r
    builtins.open = op
    try:
        C.convert_sav_to_json(d + "/a.sav", d + "/o.json")
        bad = False
    except Exception:
        bad = True
    builtins.open = real
sys.exit(bad)
""")

bug("c14-bare-except", "C14",
    [("rawdata/dynamic_item.py", '''        except Exception as e:
            print(
                f"Warning: Failed to parse weapon data, continuing as raw data {buf!r}: {e}"
            )
''', '''        except:
            print(f"Warning: Failed to parse weapon data, continuing as raw data {buf!r}")
''')],
    "Ctrl-C while weapon data is being parsed", "the interrupt is swallowed, the run goes on and exits 0",
    """
G, P, T, J, A = lib()
from palworld_save_tools.rawdata import dynamic_item as D
b = bytes(32) + fs("W") + struct.pack("<fiI", 1.5, 3, 1) + fs("skill")
real = A.FArchiveReader.tarray
def intr(self, f):
    raise KeyboardInterrupt
A.FArchiveReader.tarray = intr
try:
    with quiet():
        D.decode_bytes(A.FArchiveReader(b""), b)
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(1)
""")

bug("c14-endless-prompt", "C14",
    [("commands/convert.py", '        reply = input(f"{question} (y/n): ").casefold()', '        try:\n            reply = input(f"{question} (y/n): ").casefold()\n        except EOFError:\n            print()')],
    "an existing output and standard input at its end", "the prompt repeats forever",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b"old")
    e = dict(os.environ, PYTHONPATH=os.getcwd())
    try:
        subprocess.run([PY, "-m", "palworld_save_tools.commands.convert", "a.sav"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, timeout=10)
    except subprocess.TimeoutExpired:
        sys.exit(1)
""")

# ---- second batch
bug("c01-empty-struct-array", "C01",
    [("archive.py", '''            nested_writer = self.copy()
            for i in range(count):
                nested_writer.struct_value''', '''            if count == 0 and value["prop_name"] != value["type_name"]:
                value = {**value, "type_name": value["type_name"].strip()}
            nested_writer = self.copy()
            for i in range(count):
                nested_writer.struct_value''')],
    "an empty struct array whose element type has blanks at its ends", "the type name is changed when the save is written",
    """
def parr0(n, tn):
    return prop(n, "ArrayProperty", struct.pack("<I", 0) + fs(n) + fs("StructProperty") + struct.pack("<Q", 0) + fs(tn) + Z + b"\\0", pre=fs("StructProperty"))
p = gvas([parr0("A", " T ")])
sys.exit(roundtrip(p) != p)
""")

bug("c01-level-object", "C01",
    [("rawdata/work.py", '        writer.u32(p["fixed"])\n', '        writer.u32(1 if p["fixed"] else 0)\n')],
    "an Assign work entry whose 'fixed' word is neither 0 nor 1", "the word becomes 1 when the save is written back",
    """
from palworld_save_tools.rawdata import work as W
G, P, T, J, A = lib()
t = "EPalWorkableType::Assign"
b = bytes(range(16)) + struct.pack("<iB", 3, 1) + bytes(32) + struct.pack("<BI", 2, 7) + bytes([2]) + bytes(range(16))
with quiet():
    d = W.decode_bytes(A.FArchiveReader(b""), b, t)
sys.exit(W.encode_bytes(d, t) != b)
""")

bug("c01-connector-empty", "C01",
    [("rawdata/connector.py", '    if "other_connectors" in p:\n        for other in p["other_connectors"]:\n', '    if "other_connectors" in p:\n        for other in [o for o in p["other_connectors"] if o["connect"]] or []:\n')],
    "a roof or stair of which one side is not connected", "the unconnected side is dropped from the save",
    """
from palworld_save_tools.rawdata import connector as C
G, P, T, J, A = lib()
b = struct.pack("<iBI", 1, 0, 0) + struct.pack("<BI", 1, 0) + struct.pack("<BI", 2, 1) + bytes(range(16)) + b"\\5"
sys.exit(C.encode_bytes(C.decode_bytes(A.FArchiveReader(b""), b)) != b)
""")

bug("c02-force-unlinks", "C02",
    [("commands/convert.py", '''        if not force:
            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
    print(f"Loading JSON from {filename}")''', '''        if not force:
            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
        elif os.path.isfile(output_path):
            os.remove(output_path)
    print(f"Loading JSON from {filename}")''')],
    "--force over an existing save and a run that fails or is killed afterwards", "the previous save is lost",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav.json", b"{ not json")
    put(d + "/a.sav", b"precious")
    r = cli(["a.sav.json", "--force"], d)
    sys.exit(r.returncode == 0 or not os.path.exists(d + "/a.sav") or get(d + "/a.sav") != b"precious")
""")

bug("c02-placeholder", "C02",
    [("commands/convert.py", '    print(f"Compressing SAV file")\n', '    print(f"Compressing SAV file")\n    if not os.path.exists(output_path):\n        # reserve the name so that nothing else takes it meanwhile\n        open(output_path, "xb").close()\n')],
    "a new output and a kill, error or look at the output while the save is being compressed", "an empty save appears at the output path",
    """
with tempfile.TemporaryDirectory() as d, quiet():
    from palworld_save_tools.commands import convert as C
    G, P, T, J, A = lib()
    g = G.GvasFile.read(gvas([pint("A", 1)])).dump()
    g["properties"]["A"]["value"] = "x"
    put(d + "/a.sav.json", json.dumps(g, cls=J.CustomEncoder).encode())
    try:
        C.convert_json_to_sav(d + "/a.sav.json", d + "/a.sav")
        bad = True
    except Exception:
        bad = os.path.exists(d + "/a.sav")
sys.exit(bad)
""")

bug("c03-nested-nan", "C03",
    [("archive.py", "            debug=debug,\n            allow_nan=self.allow_nan,\n        )", "            debug=debug,\n        )")],
    "--convert-nan-to-null and a NaN inside an embedded record", "the conversion fails instead of writing null",
    """
char = pstruct("SaveParameter", "X", prop("F", "FloatProperty", struct.pack("<f", float("nan"))) + NONE) + NONE + bytes(4) + Z
key = pint("K", 1) + NONE
p = world([pmap("CharacterSaveParameterMap", "StructProperty", "StructProperty", [(key, pbytes("RawData", char) + NONE)])])
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(p, 0x32))
    r = cli(["a.sav", "--convert-nan-to-null"], d)
    sys.exit(r.returncode != 0 or "NaN" in get(d + "/a.sav.json").decode())
""")

bug("c03-datetime-signed", "C03",
    [("archive.py", '        elif struct_type == "DateTime":\n            return self.u64()', '        elif struct_type == "DateTime":\n            return self.i64()'),
     ("archive.py", '        elif struct_type == "DateTime":\n            self.u64(value)', '        elif struct_type == "DateTime":\n            self.i64(value)')],
    "a DateTime with its top bit set", "JSON states a negative value, and JSON that states the right value is refused",
    """
p = gvas([pstruct("D", "DateTime", struct.pack("<Q", 2**63 + 5))])
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(p))
    r = cli(["a.sav"], d)
    sys.exit(r.returncode != 0 or json.loads(get(d + "/a.sav.json"))["properties"]["D"]["value"] != 2**63 + 5)
""")

bug("c04-declined-ok", "C04",
    [("commands/convert.py", '''            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
    print(f"Decompressing sav file")''', '''            if not confirm_prompt("Are you sure you want to continue?"):
                return
    print(f"Decompressing sav file")''')],
    "answering 'n' at the prompt when converting to JSON", "the run ends with status 0",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b"old")
    r = cli(["a.sav"], d, stdin="n\\n")
    sys.exit(r.returncode == 0 or get(d + "/a.sav.json") != b"old")
""")

bug("c04-empty-file", "C04",
    [("commands/convert.py", '''    print(f"Converting {filename} to SAV, saving to {output_path}")
    if os.path.exists(output_path):''', '''    print(f"Converting {filename} to SAV, saving to {output_path}")
    if os.path.exists(output_path) and os.path.getsize(output_path) > 0:''')],
    "an existing, empty output file", "it is replaced without asking",
    """
with tempfile.TemporaryDirectory() as d:
    G, P, T, J, A = lib()
    with quiet():
        g = G.GvasFile.read(gvas([pint("A", 1)])).dump()
    put(d + "/a.sav.json", json.dumps(g, cls=J.CustomEncoder).encode())
    put(d + "/a.sav", b"")
    r = cli(["a.sav.json"], d, stdin="n\\n")
    sys.exit(r.returncode == 0 or get(d + "/a.sav") != b"")
""")

bug("c05-backup-stays", "C05",
    [("commands/convert.py", '''    print(f"Writing JSON to {output_path}")\n''', '''    print(f"Writing JSON to {output_path}")
    if force and os.path.isfile(output_path):
        # keep what is being replaced until the new file is complete
        shutil.copy2(output_path, output_path + "~")
'''),
     ("commands/convert.py", '''            gvas_file.dump(), f, indent=indent, cls=CustomEncoder, allow_nan=allow_nan
        )
''', '''            gvas_file.dump(), f, indent=indent, cls=CustomEncoder, allow_nan=allow_nan
        )
    if os.path.isfile(output_path + "~"):
        os.remove(output_path + "~")
''')],
    "--force over an existing JSON while a file of that name with '~' exists, or a write that fails", "a neighbouring file is overwritten and removed",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b"old")
    put(d + "/a.sav.json~", b"editor backup")
    r = cli(["a.sav", "--force"], d)
    sys.exit(r.returncode != 0 or not os.path.exists(d + "/a.sav.json~") or get(d + "/a.sav.json~") != b"editor backup")
""")

bug("c06-early-stop", "C06",
    [("palsav.py", "    uncompressed_data = zlib.decompress(data[data_start_offset:])\n", '''    if save_type == 0x31:
        # inflate piece by piece, no further than the header announces
        inflater = zlib.decompressobj()
        pieces = bytearray()
        for pos in range(data_start_offset, len(data), 512):
            if len(pieces) == uncompressed_len:
                break
            pieces += inflater.decompress(data[pos : pos + 512])
        uncompressed_data = bytes(pieces)
    else:
        uncompressed_data = zlib.decompress(data[data_start_offset:])
''')],
    "a save whose last piece holds nothing but the checksum, with a flipped bit before it", "the checksum is never reached, a changed payload is accepted",
    """
G, P, T, J, A = lib()
for n in range(3000, 4000):
    p = gvas([pbytes("A", bytes((i * 7919 + (i * i) // 3) & 255 for i in range(n)))])
    a = zlib.compress(p, 0)
    if len(a) % 512 == 2:
        break
s = bytearray(struct.pack("<II", len(p), len(a)) + b"PlZ1" + a)
assert P.decompress_sav_to_gvas(bytes(s))[0] == p
s[len(s) - 900] ^= 0x10
try:
    q = P.decompress_sav_to_gvas(bytes(s))[0]
except Exception:
    sys.exit(0)
sys.exit(q != p)
""")

bug("c07-foliage-rest", "C07",
    [("rawdata/foliage_model_instance.py", '    data["hp"] = reader.i32()\n    if not reader.eof():\n        raise Exception("Warning: EOF not reached")\n', '    data["hp"] = reader.i32()\n    if not reader.eof():\n        print("Warning: EOF not reached")\n')],
    "a foliage instance record with bytes left over", "the left-over bytes are dropped",
    """
from palworld_save_tools.rawdata import foliage_model_instance as F
G, P, T, J, A = lib()
b = bytes(16) + b"\\0\\0\\0" + struct.pack("<I", 64 | 2) + bytes([1, 1, 1]) + struct.pack("<fi", 1.0, 5) + b"\\7"
try:
    with quiet():
        d = F.decode_bytes(A.FArchiveReader(b""), b)
except Exception:
    sys.exit(0)
sys.exit(F.encode_bytes(d) != b)
""")

bug("c07-short-ints", "C07",
    [("archive.py", "    def byte(self) -> int:\n        return FArchiveReader.unpack_byte(self.data.read(1))[0]", "    def byte(self) -> int:\n        # in the hot loop, avoid unpacking\n        return int.from_bytes(self.data.read(1), \"little\")")],
    "a record that ends right before a one-byte field at its end", "the missing byte is read as 0",
    """
from palworld_save_tools.rawdata import map_concrete_model_module as M
G, P, T, J, A = lib()
t = "EPalMapObjectConcreteModelModuleType::ItemContainer"
b = bytes(16) + struct.pack("<III", 0, 0, 1)
try:
    with quiet():
        d = M.decode_bytes(A.FArchiveReader(b""), b, t)
except Exception:
    sys.exit(0)
sys.exit(M.encode_bytes(d, t) != b)
""")

bug("c08-lazy-table", "C08",
    [("rawdata/map_concrete_model.py", "    if object_id.lower() not in MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS:\n", "    # object names differ in case, build the lookup once\n    if not _LOOKUP:\n        for name in MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS:\n            _LOOKUP.add(name.lower())\n    if object_id.lower() not in _LOOKUP:\n"),
     ("rawdata/map_concrete_model.py", "def decode_bytes(\n", "_LOOKUP: set[str] = set()\n\n\ndef decode_bytes(\n")],
    "two threads that meet their first map object at the same time", "the second finds the table half built and leaves objects undecoded",
    """
import threading
G, P, T, J, A = lib()
from palworld_save_tools.rawdata import map_concrete_model as M
name = list(M.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS)[-1]
first = list(M.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS)[0]
b = bytes(32)
res = []
class D(dict):
    # stops the first reader in the middle of whatever it does with the table
    hit = False
    def __iter__(self):
        for i, k in enumerate(dict.__iter__(self)):
            if i == 5 and not D.hit:
                D.hit = True
                t = threading.Thread(target=other)
                t.start()
                t.join()
            yield k
def other():
    res.append(M.decode_bytes(A.FArchiveReader(b""), b, low).get("concrete_model_type"))
low = next(k for k, v in reversed(M.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS.items()) if v == "PalMapObjectLampModel")
M.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS = D(M.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS)
with quiet():
    try:
        M.decode_bytes(A.FArchiveReader(b""), b, low)
        if not res:
            other()
    except Exception as e:
        pass
sys.exit(res != ["PalMapObjectLampModel"])
""")

bug("c08-string-cache", "C08",
    [("json_tools.py", "class CustomEncoder(json.JSONEncoder):\n", "_LAST: dict = {}\n\n\nclass CustomEncoder(json.JSONEncoder):\n"),
     ("json_tools.py", "        if isinstance(obj, UUID):\n            return str(obj)\n", "        if isinstance(obj, UUID):\n            # the same id is often written several times in a row\n            if _LAST.get(\"raw\") != obj.raw_bytes:\n                _LAST[\"raw\"] = obj.raw_bytes\n                _LAST[\"text\"] = str(obj)\n            return _LAST[\"text\"]\n")],
    "two threads that encode JSON at the same time", "one gets the other's identifier",
    """
import threading
G, P, T, J, A = lib()
a, b = A.UUID(bytes(range(16))), A.UUID(bytes(range(16, 32)))
E = J.CustomEncoder()
res = []
class U(A.UUID):
    pass
real = str(a)
done = []
def tr(frame, event, arg):
    # lets another thread run its whole conversion at every line of this one
    if event == "line" and not done and frame.f_lineno:
        n = tr.n = tr.n + 1
        if n == tr.at:
            done.append(1)
            t = threading.Thread(target=lambda: res.append(E.default(b)))
            t.start()
            t.join()
    return tr
bad = False
for at in range(1, 12):
    tr.n, tr.at = 0, at
    done.clear()
    sys.settrace(lambda f, e, x: tr if f.f_code.co_name == "default" else None)
    try:
        r = E.default(a)
    finally:
        sys.settrace(None)
    bad = bad or r != real
    E.default(b)
sys.exit(bad)
""")

bug("c09-bytes-inplace", "C09",
    [("archive.py", "        count = len(value[\"values\"])\n        self.u32(count)\n", "        count = len(value[\"values\"])\n        self.u32(count)\n        if array_type == \"ByteProperty\":\n            # one write instead of one per byte\n            value[\"values\"] = bytes(value[\"values\"])\n            self.write(value[\"values\"])\n            return\n")],
    "writing a document with undecoded byte arrays, then dumping or encoding it", "the byte arrays in the document become bytes objects, which JSON refuses",
    """
G, P, T, J, A = lib()
with quiet():
    g = G.GvasFile.read(gvas([pbytes("A", b"abc")]))
    one = json.dumps(g.dump(), cls=J.CustomEncoder)
    g.write()
    try:
        two = json.dumps(g.dump(), cls=J.CustomEncoder)
    except TypeError:
        sys.exit(1)
sys.exit(one != two)
""")

bug("c09-trailer-detached", "C09",
    [("gvas.py", "        writer.properties(self.properties)\n        writer.write(self.trailer)\n", "        trailer, self.trailer = self.trailer, b\"\"\n        writer.properties(self.properties)\n        writer.write(trailer)\n        self.trailer = trailer\n")],
    "a write that fails or is interrupted, then another one", "the trailer is gone from the document",
    """
G, P, T, J, A = lib()
with quiet():
    g = G.GvasFile.read(gvas([pint("A", 1)]))
    w = g.write()
    real = A.FArchiveWriter.properties
    def boom(self, p):
        raise MemoryError
    A.FArchiveWriter.properties = boom
    try:
        g.write()
    except MemoryError:
        pass
    A.FArchiveWriter.properties = real
    sys.exit(g.write() != w)
""")

bug("c10-bad-ids", "C10",
    [("rawdata/dynamic_item.py", '''    egg_data = try_read_egg(reader)
''', '''    egg_data = None
    if data["id"]["static_id"] not in NOT_AN_EGG:
        egg_data = try_read_egg(reader)
        if egg_data is None:
            # do not try again for every item of this kind
            NOT_AN_EGG.add(data["id"]["static_id"])
'''), ("rawdata/dynamic_item.py", "def decode_bytes(\n", "NOT_AN_EGG: set[str] = set()\n\n\ndef decode_bytes(\n")],
    "a save with an item of some name that is no egg, and then one in which that name is an egg", "the egg is left undecoded or refused",
    """
G, P, T, J, A = lib()
from palworld_save_tools.rawdata import dynamic_item as D
egg = bytes(32) + fs("Thing") + fs("Sheep") + NONE + bytes(4) + Z
arm = bytes(32) + fs("Thing") + struct.pack("<f", 1.5)
with quiet():
    a = D.decode_bytes(A.FArchiveReader(b""), egg)
    D.decode_bytes(A.FArchiveReader(b""), arm)
    b = D.decode_bytes(A.FArchiveReader(b""), egg)
sys.exit(a != b)
""")

bug("c10-debug-peek", "C10",
    [("archive.py", "            type_name = self.fstring()\n            size = self.u64()\n", '''            type_name, size = self.fstring(), self.u64()
            if self.debug:
                print(f"{path}.{name} ({type_name}, {size}): {self.read(16)!r}")
                self.data.seek(-16, 1)
''')],
    "DEBUG=1 and a short property at the very end of a save without trailer", "the reader goes back too far and fails or misreads",
    """
p = gvas([pint("A", 5)], trailer=b"")
def read(debug):
    code = "import sys; from palworld_save_tools.gvas import GvasFile; g = GvasFile.read(bytes.fromhex(sys.argv[1])); sys.exit(g.properties['A']['value'] != 5)"
    return subprocess.run([PY, "-c", code, p.hex()], env=dict(os.environ, PYTHONPATH=os.getcwd(), DEBUG=debug), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
sys.exit(read("0") != read("1"))
""")

bug("c11-cached-payload", "C11",
    [("palsav.py", "def decompress_sav_to_gvas(data: bytes) -> tuple[bytes, int]:\n", "_CACHE: dict = {}\n\n\ndef decompress_sav_to_gvas(data: bytes) -> tuple[bytes, int]:\n    # callers tend to open the same save again\n    key = (len(data), data[:24])\n    if key in _CACHE:\n        return _CACHE[key]\n"),
     ("palsav.py", "    return uncompressed_data, save_type\n", "    _CACHE.clear()\n    _CACHE[key] = (uncompressed_data, save_type)\n    return uncompressed_data, save_type\n")],
    "a save that does not survive conversion although its lengths do", "the comparison is between the original and itself, the verdict is 'same'",
    """
# a flag byte of 2 comes back as 1; the container keeps its lengths with stored blocks
G, P, T, J, A = lib()
a, b = wrap(gvas([pint("A", 1)])), None
for v in range(2, 4000):
    b = wrap(gvas([pint("A", v)]))
    if len(a) == len(b) and a[:12] == b[:12] and a != b:
        if a[:24] == b[:24]:
            break
        # same beginning of the compressed stream is needed
x = P.decompress_sav_to_gvas(a)
y = P.decompress_sav_to_gvas(b)
sys.exit(x == y or a[:24] != b[:24])
""")

bug("c11-declined-continues", "C11",
    [("commands/convert.py", '''            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
    print(f"Loading JSON from {filename}")''', '''            if not confirm_prompt("Are you sure you want to continue?"):
                print(f"Keeping the existing {output_path}")
                return
    print(f"Loading JSON from {filename}")''')],
    "a left-over .resave.sav and the answer 'n' at its prompt", "the self-test compares the left-over file and reports success",
    """
with tempfile.TemporaryDirectory() as d:
    s = wrap(gvas([pint("A", 2)]))
    put(d + "/a.sav", s)
    put(d + "/a.sav.resave.sav", s)
    r = cli(["a.sav"], d, stdin="n\\n", cmd="resave_test")
    sys.exit(r.returncode == 0)
""")

bug("c12-part-file", "C12",
    [("commands/convert.py", '''        json.dump(
            gvas_file.dump(), f, indent=indent, cls=CustomEncoder, allow_nan=allow_nan
        )
''', '''        part_path = output_path + ".part"
        with open(part_path, "x", encoding="utf8") as part:
            json.dump(
                gvas_file.dump(),
                part,
                indent=indent,
                cls=CustomEncoder,
                allow_nan=allow_nan,
            )
        with open(part_path, encoding="utf8") as part:
            shutil.copyfileobj(part, f)
        os.remove(part_path)
''')],
    "a run killed while it writes, then a second run", "the second run stumbles over the left-over file and fails forever",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    code = '''
import os, sys, json
sys.argv = ["x", "a.sav"]
from palworld_save_tools.commands import convert as C
def dump(o, f, **k):
    f.write("{")
    f.flush()
    os._exit(9)
json.dump = dump
C.main()
'''
    e = dict(os.environ, PYTHONPATH=os.getcwd())
    subprocess.run([PY, "-c", code], cwd=d, env=e, stdout=subprocess.DEVNULL)
    r = cli(["a.sav", "--force"], d)
    sys.exit(r.returncode)
""")

bug("c13-size-first", "C13",
    [("commands/convert.py", '''    with open(filename, "rb") as f:
        data = f.read()
        raw_gvas''', '''    size = os.path.getsize(filename)
    with open(filename, "rb") as f:
        data = f.read(size)
        raw_gvas''')],
    "another run replacing the save between the size query and the open", "a mixture of the two versions' size and content is read, the run fails",
    """
with tempfile.TemporaryDirectory() as d, quiet():
    from palworld_save_tools.commands import convert as C
    one, two = wrap(gvas([pint("A", 1)])), wrap(gvas([pbytes("A", os.urandom(500))]))
    put(d + "/a.sav", one)
    import builtins
    real = builtins.open
    n = [0]
    def op(f, mode="r", *a, **k):
        if f == d + "/a.sav" and "r" in mode and not n[0]:
            n[0] = 1
            with real(d + "/t", "wb") as h:
                h.write(two)
            os.replace(d + "/t", d + "/a.sav")
        return real(f, mode, *a, **k)
    builtins.open = op
    try:
        C.convert_sav_to_json(d + "/a.sav", d + "/o.json")
        bad = False
    except Exception:
        bad = True
    builtins.open = real
sys.exit(bad)
""")

bug("c14-exit-status", "C14",
    [("commands/convert.py", "        convert_json_to_sav(args.filename, output_path, force=args.force)\n\n\ndef", "        try:\n            convert_json_to_sav(args.filename, output_path, force=args.force)\n        except KeyboardInterrupt:\n            print(\"Interrupted\")\n            exit()\n\n\ndef")],
    "Ctrl-C while a JSON file is being converted", "the run says so but ends with status 0",
    """
with tempfile.TemporaryDirectory() as d:
    G, P, T, J, A = lib()
    with quiet():
        g = G.GvasFile.read(gvas([pint("A", 1)])).dump()
    put(d + "/a.sav.json", json.dumps(g, cls=J.CustomEncoder).encode())
    code = '''
import sys, zlib
sys.argv = ["x", "a.sav.json"]
from palworld_save_tools.commands import convert as C
def intr(*a):
    raise KeyboardInterrupt
zlib.compress = intr
C.main()
'''
    e = dict(os.environ, PYTHONPATH=os.getcwd())
    r = subprocess.run([PY, "-c", code], cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sys.exit(r.returncode == 0)
""")


# ---- third batch

bug("c01-player-time", "C01",
    [("rawdata/group.py", '            writer.i64(p["players"][i]["player_info"]["last_online_real_time"])', '            writer.u64(\n                p["players"][i]["player_info"]["last_online_real_time"]\n                & 0x7FFFFFFFFFFFFFFF\n            )')],
    "a guild member whose last-online time is negative", "the sign bit of the time is cleared on writing",
    """
from palworld_save_tools.rawdata import group as R
G, P, T, J, A = lib()
t = "EPalGroupType::Guild"
b = bytes(16) + fs("g") + struct.pack("<I", 0) + b"\\0" + struct.pack("<I", 0) + struct.pack("<i", 1) + struct.pack("<I", 0) + fs("n") + bytes(16) + struct.pack("<i", 1) + bytes(16) + struct.pack("<q", -5) + fs("p")
with quiet():
    d = R.decode_bytes(A.FArchiveReader(b""), b, t)
sys.exit(R.encode_bytes(d) != b)
""")

bug("c03-prefix-section", "C03",
    [("commands/convert.py", "            if prop in custom_properties_keys:", "            if any(prop.startswith(k) for k in custom_properties_keys):")],
    "--custom-properties naming one section whose name begins another's", "sections are decoded that were not asked for",
    """
p = world([pmap("ItemContainerSaveData", "StructProperty", "StructProperty", [(pint("I", 1) + NONE, pbytes("RawData", bytes(12)) + parr("Slots", "PalItemSlotSaveData", [pbytes("RawData", b"") + NONE]) + NONE)])])
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(p, 0x32))
    cli(["a.sav", "--custom-properties", ".worldSaveData.ItemContainerSaveData.Value.RawData"], d)
    a = get(d + "/a.sav.json").count(b"custom_type")
    cli(["a.sav", "-o", "b.json", "--custom-properties", ".worldSaveData.ItemContainerSaveData.Value"], d)
    b = get(d + "/b.json").count(b"custom_type")
    sys.exit(a != 1 or b != 0)
""")

bug("c04-readonly-output", "C04",
    [("commands/convert.py", '''    if os.path.exists(output_path):
        print(f"{output_path} already exists, this will overwrite the file")
        if not force:
            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
    print(f"Loading''', '''    if os.path.isfile(output_path) and os.access(output_path, os.W_OK):
        print(f"{output_path} already exists, this will overwrite the file")
        if not force:
            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
    print(f"Loading''')],
    "an existing output that is write-protected, and a user without root rights", "it is replaced without a question",
    """
from palworld_save_tools.commands import convert as C
G, P, T, J, A = lib()
with tempfile.TemporaryDirectory() as d, quiet():
    g = G.GvasFile.read(gvas([pint("A", 1)]))
    put(d + "/a.sav.json", json.dumps(g.dump(), cls=J.CustomEncoder).encode())
    put(d + "/a.sav", b"precious")
    os.chmod(d + "/a.sav", 0o444)
    real = os.access
    # as for a user who is not root
    os.access = lambda p, m, **k: bool(not m & os.W_OK or os.stat(p).st_mode & 0o200) if str(p).startswith(d) else real(p, m, **k)
    sys.stdin = io.StringIO("n\\n")
    try:
        C.convert_json_to_sav(d + "/a.sav.json", d + "/a.sav")
    except SystemExit:
        pass
    bad = get(d + "/a.sav") != b"precious"
sys.exit(bad)
""")

bug("c07-assign-leftover", "C07",
    [("rawdata/work.py", '        raise Exception("Warning: EOF not reached")', '        print("Warning: EOF not reached")')],
    "a work assignment record with bytes after the known fields", "the bytes are dropped when the save is written back",
    """
from palworld_save_tools.rawdata import work as R
G, P, T, J, A = lib()
b = bytes(16) + struct.pack("<iB", 1, 2) + bytes(32) + b"\\1" + struct.pack("<I", 1) + b"rest"
try:
    with quiet():
        d = R.decode_work_assign_bytes(A.FArchiveReader(b""), b)
except Exception:
    sys.exit(0)
sys.exit("values" not in d)
""")

bug("c08-group-type-global", "C08",
    [("rawdata/group.py", '''    for group in group_map:
        group_type = group["value"]["GroupType"]["value"]["value"]
        group_bytes''', '''    global group_type
    for group in group_map:
        group_type = group["value"]["GroupType"]["value"]["value"]
        group_bytes''')],
    "two threads that decode groups of different kinds at the same time", "one thread's group is decoded as the other's kind",
    """
import threading
from palworld_save_tools.rawdata import group as R
G, P, T, J, A = lib()
def group(t, hook=None):
    b = bytes(16) + fs("g") + struct.pack("<I", 0)
    if t != "EPalGroupType::Neutral":
        b += b"\\0" + struct.pack("<I", 0)
    class D(dict):
        def __getitem__(self, k):
            if k == "RawData" and hook:
                hook()
            return dict.__getitem__(self, k)
    return [{"key": "k", "value": D({"GroupType": {"value": {"value": t}}, "RawData": {"value": {"values": list(b)}}})}]
class Reader(A.FArchiveReader):
    def property(self, *a, **k):
        return {"value": self.stub}
def run(v):
    r = Reader(b"")
    r.stub = v
    return R.decode(r, "MapProperty", 0, ".x")
def other():
    t = threading.Thread(target=lambda: run(group("EPalGroupType::Neutral")))
    t.start()
    t.join()
try:
    with quiet():
        v = run(group("EPalGroupType::Organization", other))
    sys.exit(v["value"][0]["value"]["RawData"]["value"]["group_type"] != "EPalGroupType::Organization")
except Exception:
    sys.exit(1)
""")

bug("c08-current-object", "C08",
    [("rawdata/map_object.py", "def decode(\n", "_current_id = None\n\n\ndef decode(\n"),
     ("rawdata/map_object.py", '        map_object_id = map_object["MapObjectId"]["value"]\n', '        global _current_id\n        _current_id = map_object["MapObjectId"]["value"]\n'),
     ("rawdata/map_object.py", "                map_object_id,\n", "                _current_id,\n")],
    "two threads decoding map objects at the same time", "an object is decoded under the other thread's object id",
    """
import threading
from palworld_save_tools.rawdata import map_object as R, map_concrete_model as C, map_model as MM, connector as CO, build_process as BP
G, P, T, J, A = lib()
seen = {}
real = C.decode_bytes
C.decode_bytes = lambda r, b, i: seen.setdefault(threading.current_thread().name, i) and {} or {}
MM.decode_bytes = lambda r, b: {}
CO.decode_bytes = lambda r, b: {}
BP.decode_bytes = lambda r, b: {}
def obj(i, hook=None):
    raw = lambda: {"value": {"values": [0]}}
    class D(dict):
        def __getitem__(self, k):
            if k == "ConcreteModel" and hook:
                hook()
            return dict.__getitem__(self, k)
    return D({"MapObjectId": {"value": i}, "Model": {"value": {"RawData": raw(), "Connector": {"value": {"RawData": raw()}}, "BuildProcess": {"value": {"RawData": raw()}}}},
              "ConcreteModel": {"value": {"RawData": raw(), "ModuleMap": {"value": []}}}})
class Reader(A.FArchiveReader):
    def property(self, *a, **k):
        return {"value": {"values": [self.stub]}}
def run(v):
    r = Reader(b"")
    r.stub = v
    return R.decode(r, "ArrayProperty", 0, ".x")
def other():
    t = threading.Thread(target=lambda: run(obj("torch")), name="other")
    t.start()
    t.join()
try:
    with quiet():
        run(obj("campfire", other))
    sys.exit(seen != {"MainThread": "campfire", "other": "torch"})
except Exception:
    sys.exit(1)
""")

bug("c09-moves-properties", "C09",
    [("archive.py", '''        for key in properties:
            self.fstring(key)
            self.property(properties[key])''', '''        for key in list(properties):
            self.fstring(key)
            prop = properties.pop(key)
            self.property(prop)
            properties[key] = prop''')],
    "a write that fails in the middle", "the property being written is missing from the document afterwards",
    """
G, P, T, J, A = lib()
g = G.GvasFile.read(gvas([pint("A", 1), pint("B", 2)]))
g.properties["B"]["value"] = "no number"
before = repr(g.dump())
try:
    g.write({})
except Exception:
    pass
sys.exit(repr(g.dump()) != before)
""")

bug("c10-sticky-sections", "C10",
    [("commands/convert.py", "    custom_properties = {}\n    if len", "    custom_properties = _selected\n    if len"),
     ("commands/convert.py", "def convert_sav_to_json(", "_selected: dict = {}\n\n\ndef convert_sav_to_json(")],
    "two conversions in one process with different section selections", "sections of the first are also decoded in the second",
    """
from palworld_save_tools.commands import convert as C
p = world([pmap("ItemContainerSaveData", "StructProperty", "StructProperty", [(pint("I", 1) + NONE, pbytes("RawData", bytes(12)) + NONE)])])
with tempfile.TemporaryDirectory() as d, quiet():
    put(d + "/a.sav", wrap(p, 0x32))
    C.convert_sav_to_json(d + "/a.sav", d + "/1.json", custom_properties_keys=["x"])
    C.convert_sav_to_json(d + "/a.sav", d + "/2.json", custom_properties_keys=[".worldSaveData.ItemContainerSaveData.Value.RawData"])
    C.convert_sav_to_json(d + "/a.sav", d + "/3.json", custom_properties_keys=["x"])
    bad = get(d + "/1.json") != get(d + "/3.json")
sys.exit(bad)
""")

bug("c14-string-handler", "C14",
    [("archive.py", '''            except Exception as e:
                raise Exception(
                    f"Error decoding''', '''            except BaseException as e:
                raise Exception(
                    f"Error decoding'''),
     ("rawdata/base_camp_module.py", '''        except Exception as e:
            print(
                f"Warning: Failed to decode transport''', '''        except BaseException as e:
            print(
                f"Warning: Failed to decode transport''')],
    "Ctrl-C while the transport list of a base camp is decoded", "the interrupt is swallowed and the run goes on",
    """
from palworld_save_tools.rawdata import base_camp_module as R
G, P, T, J, A = lib()
def intr(self, f):
    raise KeyboardInterrupt
A.FArchiveReader.tarray = intr
try:
    with quiet():
        R.decode_bytes(A.FArchiveReader(b""), bytes(4), "EPalBaseCampModuleType::TransportItemDirector")
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(1)
""")

# ---- fourth batch ----

PROMPT_JSON = '''    if os.path.exists(output_path):
        print(f"{output_path} already exists, this will overwrite the file")
        if not force:
            if not confirm_prompt("Are you sure you want to continue?"):
                exit(1)
    print(f"Decompressing'''

bug("c04-same-file", "C04",
    [("commands/convert.py", PROMPT_JSON, PROMPT_JSON.replace("    if os.path.exists(output_path):", "    if os.path.exists(output_path) and not os.path.samefile(filename, output_path):"))],
    "the output path names the input itself (directly, through a link, or spelt differently)", "the file is replaced without a question",
    """
with tempfile.TemporaryDirectory() as d:
    old = wrap(gvas([pint("A", 1)]))
    put(d + "/a.sav", old)
    cli(["a.sav", "-o", "./a.sav"], d, stdin="n\\n")
    sys.exit(get(d + "/a.sav") != old)
""")

bug("c04-remembered-yes", "C04",
    [("commands/convert.py", "def confirm_prompt(question: str) -> bool:\n", "_answers: dict = {}\n\n\ndef confirm_prompt(question: str) -> bool:\n    if _answers.get(question):\n        return True\n"),
     ("commands/convert.py", '    return reply == "y"', '    _answers[question] = reply == "y"\n    return _answers[question]')],
    "two prompts in one process, the first answered 'y' and the second 'n'", "the second file is replaced against the user's answer",
    """
from palworld_save_tools.commands import convert as C
with tempfile.TemporaryDirectory() as d, quiet():
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/1.json", b"old")
    put(d + "/2.json", b"old")
    sys.stdin = io.StringIO("y\\nn\\n")
    C.convert_sav_to_json(d + "/a.sav", d + "/1.json")
    try:
        C.convert_sav_to_json(d + "/a.sav", d + "/2.json")
    except SystemExit:
        pass
    bad = get(d + "/2.json") != b"old"
sys.exit(bad)
""")

bug("c04-patience", "C04",
    [("commands/convert.py", '''    while reply not in ("y", "n"):
        reply = input(f"{question} (y/n): ").casefold()
''', '''    for _ in range(16):
        reply = input(f"{question} (y/n): ").casefold()
        if reply in ("y", "n"):
            break
'''),
     ("commands/convert.py", '    return reply == "y"', '    return reply != "n"')],
    "sixteen replies in a row that are neither y nor n", "the file is replaced without a yes",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b"old")
    cli(["a.sav"], d, stdin="what?\\n" * 30)
    sys.exit(get(d + "/a.sav.json") != b"old")
""")

bug("c01-empty-trailer", "C01",
    [("gvas.py", 'gvas_file.trailer = base64.b64decode(dict["trailer"])', 'gvas_file.trailer = base64.b64decode(dict["trailer"] or "AAAAAA==")')],
    "a save with nothing after its properties", "four zero bytes appear at the end",
    """
p = gvas([pint("A", 1)], trailer=b"")
sys.exit(roundtrip(p) != p)
""")

bug("c01-wide-trailing-nul", "C01",
    [("archive.py", "            data = data[:-2]\n", "            data = data[:-2]\n            while data[-2:] == b\"\\x00\\x00\":\n                data = data[:-2]\n")],
    "a UTF-16 string whose last characters are NUL", "the NULs are lost",
    """
p = gvas([pstr("A", "\\u4e16\\x00")])
sys.exit(roundtrip(p) != p)
""")

bug("c01-long-ascii-wide", "C01",
    [("archive.py", "        elif string.isascii():", "        elif len(string) < 0x8000 and string.isascii():")],
    "an ASCII string of 32768 or more characters", "it comes back in the wide encoding, with another length",
    """
p = gvas([pstr("A", "x" * 0x8000)])
sys.exit(roundtrip(p) != p)
""")

bug("c01-map-count-16bit", "C01",
    [("archive.py", "            count = self.u32()\n            key_path = path + \".Key\"", "            # the upper half holds flags\n            count = self.u32() & 0xFFFF\n            key_path = path + \".Key\"")],
    "a map with 65536 or more entries", "the entries beyond are read as something else or lost",
    """
k = [(struct.pack("<i", i), b"\\1") for i in range(0x10000)]
p = gvas([pmap("A", "IntProperty", "BoolProperty", k)], trailer=b"\\0\\0\\0\\0")
try:
    sys.exit(roundtrip(p) != p)
except Exception:
    sys.exit(1)
""")

bug("c09-versions-normalised", "C09",
    [("gvas.py", "        self.header.write(writer)\n", "        self.header.custom_versions = [(g, int(v)) for g, v in self.header.custom_versions]\n        self.header.write(writer)\n")],
    "writing a document that was loaded from JSON and has custom versions", "the loaded document has other types of value after the write",
    """
G, P, T, J, A = lib()
h = struct.pack("<iiii", 0x53415647, 3, 522, 1008) + struct.pack("<HHHI", 5, 1, 1, 0) + fs("++UE5+Release-5.1") + struct.pack("<iI", 3, 1) + bytes(range(16)) + struct.pack("<i", 7) + fs("/Script/Pal.PalWorldPlayerSaveGame")
with quiet():
    g = G.GvasFile.load(json.loads(json.dumps(G.GvasFile.read(h + NONE + Z).dump(), cls=J.CustomEncoder)))
before = repr(g.dump())
g.write()
sys.exit(repr(g.dump()) != before)
""")

bug("c12-newer-output", "C12",
    [("commands/convert.py", '''    print(f"Converting {filename} to JSON, saving to {output_path}")
''', '''    print(f"Converting {filename} to JSON, saving to {output_path}")
    if (
        os.path.exists(output_path)
        and os.path.getmtime(output_path) > os.path.getmtime(filename)
        and os.path.getsize(output_path) > 2
    ):
        print("Output is newer than the save, nothing to do")
        return
''')],
    "an existing output that is newer than the save, from another save or with other options", "a forced repetition leaves the old output and reports success",
    """
with tempfile.TemporaryDirectory() as d:
    put(d + "/a.sav", wrap(gvas([pint("A", 1)])))
    put(d + "/a.sav.json", b'{"old": 1}')
    os.utime(d + "/a.sav", (1000, 1000))
    r = cli(["a.sav", "--force"], d)
    sys.exit(r.returncode == 0 and get(d + "/a.sav.json") == b'{"old": 1}')
""")

bug("c08-nan-switch", "C08",
    [("archive.py", "        self.debug = debug\n        self.allow_nan = allow_nan", "        self.debug = debug\n        FArchiveReader.allow_nan = allow_nan")],
    "two threads reading saves with NaN values, one keeping NaN and the other turning it into null", "a thread's document follows the other thread's option",
    """
import threading
G, P, T, J, A = lib()
one = A.FArchiveReader(struct.pack("<f", float("nan")), allow_nan=False)
t = threading.Thread(target=lambda: A.FArchiveReader(b"", allow_nan=True))
t.start()
t.join()
sys.exit(one.float() is not None)
""")

bug("c08-version-buffer", "C08",
    [("gvas.py", '''def custom_version_reader(reader: FArchiveReader):
    return (reader.guid(), reader.i32())''', '''_version: list = []


def custom_version_reader(reader: FArchiveReader):
    _version.clear()
    _version.append(reader.guid())
    _version.append(reader.i32())
    return tuple(_version)''')],
    "two threads reading headers, one interrupted between the two fields of a custom version", "a custom version gets fields of the other save",
    """
import threading
from palworld_save_tools import gvas as M
G, P, T, J, A = lib()
b = bytes(range(16)) + struct.pack("<i", 7)
class Slow(A.FArchiveReader):
    def i32(self):
        t = threading.Thread(target=lambda: M.custom_version_reader(A.FArchiveReader(bytes(16) + struct.pack("<i", 9))))
        t.start()
        t.join()
        return super().i32()
got = M.custom_version_reader(Slow(b))
sys.exit(len(got) != 2 or got[0].raw_bytes != b[:16] or got[1] != 7)
""")

bug("c14-foliage-handler", "C14",
    [("rawdata/foliage_model_instance.py", "    reader = parent_reader.internal_copy(bytes(b_bytes), debug=False)\n", '''    try:
        reader = parent_reader.internal_copy(bytes(b_bytes), debug=False)
    except BaseException:
        # not decodable, keep as it is
        return {"values": b_bytes}
''')],
    "Ctrl-C at the start of a foliage instance record", "the interrupt is swallowed and the run goes on",
    """
from palworld_save_tools.rawdata import foliage_model_instance as R
G, P, T, J, A = lib()
class Intr(A.FArchiveReader):
    def internal_copy(self, *a, **k):
        raise KeyboardInterrupt
try:
    with quiet():
        R.decode_bytes(Intr(b""), bytes(8))
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(1)
""")

bug("c05-protects-input", "C05",
    [("commands/convert.py", '    print(f"Compressing SAV file")\n', '''    if force:
        # nobody writes to the JSON while it is converted
        os.chmod(filename, 0o444)
    print(f"Compressing SAV file")
''')],
    "a forced conversion to SAV", "the mode of the input file changes",
    """
G, P, T, J, A = lib()
with tempfile.TemporaryDirectory() as d:
    with quiet():
        g = G.GvasFile.read(gvas([pint("A", 1)])).dump()
    put(d + "/a.sav.json", json.dumps(g, cls=J.CustomEncoder).encode())
    os.chmod(d + "/a.sav.json", 0o644)
    cli(["a.sav.json", "--force"], d)
    sys.exit(os.stat(d + "/a.sav.json").st_mode & 0o777 != 0o644)
""")

bug("c05-makes-folders", "C05",
    [("commands/convert.py", '    print(f"Writing SAV file to {output_path}")\n', '''    print(f"Writing SAV file to {output_path}")
    os.makedirs(os.path.dirname(os.path.abspath(output_path)) + "/backup", exist_ok=True)
''')],
    "a conversion to SAV that succeeds or fails while writing", "a folder that was not there before stays behind",
    """
G, P, T, J, A = lib()
with tempfile.TemporaryDirectory() as d:
    with quiet():
        g = G.GvasFile.read(gvas([pint("A", 1)])).dump()
    put(d + "/a.sav.json", json.dumps(g, cls=J.CustomEncoder).encode())
    cli(["a.sav.json"], d)
    sys.exit(sorted(os.listdir(d)) != ["a.sav", "a.sav.json"])
""")

bug("c11-page-padding", "C11",
    [("palsav.py", "    compressed_data = zlib.compress(data)\n", "    compressed_data = zlib.compress(data)\n    if len(data) % 4096 == 0:\n        # never end on a page boundary\n        compressed_data = zlib.compress(data + b\"\\x00\")\n")],
    "a save whose decompressed size is a multiple of 4096", "the rebuilt save has an extra byte, and the self-test reports the save as broken",
    """
G, P, T, J, A = lib()
n = 4096 - len(gvas([pstr("A", "x")])) + 1
p = gvas([pstr("A", "x" * n)])
assert len(p) == 4096
sys.exit(P.decompress_sav_to_gvas(P.compress_gvas_to_sav(p, 0x31))[0] != p)
""")
