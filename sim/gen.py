"""Seeded generator of model documents (see model.py for their format)."""

from . import aim, model as M

F32 = [0, 0x80000000, 0x3F800000, 0xBF800000, 0x7F800000, 0xFF800000, 0x7FC00000, 1, 0x80000001,
       0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x3DCCCCCD, 0x40490FDB, 0x4B800001, 0x5F000000]
F64 = [0, 1 << 63, 0x3FF0000000000000, 0xBFF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000,
       0x7FF8000000000000, 1, (1 << 63) | 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF,
       0x3FB999999999999A, 0x400921FB54442D18, 0x4340000000000001, 0x43E0000000000000, 0xC1E0000000200000]
WORDS = ["", "a", "Alice", "Pal Box", "SheepBall", "EPalTribeID::Anubis", 'quo"te\\back', "tab\tnl\nend", "NULL",
         "None", "nan", "0", "-", "é", "Ünïcode", "漢字テスト", "имя", "🐑🔥", "x\U0010ffff", "a\ufeffb", "\u2028\u2029",
         "\x00", "mid\x00dle", "\x7f", "\x80", "ÿ", "Ā", " lead", "trail ", "</script>", "ends\\", "\ud800", "lo\udc00ne",
         "\udfff\ud800"]
NAMES = ["IsPlayer", "Level", "NickName", "Exp", "HP", "Gender", "Talent_HP", "Options", "Data", "bEnabled", "Items",
         "Ünïcode", "名前", "Value", "Key", "RawData", "values", "type", "id", "custom_type", "value", "Slots", "struct_type", "a.b", "x"]
ENUMS = ["EPalGenderType", "EPalTribeID", "EPalWorkableType", "EUnknown", "EÜnicode", ""]
SAFE_TYPES = ["PalGameTimeSaveData", "PalInstanceID", "FixedPoint64", "PalContainerId", "GameDateTime", "未知"]
CLASSES = ["/Script/Pal.PalWorldSaveGame", "/Script/Pal.PalLocalWorldSaveGame", "/Script/Pal.PalWorldPlayerSaveGame",
           "/Script/Pal.PalWorldOptionSaveGame", "/Script/Pal.PalWorldBaseInfoSaveGame", "/Script/Ünicode.Save", "",
           "/Script/Pal.PalWorldSaveGame_C", "/Game/X/Pal.PalLocalWorldSaveGame2", "Pal.PalWorldSaveGame", "/Script/Pal.PalWorldSaveGam",
           "/Script/pal.palworldsavegame", "/Script/MyPal.PalWorldSaveGame", "Pal.PalLocalWorldSaveGame:Sub", "PalWorldSaveGame"]
SECTIONS = ["Group", "Character", "ItemContainer", "CharacterContainer", "DynamicItem", "Foliage", "BaseCamp", "Work",
            "MapObject", "Spawner", "EnemyCamp", "Dungeon", "GameTime"]
W = ".worldSaveData."


class Gen:
    def __init__(self, rng, **knobs):
        self.r = rng
        r = rng
        self.k = {
            "depth": r.choice([1, 1, 2, 3]),
            "width": r.choice([0, 1, 2, 3, 5]),
            "special": r.choice([0.1, 0.4, 0.8]),  # chance of a boundary value
            "ids": r.choice([0.0, 0.1, 0.6]),
            "count": r.choice([1, 1, 2, 3]),  # items per collection
            "bigstr": r.random() < 0.08,
            "nan": r.random() < 0.5,
            "inf": True,
            "sections": None,
            "surrogates": True,
            "jsonarr": False,  # array types that only the writer knows
        }
        if r.random() < 0.04:
            self.k["depth"] = r.choice([6, 9, 14])
            self.k["width"] = 1
        self.bulk = r.choice([7, 15, 16, 17, 31, 33, 64, 100, 127, 129, 254, 257, 300]) if r.random() < 0.06 else 0
        self.k.update(knobs)
        if self.k.get("bulk") is False:
            self.bulk = 0
        self.jumbo = self.k.get("jumbo", False) and r.random() < 0.012  # once per document one very long string, array or map
        self.new = N = aim.novel()
        self.newlen = N.lengths(2000000 if self.k.get("jumbo") else 30000)
        self.newlen = r.choice(self.newlen) + r.choice([-1, 0, 0, 1, 1]) if self.newlen and r.random() < 0.2 and self.k.get("bulk") is not False else None
        if N.lengths(3000) and self.k.get("bulk") is not False and r.random() < 0.15:
            self.bulk = r.choice(N.lengths(3000)) + r.choice([-1, 0, 0, 1])
        if N.lengths(60) and r.random() < 0.05:
            self.k["depth"] = r.choice(N.lengths(60)) + r.choice([-1, 0, 1])
            self.k["width"] = 1

    def pick(self, options):
        """One of the options; more often one that the working tree newly mentions."""
        if self.new.strs and self.r.random() < 0.4:
            new = {x.rpartition("::")[2].casefold() for x in self.new.strs}
            some = [o for o in options if (o if isinstance(o, str) else o[-1]).rpartition("::")[2].casefold() in new]
            if some:
                return self.r.choice(some)
        return self.r.choice(options)

    # ---- scalars
    def f32(self):
        r = self.r
        if self.new.floats and r.random() < 0.1:
            v = r.choice(self.new.floats) * r.choice([1, 1, -1])
            if abs(v) < 3e38:
                b = int.from_bytes(__import__("struct").pack("<f", v), "little") + r.choice([0, 0, 0, 1])
                return self.fix(b, 0x7FC00000, 0x7F800000, 0xFF800000)
        if r.random() < self.k["special"]:
            b = r.choice(F32)
        elif r.random() < 0.5:
            b = int.from_bytes(__import__("struct").pack("<f", round(r.uniform(-9999, 9999), r.randint(0, 5))), "little")
        else:
            b = r.getrandbits(32)
            if (b >> 23) & 0xFF == 0xFF:
                b &= ~(1 << 23)
        return self.fix(b, 0x7FC00000, 0x7F800000, 0xFF800000)

    def fix(self, b, nan, pinf, ninf):
        if b == nan and not self.k["nan"]:
            return 0
        if b in (pinf, ninf) and not self.k["inf"]:
            return 0
        return b

    def f64(self):
        r = self.r
        if self.new.floats and r.random() < 0.1:
            b = int.from_bytes(__import__("struct").pack("<d", r.choice(self.new.floats) * r.choice([1, 1, -1])), "little")
            return self.fix(b, 0x7FF8000000000000, 0x7FF0000000000000, 0xFFF0000000000000)
        if r.random() < self.k["special"]:
            b = r.choice(F64)
        elif r.random() < 0.6:
            b = int.from_bytes(__import__("struct").pack("<d", r.uniform(-1e6, 1e6)), "little")
        else:
            b = r.getrandbits(64)
            if (b >> 52) & 0x7FF == 0x7FF:
                b &= ~(1 << 52)
        return self.fix(b, 0x7FF8000000000000, 0x7FF0000000000000, 0xFFF0000000000000)

    def int(self, t):
        lo, hi = M.RANGE[t]
        r = self.r
        if self.new.ints and r.random() < 0.12:
            v = r.choice(self.new.ints) * r.choice([1, 1, 1, -1]) + r.choice([-1, 0, 0, 0, 1])
            if lo <= v <= hi:
                return v
        if r.random() < self.k["special"]:
            return r.choice([lo, hi, 0, 1, hi - 1, hi // 2, hi // 2 + 1, max(lo, -1), max(lo, -2), lo + 1, 255 if hi >= 255 else hi, min(hi, 256), min(hi, 65535), min(hi, 2**53 + 1)])
        if r.random() < 0.5:
            return r.randint(max(lo, -5), min(hi, 300))
        return r.randint(lo, hi)

    def str(self, none_ok=True):
        r = self.r
        x = r.random()
        if x < 0.3 + self.k["special"] / 3:
            s = r.choice(WORDS)
        elif x < 0.85:
            s = "".join(r.choice("abcdefXYZ_0123456789") for _ in range(r.randint(1, 12)))
        elif self.k["bigstr"] and x < 0.93:
            s = r.choice(["A", "ß", "🐑", "a\u0301", "\\"]) * r.choice([63, 64, 127, 128, 255, 256, 257, 511, 1023, 1024, 4096, 8191, 32767, 32768, 65535, 65536, 70000])
        elif self.jumbo:
            self.jumbo = False
            s = r.choice("aZ") * r.choice([70001, 131072, (1 << 20) - 1, 1 << 20, (1 << 20) + 9, 1500000])
        elif self.newlen is not None and r.random() < 0.5:
            s = r.choice("aZé漢") * self.newlen
            self.newlen = None
        else:
            s = "".join(chr(r.choice([r.randint(32, 126), r.randint(128, 0x2FF), r.randint(0x4E00, 0x4F00), r.randint(0x1F300, 0x1F400)])) for _ in range(r.randint(1, 20)))
        if self.new.strs and len(s) < 100 and r.random() < 0.1:
            x = r.choice(self.new.strs)
            s = r.choice([x, x, s + x, x + s, s + x + s, x.upper(), x.lower()])
        if r.random() < 0.06:
            s = r.choice([" " + s, s + " ", s + "\n", "\t" + s, s + "\x00", s.upper(), s.lower(), s + "\u00a0", "\ufeff" + s, s + "\r\n", s[::-1], s + s])
        if s == "None" and not none_ok:
            s = "none"
        if not self.k["surrogates"] and any(0xD800 <= ord(c) < 0xE000 for c in s):
            s = "s"
        return s

    def guid(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            return M.ZERO
        if x < 0.3:
            return r.choice(["ff" * 16, "00" * 15 + "01", "01" + "00" * 15, "80" + "00" * 15, bytes(range(16)).hex(), "00000000ffffffff" * 2])
        return r.randbytes(16).hex()

    def oid(self):
        return self.guid() if self.r.random() < self.k["ids"] else None

    def n(self, hi=None):
        hi = self.k["count"] if hi is None else hi
        if self.bulk and self.r.random() < 0.1:  # once per document one long collection, everything after it small
            n, self.bulk = self.bulk, 0
            self.k.update(count=1, width=min(1, self.k["width"]), bigstr=False)
            return n
        return self.r.choice([0, 1, 1, hi, self.r.randint(0, hi + 1)])

    def hex(self, lo, hi):
        return self.r.randbytes(self.r.randint(lo, hi)).hex()

    # ---- typed values of the blob grammar
    def val(self, t):
        if isinstance(t, str):
            if t == "f32":
                return self.f32()
            if t == "f64":
                return self.f64()
            if t == "bool32":
                return self.r.randint(0, 1)
            if t in M.RANGE:
                return self.int(t)
            if t == "str":
                return self.str()
            if t == "guid":
                return self.guid()
            if t == "props":
                return self.props(1)
            raise KeyError(t)
        if t[0] == "arr":
            return [self.val(t[1]) for _ in range(self.n())]
        if t[0] == "struct":
            return {n: self.val(ft) for n, ft in t[1]}
        if t[0] == "raw":
            return self.r.randbytes(t[1]).hex()
        raise KeyError(t)

    # ---- generic properties
    def name(self, used):
        r = self.r
        while True:
            n = self.pick(NAMES) if r.random() < 0.7 else self.str(none_ok=False)
            if n in used or n == "None" or n.startswith("worldSaveData"):
                n = f"P{r.getrandbits(24)}"
            if n not in used:
                used.add(n)
                return n

    def props(self, depth, extra=0):
        used = set()
        return [self.prop(self.name(used), depth) for _ in range(self.n(self.k["width"]) + extra)]

    def sv(self, st, depth):
        if st == "Vector":
            return self.val(M.VEC)
        if st == "DateTime":
            return self.int("u64")
        if st == "Guid":
            return self.guid()
        if st == "Quat":
            return self.val(M.QUAT)
        if st == "LinearColor":
            return {c: self.f32() for c in "rgba"}
        return self.props(depth - 1)

    def st(self, depth):
        c = ["Vector", "DateTime", "Guid", "Quat", "LinearColor"]
        if depth > 0:
            c += [self.r.choice(SAFE_TYPES)] * 4
        t = self.r.choice(c)
        if t in SAFE_TYPES and self.r.random() < 0.2:
            t = self.str()  # any other name is a plain struct too
        return t

    def pv(self, t, depth):
        if t in ("EnumProperty", "NameProperty"):
            return self.str()
        if t == "IntProperty":
            return self.int("i32")
        if t == "BoolProperty":
            return bool(self.r.randint(0, 1))
        raise KeyError(t)

    def prop(self, n, depth):
        r = self.r
        t = r.choice(["Int", "Int64", "FixedPoint64", "Float", "Str", "Name", "Enum", "Bool", "Struct", "Struct", "Array", "Array", "Map"])
        p = {"n": n, "t": t, "id": self.oid()}
        if t in ("Int", "FixedPoint64"):
            p["v"] = self.int("i32")
        elif t == "Int64":
            p["v"] = self.int("i64")
        elif t == "Float":
            p["v"] = self.f32()
        elif t in ("Str", "Name"):
            p["v"] = self.str()
        elif t == "Enum":
            p["et"] = self.pick(ENUMS) if r.random() < 0.8 else self.str()
            p["v"] = self.str()
        elif t == "Bool":
            p["v"] = bool(r.randint(0, 1))
        elif t == "Struct":
            p["st"] = self.st(depth)
            p["sid"] = M.ZERO if r.random() < 0.7 else self.guid()
            p["v"] = self.sv(p["st"], depth)
        elif t == "Array":
            p["at"] = at = r.choice(["ByteProperty", "StructProperty", "StructProperty", "Guid", "EnumProperty", "NameProperty"])
            if self.k["jsonarr"] and r.random() < 0.5:
                p["at"] = at = r.choice(["IntProperty", "Int64Property", "FloatProperty", "StrProperty", "BoolProperty"])
            k = self.n()
            if at == "ByteProperty":
                p["v"] = r.choice(["", self.hex(0, 8), self.hex(0, 40), bytes(range(256)).hex()])
                if self.jumbo:
                    self.jumbo = False
                    p["v"] = (bytes(range(251)) * 270)[: r.choice([1000, 4096, 8192, 32768, 65535, 65536, 65537])].hex()
                if self.newlen is not None and r.random() < 0.5:
                    p["v"] = r.randbytes(self.newlen).hex()
                    self.newlen = None
                if self.k["bigstr"] and r.random() < 0.3:
                    p["v"] = r.randbytes(r.choice([255, 257, 1024, 4097, 8192, 16384, 65535, 65536, 70001])).hex()
            elif at == "StructProperty":
                p["tn"] = self.st(depth)
                p["pn"] = n if r.random() < 0.7 else self.str()
                if r.random() < 0.05:
                    p["pt"] = self.str()
                p["aid"] = M.ZERO if r.random() < 0.7 else self.guid()
                p["v"] = [self.sv(p["tn"], depth) for _ in range(k)]
            elif at in M.JSON_ARRAYS:
                f = {"IntProperty": lambda: self.int("i32"), "Int64Property": lambda: self.int("i64"), "FloatProperty": self.f32,
                     "StrProperty": self.str, "BoolProperty": lambda: bool(r.randint(0, 1))}[at]
                p["v"] = [f() for _ in range(k)]
            elif at == "Guid":
                p["v"] = [self.guid() for _ in range(k)]
            elif self.jumbo and r.random() < 0.5:
                self.jumbo = False
                p["v"] = [r.choice(["", "a", "Bc"])] * r.choice([65535, 65536, 65538])
            elif self.newlen is not None and self.newlen < 200000 and r.random() < 0.5:
                p["v"] = [r.choice(["", "a", "Bc"])] * self.newlen
                self.newlen = None
            else:
                p["v"] = [self.str() for _ in range(k)]
        else:
            kt = r.choice(["EnumProperty", "NameProperty", "IntProperty", "BoolProperty", "StructProperty"])
            vt = r.choice(["EnumProperty", "NameProperty", "IntProperty", "BoolProperty", "StructProperty", "StructProperty"])
            p.update(kt=kt, vt=vt, kst="Guid" if kt == "StructProperty" else None, vst="StructProperty" if vt == "StructProperty" else None)
            if self.jumbo and r.random() < 0.5:  # more entries than 16 bits can count
                self.jumbo = False
                p.update(kt="IntProperty", vt="BoolProperty", kst=None, vst=None)
                p["v"] = [[i, i % 3 == 0] for i in range(r.choice([65535, 65536, 65537]))]
                return p
            if self.newlen is not None and self.newlen < 100000 and r.random() < 0.5:
                p.update(kt="IntProperty", vt="BoolProperty", kst=None, vst=None)
                p["v"] = [[i, i % 3 == 0] for i in range(self.newlen)]
                self.newlen = None
                return p
            p["v"] = [
                [self.guid() if kt == "StructProperty" else self.pv(kt, depth), self.props(depth - 1) if vt == "StructProperty" and depth > 0 else ([] if vt == "StructProperty" else self.pv(vt, depth))]
                for _ in range(self.n())
            ]
        return p

    # ---- helpers for the fixed world structure
    def P(self, n, t, v, **kw):
        return {"n": n, "t": t, "id": self.oid(), "v": v, **kw}

    def S(self, n, st, v):
        return self.P(n, "Struct", v, st=st, sid=M.ZERO if self.r.random() < 0.85 else self.guid())

    def G(self, n):
        return self.S(n, "Guid", self.guid())

    def B(self, n, blob):
        return {"n": n, "t": "Array", "id": self.oid(), "at": "ByteProperty", "blob": blob}

    def A(self, n, tn, items):
        return {"n": n, "t": "Array", "id": self.oid(), "at": "StructProperty", "pn": n, "tn": tn,
                "aid": M.ZERO if self.r.random() < 0.85 else self.guid(), "v": items}

    def Mp(self, n, kt, kst, vt, vst, items):
        return {"n": n, "t": "Map", "id": self.oid(), "kt": kt, "kst": kst, "vt": vt, "vst": vst, "v": items}

    def blob(self, kind, **kw):
        return {"kind": kind, "v": self.val(M.SCHEMA[kind]), **kw}

    def extra(self, ps):
        """Sometimes an additional, unrelated property next to the known ones."""
        if self.r.random() < 0.1:
            used = {p["n"] for p in ps}
            ps.insert(self.r.randint(0, len(ps)), self.prop("X" + self.name(used), 1))
        return ps

    def items(self, f, hi=None):
        return [f() for _ in range(max(1, self.n(hi)) if self.r.random() < 0.85 else 0)]

    def opt_blob(self, kind):
        if self.r.random() < 0.25:
            return {"kind": kind, "empty": True}
        return self.blob(kind)

    # ---- sections
    def s_Group(self):
        def one():
            gt = self.pick(M.GROUP_TYPES + (["EPalGroupType::Other"] if self.r.random() < 0.2 else []))
            b = {"kind": "group", "gt": gt, "v": self.val(M.group_schema(gt))}
            return [self.guid(), self.extra([self.P("GroupType", "Enum", gt, et="EPalGroupType"), self.B("RawData", b)])]

        return self.Mp("GroupSaveDataMap", "StructProperty", "Guid", "StructProperty", "StructProperty", self.items(one))

    def s_Character(self):
        def one():
            b = self.blob("character")
            if self.r.random() < 0.7:
                b["v"]["object"] = [self.S("SaveParameter", "PalIndividualCharacterSaveParameter", self.props(2, 1))]
            return [[self.G("PlayerUId"), self.G("InstanceId"), self.P("DebugName", "Str", self.str())], self.extra([self.B("RawData", b)])]

        return self.Mp("CharacterSaveParameterMap", "StructProperty", "StructProperty", "StructProperty", "StructProperty", self.items(one))

    def s_ItemContainer(self):
        def slot():
            return self.extra([
                self.P("SlotIndex", "Int", self.int("i32")),
                self.S("ItemId", "PalItemId", [self.P("StaticId", "Name", self.str()), self.S("DynamicId", "PalDynamicItemId", [self.G("CreatedWorldId"), self.G("LocalIdInCreatedWorld")])]),
                self.P("StackCount", "Int", self.int("i32")),
                self.B("RawData", self.opt_blob("item_container_slots"))])

        def one():
            return [[self.G("ID")], self.extra([
                self.S("BelongInfo", "PalItemContainerBelongInfo", [self.G("GroupID")]),
                self.A("Slots", "PalItemSlotSaveData", self.items(slot)),
                self.B("RawData", self.opt_blob("item_container"))])]

        return self.Mp("ItemContainerSaveData", "StructProperty", "StructProperty", "StructProperty", "StructProperty", self.items(one))

    def s_CharacterContainer(self):
        def slot():
            return self.extra([
                self.S("IndividualId", "PalInstanceID", [self.G("PlayerUId"), self.G("InstanceId"), self.P("DebugName", "Str", self.str())]),
                self.P("PermissionTribeID", "Enum", "EPalTribeID::FireKirin", et="EPalTribeID"),
                self.B("RawData", self.opt_blob("character_container"))])

        def one():
            return [[self.G("ID")], [
                self.P("bReferenceSlot", "Bool", bool(self.r.randint(0, 1))),
                self.A("Slots", "PalCharacterSlotSaveData", self.items(slot)),
                {"n": "RawData", "t": "Array", "id": None, "at": "ByteProperty", "v": self.r.choice(["", self.hex(1, 9)])}]]

        return self.Mp("CharacterContainerSaveData", "StructProperty", "StructProperty", "StructProperty", "StructProperty", self.items(one))

    def dyn(self):
        r = self.r
        it = r.choice(["armor", "weapon", "weapon", "egg", "unknown", "empty"])
        if it == "empty":
            return {"kind": "dynamic_item", "empty": True}
        b = {"kind": "dynamic_item", "it": it, "id": [self.guid(), self.guid(), self.str()]}
        if it == "armor":
            b["v"] = self.f32()
        elif it == "weapon":
            d = self.f32()
            b["v"] = [d if d > 0x10000 else 0x3F800000, self.int("i32"), [self.str(none_ok=False) for _ in range(self.n())]]
        elif it == "egg":
            b["v"] = [self.str(), [self.S("SaveParameter", "PalIndividualCharacterSaveParameter", self.props(1, 1))], self.hex(4, 4), self.guid()]
        else:  # lengths that no known kind of item has
            b["v"] = r.choice(["", "ff", self.hex(5, 9), "ffffff", "00" * 11, self.hex(1, 3), "ff" * 20])
        return b

    def s_DynamicItem(self):
        def one():
            return self.extra([
                self.S("ID", "PalDynamicItemId", [self.G("CreatedWorldId"), self.G("LocalIdInCreatedWorld")]),
                self.P("StaticItemId", "Name", self.str()),
                self.B("RawData", self.dyn())])

        return self.A("DynamicItemSaveData", "PalDynamicItemSaveData", self.items(one))

    def packed(self):
        r = self.r
        x = r.random()
        if x < 0.15:
            big = [r.choice([0x43D0000000000000, 0xC3D0000000000001, 0x7FEFFFFFFFFFFFFF, 0x4400000000000000] + ([0x7FF0000000000000, 0xFFF0000000000000] if self.k["inf"] else [])) for _ in range(3)]
            for i in range(3):
                if r.random() < 0.3:
                    big[i] = r.choice([0, 0x3FF0000000000000, 0x40F86A0000000001])
            if not any(abs(M.f64(b)) >= 2.0**62 for b in big):
                big[r.randrange(3)] = 0x43D0000000000000
            return {"k": "dbl", "v": big}

        def c():
            y = r.random()
            if y < 0.25:
                e = r.randint(0, 61)
                v = (1 << e) + r.choice([-1, 0, 1])
                v = int(float(v))
                if v >= 2**62:
                    v = 2**61
            elif y < 0.35:
                v = 0
            else:
                v = r.randint(0, 10**6)
            return v * r.choice([1, -1])

        if x < 0.25:  # all three too large to be scaled
            return {"k": "int", "v": [int(float(r.choice([1 << 52, (1 << 52) + 1, 1 << 61, r.randint(1 << 52, (1 << 62) - (1 << 9))]))) * r.choice([1, -1]) for _ in range(3)]}
        return {"k": "int", "v": [c(), c(), c()]}

    def s_Foliage(self):
        def inst():
            v = {"id": self.guid(), "rot": [self.r.choice([0, 1, 32768, 65535, self.r.randint(0, 65535)]) for _ in range(3)],
                 "loc": self.packed(), "scale": self.f32(), "hp": self.int("i32")}
            return [[self.G("Guid")], self.extra([self.B("RawData", {"kind": "foliage_instance", "v": v})])]

        def mod():
            return [self.str(), self.extra([
                self.Mp("InstanceDataMap", "StructProperty", "StructProperty", "StructProperty", "StructProperty", self.items(inst)),
                self.B("RawData", self.blob("foliage_model"))])]

        def one():
            return [[self.P("X", "Int64", self.int("i64")), self.P("Y", "Int64", self.int("i64")), self.P("Z", "Int64", self.int("i64"))],
                    [self.Mp("ModelMap", "NameProperty", None, "StructProperty", "StructProperty", self.items(mod))]]

        return self.Mp("FoliageGridSaveDataMap", "StructProperty", "StructProperty", "StructProperty", "StructProperty", self.items(one, 1))

    def camp_module(self):
        r = self.r
        mt = self.pick(M.CAMP_EMPTY + ["TransportItemDirector"] * 4 + ["PassiveEffect"] * 4 + ["Future"] * 2)
        b = {"kind": "camp_module", "mt": M.CAMP_PREFIX + mt}
        if mt == "TransportItemDirector":
            b["v"] = self.val(("arr", ("struct", [("item_infos", ("arr", M.ITEMNUM)), ("character_location", M.VEC)])))
        elif mt == "PassiveEffect":
            b["v"] = []
            for _ in range(self.n()):
                t = r.randint(0, 2)
                b["v"].append({"type": t, **({"wh": self.int("u8"), "tr": self.hex(4, 4)} if t == 2 else {})})
        elif mt == "Future":
            b["hex"] = self.hex(0, 20)
        return b

    def s_BaseCamp(self):
        def mod():
            b = self.camp_module()
            return [b["mt"], self.extra([self.B("RawData", b)])]

        def one():
            ps = [
                self.S("WorkerDirector", "PalBaseCampSaveData_WorkerDirector", [self.B("RawData", self.blob("worker_director"))]),
                self.S("WorkCollection", "PalBaseCampSaveData_WorkCollection", [self.B("RawData", self.blob("work_collection"))]),
                self.Mp("ModuleMap", "EnumProperty", None, "StructProperty", "StructProperty", self.items(mod, 3)),
                self.B("RawData", self.blob("base_camp"))]
            return [self.guid(), self.extra(ps)]

        return self.Mp("BaseCampSaveData", "StructProperty", "Guid", "StructProperty", "StructProperty", self.items(one, 1))

    def s_Work(self):
        r = self.r

        def assign():
            return [self.int("i32"), self.extra([self.B("RawData", self.blob("work_assign"))])]

        def one():
            wt = self.pick(M.WORK_BASE_TYPES + ["EPalWorkableType::Progress", "EPalWorkableType::Defense", "EPalWorkableType::ReviveCharacter"] * 2
                          + ["EPalWorkableType::Assign"] * 3 + [self.pick(M.WORK_RAW_TYPES)] * 2)
            b = {"kind": "work", "wt": wt}
            if wt in M.WORK_RAW_TYPES:
                b["hex"] = self.hex(0, 30)
            else:
                b["v"] = self.val(M.work_schema(wt))
                tt = r.choice([1, 1, 2, 3, 0, 4, 255])
                b["tr"] = {"type": tt, "v": self.val(M.XFORM) if tt == 1 else self.guid() if tt == 2 else [self.guid(), self.guid()] if tt == 3 else self.hex(0, 10)}
            return self.extra([
                self.P("WorkableType", "Enum", wt, et="EPalWorkableType"),
                self.Mp("WorkAssignMap", "IntProperty", None, "StructProperty", "StructProperty", [assign() for _ in range(self.n())]),
                self.B("RawData", b)])

        return self.A("WorkSaveData", "PalWorkSaveData", self.items(one))

    def concrete(self):
        r = self.r
        x = r.random()
        if x < 0.12:
            oid = self.pick(M.CONCRETE_RAW_IDS)
            return oid, {"kind": "map_concrete_model", "hex": self.hex(32, 60)}
        if r.random() < 0.5:
            cls, oid = self.pick(M.CONCRETE_IDS)
        else:
            cls = self.pick(list(M.CONCRETE))
            oid = self.pick(M.CONCRETE[cls][0])
        fields = M.CONCRETE[cls][1]
        if r.random() < 0.3:
            oid = r.choice([oid.lower(), oid.upper(), oid.swapcase()])
        if x < 0.2:
            return oid, {"kind": "map_concrete_model", "empty": True}
        v = {}
        for n, t in fields:
            if n.endswith("?"):
                if r.random() < 0.5:
                    continue
                n = n[:-1]
            v[n] = self.val(t)
        return oid, {"kind": "map_concrete_model", "cls": cls, "ids": [self.guid(), self.guid()], "v": v}

    def map_module(self):
        r = self.r
        mt = self.pick(list(M.MODULE_SCHEMA) * 3 + M.MODULE_EMPTY + ["Future"])
        b = {"kind": "map_module", "mt": M.MODULE_PREFIX + mt}
        if mt not in M.MODULE_SCHEMA or r.random() < 0.1:
            b["empty"] = True
        else:
            b["v"] = self.val(M.MODULE_SCHEMA[mt])
        return b

    def s_MapObject(self):
        r = self.r

        def mod():
            b = self.map_module()
            return [b["mt"], self.extra([self.B("RawData", b)])]

        def conn():
            if r.random() < 0.3:
                return {"kind": "connector", "empty": True}
            other = [{"index": self.int("u8"), "connect": self.val(("arr", M.CONNECT))} for _ in range(r.choice([0, 0, 2, 4, 1, 3, 5, 6, 9]))]
            return {"kind": "connector", "v": {"lvl": self.int("i32"), "idx": self.int("u8"), "any": self.val(("arr", M.CONNECT)), "other": other}}

        def one():
            oid, cb = self.concrete()
            return self.extra([
                self.S("WorldLocation", "Vector", self.val(M.VEC)),
                self.S("WorldRotation", "Quat", self.val(M.QUAT)),
                self.S("WorldScale3D", "Vector", self.val(M.VEC)),
                self.P("MapObjectId", "Name", oid),
                self.G("MapObjectInstanceId"),
                self.G("MapObjectConcreteModelInstanceId"),
                self.S("Model", "PalMapObjectModelSaveData", self.extra([
                    self.S("BuildProcess", "PalMapObjectBuildProcessSaveData", [self.B("RawData", self.blob("build_process"))]),
                    self.S("Connector", "PalMapObjectConnectorSaveData", [self.B("RawData", conn())]),
                    self.Mp("EffectMap", "EnumProperty", None, "StructProperty", "StructProperty",
                            [[self.str(), [{"n": "RawData", "t": "Array", "id": None, "at": "ByteProperty", "v": self.hex(0, 5)}]] for _ in range(r.choice([0, 0, 1]))]),
                    self.B("RawData", self.blob("map_model"))])),
                self.S("ConcreteModel", "PalMapObjectConcreteModelSaveData", self.extra([
                    self.Mp("ModuleMap", "EnumProperty", None, "StructProperty", "StructProperty", self.items(mod)),
                    self.B("RawData", cb)]))])

        return self.A("MapObjectSaveData", "PalMapObjectSaveData", self.items(one))

    def s_Spawner(self):
        def item():
            return [self.int("i32"), [self.P("NextLotteryGameTime", "Int64", self.int("i64")), self.G("MapObjectInstanceId")]]

        def sp():
            return [self.guid(), [self.Mp("ItemMap", "IntProperty", None, "StructProperty", "StructProperty", self.items(item))]]

        def one():
            return [[self.G("InternalId"), self.P("bValid", "Bool", bool(self.r.randint(0, 1)))],
                    [self.Mp("SpawnerDataMapByLevelObjectInstanceId", "StructProperty", "Guid", "StructProperty", "StructProperty", self.items(sp))]]

        return self.Mp("MapObjectSpawnerInStageSaveData", "StructProperty", "StructProperty", "StructProperty", "StructProperty", self.items(one, 1))

    def s_EnemyCamp(self):
        return self.S("EnemyCampSaveData", "PalEnemyCampSaveData", [
            self.Mp("EnemyCampStatusMap", "NameProperty", None, "StructProperty", "StructProperty",
                    [[self.str(), self.props(1, 1)] for _ in range(self.n())])])

    def s_Dungeon(self):
        return self.A("DungeonPointMarkerSaveData", "PalDungeonPointMarkerSaveData", [
            [self.G("MarkerPointId"), self.S("NextRespawnGameTime", "GameDateTime", [self.P("Ticks", "Int64", self.int("i64"))])] for _ in range(self.n())])

    def s_GameTime(self):
        return self.S("GameTimeSaveData", "PalGameTimeSaveData", [self.P("GameDateTimeTicks", "Int64", self.int("i64")), self.P("RealDateTimeTicks", "Int64", self.int("i64"))])

    # ---- whole documents
    def hdr(self, cls):
        r = self.r
        plain = r.random() < 0.6
        return {
            "ue4": 522 if plain else self.int("i32"),
            "ue5": 1008 if plain else self.int("i32"),
            "eng": [5, 1, 1] if plain else [self.int("u16") for _ in range(3)],
            "cl": 0 if plain else self.int("u32"),
            "branch": "++UE5+Release-5.1" if plain else self.str(),
            "cv": [[self.guid(), self.int("i32")] for _ in range(self.n(3))],
            "cls": cls,
        }

    def doc(self, world=None, sections=None, cls=None):
        r = self.r
        if world is None:
            world = r.random() < 0.75
        if cls is None:
            cls = r.choice(CLASSES[:1] * 3 + CLASSES[:3]) if world else r.choice(CLASSES)
        props = []
        used = {"worldSaveData"}
        for _ in range(self.n(2)):
            props.append(self.prop(self.name(used), self.k["depth"]))
        if world:
            names = sections if sections is not None else self.k["sections"]
            if names is None:
                names = r.sample(SECTIONS, r.choice([1, 1, 2, 2, 3, 4, 13]))
            props.append(self.S("worldSaveData", "PalWorldSaveData", self.extra([getattr(self, "s_" + s)() for s in names])))
        if not world or r.random() < 0.3:
            props.append(self.prop(self.name(used), self.k["depth"]))
        r2 = r.random()
        st = M.save_type_for(cls)
        return {
            "hdr": self.hdr(cls),
            "props": props,
            "trailer": "00000000" if r2 < 0.7 else r.choice(["", "00", self.hex(0, 9), "00000000ff", "00" * 8, self.hex(30, 70), self.hex(200, 300)]),
            "cont": {"type": st, "cnk": r.random() < 0.15, "level": r.choice([6, 6, 0, 1, 9]), "strategy": r.choice([0, 0, 2, 4])},
        }


def gen_doc(rng, **kw):
    knobs = kw.pop("knobs", {})
    limit = kw.pop("limit", None)  # bytes, for runs in which every step costs (traced or interleaved)
    d = Gen(rng, **knobs).doc(**kw)
    while limit and len(M.enc_gvas(d)) > limit:
        d = Gen(rng, **{**knobs, "bigstr": False, "bulk": False, "count": 1}).doc(**kw)
    if rng.random() < (0.15 if aim.novel().ints else 0.04):
        pad_to_round(d, rng, limit)
    return d


def pad_to_round(d, rng, limit=None):
    """Make the size of the whole payload a round number, or one more or less: where buffers and blocks end."""
    size = len(M.enc_gvas(d))
    unit = rng.choice([2, 16, 256, 512, 1024, 4096, 4096, 4096, 8192, 65536])
    need = -size % unit + rng.choice([0, 0, 0, 0, 1, unit - 1])
    new = [n for n in aim.novel().lengths(4000000, 16) if n <= 100000 or rng.random() < 0.1]
    if new and rng.random() < 0.7:
        n = rng.choice(new)
        need = rng.choice([-size % n, n - size, n - size]) + rng.choice([-1, 0, 0, 1, 1])
        if need < 0:
            return
    if limit and size + need > limit:
        return
    if rng.random() < 0.5 or not d["hdr"]["branch"].isascii() or not d["hdr"]["branch"]:
        d["trailer"] += "".join("%02x" % rng.choice([0, 0, 255, rng.randrange(256)]) for _ in range(need))
    else:
        d["hdr"]["branch"] += rng.choice("abc+ ") * need


def small_doc(rng, cls="/Script/Pal.PalWorldPlayerSaveGame", **knobs):
    """A minimal but non-trivial document."""
    g = Gen(rng, depth=1, width=1, count=1, bigstr=False, **knobs)
    return g.doc(world=False, cls=cls)
