"""Reference model of Palworld saves: generator, encoder, JSON view and container.

Written from the UE/GVAS layout and from the JSON documents of the released tool,
and shares no code with /repo.  A model document ("doc") is plain JSON-able data, so a
plan that contains one can be stored in a replay file and shrunk by dropping list items.
Floats are stored as their bit pattern, guids as 32 hex digits of their stored bytes.
"""

import base64
import hashlib
import json
import math
import os
import struct
import zlib

ZERO = "00" * 16

# --------------------------------------------------------------------------- scalars


def fstr(s):
    if s == "":
        return struct.pack("<i", 0)
    if all(ord(c) < 128 for c in s):
        b = s.encode("ascii") + b"\0"
        return struct.pack("<i", len(b)) + b
    b = s.encode("utf-16-le", "surrogatepass")
    return struct.pack("<i", -(len(b) // 2 + 1)) + b + b"\0\0"


def f32(bits):
    return struct.unpack("<f", struct.pack("<I", bits))[0]


def f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def guid_text(h):
    b = bytes.fromhex(h)
    a = b"".join(b[i : i + 4][::-1] for i in (0, 4, 8, 12)).hex()
    return f"{a[0:8]}-{a[8:12]}-{a[12:16]}-{a[16:20]}-{a[20:32]}"


def optguid(h):
    return b"\0" if h is None else b"\1" + bytes.fromhex(h)


def optguid_text(h):
    return None if h is None else guid_text(h)


# ------------------------------------------------------------------ blob type grammar
# a type is a name, or ("arr", T), ("struct", [(name, T)...]), ("raw", n)

VEC = ("struct", [("x", "f64"), ("y", "f64"), ("z", "f64")])
QUAT = ("struct", [("x", "f64"), ("y", "f64"), ("z", "f64"), ("w", "f64")])
XFORM = ("struct", [("rotation", QUAT), ("translation", VEC), ("scale3d", VEC)])
ITEMNUM = (
    "struct",
    [
        (
            "item_id",
            (
                "struct",
                [
                    ("static_id", "str"),
                    (
                        "dynamic_id",
                        (
                            "struct",
                            [
                                ("created_world_id", "guid"),
                                ("local_id_in_created_world", "guid"),
                            ],
                        ),
                    ),
                ],
            ),
        ),
        ("num", "u32"),
    ],
)
INDIVIDUAL = ("struct", [("player_uid", "guid"), ("instance_id", "guid")])
PERMISSION = (
    "struct",
    [
        ("type_a", ("arr", "u8")),
        ("type_b", ("arr", "u8")),
        ("item_static_ids", ("arr", "str")),
    ],
)
CONNECT = ("struct", [("connect_to_model_instance_id", "guid"), ("index", "u8")])

FMT = {
    "u8": "<B",
    "i16": "<h",
    "u16": "<H",
    "i32": "<i",
    "u32": "<I",
    "i64": "<q",
    "u64": "<Q",
    "f32": "<I",
    "f64": "<Q",
    "bool32": "<I",
}
RANGE = {
    "u8": (0, 255),
    "i16": (-(2**15), 2**15 - 1),
    "u16": (0, 2**16 - 1),
    "i32": (-(2**31), 2**31 - 1),
    "u32": (0, 2**32 - 1),
    "i64": (-(2**63), 2**63 - 1),
    "u64": (0, 2**64 - 1),
}


def bits_needed(v):
    m = v ^ (v >> 63)
    return m.bit_length() + 1


def enc(t, v):
    if isinstance(t, str):
        if t in FMT:
            return struct.pack(FMT[t], v)
        if t == "str":
            return fstr(v)
        if t == "guid":
            return bytes.fromhex(v)
        if t == "props":
            return enc_props(v)
        if t == "rot":
            out = b""
            for c in v:
                out += b"\1" + struct.pack("<H", c) if c else b"\0"
            return out
        if t == "pvec":
            if v["k"] == "int":
                xs = v["v"]
                n = max(bits_needed(x) for x in xs)
                scaled = min(abs(x) for x in xs) < 2**52
                out = struct.pack("<I", (64 if scaled else 0) | n)
                for x in xs:
                    out += x.to_bytes((n + 7) // 8, "little", signed=True)
                return out
            return struct.pack("<I", 64) + b"".join(struct.pack("<Q", x) for x in v["v"])
        raise KeyError(t)
    if t[0] == "arr":
        return struct.pack("<I", len(v)) + b"".join(enc(t[1], x) for x in v)
    if t[0] == "struct":
        return b"".join(enc(ft, v[n]) for n, ft in t[1])
    if t[0] == "raw":
        return bytes.fromhex(v)
    raise KeyError(t)


def view(t, v, ctx):
    """The JSON view of a value (as json.load would return it)."""
    if isinstance(t, str):
        if t == "f32":
            return ctx.flt(f32(v))
        if t == "f64":
            return ctx.flt(f64(v))
        if t == "bool32":
            return v > 0
        if t in FMT or t == "str":
            return v
        if t == "guid":
            return guid_text(v)
        if t == "props":
            return view_props(v, "", ctx)
        raise KeyError(t)
    if t[0] == "arr":
        return [view(t[1], x, ctx) for x in v]
    if t[0] == "struct":
        return {n: view(ft, v[n], ctx) for n, ft in t[1]}
    if t[0] == "raw":
        return list(bytes.fromhex(v))
    raise KeyError(t)


class Ctx:
    """How a document is viewed: which sections are decoded, and the NaN option."""

    def __init__(self, enabled=None, nan_to_null=False):
        self.enabled = enabled  # None = all
        self.nan_to_null = nan_to_null
        self.rawrec = None  # random source: single records of decoded collections are given as raw bytes

    def on(self, path):
        return path in CUSTOM_PATHS and (self.enabled is None or path in self.enabled)

    def flt(self, f):
        if self.nan_to_null and not math.isfinite(f):
            return None
        return f


# --------------------------------------------------------------------- blob kinds
ORGS = [
    "EPalGroupType::Guild",
    "EPalGroupType::IndependentGuild",
    "EPalGroupType::Organization",
]
GROUP_TYPES = ORGS + ["EPalGroupType::Neutral"]


def group_schema(gt):
    f = [
        ("group_id", "guid"),
        ("group_name", "str"),
        (
            "individual_character_handle_ids",
            ("arr", ("struct", [("guid", "guid"), ("instance_id", "guid")])),
        ),
    ]
    if gt in ORGS:
        f += [("org_type", "u8"), ("base_ids", ("arr", "guid"))]
    if gt in ORGS[:2]:
        f += [
            ("base_camp_level", "i32"),
            ("map_object_instance_ids_base_camp_points", ("arr", "guid")),
            ("guild_name", "str"),
        ]
    info = ("struct", [("last_online_real_time", "i64"), ("player_name", "str")])
    if gt == "EPalGroupType::IndependentGuild":
        f += [("player_uid", "guid"), ("guild_name_2", "str"), ("player_info", info)]
    if gt == "EPalGroupType::Guild":
        f += [
            ("admin_player_uid", "guid"),
            ("players", ("arr", ("struct", [("player_uid", "guid"), ("player_info", info)]))),
        ]
    return ("struct", f)


SCHEMA = {
    "character": (
        "struct",
        [("object", "props"), ("unknown_bytes", ("raw", 4)), ("group_id", "guid")],
    ),
    "item_container": ("struct", [("permission", PERMISSION)]),
    "item_container_slots": (
        "struct",
        [("permission", PERMISSION), ("corruption_progress_value", "f32")],
    ),
    "character_container": (
        "struct",
        [("player_uid", "guid"), ("instance_id", "guid"), ("permission_tribe_id", "u8")],
    ),
    "foliage_model": (
        "struct",
        [
            ("model_id", "str"),
            ("foliage_preset_type", "u8"),
            ("cell_coord", ("struct", [("x", "i64"), ("y", "i64"), ("z", "i64")])),
        ],
    ),
    "base_camp": (
        "struct",
        [
            ("id", "guid"),
            ("name", "str"),
            ("state", "u8"),
            ("transform", XFORM),
            ("area_range", "f32"),
            ("group_id_belong_to", "guid"),
            ("fast_travel_local_transform", XFORM),
            ("owner_map_object_instance_id", "guid"),
        ],
    ),
    "worker_director": (
        "struct",
        [
            ("id", "guid"),
            ("spawn_transform", XFORM),
            ("current_order_type", "u8"),
            ("current_battle_type", "u8"),
            ("container_id", "guid"),
        ],
    ),
    "work_collection": ("struct", [("id", "guid"), ("work_ids", ("arr", "guid"))]),
    "work_assign": (
        "struct",
        [
            ("id", "guid"),
            ("location_index", "i32"),
            ("assign_type", "u8"),
            ("assigned_individual_id", INDIVIDUAL),
            ("state", "u8"),
            ("fixed", "bool32"),
        ],
    ),
    "map_model": (
        "struct",
        [
            ("instance_id", "guid"),
            ("concrete_model_instance_id", "guid"),
            ("base_camp_id_belong_to", "guid"),
            ("group_id_belong_to", "guid"),
            ("hp", ("struct", [("current", "i32"), ("max", "i32")])),
            ("initital_transform_cache", XFORM),
            ("repair_work_id", "guid"),
            ("owner_spawner_level_object_instance_id", "guid"),
            ("owner_instance_id", "guid"),
            ("build_player_uid", "guid"),
            ("interact_restrict_type", "u8"),
            ("stage_instance_id_belong_to", ("struct", [("id", "guid"), ("valid", "bool32")])),
            ("created_at", "i64"),
        ],
    ),
    "build_process": ("struct", [("state", "u8"), ("id", "guid")]),
}
EMPTY_AS_NULL = {"item_container", "item_container_slots", "character_container", "dynamic_item"}
EMPTY_AS_VALUES = {"connector", "map_concrete_model", "map_module"}

WORK_BASE_TYPES = [
    "EPalWorkableType::" + s
    for s in (
        "Progress TransportItemInBaseCamp ReviveCharacter LevelObject Repair Defense BootUp "
        "OnlyJoin OnlyJoinAndWalkAround RemoveMapObjectEffect MonsterFarm"
    ).split()
]
WORK_RAW_TYPES = [
    "EPalWorkableType::" + s for s in ("Illegal", "CollectItem", "TransportItem", "CollectResource", "FutureWork")
]


def work_schema(wt):
    if wt in WORK_BASE_TYPES:
        f = [
            ("id", "guid"),
            (
                "workable_bounds",
                (
                    "struct",
                    [
                        ("location", VEC),
                        ("rotation", QUAT),
                        (
                            "box_sphere_bounds",
                            (
                                "struct",
                                [("origin", VEC), ("box_extent", VEC), ("sphere_radius", "f64")],
                            ),
                        ),
                    ],
                ),
            ),
            ("base_camp_id_belong_to", "guid"),
            ("owner_map_object_model_id", "guid"),
            ("owner_map_object_concrete_model_id", "guid"),
            ("current_state", "u8"),
            (
                "assign_locations",
                ("arr", ("struct", [("location", VEC), ("facing_direction", VEC)])),
            ),
            ("behaviour_type", "u8"),
            ("assign_define_data_id", "str"),
            ("override_work_type", "u8"),
            ("assignable_fixed_type", "u8"),
            ("assignable_otomo", "bool32"),
            ("can_trigger_worker_event", "bool32"),
            ("can_steal_assign", "bool32"),
        ]
        if wt == "EPalWorkableType::Defense":
            f.append(("defense_combat_type", "u8"))
        elif wt == "EPalWorkableType::Progress":
            f += [
                ("required_work_amount", "f32"),
                ("work_exp", "i32"),
                ("current_work_amount", "f32"),
                ("auto_work_self_amount_by_sec", "f32"),
            ]
        elif wt == "EPalWorkableType::ReviveCharacter":
            f.append(("target_individual_id", INDIVIDUAL))
        return ("struct", f)
    if wt == "EPalWorkableType::Assign":
        return (
            "struct",
            [
                ("handle_id", "guid"),
                ("location_index", "i32"),
                ("assign_type", "u8"),
                ("assigned_individual_id", INDIVIDUAL),
                ("state", "u8"),
                ("fixed", "u32"),
            ],
        )
    return None


MODULE_SCHEMA = {
    "ItemContainer": (
        "struct",
        [
            ("target_container_id", "guid"),
            (
                "slot_attribute_indexes",
                ("arr", ("struct", [("attribute", "u8"), ("indexes", ("arr", "i32"))])),
            ),
            ("all_slot_attribute", ("arr", "u8")),
            ("drop_item_at_disposed", "bool32"),
            ("usage_type", "u8"),
        ],
    ),
    "CharacterContainer": ("struct", [("target_container_id", "guid")]),
    "Workee": ("struct", [("target_work_id", "guid")]),
    "Switch": ("struct", [("switch_state", "u8")]),
    "PasswordLock": (
        "struct",
        [
            ("lock_state", "u8"),
            ("password", "str"),
            (
                "player_infos",
                (
                    "arr",
                    (
                        "struct",
                        [
                            ("player_uid", "guid"),
                            ("try_failed_count", "i32"),
                            ("try_success_cache", "bool32"),
                        ],
                    ),
                ),
            ),
        ],
    ),
}
MODULE_EMPTY = ["Energy", "StatusObserver", "ItemStack", "PlayerRecord", "BaseCampPassiveEffect"]
MODULE_PREFIX = "EPalMapObjectConcreteModelModuleType::"

CAMP_PREFIX = "EPalBaseCampModuleType::"
CAMP_EMPTY = [
    "Energy",
    "Medical",
    "ResourceCollector",
    "ItemStorages",
    "FacilityReservation",
    "ObjectMaintenance",
]

CONCRETE = {  # concrete class -> (example object ids, field list)
    "PalMapObjectDeathDroppedCharacterModel": (
        ["DroppedCharacter"],
        [("stored_parameter_id", "guid"), ("owner_player_uid", "guid")],
    ),
    "PalMapObjectConvertItemModel": (
        ["BlastFurnace", "CampFire", "WorkBench", "workbench_skillcard", "FlourMill", "Crusher"],
        [
            ("current_recipe_id", "str"),
            ("remain_product_num", "i32"),
            ("requested_product_num", "i32"),
            ("work_speed_additional_rate", "f32"),
        ],
    ),
    "PalMapObjectPickupItemOnLevelModel": (
        ["PickupItem_Flint", "PickupItem_Mushroom", "Treasurebox_VisibleContent"],
        [("auto_picked_up", "bool32")],
    ),
    "PalMapObjectDropItemModel": (
        ["CommonDropItem3D"],
        [("auto_picked_up", "bool32"), ("item_id", ITEMNUM[1][0][1])],
    ),
    "PalMapObjectItemDropOnDamagModel": (
        ["DamagableRock0001", "DamagableRock0017", "damagablerock_pv"],
        [("drop_item_infos", ("arr", ITEMNUM))],
    ),
    "PalMapObjectDeathPenaltyStorageModel": (["DeathPenaltyChest"], [("owner_player_uid", "guid")]),
    "PalMapObjectDefenseBulletLauncherModel": (
        ["DefenseMachineGun", "DefenseMissile", "DefenseBowGun", "DefenseGatlingGun"],
        [("remaining_bullets", "i32"), ("magazine_size", "i32"), ("bullet_item_name", "str")],
    ),
    "PalMapObjectGenerateEnergyModel": (
        ["ElectricGenerator", "ElectricGenerator3", "electricgenerator_slave"],
        [("stored_energy_amount", "f32")],
    ),
    "PalMapObjectFarmBlockV2Model": (
        ["FarmBlockV2_Grade01", "FarmBlockV2_Berries"],
        [
            ("crop_data_id", "str"),
            ("current_state", "u8"),
            ("crop_progress_rate_value", "f32"),
            ("water_stack_rate_value", "f32"),
            (
                "state_machine?",
                ("struct", [("growup_required_time", "f32"), ("growup_progress_time", "f32")]),
            ),
        ],
    ),
    "PalMapObjectFastTravelPointModel": (["FastTravelPoint"], [("location_instance_id", "guid")]),
    "PalMapObjectShippingItemModel": (["ShippingItemBox"], [("shipping_hours", ("arr", "i32"))]),
    "PalMapObjectProductItemModel": (
        ["StonePit", "Well", "StationDeforest2"],
        [("work_speed_additional_rate", "f32"), ("product_item_id", "str")],
    ),
    "PalMapObjectRecoverOtomoModel": (["RecoverOtomo"], [("recover_amount_by_sec", "f32")]),
    "PalMapObjectHatchingEggModel": (
        ["HatchingPalEgg"],
        [
            ("hatched_character_save_parameter", "props"),
            ("unknown_bytes", "u32"),
            ("hatched_character_guid", "guid"),
        ],
    ),
    "PalMapObjectTreasureBoxModel": (["TreasureBox"], [("treasure_grade_type", "u8")]),
    "PalMapObjectBreedFarmModel": (["BreedFarm"], [("spawned_egg_instance_ids", ("arr", "guid"))]),
    "PalMapObjectSignboardModel": (["SignBoard"], [("signboard_text", "str")]),
    "PalMapObjectTorchModel": (
        ["Torch", "WallTorch", "Light_FirePlace02"],
        [("extinction_date_time", "i64")],
    ),
    "PalMapObjectPalEggModel": (["PalEgg", "PalEgg_Dragon"], [("unknown_bytes", "u32")]),
    "PalMapObjectBaseCampPoint": (["PalBoxV2"], [("base_camp_id", "guid")]),
    "PalBuildObject": (["Wooden_Wall", "stone_roof", "Metal_Foundation", "Ivy01"], []),
    "PalMapObjectItemChestModel": (["ItemChest", "ItemChest_03", "Barrel_Wood"], []),
    "PalMapObjectDoorModel": (["Wooden_DoorWall", "Metal_Gate"], []),
    "PalMapObjectLampModel": (["Lamp", "CeilingLamp"], []),
    "PalMapObjectPlayerBedModel": (["PlayerBed", "PlayerBed_03"], []),
    "PalMapObjectPalFoodBoxModel": (["PalFoodBox"], []),
    "PalMapObjectMonsterFarmModel": (["MonsterFarm"], []),
    "PalMapObjectMedicalPalBedModel": (["MedicalPalBed_02"], []),
    "PalMapObjectBaseCampPassiveEffectModel": (["Silo", "Snowman"], []),
    "PalMapObjectHeatSourceModel": (["Heater"], []),
    "PalMapObjectItemChest_AffectCorruption": (["CoolerBox"], []),
    "PalMapObjectAmusementModel": (["Spa"], []),
}
CONCRETE_RAW_IDS = ["BrandNewObject", "未来_Object"]
# every object of the released table, by class (reference data)
with open(os.path.join(os.path.dirname(__file__), "data", "map_objects.json")) as _f:
    for _c, _ids in json.load(_f).items():
        if _c.startswith("DEFAULT_UNKNOWN"):
            CONCRETE_RAW_IDS += _ids
        else:
            _e = CONCRETE.setdefault(_c, ([], []))
            CONCRETE[_c] = (_e[0] + [i for i in _ids if i not in [x.lower() for x in _e[0]]], _e[1])
CONCRETE_IDS = [(_c, _i) for _c, (_ids, _) in CONCRETE.items() for _i in _ids]


def enc_blob(b):
    """bytes of an embedded blob."""
    k = b["kind"]
    if "hex" in b:
        out = bytes.fromhex(b["hex"])
    elif b.get("empty"):
        out = b""
    elif k in SCHEMA:
        out = enc(SCHEMA[k], b["v"])
    elif k == "group":
        out = enc(group_schema(b["gt"]), b["v"])
    elif k == "foliage_instance":
        v = b["v"]
        out = (
            bytes.fromhex(v["id"])
            + enc("rot", v["rot"])
            + enc("pvec", v["loc"])
            + enc("f32", v["scale"])
            + enc("i32", v["hp"])
        )
    elif k == "camp_module":
        mt = b["mt"][len(CAMP_PREFIX) :]
        if mt in CAMP_EMPTY:
            out = b""
        elif mt == "TransportItemDirector":
            out = enc(
                (
                    "arr",
                    ("struct", [("item_infos", ("arr", ITEMNUM)), ("character_location", VEC)]),
                ),
                b["v"],
            )
        else:  # PassiveEffect
            out = struct.pack("<I", len(b["v"]))
            for e in b["v"]:
                out += bytes([e["type"]])
                if e["type"] == 2:
                    out += bytes([e["wh"]]) + bytes.fromhex(e["tr"])
    elif k == "work":
        out = enc(work_schema(b["wt"]), b["v"])
        t = b["tr"]
        out += bytes([t["type"]])
        if t["type"] == 1:
            out += enc(XFORM, t["v"])
        elif t["type"] == 2:
            out += bytes.fromhex(t["v"])
        elif t["type"] == 3:
            out += bytes.fromhex(t["v"][0]) + bytes.fromhex(t["v"][1])
        else:
            out += bytes.fromhex(t["v"])
    elif k == "connector":
        v = b["v"]
        out = enc("i32", v["lvl"]) + enc("u8", v["idx"]) + enc(("arr", CONNECT), v["any"])
        for o in v["other"]:
            out += enc("u8", o["index"]) + enc(("arr", CONNECT), o["connect"])
    elif k == "map_concrete_model":
        out = bytes.fromhex(b["ids"][0]) + bytes.fromhex(b["ids"][1])
        for n, t in CONCRETE[b["cls"]][1]:
            if n.endswith("?"):
                if n[:-1] in b["v"]:
                    out += enc(t, b["v"][n[:-1]])
            else:
                out += enc(t, b["v"][n])
    elif k == "map_module":
        mt = b["mt"][len(MODULE_PREFIX) :]
        out = enc(MODULE_SCHEMA[mt], b["v"]) if mt in MODULE_SCHEMA else b""
    elif k == "dynamic_item":
        i = b["id"]
        out = bytes.fromhex(i[0]) + bytes.fromhex(i[1]) + fstr(i[2])
        v = b["v"]
        if b["it"] == "armor":
            out += enc("f32", v)
        elif b["it"] == "weapon":
            out += enc("f32", v[0]) + enc("i32", v[1]) + enc(("arr", "str"), v[2])
        elif b["it"] == "egg":
            out += fstr(v[0]) + enc_props(v[1]) + bytes.fromhex(v[2]) + bytes.fromhex(v[3])
        else:
            out += bytes.fromhex(v)
    else:
        raise KeyError(k)
    if "cut" in b:
        out = out[: b["cut"]]
    if "tail" in b:
        out += bytes.fromhex(b["tail"])
    return out


def view_blob(b, ctx):
    """JSON value of the blob property when the section is decoded."""
    k = b["kind"]
    if "hex" in b:
        return {"values": list(bytes.fromhex(b["hex"]))}
    if b.get("empty"):
        if k in EMPTY_AS_NULL:
            return None
        return {"values": []}
    if k in SCHEMA:
        return view(SCHEMA[k], b["v"], ctx)
    if k == "group":
        d = {"group_type": b["gt"]}
        d.update(view(group_schema(b["gt"]), b["v"], ctx))
        return d
    if k == "foliage_instance":
        v = b["v"]
        loc = v["loc"]
        xs = loc["v"]
        if loc["k"] == "int":
            if min(abs(x) for x in xs) < 2**52:
                xs = [x / 1 for x in xs]
        else:
            xs = [ctx.flt(f64(x)) for x in xs]
        r = [c * (360.0 / 65536.0) for c in v["rot"]]
        return {
            "model_instance_id": guid_text(v["id"]),
            "world_transform": {
                "rotator": {"pitch": r[0], "yaw": r[1], "roll": r[2]},
                "location": {"x": xs[0], "y": xs[1], "z": xs[2]},
                "scale_x": ctx.flt(f32(v["scale"])),
            },
            "hp": v["hp"],
        }
    if k == "camp_module":
        mt = b["mt"][len(CAMP_PREFIX) :]
        if mt in CAMP_EMPTY:
            return {}
        if mt == "TransportItemDirector":
            t = ("arr", ("struct", [("item_infos", ("arr", ITEMNUM)), ("character_location", VEC)]))
            return {"transport_item_character_infos": view(t, b["v"], ctx)}
        out = []
        for e in b["v"]:
            d = {"type": e["type"]}
            if e["type"] == 2:
                d["work_hard_type"] = e["wh"]
                d["unknown_trailer"] = list(bytes.fromhex(e["tr"]))
            out.append(d)
        return {"passive_effects": out}
    if k == "work":
        d = view(work_schema(b["wt"]), b["v"], ctx)
        t = b["tr"]
        tr = {"type": t["type"], "v2": 0}
        if t["type"] == 1:
            tr.update(view(XFORM, t["v"], ctx))
        elif t["type"] == 2:
            tr["map_object_instance_id"] = guid_text(t["v"])
        elif t["type"] == 3:
            tr["guid"] = guid_text(t["v"][0])
            tr["instance_id"] = guid_text(t["v"][1])
        else:
            tr["raw_data"] = list(bytes.fromhex(t["v"]))
        d["transform"] = tr
        return d
    if k == "connector":
        v = b["v"]
        d = {
            "supported_level": v["lvl"],
            "connect": {"index": v["idx"], "any_place": view(("arr", CONNECT), v["any"], ctx)},
        }
        if v["other"]:
            d["other_connectors"] = [
                {"index": o["index"], "connect": view(("arr", CONNECT), o["connect"], ctx)}
                for o in v["other"]
            ]
        return d
    if k == "map_concrete_model":
        d = {
            "instance_id": guid_text(b["ids"][0]),
            "model_instance_id": guid_text(b["ids"][1]),
            "concrete_model_type": b["cls"],
        }
        for n, t in CONCRETE[b["cls"]][1]:
            n = n.rstrip("?")
            if n in b["v"]:
                d[n] = view(t, b["v"][n], ctx)
        return d
    if k == "map_module":
        mt = b["mt"][len(MODULE_PREFIX) :]
        if mt not in MODULE_SCHEMA:
            return {"values": []}
        return view(MODULE_SCHEMA[mt], b["v"], ctx)
    if k == "dynamic_item":
        i = b["id"]
        d = {
            "id": {
                "created_world_id": guid_text(i[0]),
                "local_id_in_created_world": guid_text(i[1]),
                "static_id": i[2],
            },
            "type": b["it"],
        }
        v = b["v"]
        if b["it"] == "armor":
            d["durability"] = ctx.flt(f32(v))
        elif b["it"] == "weapon":
            d["durability"] = ctx.flt(f32(v[0]))
            d["remaining_bullets"] = v[1]
            d["passive_skill_list"] = v[2]
        elif b["it"] == "egg":
            d["character_id"] = v[0]
            d["object"] = view_props(v[1], "", ctx)
            d["unknown_bytes"] = list(bytes.fromhex(v[2]))
            d["unknown_id"] = guid_text(v[3])
        else:
            d["trailer"] = list(bytes.fromhex(v))
        return d
    raise KeyError(k)


# --------------------------------------------------------------------- properties
# prop = {"n": name, "t": type, "id": guid|None, ...}


def enc_props(ps):
    out = []
    for p in ps:
        out.append(fstr(p["n"]))
        out.append(enc_prop(p))
    out.append(fstr("None"))
    return b"".join(out)


def enc_sv(st, v):
    if st == "Vector":
        return enc(VEC, v)
    if st == "DateTime":
        return enc("u64", v)
    if st == "Guid":
        return bytes.fromhex(v)
    if st == "Quat":
        return enc(QUAT, v)
    if st == "LinearColor":
        return b"".join(enc("f32", v[c]) for c in "rgba")
    return enc_props(v)


def enc_pv(t, st, v):
    if t == "StructProperty":
        return enc_sv(st, v)
    if t in ("EnumProperty", "NameProperty"):
        return fstr(v)
    if t == "IntProperty":
        return enc("i32", v)
    if t == "BoolProperty":
        return b"\1" if v else b"\0"
    raise KeyError(t)


JSON_ARRAYS = {"IntProperty": "i32", "Int64Property": "i64", "FloatProperty": "f32", "StrProperty": "str", "BoolProperty": "bool"}


def enc_prop(p):
    t = p["t"] + "Property"
    oid = optguid(p.get("id"))
    if t in ("IntProperty", "FixedPoint64Property"):
        head, body = oid, enc("i32", p["v"])
    elif t == "Int64Property":
        head, body = oid, enc("i64", p["v"])
    elif t == "FloatProperty":
        head, body = oid, enc("f32", p["v"])
    elif t in ("StrProperty", "NameProperty"):
        head, body = oid, fstr(p["v"])
    elif t == "EnumProperty":
        head, body = fstr(p["et"]) + oid, fstr(p["v"])
    elif t == "BoolProperty":
        head, body = (b"\1" if p["v"] else b"\0") + oid, b""
    elif t == "StructProperty":
        head = fstr(p["st"]) + bytes.fromhex(p["sid"]) + oid
        body = enc_sv(p["st"], p["v"])
    elif t == "ArrayProperty":
        head = fstr(p["at"]) + oid
        if "blob" in p:
            b = enc_blob(p["blob"])
            body = struct.pack("<I", len(b)) + b
        elif p["at"] == "ByteProperty":
            b = bytes.fromhex(p["v"])
            body = struct.pack("<I", len(b)) + b
        elif p["at"] == "StructProperty":
            data = b"".join(enc_sv(p["tn"], x) for x in p["v"])
            body = (
                struct.pack("<I", len(p["v"]))
                + fstr(p["pn"])
                + fstr(p.get("pt", "StructProperty"))
                + struct.pack("<Q", len(data))
                + fstr(p["tn"])
                + bytes.fromhex(p["aid"])
                + optguid(p.get("agid"))
                + data
            )
        elif p["at"] == "Guid":
            body = struct.pack("<I", len(p["v"])) + b"".join(bytes.fromhex(x) for x in p["v"])
        elif p["at"] in JSON_ARRAYS:
            e = JSON_ARRAYS[p["at"]]
            body = struct.pack("<I", len(p["v"])) + b"".join(fstr(x) if e == "str" else bytes([x]) if e == "bool" else enc(e, x) for x in p["v"])
        else:  # Enum, Name
            body = struct.pack("<I", len(p["v"])) + b"".join(fstr(x) for x in p["v"])
    elif t == "MapProperty":
        head = fstr(p["kt"]) + fstr(p["vt"]) + oid
        body = struct.pack("<I", len(p.get("rem", []))) + b"".join(enc_pv(p["kt"], p["kst"], k) for k in p.get("rem", [])) + struct.pack("<I", len(p["v"]))
        body += b"".join(
            enc_pv(p["kt"], p["kst"], k) + enc_pv(p["vt"], p["vst"], v) for k, v in p["v"]
        )
    else:
        raise KeyError(t)
    # an index other than 0 marks an element of a static array (only made by C07, like "rem" and "agid": the document
    # cannot express them)
    return fstr(t) + struct.pack("<II", len(body), p.get("ix", 0)) + head + body


def view_props(ps, path, ctx, deco=None):
    return {p["n"]: view_prop(p, f"{path}.{p['n']}", ctx, deco) for p in ps}


def view_sv(st, v, path, ctx, deco):
    if st == "Vector":
        return view(VEC, v, ctx)
    if st == "DateTime":
        return v
    if st == "Guid":
        return guid_text(v)
    if st == "Quat":
        return view(QUAT, v, ctx)
    if st == "LinearColor":
        return {c: view("f32", v[c], ctx) for c in "rgba"}
    return view_props(v, path, ctx, deco)


def view_pv(t, st, v, path, ctx, deco):
    if t == "StructProperty":
        return view_sv(st, v, path, ctx, deco)
    return v


# sections whose decoder handles the whole collection, with the blobs inside it
# records that the tool may leave as raw bytes inside a decoded collection, and accepts so
RAW_OK = {"group", "work", "camp_module", "map_model", "connector", "build_process", "map_concrete_model", "map_module"}
COLLECTION = {
    ".worldSaveData.GroupSaveDataMap",
    ".worldSaveData.BaseCampSaveData.Value.ModuleMap",
    ".worldSaveData.WorkSaveData",
    ".worldSaveData.MapObjectSaveData",
}
CUSTOM_PATHS = [
    ".worldSaveData.GroupSaveDataMap",
    ".worldSaveData.CharacterSaveParameterMap.Value.RawData",
    ".worldSaveData.ItemContainerSaveData.Value.RawData",
    ".worldSaveData.ItemContainerSaveData.Value.Slots.Slots.RawData",
    ".worldSaveData.CharacterContainerSaveData.Value.Slots.Slots.RawData",
    ".worldSaveData.DynamicItemSaveData.DynamicItemSaveData.RawData",
    ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.RawData",
    ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData",
    ".worldSaveData.BaseCampSaveData.Value.RawData",
    ".worldSaveData.BaseCampSaveData.Value.WorkerDirector.RawData",
    ".worldSaveData.BaseCampSaveData.Value.WorkCollection.RawData",
    ".worldSaveData.BaseCampSaveData.Value.ModuleMap",
    ".worldSaveData.WorkSaveData",
    ".worldSaveData.MapObjectSaveData",
]


def view_prop(p, path, ctx, deco):
    t = p["t"] + "Property"
    d = {"id": optguid_text(p.get("id"))}
    custom = ctx.on(path)
    if custom and path in COLLECTION:
        deco = True
    if t in ("IntProperty", "FixedPoint64Property", "Int64Property", "StrProperty", "NameProperty"):
        d["value"] = p["v"]
    elif t == "FloatProperty":
        d["value"] = view("f32", p["v"], ctx)
    elif t == "EnumProperty":
        d["value"] = {"type": p["et"], "value": p["v"]}
    elif t == "BoolProperty":
        d["value"] = bool(p["v"])
    elif t == "StructProperty":
        d["struct_type"] = p["st"]
        d["struct_id"] = guid_text(p["sid"])
        d["value"] = view_sv(p["st"], p["v"], path, ctx, deco)
    elif t == "ArrayProperty":
        d["array_type"] = p["at"]
        if "blob" in p:
            if deco and not custom and ctx.rawrec and p["blob"]["kind"] in RAW_OK and ctx.rawrec.random() < 0.3:
                d["value"] = {"values": list(enc_blob(p["blob"]))}
            elif custom or deco:
                d["value"] = view_blob(p["blob"], ctx)
            else:
                d["value"] = {"values": list(enc_blob(p["blob"]))}
        elif p["at"] == "ByteProperty":
            d["value"] = {"values": list(bytes.fromhex(p["v"]))}
        elif p["at"] == "StructProperty":
            d["value"] = {
                "prop_name": p["pn"],
                "prop_type": p.get("pt", "StructProperty"),
                "values": [
                    view_sv(p["tn"], x, f"{path}.{p['pn']}", ctx, deco) for x in p["v"]
                ],
                "type_name": p["tn"],
                "id": guid_text(p["aid"]),
            }
        elif p["at"] == "Guid":
            d["value"] = {"values": [guid_text(x) for x in p["v"]]}
        elif p["at"] == "FloatProperty":
            d["value"] = {"values": [view("f32", x, ctx) for x in p["v"]]}
        else:
            d["value"] = {"values": list(p["v"])}
    elif t == "MapProperty":
        d.update(key_type=p["kt"], value_type=p["vt"], key_struct_type=p["kst"], value_struct_type=p["vst"])
        d["value"] = [
            {
                "key": view_pv(p["kt"], p["kst"], k, path + ".Key", ctx, deco),
                "value": view_pv(p["vt"], p["vst"], v, path + ".Value", ctx, deco),
            }
            for k, v in p["v"]
        ]
    d["type"] = t
    if custom:
        d["custom_type"] = path
    return d


# ------------------------------------------------------------------- file and container
def enc_gvas(doc):
    h = doc["hdr"]
    out = struct.pack("<iiiiHHHI", 0x53415647, 3, h["ue4"], h["ue5"], *h["eng"], h["cl"])
    out += fstr(h["branch"]) + struct.pack("<i", 3) + struct.pack("<I", len(h["cv"]))
    for g, n in h["cv"]:
        out += bytes.fromhex(g) + struct.pack("<i", n)
    out += fstr(h["cls"])
    return out + enc_props(doc["props"]) + bytes.fromhex(doc["trailer"])


def view_gvas(doc, ctx=None):
    ctx = ctx or Ctx()
    h = doc["hdr"]
    return {
        "header": {
            "magic": 0x53415647,
            "save_game_version": 3,
            "package_file_version_ue4": h["ue4"],
            "package_file_version_ue5": h["ue5"],
            "engine_version_major": h["eng"][0],
            "engine_version_minor": h["eng"][1],
            "engine_version_patch": h["eng"][2],
            "engine_version_changelist": h["cl"],
            "engine_version_branch": h["branch"],
            "custom_version_format": 3,
            "custom_versions": [[guid_text(g), n] for g, n in h["cv"]],
            "save_game_class_name": h["cls"],
        },
        "properties": view_props(doc["props"], "", ctx),
        "trailer": base64.b64encode(bytes.fromhex(doc["trailer"])).decode(),
    }


DOUBLE_CLASSES = ("Pal.PalWorldSaveGame", "Pal.PalLocalWorldSaveGame")


def save_type_for(cls):
    return 0x32 if any(c in cls for c in DOUBLE_CLASSES) else 0x31


def wrap(payload, save_type, cnk=False, level=6, strategy=0):
    def z(b):
        o = zlib.compressobj(level, zlib.DEFLATED, 15, 8, strategy)
        return o.compress(b) + o.flush()

    c = z(payload)
    clen = len(c)
    if save_type == 0x32:
        c = z(c)
    head = struct.pack("<II", len(payload), clen) + b"PlZ" + bytes([save_type])
    if cnk:
        head = struct.pack("<II", len(payload) + 12, clen + 12) + b"CNK" + bytes([0x30]) + head
    return head + c


def enc_sav(doc):
    c = doc["cont"]
    return wrap(enc_gvas(doc), c["type"], c.get("cnk", False), c.get("level", 6), c.get("strategy", 0))


class Bad(Exception):
    pass


def strict_unwrap(data, need_end=False):
    """Independent strict reading of the container: (payload, save type) or Bad."""
    off = 0
    if len(data) >= 12 and data[8:11] == b"CNK":
        off = 12
    if len(data) < off + 12 or data[off + 8 : off + 11] != b"PlZ":
        raise Bad("magic")
    ulen, clen = struct.unpack("<II", data[off : off + 8])
    st = data[off + 11]
    if st not in (0x31, 0x32):
        raise Bad("type")

    def unz(b):
        o = zlib.decompressobj()
        try:
            r = o.decompress(b) + o.flush()
        except zlib.error as e:
            raise Bad(str(e))
        if not o.eof:
            raise Bad("incomplete")
        if need_end and o.unused_data:
            raise Bad("garbage")
        return r, len(b) - len(o.unused_data)

    body = data[off + 12 :]
    if st == 0x31:
        if clen != len(body):
            raise Bad("clen")
        r, _ = unz(body)
    else:
        r, _ = unz(body)
        if clen != len(r):
            raise Bad("clen")
        r, _ = unz(r)
    if len(r) != ulen:
        raise Bad("ulen")
    return r, st


def same_json(a, b):
    """Equality of parsed JSON values; NaN equals NaN, a bool is not a number."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and len(a) == len(b)
            and all(k in b and same_json(v, b[k]) for k, v in a.items())
        )
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(same_json(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, float) and isinstance(b, (int, float)):
        if a != a:
            return b != b
        return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, int) and isinstance(b, float):
        return a == b
    return type(a) is type(b) and a == b


def json_diff(a, b, path="$"):
    """First difference between two JSON values, for messages."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} missing"
            d = json_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}.{k} unexpected"
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path} has {len(b)} items instead of {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = json_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if same_json(a, b) else f"{path}: {str(a)[:80]!r} became {str(b)[:80]!r}"


def digest(b):
    return hashlib.sha256(b).hexdigest()[:16]
