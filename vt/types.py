"""Descriptions of node data types, a reference for what they accept, generators.

A description (JSON-able) is {"t": kind, ...constraints..., "dyn","stat","is": flags}.
Values are JSON-able too: bytes are {"__bytes__": hex}, messages
{"__msg__": type, "f": {field: value}}, interface types {"__type__": name}.
"""
from . import bootstrap

bootstrap.boot()

import math  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from rosidl_runtime_py.utilities import get_interface  # noqa: E402
from typeguard import TypeCheckError  # noqa: E402

from ros_bt_py import data_types as dt  # noqa: E402

from .core import HarnessError  # noqa: E402

INT_LO, INT_HI = -(2**63), 2**64 - 1
FLT = 1.7976931348623157e308
MAXLEN = 2**64 - 1616

INT_LIMITS = {}
for _n in (8, 16, 32, 64):
    INT_LIMITS["int%d" % _n] = (-(2 ** (_n - 1)), 2 ** (_n - 1) - 1)
    INT_LIMITS["uint%d" % _n] = (0, 2**_n - 1)

MESSAGES = [
    "example_interfaces/msg/Bool",
    "example_interfaces/msg/Byte",
    "example_interfaces/msg/Float32",
    "example_interfaces/msg/Int8",
    "example_interfaces/msg/Int64",
    "example_interfaces/msg/String",
    "example_interfaces/msg/UInt64",
    "example_interfaces/msg/Empty",
    "example_interfaces/msg/WString",
    "vt_interfaces/msg/Prims",
    "vt_interfaces/msg/Nested",
    "ros_bt_py_interfaces/msg/NodeStructure",
    "ros_bt_py_interfaces/msg/UtilityBounds",
]
ARRAY_MESSAGES = [
    "vt_interfaces/msg/Arrays",
    "example_interfaces/msg/Int32MultiArray",
    "example_interfaces/msg/Float64MultiArray",
    "example_interfaces/msg/UInt8MultiArray",
    "example_interfaces/msg/ByteMultiArray",
]
SERVICES = [
    "example_interfaces/srv/Trigger",
    "example_interfaces/srv/SetBool",
    "example_interfaces/srv/AddTwoInts",
    "vt_interfaces/srv/Calc",
]
ACTIONS = ["example_interfaces/action/Fibonacci", "vt_interfaces/action/Work"]
COMPONENTS = MESSAGES + [
    "example_interfaces/srv/Trigger_Request",
    "vt_interfaces/srv/Calc_Response",
]
GENERIC = {
    "bool": bool,
    "int": int,
    "float": float,
    "str": str,
    "bytes": bytes,
    "list": list,
    "dict": dict,
    "object": object,
}

KIND_CLASS = {
    "bool": dt.BoolType,
    "int": dt.IntType,
    "float": dt.FloatType,
    "string": dt.StringType,
    "path": dt.PathType,
    "bytes": dt.BytesType,
    "list": dt.ListType,
    "dict": dt.DictType,
    "topic_name": dt.RosTopicName,
    "service_name": dt.RosServiceName,
    "action_name": dt.RosActionName,
    "msg": dt.RosMessageType,
    "topic_type": dt.RosTopicType,
    "service_type": dt.RosServiceType,
    "action_type": dt.RosActionType,
    "component_type": dt.RosComponentType,
    "generic": dt.GenericType,
}


def build(spec):
    """The real container for a description."""
    k = spec["t"]
    kw = {}
    if k in ("int", "float"):
        kw = {"min_value": spec.get("min"), "max_value": spec.get("max")}
    elif k in ("string", "path"):
        kw = {"max_length": spec.get("max"), "valid_values": spec.get("valid")}
    elif k == "bytes":
        kw = {"max_length": spec.get("max")}
    elif k in ("list", "dict"):
        kw = {
            "element_type": build(spec["elem"]),
            "max_length": spec.get("max"),
            "strict_length": spec.get("strict"),
        }
    elif k == "msg":
        kw = {"message_type": get_interface(spec["type"]), "interface_id": spec.get("iid", 0)}
    elif k.endswith("_name") or k.endswith("_type"):
        kw = {"interface_id": spec.get("iid", 0)}
    elif k == "generic":
        kw = {"valid_types": [GENERIC[n] for n in spec["types"]]}
    kw = {a: b for a, b in kw.items() if b is not None}
    if k not in ("topic_type", "service_type", "action_type", "component_type", "generic"):
        kw["allow_dynamic"] = spec.get("dyn", True)
        kw["allow_static"] = spec.get("stat", True)
        if spec.get("is") is not None:
            kw["is_static"] = spec["is"]
    return KIND_CLASS[k](**kw)


# ------------------------------------------------------------- values
def decode(v):
    """JSON-able value -> Python value."""
    if isinstance(v, dict):
        if "__bytes__" in v:
            return bytes.fromhex(v["__bytes__"])
        if "__type__" in v:
            return get_interface(v["__type__"])
        if "__msg__" in v:
            m = get_interface(v["__msg__"])()
            for key, val in v["f"].items():
                setattr(m, key, decode(val))
            return m
        if "__d__" in v:
            return {k: decode(x) for k, x in v["__d__"]}
        raise HarnessError("value %r" % (v,))
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def same(a, b):
    """Equal, with equal types all the way down (NaN equals NaN)."""
    if hasattr(a, "tolist") and not isinstance(a, list):
        a = a.tolist()
    if hasattr(b, "tolist") and not isinstance(b, list):
        b = b.tolist()
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or a == b
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "get_fields_and_field_types"):
        return all(
            same(getattr(a, f), getattr(b, f)) for f in a.get_fields_and_field_types()
        )
    return a == b


def accepts(spec, v):
    """Reference: is Python value `v` within the constraints of `spec`?"""
    k = spec["t"]
    if k == "bool":
        return isinstance(v, bool)
    if k == "int":
        lo = spec.get("min") if spec.get("min") is not None else INT_LO
        hi = spec.get("max") if spec.get("max") is not None else INT_HI
        return isinstance(v, int) and lo <= v <= hi
    if k == "float":
        if not isinstance(v, (int, float)):
            return False
        v = float(v)
        lo = spec.get("min") if spec.get("min") is not None else -FLT
        hi = spec.get("max") if spec.get("max") is not None else FLT
        return math.isnan(v) or lo <= v <= hi
    if k in ("string", "path"):
        if not isinstance(v, str):
            return False
        if spec.get("max") is not None and len(v) > spec["max"]:
            return False
        if spec.get("valid") is not None and v not in spec["valid"]:
            return False
        if k == "path":
            return v.startswith("file://") or v.startswith("package://")
        return True
    if k == "bytes":
        return isinstance(v, bytes) and len(v) <= (
            spec["max"] if spec.get("max") is not None else 1
        )
    if k in ("list", "dict"):
        if not isinstance(v, list if k == "list" else dict):
            return False
        mx = spec["max"] if spec.get("max") is not None else MAXLEN
        items = v if k == "list" else list({str(a): b for a, b in v.items()}.values())
        if len(items) > mx or (spec.get("strict") and len(items) != mx):
            return False
        return all(accepts(spec["elem"], x) for x in items)
    if k.endswith("_name"):
        return isinstance(v, str)
    if k == "msg":
        return isinstance(v, get_interface(spec["type"]))
    if k in ("topic_type", "component_type"):
        return isinstance(v, type) and hasattr(v, "get_fields_and_field_types")
    if k == "service_type":
        return isinstance(v, type) and hasattr(v, "Request") and hasattr(v, "Response")
    if k == "action_type":
        return isinstance(v, type) and hasattr(v, "Goal") and hasattr(v, "Feedback")
    raise HarnessError(k)


def try_set(container, value):
    """True if the container took the value, False if it refused it."""
    try:
        return container.set_value(value).is_ok()
    except TypeCheckError:
        return False


# ------------------------------------------------------------- strategies
TEXT = st.one_of(
    st.text(max_size=6),
    st.sampled_from(["", "a", "{a}", '"', "\\", "\n", "\u00e9", "\U0001f600", "nan", "0"]),
)


def ints():
    return st.one_of(
        st.integers(-3, 12),
        st.sampled_from(
            [INT_LO, INT_HI, 2**53, 2**53 + 1, 2**63 - 1, 2**63, -(2**31), 255, 256, 10**16 + 1]
        ),
        st.integers(INT_LO, INT_HI),
    )


def floats():
    return st.one_of(
        st.floats(allow_nan=False, allow_infinity=False),
        st.sampled_from([0.0, -0.0, 0.1, 1.2, 1.0, 1e308, -1e308, 5e-324, FLT, -FLT, 1e16, 0.1 + 0.2]),
        st.integers(-5, 5).map(float),
        st.integers(-20, 20).map(lambda x: x / 4 + 0.3),
    )


@st.composite
def flags(draw, spec):
    c = draw(st.integers(0, 5))
    if c == 0:
        spec.update(dyn=False, stat=True)
    elif c == 1:
        spec.update(dyn=True, stat=False)
    elif c == 2:
        spec.update(dyn=True, stat=True, **{"is": False})
    else:
        spec.update(dyn=True, stat=True)
    return spec


@st.composite
def length_bounds(draw, small=4):
    if draw(st.integers(0, 2)) == 0:
        return {}
    d = {"max": draw(st.integers(0, small))}
    d["strict"] = draw(st.booleans())
    return d


SCALARS = ("bool", "int", "float", "string", "path", "bytes")


@st.composite
def spec(draw, kinds=None, depth=2, top=True):
    kinds = kinds or (SCALARS + ("list", "dict", "msg", "list", "dict"))
    k = draw(st.sampled_from(kinds))
    s = {"t": k}
    if k in ("int", "float"):
        src = ints() if k == "int" else floats()
        mode = draw(st.integers(0, 4))
        if mode in (1, 3, 4):
            s["min"] = draw(src)
        if mode in (2, 3, 4):
            s["max"] = draw(src)
        if "min" in s and "max" in s and s["min"] > s["max"]:
            s["min"], s["max"] = s["max"], s["min"]
    elif k == "string":
        if draw(st.booleans()):
            s["max"] = draw(st.integers(0, 5))
        if draw(st.integers(0, 2)) == 0:
            s["valid"] = draw(st.lists(st.sampled_from("a b c dd eee ffff".split()), min_size=1, max_size=4, unique=True))
    elif k == "path":
        if draw(st.booleans()):
            s["max"] = draw(st.integers(0, 20))
    elif k == "bytes":
        if draw(st.booleans()):
            s["max"] = draw(st.integers(0, 5))
    elif k in ("list", "dict"):
        # type values are always static, so they cannot be elements
        inner = tuple(x for x in kinds if not x.endswith("_type") and x != "generic")
        if depth <= 1:
            inner = tuple(x for x in inner if x not in ("list", "dict")) or SCALARS
        s["elem"] = draw(spec(inner, depth - 1, False))
        s.update(draw(length_bounds()))
    elif k == "msg":
        s["type"] = draw(st.sampled_from(MESSAGES + ARRAY_MESSAGES))
    elif k == "generic":
        s["types"] = draw(
            st.lists(st.sampled_from(sorted(GENERIC)), min_size=1, max_size=6, unique=True)
        )
    if k.endswith("_name") or k.endswith("_type") or k == "msg":
        s["iid"] = draw(st.integers(0, 2)) if k != "msg" else 0
    if not top:
        return s
    return draw(flags(s))


ALL_KINDS = tuple(KIND_CLASS)


@st.composite
def _msg_value(draw, name):
    """A message of the given type with some fields set; only legal field values."""
    out = {}
    fields = get_interface(name).get_fields_and_field_types()
    for f, ft in fields.items():
        if draw(st.integers(0, 2)) == 0:
            continue
        out[f] = draw(_field_value(ft))
    return {"__msg__": name, "f": out}


def full_name(ft):
    if ft.count("/") == 1:
        a, b = ft.split("/")
        return "%s/msg/%s" % (a, b)
    return ft


def _f32():
    return st.floats(width=32, allow_nan=False, allow_infinity=False)


def _field_value(ft):
    if ft.startswith("sequence<"):
        inner = ft[len("sequence<") : -1]
        bound = None
        head, sep, tail = inner.rpartition(", ")
        if sep and tail.isdigit():
            inner, bound = head, int(tail)
        return st.lists(_field_value(inner), max_size=min(3, bound) if bound else 3)
    if ft.endswith("]"):
        inner, n = ft[:-1].rsplit("[", 1)
        return st.lists(_field_value(inner), min_size=int(n), max_size=int(n))
    if "/" not in ft and (ft.startswith("string") or ft.startswith("wstring")):
        n = int(ft.split("<")[1][:-1]) if "<" in ft else 6
        alphabet = st.characters(exclude_categories=("Cs",))
        return st.text(alphabet, max_size=n)
    if ft == "boolean":
        return st.booleans()
    if ft == "octet":
        return st.integers(0, 255).map(lambda i: {"__bytes__": bytes([i]).hex()})
    if ft in INT_LIMITS:
        lo, hi = INT_LIMITS[ft]
        return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1]))
    if ft == "float":
        return _f32()
    if ft == "double":
        return floats()
    if "/" in ft:
        return _msg_value(full_name(ft))
    raise HarnessError(ft)


def value(s):
    """A JSON-able value within the constraints of description `s`."""
    k = s["t"]
    if k == "bool":
        return st.booleans()
    if k == "int":
        lo = s.get("min") if s.get("min") is not None else INT_LO
        hi = s.get("max") if s.get("max") is not None else INT_HI
        return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi]))
    if k == "float":
        lo = s.get("min") if s.get("min") is not None else -FLT
        hi = s.get("max") if s.get("max") is not None else FLT
        if lo == hi:
            return st.sampled_from([lo, hi])
        opts = [st.floats(lo, hi, allow_nan=False, allow_infinity=False), st.sampled_from([lo, hi])]
        # numbers of everyday size, with and without a fraction
        near = [x / 4 for x in range(-40, 41) if lo <= x / 4 <= hi]
        near += [x for x in (0.1, -0.1, 2.9, -2.9, 99.99, -99.99, 1234.5678, 2.0**53 + 2, -(2.0**40) - 0.5) if lo <= x <= hi]
        if near:
            opts.append(st.sampled_from(near))
        return st.one_of(opts)
    if k == "string":
        if s.get("valid") is not None:
            ok = [v for v in s["valid"] if s.get("max") is None or len(v) <= s["max"]]
            return st.sampled_from(ok) if ok else None
        return st.text(max_size=s["max"] if s.get("max") is not None else 8)
    if k == "path":
        mx = s["max"] if s.get("max") is not None else 30
        opts = []
        if mx >= 7:
            opts.append(st.text(max_size=mx - 7).map(lambda x: "file://" + x))
        if mx >= 10:
            opts.append(st.text(max_size=mx - 10).map(lambda x: "package://" + x))
        return st.one_of(opts) if opts else None
    if k == "bytes":
        return st.binary(max_size=s["max"] if s.get("max") is not None else 1).map(
            lambda b: {"__bytes__": b.hex()}
        )
    if k in ("list", "dict"):
        mx = s["max"] if s.get("max") is not None else 4
        lo = mx if s.get("strict") and s.get("max") is not None else 0
        if s.get("strict") and s.get("max") is None:
            return None
        inner = value(s["elem"])
        if inner is None:
            if lo == 0:
                return st.just([] if k == "list" else {"__d__": []})
            return None
        if k == "list":
            return st.lists(inner, min_size=lo, max_size=mx)
        return st.lists(
            st.tuples(TEXT, inner), min_size=lo, max_size=mx, unique_by=lambda p: p[0]
        ).map(lambda ps: {"__d__": [list(p) for p in ps]})
    if k.endswith("_name"):
        return st.one_of(TEXT, st.sampled_from(["/foo", "/a/b", "~x"]))
    if k == "msg":
        return _msg_value(s["type"])
    if k == "topic_type":
        return st.sampled_from(MESSAGES + ARRAY_MESSAGES).map(lambda n: {"__type__": n})
    if k == "component_type":
        return st.sampled_from(COMPONENTS).map(lambda n: {"__type__": n})
    if k == "service_type":
        return st.sampled_from(SERVICES).map(lambda n: {"__type__": n})
    if k == "action_type":
        return st.sampled_from(ACTIONS).map(lambda n: {"__type__": n})
    if k == "generic":
        return generic_value(s["types"])
    raise HarnessError(k)


def generic_value(types, depth=2):
    """A type chosen out of `types`, as the dictionary the system uses for it.

    The dictionaries are the documented exchange format (what the editor sends).
    """
    opts = []
    D = dt.NodeDataType
    if "bool" in types:
        opts.append(st.just([["type_identifier", D.BOOL_TYPE]]))
    if "int" in types:
        opts.append(
            st.tuples(ints(), ints()).map(
                lambda p: [["type_identifier", D.INT_TYPE], ["min_value", min(p)], ["max_value", max(p)]]
            )
        )
    if "float" in types:
        opts.append(
            st.tuples(floats(), floats()).map(
                lambda p: [["type_identifier", D.FLOAT_TYPE], ["min_value", min(p)], ["max_value", max(p)]]
            )
        )
    if "str" in types:
        opts.append(
            st.integers(0, 20).map(lambda n: [["type_identifier", D.STRING_TYPE], ["max_length", n]])
        )
    if "bytes" in types:
        opts.append(
            st.integers(0, 20).map(lambda n: [["type_identifier", D.BYTES_TYPE], ["max_length", n]])
        )
    if "object" in types:
        opts.append(
            st.sampled_from(MESSAGES).map(
                lambda n: [["type_identifier", D.ROS_INTERFACE_VALUE], ["ros_msg_type", n]]
            )
        )
    if depth > 0:
        for name, ident in (("list", D.LIST_TYPE), ("dict", D.DICT_TYPE)):
            if name in types:
                inner = generic_value(types, depth - 1)
                if inner is None:
                    continue
                opts.append(
                    st.tuples(inner, st.integers(0, 5), st.booleans()).map(
                        lambda p, ident=ident: [
                            ["type_identifier", ident],
                            ["max_length", p[1]],
                            ["strict_length", p[2]],
                            ["element_type", p[0]],
                        ]
                    )
                )
    if not opts:
        return None
    return st.one_of(opts).map(lambda pairs: {"__d__": pairs} if isinstance(pairs, list) else pairs)


ANY_VALUE = st.one_of(
    st.booleans(),
    ints(),
    floats(),
    TEXT,
    st.sampled_from(["file://x", "package://p/q", "a", "ffff"]),
    st.binary(max_size=6).map(lambda b: {"__bytes__": b.hex()}),
    st.lists(ints(), max_size=5),
    st.lists(TEXT, max_size=5),
    st.lists(st.lists(st.integers(0, 3), max_size=3), max_size=3),
    st.lists(st.tuples(TEXT, ints()).map(list), max_size=4, unique_by=lambda p: p[0]).map(
        lambda ps: {"__d__": ps}
    ),
    st.sampled_from(MESSAGES[:6]).flatmap(_msg_value),
    st.sampled_from(MESSAGES + SERVICES + ACTIONS).map(lambda n: {"__type__": n}),
)
