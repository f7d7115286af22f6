"""Nodes that calculate their outputs from their inputs."""
from . import bootstrap

bootstrap.boot()

import functools  # noqa: E402
import math  # noqa: E402
import operator  # noqa: E402
import struct  # noqa: E402,F401

from hypothesis import reject  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rosidl_runtime_py.utilities import get_interface  # noqa: E402
from ros_bt_py import data_types as dt  # noqa: E402

from . import model, nodeio, nodes, types  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402

D = dt.NodeDataType


class Fail(Exception):
    """The node has to fail."""


class Refuse(Exception):
    """The node can't do this: an error or a failure, but no result."""


def is_msg(x):
    return hasattr(x, "get_fields_and_field_types")


def eq(a, b):
    if is_msg(a) or is_msg(b):
        return type(a) is type(b) and all(eq(getattr(a, f), getattr(b, f)) for f in a.get_fields_and_field_types())
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return bool(a == b) or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def copy(x):
    if is_msg(x):
        m = type(x)()
        for f in x.get_fields_and_field_types():
            setattr(m, f, copy(getattr(x, f)))
        return m
    if isinstance(x, list):
        return [copy(y) for y in x]
    if isinstance(x, dict):
        return {k: copy(y) for k, y in x.items()}
    return x


# ------------------------------------------------------------ what nodes compute
def path_get(o, path):
    for part in path.split("."):
        if not is_msg(o) or part not in o.get_fields_and_field_types():
            raise Fail()
        o = getattr(o, part)
    return o


def set_attr(v):
    o = copy(v["object"])
    *pre, last = v["attr_name"].split(".")
    inner = o
    for part in pre:
        if not is_msg(inner) or part not in inner.get_fields_and_field_types():
            raise Refuse()
        inner = getattr(inner, part)
    if not is_msg(inner) or last not in inner.get_fields_and_field_types():
        raise Refuse()
    try:
        setattr(inner, last, v["attr_value"])
    except Exception:
        raise Refuse() from None  # the value is none for this field
    return {"new_object": o}


def insert(v):
    li, i = list(v["list"]), v["index"]
    return {"list": li[:i] + [v["element"]] + li[i:]}


def truth(b):
    if not b:
        raise Fail()
    return {}


def dict_set(v):
    d = dict(v["object"])
    d[v["attr_name"]] = v["attr_value"]
    return {"new_object": d}


def extension(v):
    p = v["path"]
    start = p.rfind("/") + 1
    name = p[start:]
    bare = name.lstrip(".")
    i = bare.rfind(".")
    if i <= 0 and not (i == 0):
        return {"filename": p, "extension": ""}
    cut = start + len(name) - len(bare) + i
    return {"filename": p[:cut], "extension": p[cut:]}


CONV = {
    "u": lambda x: str(x).upper(),
    "l": lambda x: str(x).lower(),
    "c": lambda x: str(x).capitalize(),
    "s": str,
    "r": repr,
    "a": ascii,
}


def render(parts, d):
    """parts: literal text or [key, conversion, alignment, width], or None for something malformed."""
    out = ""
    for p in parts:
        if isinstance(p, str):
            out += p
            continue
        if p is None:
            raise Fail()
        key, conv, align, width = p
        if key not in d:
            raise Fail()
        x = d[key]
        if conv is not None:
            if conv not in CONV:
                raise Fail()
            x = CONV[conv](x)
        x = str(x)
        pad = width - len(x)
        if align is not None and pad > 0:
            left = {"<": 0, ">": pad, "^": pad // 2}[align]
            x = " " * left + x + " " * (pad - left)
        out += x
    return out


def text_of(parts):
    out = ""
    for p in parts:
        if p is None:
            out += "{"
        elif isinstance(p, str):
            out += p.replace("{", "{{").replace("}", "}}")
        else:
            key, conv, align, width = p
            out += "{" + key + ("!" + conv if conv is not None else "") + (":%s%d" % (align, width) if align is not None else "") + "}"
    return out


def parts_of(text):
    """text was made by text_of, up to what does not matter for the result."""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if text[i : i + 2] in ("{{", "}}"):
            out.append(c)
            i += 2
        elif c == "}":
            return [None]
        elif c == "{":
            j = text.find("}", i)
            if j < 0:
                return [None]
            inner = text[i + 1 : j]
            if "{" in inner:
                return [None]
            i = j + 1
            spec = ""
            if ":" in inner:
                inner, spec = inner.split(":", 1)
            conv = None
            if "!" in inner:
                inner, conv = inner.split("!", 1)
            out.append([inner, conv, spec[0] if spec else None, int(spec[1:]) if spec else 0])
        else:
            out.append(c)
            i += 1
    return out


def fmt(v):
    return {"formatted_string": render(parts_of(v["format_string"]), v["dict"])}


def fmt_list(v):
    return {"formatted_strings": [render(parts_of(s), v["dict"]) for s in v["format_strings"]]}


def passthrough(v):
    return {"out": v["in"]}


def contains(v):
    return truth(any(eq(v["in"], x) for x in v["list"]))


# -- numbers
BINARY = {
    ("add", "+"): operator.add,
    ("and", "&"): operator.and_,
    ("div", "/", "truediv"): operator.truediv,
    ("floordiv", "//"): operator.floordiv,
    ("lshift", "<<"): operator.lshift,
    ("mod", "%"): operator.mod,
    ("mul", "*"): operator.mul,
    ("or", "|"): operator.or_,
    ("pow", "**"): operator.pow,
    ("rshift", ">>"): operator.rshift,
    ("sub", "-"): operator.sub,
    ("xor", "^"): operator.xor,
}
BINARY = {name: fn for names, fn in BINARY.items() for name in names}
UNARY = {
    "not": operator.not_,
    "inv": operator.invert,
    "~": operator.invert,
    "neg": operator.neg,
    "-": operator.neg,
    "pos": operator.pos,
    "+": operator.pos,
}
for _n in (
    "exp expm1 log log1p log10 ceil fabs factorial floor sqrt acos asin atan acosh asinh atanh cos sin tan cosh sinh tanh degrees radians erf erfc gamma lgamma"
).split():
    UNARY[_n] = getattr(math, _n)


def binary(v):
    try:
        return {"result": BINARY[v["operator"]](v["a"], v["b"])}
    except Exception:
        raise Refuse() from None


def unary(v):
    try:
        return {"result": UNARY[v["operator"]](v["in"])}
    except Exception:
        raise Refuse() from None


FUNCS = {
    "ListLength": lambda v: {"length": len(v["list"])},
    "InsertInList": insert,
    "IsInList": contains,
    "AppendListItem": lambda v: {"new_list": list(v["list"]) + [v["value"]]},
    "SetDictItem": dict_set,
    "SetAttr": set_attr,
    "StringConcatenation": lambda v: {"formatted_string": v["a"] + v["b"]},
    "FormatString": fmt,
    "FormatStringList": fmt_list,
    "GetFileExtension": extension,
    "Compare": lambda v: truth(eq(v["a"], v["b"])),
    "ALessThanB": lambda v: truth(v["a"] < v["b"]),
    "Constant": lambda v: {"constant": v["constant_value"]},
    "PassthroughNode": passthrough,
    "IOInput": passthrough,
    "IOOutput": passthrough,
    "Operation": binary,
    "UnaryOperation": unary,
}


def pick(v):
    if v["index"] >= len(v["list"]):
        raise Fail()
    return {"item": v["list"][v["index"]]}


def look_up(d, k):
    if k not in d:
        raise Fail()
    return d[k]


GETTERS = {
    "GetListItem": (pick, ("list", "index")),
    "GetDictItem": (lambda v: {"value": look_up(v["dict"], v["key"])}, ("dict", "key")),
    "GetMultipleDictItems": (lambda v: {"values": [look_up(v["dict"], k) for k in v["keys"]]}, ("dict", "keys")),
    "GetAttr": (lambda v: {"attr": path_get(v["object"], v["attr_name"])}, ("object", "attr_name")),
}


# ------------------------------------------------------------ reference model
class Computing(model.MNode):
    def init(self):
        self.cls = self.p["cls"][1]
        self.specs_in = {}
        self.specs_out = {}
        self.static = {}
        self.accept_fail = False

    def describe(self, desc, case, choices):
        given = dict(case["inputs"])
        for io in desc.inputs:
            if nodeio.is_type(io):
                continue
            ref = io.type.type_identifier in nodeio.REFS
            self.specs_in[io.key] = nodeio.resolve(desc, choices, io.type) if ref else nodeio.spec_of_type_msg(io.type)
            self.inputs[io.key] = None
            if io.key in given and given[io.key]["static"]:
                self.static[io.key] = types.decode(given[io.key]["v"])
                self.inputs[io.key] = self.static[io.key]
        for io in desc.outputs:
            ref = io.type.type_identifier in nodeio.REFS
            self.specs_out[io.key] = nodeio.resolve(desc, choices, io.type) if ref else nodeio.spec_of_type_msg(io.type)
            self.outputs[io.key] = None
            self.out_upd[io.key] = False
        self.updated = {k: False for k in self.inputs}

    def do_setup(self):
        self.inputs.update(self.static)
        self.counter, self.fresh = 0, True
        if self.cls == "Convert":
            self.conversion = conversion(self.specs_in["in"], self.specs_out["out"])
        return super().do_setup()

    def do_reset(self):
        self.counter, self.fresh = 0, True
        return super().do_reset()

    def do_untick(self):
        super().do_untick()
        return model.P if self.cls == "IterateList" else model.I

    def give(self, outs):
        for k, x in outs.items():
            if not types.accepts(self.specs_out[k], x):
                raise model.ModelErr()
        for k, x in outs.items():
            if self.specs_out[k]["t"] == "float":
                x = float(x)
            if self.outputs[k] is None or not eq(self.outputs[k], x):
                self.outputs[k] = copy(x)
                self.out_upd[k] = True

    def changed(self, keys):
        return any(self.updated[k] for k in keys)

    def do_tick(self):
        v = self.inputs
        if self.cls == "IterateList":
            return self.iterate(v)
        if self.cls == "CompareNewOnly":
            if not self.changed("ab"):
                return model.R
            return model.S if eq(v["a"], v["b"]) else model.F
        if self.cls == "Convert":
            try:
                x = self.conversion(v["in"])
            except (ValueError, OverflowError):
                raise Refuse() from None
            self.give({"out": x})
            return model.S
        if self.cls in GETTERS:
            for c in self.children:
                c.tick()
                if c.state in (model.R, model.F):
                    return c.state
            fn, keys = GETTERS[self.cls]
            try:
                out = fn(v)
            except Fail:
                return model.F
            if not self.changed(keys) and not v["succeed_on_stale_data"]:
                return model.R
        else:
            try:
                out = FUNCS[self.cls](v)
            except Fail:
                return model.F
        self.give(out)
        return model.S

    def iterate(self, v):
        if self.updated["list"]:
            self.counter, self.fresh = 0, True
        li = v["list"]
        if not li:
            return model.S
        self.give({"list_item": li[self.counter]})
        for c in self.children:
            if self.fresh:
                self.fresh = False
                return model.R
            c.tick()
            if c.state != model.S:
                return model.F if c.state == model.F else model.R
        self.counter += 1
        self.fresh = True
        if self.counter == len(li):
            self.counter = 0
            return model.S
        return model.R


def conversion(a, b):
    """What converts values of one kind to another; error if that isn't defined."""
    ka, kb = a["t"], b["t"]
    if ka == kb or (ka, kb) in (("list", "list"), ("dict", "dict")):
        return lambda x: x
    if kb == "string":
        return str
    fn = {("int", "bool"): bool, ("bool", "int"): int, ("int", "float"): float, ("float", "int"): int}.get((ka, kb))
    if fn is None:
        raise model.ModelErr()
    return fn


# ------------------------------------------------------------ running a case
OPS = {"s": "setup", "t": "tick", "u": "untick", "r": "reset", "x": "shutdown"}


def shown(node):
    return {
        "state": node.state,
        "inputs": {k: c.get_value().unwrap_or(None) for k, c in node.node_config.inputs.items()},
        "outputs": {k: c.get_value().unwrap_or(None) for k, c in node.node_config.outputs.items()},
        "produced": {k: c.is_updated() for k, c in node.node_config.outputs.items()},
    }


def run(case, ctx):
    nodes.clear()
    if "example" in case:
        # the example in the documentation of FormatString
        node = nodeio.classes()[("ros_bt_py.nodes.format", case["example"])](name="n")
        if not types.try_set(node.node_config.inputs["dict"], {"first": "bar", "second": "not_printed"}):
            raise Violation("the documented example can't be given to %s: it takes dictionaries of integers only" % case["example"], key="formatstring-integers-only")
        return
    desc = nodeio.base()[tuple(case["cls"])]
    kid = case.get("kid")
    mtree = model.Tree({"k": "Computing", "n": "n", "p": {"cls": case["cls"]}, "c": [{"k": "leaf", "n": "kid", "p": kid}] if kid else []})
    m = mtree.root
    msg, choices = nodeio.make_msg(desc, case)
    m.describe(desc, case, choices)
    r = nodeio.build(msg)
    expect(r.is_ok(), "%s can't be created: %s" % (case["cls"][1], r))
    node = r.unwrap()
    if kid:
        nodes.SCRIPTS["kid"] = nodes.Script(**kid)
        expect(node.add_child(nodes.ScriptLeaf(name="kid")).is_ok(), "can't add a child")
    seen = set()
    for i, op in enumerate(case["ops"]):
        what = "%s, step %d (%s)" % (case["cls"][1], i, op)
        if isinstance(op, list):
            _, key, text = op
            x = types.decode(text)
            if node.node_config.inputs[key].set_value(x).is_err():
                raise Violation("%s: input refuses %r" % (what, x))
            if m.specs_in[key]["t"] == "float":
                x = float(x)
            if m.inputs[key] is None or not eq(m.inputs[key], x):
                m.inputs[key] = copy(x)
                m.updated[key] = True
            continue
        try:
            want = mtree.call("n", OPS[op])
        except Refuse:
            want = None
        r = getattr(node, OPS[op])()
        got = ("err" if r.is_err() else "ok", node.state)
        if want is None:
            # the kind of failure is not documented
            if got not in (("err", model.B), ("ok", model.F)):
                raise Violation("%s: got %s for something that has no result with inputs %r" % (what, got, m.inputs))
            m.state = node.state
            if m.state == model.F:
                m.updated = {k: False for k in m.updated}
            want = got
            ctx.tag("no result")
        if got != want:
            raise Violation("%s: got %s, expected %s with inputs %r (%s)" % (what, got, want, m.inputs, r))
        if op == "t":
            seen.add(got[1])
            ctx.tag(got[1])
            if got[1] == model.S:
                ctx.tag(case["cls"][1])
        now = shown(node)
        for kind, ref in (("inputs", m.inputs), ("outputs", m.outputs)):
            for k, x in ref.items():
                if not eq(now[kind][k], x):
                    raise Violation("%s: %s %s is %r, expected %r; inputs are %r" % (what, kind, k, now[kind][k], x, m.inputs))
                if kind == "outputs" and isinstance(x, (bool, float, str)) and not types.same(now[kind][k], x) and not isinstance(x, bool):
                    raise Violation("%s: %s %s is %r, expected %r; inputs are %r" % (what, kind, k, now[kind][k], x, m.inputs))
        if m.state != model.B:
            expect_eq(now["produced"], m.out_upd, what + ": outputs produced")
        if kid:
            log = nodes.SCRIPTS["kid"].log
            if log != mtree.nodes["kid"].log:
                raise Violation("%s: child got calls %s, expected %s" % (what, "".join(log), "".join(mtree.nodes["kid"].log)))
        if m.state == model.B:
            break
    ctx.nontrivial(model.S in seen or model.F in seen)


_make = model.make


def make(spec, tree):
    if spec["k"] == "Computing":
        return Computing(spec, tree)
    return _make(spec, tree)


model.make = make


# ------------------------------------------------------------ generators
LOOSE = {
    "bool": [["type_identifier", D.BOOL_TYPE]],
    "int": [["type_identifier", D.INT_TYPE], ["min_value", types.INT_LO], ["max_value", types.INT_HI]],
    "float": [["type_identifier", D.FLOAT_TYPE], ["min_value", -types.FLT], ["max_value", types.FLT]],
    "str": [["type_identifier", D.STRING_TYPE], ["max_length", 1000]],
    "bytes": [["type_identifier", D.BYTES_TYPE], ["max_length", 100]],
}


def listed(inner, n=20):
    return [["type_identifier", D.LIST_TYPE], ["max_length", n], ["strict_length", False], ["element_type", {"__d__": inner}]]


def loose(names):
    opts = [{"__d__": LOOSE[n]} for n in names if n in LOOSE]
    if "list" in names:
        opts.append({"__d__": listed(LOOSE["int"])})
    return st.sampled_from(opts)


@functools.lru_cache(None)
def _choice(names):
    return st.one_of(loose(names), loose(names), types.generic_value(names))


def choice(names):
    return _choice(tuple(names))


SMALL = st.one_of(st.integers(-3, 9), st.sampled_from([0, 1, 2, 63, 64, 170, 171, 1000]))


def number(spec):
    """Numbers with which arithmetic stays feasible."""
    lo, hi = spec.get("min"), spec.get("max")
    if spec["t"] == "int":
        ok = SMALL.filter(lambda x: lo <= x <= hi)
        return st.one_of(ok, st.integers(max(lo, -1500), min(hi, 1500))) if lo <= 1500 and hi >= -1500 else None
    opts = [x for x in (0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 1e-3, 1e3, 1e300, -0.0, 5e-324, 171.0, -3.0) if lo <= x <= hi]
    s = types.value(spec)
    return st.one_of(st.sampled_from(opts), s) if opts else s


PATHS = st.one_of(
    st.lists(st.sampled_from([".", "a", "b.c", "/", "tar", "gz", "é", " ", "\\", "\n"]), max_size=8).map("".join),
    st.text(max_size=10),
)
KEYS = ["first", "b", "key 2", "é", "_"]


@st.composite
def format_text(draw):
    parts = []
    for _ in range(draw(st.integers(0, 4))):
        what = draw(st.integers(0, 9))
        if what < 4:
            parts.append(draw(st.sampled_from(["x", "{", "}", "{}", "é\n", " "])))
        elif what < 9:
            parts.append(
                [
                    draw(st.sampled_from(KEYS)),
                    draw(st.sampled_from([None, None, None, "u", "l", "c", "s", "r", "a", "a", "r", "z"])),
                    draw(st.sampled_from([None, None, "<", ">", "^"])),
                    draw(st.integers(1, 12)),
                ]
            )
        elif draw(st.integers(0, 2)) == 0:
            parts.append(None)
    return text_of(parts)


def fields_of(cls, depth=2, prefix=""):
    """Paths of fields and their types."""
    out = []
    for f, ft in cls.get_fields_and_field_types().items():
        out.append((prefix + f, ft))
        if "/" in ft and depth and not ft.startswith("sequence") and not ft.endswith("]"):
            out += fields_of(get_interface(types.full_name(ft)), depth - 1, prefix + f + ".")
    return out


def generic_for(ft):
    """The chosen type for values of a field, or None."""
    if ft.startswith("sequence<") or ft.endswith("]"):
        return None
    if ft.startswith("string") or ft.startswith("wstring"):
        return LOOSE["str"]
    if ft == "boolean":
        return LOOSE["bool"]
    if ft in ("float", "double"):
        return LOOSE["float"]
    if ft == "octet":
        return LOOSE["bytes"]
    if "/" in ft:
        return [["type_identifier", D.ROS_INTERFACE_VALUE], ["ros_msg_type", types.full_name(ft)]]
    return LOOSE["int"]


GENERIC = ["bool", "int", "float", "str", "bytes", "list", "dict", "object"]


@st.composite
def cases(draw, names):
    name = draw(st.sampled_from(names))
    cls, desc = next((k, d) for k, d in sorted(nodeio.base().items()) if k[1] == name)
    given = {}
    choices = {}
    path = None
    # the types
    for io in desc.inputs:
        if not nodeio.is_type(io):
            continue
        if io.type.type_identifier == D.GENERIC_TYPE:
            v = draw(choice(nodeio.generic_names(io)))
            if name in ("Operation", "UnaryOperation", "ALessThanB") and draw(st.integers(0, 5)):
                v = draw(loose(["int", "float", "int", "float", "bool"] if name != "ALessThanB" else ["int", "float"]))
            if name == "Convert":
                v = draw(st.one_of([loose(["bool", "int", "float", "float", "str"] if io.key == "input_type" else ["bool", "int", "int", "float", "str"])] * 4 + [choice(["bool", "int", "float", "str", "list"])]))
            if io.key == "attr_type" and "object_type" in choices:
                options = fields_of(get_interface(choices["object_type"]))
                if options and draw(st.integers(0, 5)):
                    path, ft = draw(st.sampled_from(options))
                    inner = generic_for(ft)
                    if inner is not None and draw(st.integers(0, 9)):
                        v = {"__d__": inner}
        else:
            v = {"__type__": draw(st.sampled_from(types.MESSAGES))}
        choices[io.key] = nodeio.choice_of(io, v)
        given[io.key] = {"static": True, "v": v}
    # the values
    pools = {}
    for io in desc.inputs:
        if nodeio.is_type(io):
            continue
        ref = io.type.type_identifier in nodeio.REFS
        spec = nodeio.resolve(desc, choices, io.type) if ref else nodeio.spec_of_type_msg(io.type)
        inner = spec["elem"] if ref and nodeio.REFS[io.type.type_identifier] else spec
        pool_key = io.type.reference_target if ref else io.key
        if pool_key not in pools:
            s = types.value(inner)
            if name in ("Operation", "UnaryOperation") and ref and inner["t"] in ("int", "float"):
                s = number(inner)
            if name == "SetAttr" and io.key == "attr_value" and "attr_type" in choices and path is None:
                s = types.value(inner)
            if s is None:
                pools[pool_key] = None
            else:
                vs = draw(st.lists(s, min_size=2, max_size=4))
                if inner["t"] == "int" and name not in ("Operation", "UnaryOperation") and draw(st.booleans()):
                    # neighbours, also where floating point numbers can't tell them apart
                    vs.append(draw(st.sampled_from([2**53, -(2**53), 2**60, 2**62 + 1, -(2**62)])))
                    vs.append(vs[draw(st.integers(0, len(vs) - 1))] + draw(st.sampled_from([1, -1])))
                vs = [x for x in vs if types.accepts(inner, types.decode(x))]
                pools[pool_key] = vs or None
        pool = pools[pool_key]
        if ref and nodeio.REFS[io.type.type_identifier] == "list":
            gen = st.lists(st.sampled_from(pool), max_size=4) if pool else st.just([])
        elif ref and nodeio.REFS[io.type.type_identifier] == "dict":
            one = st.tuples(st.sampled_from(KEYS), st.sampled_from(pool)) if pool else None
            gen = st.lists(one, max_size=4, unique_by=lambda p: p[0]).map(lambda ps: {"__d__": [list(p) for p in ps]}) if one else st.just({"__d__": []})
        elif ref or spec["t"] in ("bool", "float"):
            gen = st.sampled_from(pool) if pool else None
        elif io.key == "index":
            gen = st.integers(0, 5)
        elif io.key in ("key",) or (io.key == "attr_name" and name == "SetDictItem"):
            gen = st.sampled_from(KEYS)
        elif io.key == "keys":
            gen = st.lists(st.sampled_from(KEYS), max_size=3)
        elif io.key == "attr_name":
            options = [p for p, _ in fields_of(get_interface(choices["object_type"]))] or ["x"]
            wrong = ["", "nothing", options[0] + ".", options[0] + ".x", options[0].upper()]
            good = st.just(path) if path else st.sampled_from(options)
            gen = st.one_of(good, good, good, st.sampled_from(options), st.sampled_from(wrong))
        elif io.key == "format_string":
            gen = format_text()
        elif io.key == "format_strings":
            gen = st.lists(format_text(), max_size=3)
        elif io.key == "dict":
            gen = st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from([0, -12, 5, 1234])), max_size=5, unique_by=lambda p: p[0]).map(
                lambda ps: {"__d__": [list(p) for p in ps]}
            )
        elif io.key == "path":
            gen = PATHS
        elif io.key == "operator":
            gen = st.sampled_from(spec["valid"])
        else:
            gen = st.sampled_from(pool) if pool else None
        if gen is None:
            if not io.type.allow_dynamic:
                reject()
            given[io.key] = {"static": False, "v": None}
            continue
        static = io.type.allow_static and (not io.type.allow_dynamic or draw(st.integers(0, 3)) == 0)
        given[io.key] = {"static": static, "v": draw(gen) if static else None, "gen": gen}
    dynamic = {k: g["gen"] for k, g in given.items() if "gen" in g and not g["static"]}
    for g in given.values():
        g.pop("gen", None)
    # what is done
    ops = ["s"]
    for k, gen in dynamic.items():
        if draw(st.integers(0, 30)):
            ops.append(["in", k, draw(gen)])
    for _ in range(draw(st.integers(1, 10 if name != "IterateList" else 24))):
        what = draw(st.integers(0, 19))
        if what < 11:
            ops.append("t")
        elif what < 15 and dynamic:
            k = draw(st.sampled_from(sorted(dynamic)))
            ops.append(["in", k, draw(dynamic[k])])
            ops.append("t")
        elif what == 15:
            ops.append("u")
        elif what == 16:
            ops.append("r")
        elif what == 17:
            ops += ["x", "s"]
            for k, gen in dynamic.items():
                ops.append(["in", k, draw(gen)])
        else:
            ops.append("t")
    kid = None
    if desc.max_children and draw(st.booleans()):
        kid = {"ticks": draw(st.text("SSSSRRFE" if draw(st.integers(0, 3)) == 0 else "SSSSRF", min_size=1, max_size=8))}
    return {"cls": list(cls), "name": "n", "id": 1, "inputs": [[k, g] for k, g in given.items()], "ops": ops, "kid": kid}


# ------------------------------------------------------------ random numbers
def run_random(case, ctx):
    desc = nodeio.base()[("ros_bt_py.nodes.random_number", "RandomInt")]
    node = nodeio.classes()[(desc.module, desc.node_class)](name="n")
    for k in ("min", "max"):
        node.node_config.inputs[k].is_static = False
    expect(node.setup().is_ok(), "set-up failed")
    for lo, hi, n in case["ranges"]:
        for k, x in (("min", lo), ("max", hi)):
            expect(node.node_config.inputs[k].set_value(x).is_ok(), "input %s refuses %d" % (k, x))
        seen = set()
        for _ in range(n):
            r = node.tick()
            out = node.node_config.outputs["random_number"].get_value()
            if lo > hi:
                if r.is_ok() and node.state != model.F:
                    raise Violation("a random number between %d and %d: %s" % (lo, hi, out))
                expect(not seen, "")
                ctx.tag("impossible")
                return
            if lo == hi and (r.is_err() or node.state == model.F):
                return  # not documented
            expect_eq(node.state, model.S, "state with range %d to %d (%s)" % (lo, hi, r))
            x = out.unwrap()
            expect(isinstance(x, int) and lo <= x <= hi, "random number %r is not between %d and %d" % (x, lo, hi))
            seen.add(x)
        # missing one of them is as likely as 1 in 10^40
        if n >= 100 * (hi - lo + 1):
            expect_eq(seen, set(range(lo, hi + 1)), "random numbers seen in %d ticks" % n)
            ctx.tag("all seen")
        ctx.nontrivial()


@st.composite
def random_cases(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            lo = draw(st.one_of(st.integers(-5, 5), types.ints().filter(lambda x: x < types.INT_HI - 3)))
            size = draw(st.integers(1, 3))
            out.append([lo, lo + size, 100 * (size + 1)])
        else:
            a, b = draw(types.ints()), draw(types.ints())
            out.append([a, b, 5])
    return {"ranges": out}


# ------------------------------------------------------------ the formatter
def run_formatter(case, ctx):
    import ros_bt_py.nodes.format as fm

    cls = getattr(fm, "ExtendedFormatter", None)
    if cls is None:
        return  # it is not part of the interface of any node
    values = {k: types.decode(x) for k, x in case["d"]["__d__"]}
    try:
        want = render(parts_of(case["text"]), values)
    except Fail:
        want = None
    try:
        got = cls().format(case["text"], **values)
    except (KeyError, ValueError, IndexError):
        got = None
    expect_eq(got, want, "%r formatted with %r" % (case["text"], values))
    if want is not None and want != case["text"]:
        ctx.nontrivial()


@st.composite
def formatter_cases(draw):
    words = st.one_of(
        st.sampled_from(["hello World", "HELLO", "ß", "ǆ", "İx", "", " a b", "éÉ", "ﬁN"]), st.text(max_size=8), st.integers(-1500, 1500)
    )
    d = draw(st.dictionaries(st.sampled_from(KEYS), words, min_size=2))
    return {"d": {"__d__": [[k, x] for k, x in d.items()]}, "text": draw(format_text())}
