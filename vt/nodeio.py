"""Inputs and outputs of nodes: chosen types, messages that describe nodes, configurations."""
import copy
import json
import uuid

from hypothesis import strategies as st

from . import bootstrap

bootstrap.boot()

import rclpy  # noqa: E402
from ros_bt_py import data_types as dt  # noqa: E402
from ros_bt_py.node import Leaf, Node, define_bt_node, load_node_module  # noqa: E402
from ros_bt_py.node_config import NodeConfig  # noqa: E402
from ros_bt_py.exceptions import NodeConfigError  # noqa: E402
from ros_bt_py.package_manager import PackageManager  # noqa: E402
from ros_bt_py.vendor.result import Ok  # noqa: E402
from ros_bt_py_interfaces.msg import NodeIO, NodeStructure  # noqa: E402
from ros_bt_py_interfaces.srv import GetAvailableNodes  # noqa: E402

from . import nodes, types  # noqa: E402
from .core import HarnessError, Violation, expect, expect_eq  # noqa: E402
from .edit import quiet  # noqa: E402
from .fakeros import FakeNode  # noqa: E402

D = dt.NodeDataType


# ------------------------------------------------------- a node with everything
@nodes._simple
class Chooser(Leaf):
    """Has inputs and outputs of every kind that follow from chosen types."""

    def add_extra_inputs(self):
        n = self.inputs.get_value_as("count", int).unwrap()
        return Ok({"x%d" % i: dt.IntType(min_value=-i, max_value=i, allow_static=False) for i in range(n)})

    def add_extra_outputs(self):
        n = self.inputs.get_value_as("count", int).unwrap()
        return Ok({"y%d" % i: dt.StringType(max_length=i) for i in range(n)})

    def _do_tick(self):
        raise NotImplementedError


Chooser = define_bt_node(
    NodeConfig(
        inputs={
            "g": dt.GenericType(),
            "h": dt.GenericType(valid_types=[int, str, float, list]),
            "m": dt.RosTopicType(),
            "c": dt.RosComponentType(),
            "count": dt.IntType(min_value=0, max_value=5, allow_dynamic=False),
            "r": dt.ReferenceType("g"),
            "rs": dt.ReferenceType("g", allow_dynamic=False),
            "rd": dt.ReferenceType("h", allow_static=False),
            "rl": dt.ReferenceListType("g"),
            "rk": dt.ReferenceDictType("h"),
            "rm": dt.ReferenceType("m"),
            "rc": dt.ReferenceListType("c"),
            "s": dt.StringType(valid_values=["a", "b"]),
        },
        outputs={
            "o": dt.ReferenceType("g"),
            "ol": dt.ReferenceListType("h"),
            "od": dt.ReferenceDictType("g"),
            "om": dt.ReferenceType("m"),
            "i": dt.IntType(min_value=0, max_value=3),
        },
        max_children=0,
    )
)(Chooser)

REF_KEY = {}


def classes():
    """Every node class that can be used, by what the node itself reports."""
    if not REF_KEY:
        if not rclpy.ok():
            rclpy.init()
        quiet()
        for m in ("ros_bt_py.nodes", "ros_bt_py.ros_nodes"):
            expect(load_node_module(m) is not None, "module %s can't be loaded" % m)
        for module, cls in [(m, c) for m in Node.node_classes for c in Node.node_classes[m]]:
            if module.startswith("ros_bt_py.") or cls == "Chooser":
                REF_KEY[(module, cls)] = Node.node_classes[module][cls]
    return REF_KEY


def available():
    r = PackageManager(tree_storage_directory_paths=[]).get_available_nodes(
        GetAvailableNodes.Request(node_modules=["ros_bt_py.nodes", "ros_bt_py.ros_nodes"]), GetAvailableNodes.Response()
    )
    expect(r.success, "available nodes can't be listed: %s" % r.error_message)
    return {(n.module, n.node_class): n for n in r.available_nodes}


BASE = {}


def base():
    """The descriptions of all nodes before anything was done with them."""
    if not BASE:
        classes()
        BASE.update({k: copy.deepcopy(v) for k, v in available().items() if k in REF_KEY})
    return BASE


# ------------------------------------------------------------ types and values
def spec_of_dict(d):
    """What a chosen type accepts."""
    k = d["type_identifier"]
    if k == D.BOOL_TYPE:
        return {"t": "bool"}
    if k == D.INT_TYPE:
        return {"t": "int", "min": d["min_value"], "max": d["max_value"]}
    if k == D.FLOAT_TYPE:
        return {"t": "float", "min": d["min_value"], "max": d["max_value"]}
    if k == D.STRING_TYPE:
        return {"t": "string", "max": d["max_length"]}
    if k == D.BYTES_TYPE:
        return {"t": "bytes", "max": d["max_length"]}
    if k == D.ROS_INTERFACE_VALUE:
        return {"t": "msg", "type": d["ros_msg_type"]}
    return {
        "t": "list" if k == D.LIST_TYPE else "dict",
        "max": d["max_length"],
        "strict": d["strict_length"],
        "elem": spec_of_dict(d["element_type"]),
    }


def spec_of_type_msg(t):
    """A description for what a simple input takes, from its message (C02 decides those)."""
    k = t.type_identifier
    if k == D.BOOL_TYPE:
        return {"t": "bool"}
    if k == D.INT_TYPE:
        return {"t": "int", "min": int(t.min_value), "max": int(t.max_value)}
    if k == D.FLOAT_TYPE:
        return {"t": "float", "min": float(t.min_value), "max": float(t.max_value)}
    if k == D.STRING_TYPE:
        s = {"t": "string"}
        if t.serialized_value_options:
            s["valid"] = [json.loads(x) if x.startswith('"') else x for x in t.serialized_value_options]
        return s
    if k == D.PATH_TYPE:
        return {"t": "path"}
    if k == D.ROS_INTERFACE_NAME:
        return {"t": {D.ROS_TOPIC: "topic_name", D.ROS_SERVICE: "service_name", D.ROS_ACTION: "action_name"}[t.ros_interface_kind]}
    if k == D.ROS_INTERFACE_TYPE:
        return {
            "t": {D.ROS_TOPIC: "topic_type", D.ROS_SERVICE: "service_type", D.ROS_ACTION: "action_type", D.ROS_COMPONENT: "component_type"}[
                t.ros_interface_kind
            ]
        }
    if k == D.LIST_TYPE or k == D.DICT_TYPE:
        kind = {D.STRING_TYPE: {"t": "string"}, D.INT_TYPE: {"t": "int"}}.get(t.value_type_identifier[0])
        if kind is None:
            return None
        return {"t": "list" if k == D.LIST_TYPE else "dict", "elem": kind}
    return None


REFS = {D.REFERENCE_TYPE: None, D.REFERENCE_LIST_TYPE: "list", D.REFERENCE_DICT_TYPE: "dict"}


def untag(v):
    """Pairs of a generated type choice -> the dictionary that is exchanged."""
    v = types.decode(v)
    return {k: (untag_inner(x) if k == "element_type" else x) for k, x in v.items()}


def untag_inner(x):
    if isinstance(x, list):
        d = dict((a, b) for a, b in x)
    else:
        d = types.decode(x) if "__d__" in x else x
    return {k: (untag_inner(v) if k == "element_type" else v) for k, v in d.items()}


def text_of_choice(d):
    d = {k: (json.loads(text_of_choice(v)) if k == "element_type" else v) for k, v in d.items()}
    for k in ("min_value", "max_value"):
        if k in d:
            d[k] = str(d[k])
    return json.dumps(d)


def value_field(io, choice):
    """What a chosen type lets pass."""
    if io.type.type_identifier == D.GENERIC_TYPE:
        return spec_of_dict(choice)
    return {"t": "msg", "type": choice}


def default_choice(io):
    v = json.loads(io.serialized_value)
    if io.type.type_identifier != D.GENERIC_TYPE:
        return v

    def fix(d):
        d = dict(d)
        conv = {D.INT_TYPE: int, D.FLOAT_TYPE: float}.get(d["type_identifier"])
        for k in ("min_value", "max_value"):
            if k in d:
                d[k] = conv(d[k])
        if "element_type" in d:
            d["element_type"] = fix(d["element_type"])
        return d

    return fix(v)


def resolve(desc, choices, t):
    """The description of what a reference takes."""
    target = next(i for i in desc.inputs if i.key == t.reference_target)
    choice = choices.get(t.reference_target)
    s = value_field(target, default_choice(target) if choice is None else choice)
    wrap = REFS[t.type_identifier]
    return s if wrap is None else {"t": wrap, "elem": s}


def is_type(io):
    return io.type.type_identifier in (D.GENERIC_TYPE, D.ROS_INTERFACE_TYPE)


def choice_of(io, v):
    return untag(v) if io.type.type_identifier == D.GENERIC_TYPE else v["__type__"]


def serialize(spec, v):
    c = types.build(dict(spec, dyn=True, stat=True))
    if c.set_value(types.decode(v)).is_err():
        raise HarnessError("value %r does not fit %r" % (v, spec))
    return c.serialize_value()


def make_msg(desc, case):
    """The message an editor sends for the node of a case."""
    msg = NodeStructure(
        module=desc.module,
        node_class=desc.node_class,
        name=case["name"],
        node_id=str(uuid.UUID(int=case["id"])),
        max_children=desc.max_children,
    )
    given = dict(case["inputs"])
    choices = {i.key: choice_of(i, given[i.key]["v"]) for i in desc.inputs if i.key in given and is_type(i)}
    for io in desc.inputs:
        if io.key not in given:
            continue
        g = given[io.key]
        t = copy.deepcopy(io.type)
        t.is_static = g["static"]
        text = ""
        if g["static"]:
            if io.type.type_identifier == D.GENERIC_TYPE:
                text = text_of_choice(choices[io.key])
            elif io.type.type_identifier in REFS:
                text = serialize(resolve(desc, choices, t), g["v"])
            else:
                text = serialize(spec_of_type_msg(t), g["v"])
        msg.inputs.append(NodeIO(key=io.key, type=t, serialized_value=text))
    if case.get("order"):
        msg.inputs = msg.inputs[::-1]
    return msg, choices


def build(msg):
    r = Node.from_msg(msg, ros_node=FakeNode())
    return r


def plain(m):
    """A description with numbers in one form."""
    m = copy.deepcopy(m)
    for io in list(m.inputs) + list(m.outputs):
        if io.type.type_identifier == D.FLOAT_TYPE:
            io.type.min_value = repr(float(io.type.min_value))
            io.type.max_value = repr(float(io.type.max_value))
    return m


PROBES = [
    True,
    0,
    1,
    -7,
    2**40,
    0.5,
    "",
    "abcdefgh",
    {"__bytes__": "00"},
    {"__bytes__": "000102"},
    [],
    [1],
    ["a", "b"],
    [[1], [2]],
    {"__d__": []},
    {"__d__": [["a", 1]]},
    {"__d__": [["a", "b"], ["c", "d"]]},
    {"__msg__": "example_interfaces/msg/Bool", "f": {}},
    {"__msg__": "example_interfaces/msg/Int64", "f": {}},
]


def probe(container, spec, v, what):
    c = container() if callable(container) else container
    got = types.try_set(c, types.decode(v))
    want = types.accepts(spec, types.decode(v))
    if got != want:
        raise Violation("%s %s %r although it is of type %r" % (what, "takes" if got else "refuses", types.decode(v), spec))


def check_node(node, desc, case, choices, where):
    given = dict(case["inputs"])
    specs = {}
    for io in desc.inputs:
        c = node.node_config.inputs.get(io.key)
        at = "%s: input %s" % (where, io.key)
        expect(c is not None, at + " is missing")
        t = c.serialize_type()
        expect_eq((t.allow_static, t.allow_dynamic), (io.type.allow_static, io.type.allow_dynamic), at + ": static, dynamic allowed")
        static = given[io.key]["static"] if io.key in given else io.type.is_static
        expect_eq(c.is_static, static, at + ": is static")
        expect_eq(t.type_identifier, io.type.type_identifier, at + ": kind")
        if is_type(io):
            want = choices.get(io.key, None)
            if want is None:
                want = default_choice(io)
            got = c.get_value().unwrap()
            if io.type.type_identifier == D.ROS_INTERFACE_TYPE:
                got = dt.get_interface_name(got)
            expect_eq(got, want, at + ": chosen type")
            continue
        if io.type.type_identifier in REFS:
            spec = resolve(desc, choices, io.type)
            specs[io.key] = spec
            for v in case["probes"]:
                probe(c.get_runtime_type, spec, v, at)
            if io.key in given and given[io.key]["v"] is not None:
                probe(c.get_runtime_type, spec, given[io.key]["v"], at)
        if io.key in given and static:
            r = c.get_value()
            expect(r.is_ok(), at + " has no value")
            if not types.same(r.unwrap(), types.decode(given[io.key]["v"])):
                raise Violation("%s is %r, given was %r" % (at, r.unwrap(), types.decode(given[io.key]["v"])))
    for io in desc.outputs:
        c = node.node_config.outputs.get(io.key)
        at = "%s: output %s" % (where, io.key)
        expect(c is not None, at + " is missing")
        expect_eq((c.allow_static, c.allow_dynamic, c.is_static), (False, True, False), at + ": static, dynamic allowed, is static")
        if io.type.type_identifier in REFS:
            spec = resolve(desc, choices, io.type)
            for v in case["probes"]:
                probe(c.get_runtime_type, spec, v, at)
                probe(c, spec, v, at)
                if types.accepts(spec, types.decode(v)) and not isinstance(types.decode(v), (int, float)):
                    expect(types.same(c.get_value().unwrap(), types.decode(v)), at + " does not hold what it was given")


def check_extras(node, desc, case, choices, where):
    if desc.node_class != "Chooser":
        return
    n = types.decode(dict(case["inputs"])["count"]["v"]) if "count" in dict(case["inputs"]) else 0
    own_in, own_out = {i.key for i in desc.inputs}, {o.key for o in desc.outputs}
    expect_eq(set(node.node_config.inputs) - own_in, {"x%d" % i for i in range(n)}, where + ": additional inputs")
    expect_eq(set(node.node_config.outputs) - own_out, {"y%d" % i for i in range(n)}, where + ": additional outputs")
    for i in range(n):
        for v in case["probes"]:
            probe(node.node_config.inputs["x%d" % i], {"t": "int", "min": -i, "max": i}, v, "%s: input x%d" % (where, i))
            probe(node.node_config.outputs["y%d" % i], {"t": "string", "max": i}, v, "%s: output y%d" % (where, i))
        c = node.node_config.outputs["y%d" % i]
        expect_eq((c.allow_static, c.allow_dynamic), (False, True), "%s: output y%d: static, dynamic allowed" % (where, i))


def run_types(case, ctx):
    desc = base()[tuple(case["cls"])]
    msg, choices = make_msg(desc, case["a"])
    r = build(msg)
    expect(r.is_ok(), "node refused: %s" % r)
    a = r.unwrap()
    check_node(a, desc, case["a"], choices, "node")
    check_extras(a, desc, case["a"], choices, "node")
    before = a.to_structure_msg()
    msg2, choices2 = make_msg(desc, case["b"])
    r = build(msg2)
    expect(r.is_ok(), "second node refused: %s" % r)
    b = r.unwrap()
    check_node(b, desc, case["b"], choices2, "second node")
    check_extras(b, desc, case["b"], choices2, "second node")
    # neither knows of the other, and the class of none
    for c in b.node_config.inputs.values():
        c.reset_value()
    check_node(a, desc, case["a"], choices, "node, after another was made")
    expect_eq(a.to_structure_msg(), before, "description of a node after another was made")
    if case.get("listed"):
        expect_eq(available()[tuple(case["cls"])], desc, "description of the class after nodes were made")
    d = NODE_DEFAULT.get(tuple(case["cls"]))
    plain = REF_KEY[tuple(case["cls"])](name="plain", node_id=uuid.UUID(int=1), ros_node=FakeNode()).to_structure_msg()
    if d is None:
        NODE_DEFAULT[tuple(case["cls"])] = plain
    else:
        expect_eq(plain, d, "description of a node with default values")
    refs = [i for i in list(desc.inputs) + list(desc.outputs) if i.type.type_identifier in REFS]
    if refs:
        ctx.tag("references")
    if choices != choices2:
        ctx.tag("differ")
    for c in choices.values():
        ctx.tag("chosen_%s" % (c["type_identifier"] if isinstance(c, dict) else "interface"))
    ctx.nontrivial(bool(refs) and bool(choices))


NODE_DEFAULT = {}


# ---------------------------------------------------------------- round trips
def run_round(case, ctx):
    desc = base()[tuple(case["cls"])]
    msg, choices = make_msg(desc, case["a"])
    sent = copy.deepcopy(msg)
    r = build(msg)
    expect(r.is_ok(), "node refused: %s" % r)
    expect_eq(msg, sent, "the message it was made of afterwards")
    a = r.unwrap()
    m = a.to_structure_msg()
    expect_eq(m.module, desc.module, "module")
    expect_eq(m.node_class, desc.node_class, "class")
    expect_eq(m.name, case["a"]["name"] or desc.node_class, "name")
    expect_eq(m.node_id, sent.node_id, "id")
    expect_eq(m.max_children, desc.max_children, "number of children")
    got = {i.key: i for i in m.inputs}
    expect(len(got) == len(m.inputs), "an input is described twice")
    expect({i.key for i in desc.inputs} <= set(got), "inputs are missing")
    expect({i.key for i in desc.outputs} <= {o.key for o in m.outputs}, "outputs are missing")
    for i in sent.inputs:
        g = got[i.key]
        expect_eq(g.type.is_static, i.type.is_static, "input %s: is static" % i.key)
        expect_eq(g.serialized_value, i.serialized_value, "input %s: value" % i.key)
    for i in m.inputs:
        expect(bool(i.serialized_value) or not i.type.is_static, "static input %s has no value" % i.key)
        expect(not i.serialized_value or i.type.is_static, "dynamic input %s has a value" % i.key)
    r = build(copy.deepcopy(m))
    expect(r.is_ok(), "node refused that was described by itself: %s" % r)
    b = r.unwrap()
    expect(type(b) is type(a) and b.node_id == a.node_id, "another node")
    expect_eq(plain(b.to_structure_msg()), plain(m), "description of a node made from a description")
    for key, c in a.node_config.inputs.items():
        if c.is_static:
            expect(types.same(c.get_value().unwrap(), b.node_config.inputs[key].get_value().unwrap()), "value of %s" % key)
    # now with something wrong
    for how in case["bad"]:
        bad = spoil(copy.deepcopy(m), how, desc)
        if bad is None:
            continue
        ctx.tag("bad_" + how[0])
        try:
            r = build(bad[0])
        except Exception as e:
            raise Violation("a message that is wrong (%s) raises %s: %s" % (how, type(e).__name__, str(e)[:300]))
        if bad[1]:
            expect(r.is_err(), "a message that is wrong (%s) is accepted" % (how,))
            expect(str(r.unwrap_err()), "refused without a reason")
    expect_eq(plain(build(copy.deepcopy(m)).unwrap().to_structure_msg()), plain(m), "description of a node made after some were refused")
    ctx.tag("class_" + desc.node_class)
    ctx.nontrivial(bool(sent.inputs))


JUNK = ["", "null", "{", "[]", "{}", "1", '"x"', "nan", "1e999", "[[]]", '{"type_identifier": 2}',
        '{"type_identifier": 2, "min_value": "a", "max_value": "b"}', '{"type_identifier": 2, "min_value": 1, "max_value": null}',
        '{"type_identifier": 5, "max_length": -1, "strict_length": 3, "element_type": {"type_identifier": 1}}',
        '{"type_identifier": 5, "max_length": 3, "strict_length": false, "element_type": 7}',
        '{"type_identifier": 5, "max_length": 3, "strict_length": false, "element_type": {}}',
        '{"type_identifier": 12, "ros_msg_type": "no/such/Thing"}', '{"type_identifier": 12, "ros_msg_type": "std_msgs/msg/Nope"}',
        '{"type_identifier": 12, "ros_msg_type": 5}', '{"type_identifier": 4, "max_length": "x"}', '{"type_identifier": []}', '{"type_identifier": {}}',
        '{"type_identifier": null}', '"std_msgs/msg/Nope"', '"nopkg/msg/X"', '"std_msgs"', '"a/b/c/d"', '"std_msgs/srv/Empty"', '"/msg/"',
        '"example_interfaces/srv/Trigger"', '"example_interfaces/action/Fibonacci"', '"example_interfaces/msg/Bool"', "\ud83d", "true", "-1", "0.5", '{"a": 1}', "1" * 400]  # fmt: skip


def spoil(msg, how, desc):
    """(message, must be refused)"""
    kind, i, j = how
    own = {x.key for x in desc.inputs}
    if kind == "unknown":
        io = copy.deepcopy(msg.inputs[i % len(msg.inputs)]) if msg.inputs else NodeIO(type=dt.IntType().serialize_type())
        io.key = ["zzz", "", "g.x", "in put"][j % 4]
        msg.inputs.append(io)
        return msg, True
    if kind == "class":
        msg.node_class = ["", "Nope", "Node", "Leaf", "IO", "Sequence.", "__init__"][i % 7]
        return msg, True
    if kind == "module":
        msg.module = ["", "nope.nope", "os", ".", "ros_bt_py.nodes.", "ros_bt_py", "a b", "..x", "\0"][i % 9]
        return msg, True
    if kind == "id":
        msg.node_id = ["x", "1234", "0" * 33, "g" * 32, " "][i % 5]
        return msg, True
    if not msg.inputs:
        return None
    io = msg.inputs[i % len(msg.inputs)]
    if kind == "value":
        io.serialized_value = JUNK[j % len(JUNK)]
        return msg, False
    if kind == "kind":
        other = [dt.BoolType(), dt.IntType(), dt.StringType(), dt.GenericType(), dt.RosTopicType(), dt.RosTopicName(), dt.ListType(element_type=dt.IntType())][j % 7]
        t = other.serialize_type()
        if t.type_identifier == io.type.type_identifier or io.key not in own:
            return None
        t.is_static = io.type.is_static
        io.type = t
        return msg, True
    if kind == "identifier":
        old = io.type.type_identifier
        io.type.type_identifier = [0, 99, 255][j % 3]
        return msg, True
    if kind == "less":
        # neither statically nor dynamically
        io.type.allow_static = io.type.allow_dynamic = io.type.is_static = False
        return msg, True
    if kind == "target":
        if io.type.type_identifier not in REFS:
            return None
        io.type.reference_target = ["nope", "", io.key][j % 3]
        return msg, True
    if kind == "scramble":
        field = ["min_value", "max_value", "string_max_length", "ros_msg_type", "value_type_identifier", "iterable_max_length",
                 "iterable_strict_length", "serialized_value_options", "ros_interface_kind", "interface_id"][j % 10]  # fmt: skip
        cur = getattr(io.type, field)
        if isinstance(cur, str):
            setattr(io.type, field, JUNK[i % len(JUNK)])
        elif isinstance(cur, int):
            setattr(io.type, field, (cur + 1 + i) % 200)
        elif field == "serialized_value_options":
            io.type.serialized_value_options = [JUNK[i % len(JUNK)]]
        elif field == "iterable_strict_length":
            io.type.iterable_strict_length = [True] * (i % 4)
        else:
            setattr(io.type, field, [i % 17] * (j % 4))
        return msg, False
    raise HarnessError(kind)


BAD = ("unknown", "class", "module", "id", "value", "value", "value", "kind", "identifier", "less", "target", "scramble", "scramble")


# ------------------------------------------------------------------ generator
def generic_names(io):
    return [json.loads(x)["type"] for x in io.type.serialized_value_options]


@st.composite
def choices_for(draw, desc):
    given = []
    choices = {}
    for io in desc.inputs:
        if not is_type(io) or draw(st.integers(0, 5)) == 0:
            continue
        if io.type.type_identifier == D.GENERIC_TYPE:
            v = types.generic_value(generic_names(io))
        else:
            v = types.value(spec_of_type_msg(io.type))
        v = draw(v)
        if desc.node_class in ("Service", "WaitForService", "Action", "MessageToFields", "FieldsToMessage", "EnumFields", "EnumSwitch"):
            v = draw(types.value(spec_of_type_msg(io.type)))
        if desc.node_class.startswith("Enum"):
            # others have no constants
            v = {"__type__": "ros_bt_py_interfaces/msg/" + draw(st.sampled_from(["NodeDataType", "NodeState", "TreeState"]))}
        choices[io.key] = choice_of(io, v)
        given.append([io.key, {"static": True, "v": v}])
    for io in desc.inputs:
        if is_type(io) or draw(st.integers(0, 4)) == 0:
            continue
        ref = io.type.type_identifier in REFS
        if ref and io.type.reference_target not in choices:
            continue
        spec = resolve(desc, choices, io.type) if ref else spec_of_type_msg(io.type)
        if spec is None:
            continue
        v = types.value(spec)
        v = None if v is None else draw(v)
        can_static = io.type.allow_static and v is not None
        static = can_static and (not io.type.allow_dynamic or draw(st.booleans()))
        if not static and not io.type.allow_dynamic:
            continue
        if v is None or not types.accepts(spec, types.decode(v)):
            if static:
                continue
            v = None
        given.append([io.key, {"static": static, "v": v}])
    name = draw(st.one_of(st.sampled_from(["", "n", "node 1", "a.b"]), types.TEXT))
    return {"name": name, "id": draw(st.integers(1, 2**128 - 1)), "inputs": given, "order": draw(st.booleans()), "probes": draw(st.lists(st.sampled_from(PROBES), max_size=8))}


def class_names(refs_only):
    out = []
    for key, desc in sorted(base().items()):
        if key[1] == "Subtree":
            continue
        has = any(i.type.type_identifier in REFS for i in desc.inputs)
        if refs_only and not has:
            continue
        out += [list(key)] * (12 if key[1] == "Chooser" and refs_only else 1)
    return out


@st.composite
def type_cases(draw):
    cls = draw(st.sampled_from(class_names(True)))
    desc = base()[tuple(cls)]
    return {"cls": cls, "a": draw(choices_for(desc)), "b": draw(choices_for(desc)), "listed": draw(st.integers(0, 15)) == 0}


@st.composite
def round_cases(draw):
    cls = draw(st.sampled_from(class_names(False)))
    desc = base()[tuple(cls)]
    bad = draw(st.lists(st.tuples(st.sampled_from(BAD), st.integers(0, 40), st.integers(0, 40)).map(list), max_size=4))
    return {"cls": cls, "a": draw(choices_for(desc)), "bad": bad}


# ------------------------------------------------------------- configurations
REF_CLASS = {"ref": dt.ReferenceType, "reflist": dt.ReferenceListType, "refdict": dt.ReferenceDictType}
WRAP = {"ref": None, "reflist": "list", "refdict": "dict"}
KEYS = ["a", "b", "c", "d", "e"]
CONFIG_KINDS = ("bool", "int", "float", "string", "bytes", "list", "dict", "generic", "topic_type", "component_type", "msg")
TYPE_KINDS = ("generic", "topic_type", "component_type")


def make_item(item):
    if item["t"] in REF_CLASS:
        return REF_CLASS[item["t"]](item["target"])
    return types.build(item)


def make_config(c):
    return NodeConfig(
        inputs={k: make_item(i) for k, i in c["inputs"]},
        outputs={k: make_item(i) for k, i in c["outputs"]},
        max_children=c["max"],
    )


def config_ok(c):
    ins = dict(c["inputs"])
    for k, i in c["outputs"]:
        if i["t"] in TYPE_KINDS:
            return False
    for k, i in list(c["inputs"]) + list(c["outputs"]):
        if i["t"] in REF_CLASS and (i["target"] not in ins or ins[i["target"]]["t"] not in TYPE_KINDS):
            return False
    return True


def type_spec(item, choice):
    """What values of a type input's choice look like."""
    if choice is None:
        c = make_item(item)
        v = c.get_value().unwrap()
        return spec_of_dict(v) if item["t"] == "generic" else {"t": "msg", "type": dt.get_interface_name(v)}
    if item["t"] == "generic":
        return spec_of_dict(untag(choice))
    return {"t": "msg", "type": choice["__type__"]}


def choose(config, key, item, choice):
    v = untag(choice) if item["t"] == "generic" else types.decode(choice)
    r = config.inputs[key].set_value(v)
    if r.is_err():
        raise Violation("choice %r: %s" % (choice, r))


def check_config(config, c, choices, probes, where):
    expect_eq(sorted(config.inputs), sorted(k for k, _ in c["inputs"]), where + ": inputs")
    expect_eq(sorted(config.outputs), sorted(k for k, _ in c["outputs"]), where + ": outputs")
    expect_eq(config.max_children, c["max"], where + ": children")
    ins = dict(c["inputs"])
    for part, m in (("inputs", config.inputs), ("outputs", config.outputs)):
        for k, item in c[part]:
            at = "%s: %s of %s" % (where, k, part)
            x = m[k]
            if part == "outputs":
                expect_eq((x.allow_static, x.allow_dynamic, x.is_static), (False, True, False), at + ": static, dynamic allowed, is static")
            else:
                fresh = make_item(item)
                expect_eq((x.allow_static, x.allow_dynamic, x.is_static), (fresh.allow_static, fresh.allow_dynamic, fresh.is_static), at)
            if item["t"] in REF_CLASS:
                s = type_spec(ins[item["target"]], choices.get(item["target"]))
                if WRAP[item["t"]]:
                    s = {"t": WRAP[item["t"]], "elem": s}
            elif item["t"] in TYPE_KINDS:
                continue
            else:
                s = item
            for v in probes:
                probe(lambda: copy.deepcopy(x).get_runtime_type(), s, v, at)


def run_configs(case, ctx):
    c = case["a"]
    good = config_ok(c)
    try:
        config = make_config(c)
        made = True
    except NodeConfigError:
        made = False
    expect_eq(made, good, "can be made")
    if not good:
        ctx.tag("refused")
        return
    check_config(config, c, {}, case["probes"], "configuration")
    ins = dict(c["inputs"])
    twin = config.copy()
    choices = {k: v for k, v in case["choices"] if k in ins}
    one, two = (config, twin) if case["side"] else (twin, config)
    for k, v in choices.items():
        choose(one, k, ins[k], v)
    check_config(two, c, {}, case["probes"], "its twin")
    check_config(two.copy(), c, {}, case["probes"], "copy of its twin")
    check_config(one.copy(), c, choices, case["probes"], "copy after choosing types")
    if any(i["t"] in REF_CLASS and i["target"] in choices for _, i in list(c["inputs"]) + list(c["outputs"])):
        ctx.tag("followed")
        ctx.nontrivial()
    # putting two together
    o = case["b"]
    if not config_ok(o):
        ctx.tag("other_refused")
        return
    first, other = make_config(c), make_config(o)
    dup = {k for k, _ in c["inputs"]} & {k for k, _ in o["inputs"]} or {k for k, _ in c["outputs"]} & {k for k, _ in o["outputs"]}
    r = first.extend(other)
    fits = c["max"] == o["max"] and not dup
    expect_eq(r.is_ok(), fits, "can be extended")
    if fits:
        ctx.tag("extended")
        both = {"inputs": c["inputs"] + o["inputs"], "outputs": c["outputs"] + o["outputs"], "max": c["max"]}
        check_config(first, both, {}, case["probes"], "extended configuration")
        expect(make_config(c) != first or not (o["inputs"] or o["outputs"]), "an extended configuration equals what it was")
        for k, v in choices.items():
            choose(first, k, ins[k], v)
        check_config(first.copy(), both, choices, case["probes"], "copy of an extended configuration after choosing types")
    else:
        ctx.tag("not_extended")
        expect(isinstance(r.unwrap_err(), NodeConfigError), "kind of error")
        expect(set(first.inputs) >= {k for k, _ in c["inputs"]}, "inputs are lost by a failed extension")
        if not dup:
            check_config(first, c, {}, case["probes"], "configuration after a failed extension")
        # what was there stays as it was
        kept = {"inputs": c["inputs"], "outputs": c["outputs"], "max": c["max"]}
        first.inputs = {k: v for k, v in first.inputs.items() if k in dict(c["inputs"])}
        first.outputs = {k: v for k, v in first.outputs.items() if k in dict(c["outputs"])}
        check_config(first, kept, {}, case["probes"], "configuration after a failed extension")


@st.composite
def config(draw, keys, refs=True):
    ins, outs = [], []
    good = draw(st.integers(0, 4)) > 0
    tkeys = []
    for k in draw(st.lists(st.sampled_from(keys), unique=True, max_size=4)):
        kinds = CONFIG_KINDS + TYPE_KINDS * 4
        s = draw(types.spec(kinds=kinds, depth=1))
        if s["t"] in TYPE_KINDS:
            tkeys.append(k)
        ins.append([k, s])
    free = [k for k in keys if k not in dict(ins)]
    for k in draw(st.lists(st.sampled_from(free), unique=True, min_size=1, max_size=3)) if free else []:
        target = draw(st.sampled_from(tkeys if good and tkeys else keys))
        if good and not tkeys:
            continue
        ins.append([k, {"t": draw(st.sampled_from(sorted(REF_CLASS))), "target": target}])
    for k in draw(st.lists(st.sampled_from(keys), unique=True, max_size=3)):
        if (tkeys or not good) and draw(st.booleans()):
            target = draw(st.sampled_from(tkeys if good else keys))
            outs.append([k, {"t": draw(st.sampled_from(sorted(REF_CLASS))), "target": target}])
        else:
            kinds = tuple(k for k in CONFIG_KINDS if k not in TYPE_KINDS) if good else CONFIG_KINDS
            outs.append([k, draw(types.spec(kinds=kinds, depth=1))])
    ins = draw(st.permutations(ins))
    return {"inputs": [list(x) for x in ins], "outputs": outs, "max": draw(st.sampled_from([None, 0, 1]))}


@st.composite
def config_cases(draw):
    a = draw(config(KEYS))
    b = draw(st.one_of(config(KEYS), config(["v", "w", "x", "y", "z"])))
    if draw(st.integers(0, 3)):
        b["max"] = a["max"]
    choices = []
    for k, i in a["inputs"]:
        v = types.value(i) if i["t"] in TYPE_KINDS else None
        if v is not None and draw(st.integers(0, 5)):
            choices.append([k, draw(v)])
    return {"a": a, "b": b, "choices": choices, "side": draw(st.booleans()), "probes": draw(st.lists(st.sampled_from(PROBES), max_size=6))}
