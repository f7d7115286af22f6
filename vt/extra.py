"""Setting options of nodes whose inputs follow from one of their options."""
import copy
import importlib
import uuid

from hypothesis import strategies as st

from . import bootstrap

bootstrap.boot()

from ros_bt_py import data_types as dt  # noqa: E402
from ros_bt_py.node import Node  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces import srv as bt_srv  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeStructure, Wiring  # noqa: E402

from . import edit, subtree  # noqa: E402
from .core import expect, expect_eq  # noqa: E402
from .edit import io, must  # noqa: E402
from .fakeros import FakeNode  # noqa: E402
from .store import Scratch  # noqa: E402

ROOT = str(uuid.UUID(int=0))
CLASSES = {
    # class: (module, option, choices)
    "FieldsToMessage": (
        "ros_bt_py.ros_nodes.message_converters",
        "output_type",
        ["std_msgs/msg/" + t for t in ("String", "Int32", "Int64", "UInt8", "Bool", "Float32", "Float64", "Header", "ColorRGBA", "Empty")]
        + ["geometry_msgs/msg/" + t for t in ("Point", "Vector3", "Point32", "Quaternion", "Pose2D", "Twist")],
    ),
    "Service": ("ros_bt_py.ros_nodes.service", "service_type", ["std_srvs/srv/SetBool", "std_srvs/srv/Trigger", "std_srvs/srv/Empty"]),
    "Subtree": ("ros_bt_py.ros_nodes.subtree", "subtree_path", list(range(4))),
}
VALUES = {int: [0, 5, 100], float: [0.5, -2.0], str: ["", "a", "x y"], bool: [True, False]}


class Harness:
    def __init__(self, case, paths):
        self.case, self.paths = case, paths
        self.module, self.option, _ = CLASSES[case["cls"]]
        self.ros = FakeNode()
        self.m = TreeEditManager(ros_node=self.ros)
        self.name, self.given, self.at = "n", {}, case["at"]

    def chosen(self, choice):
        template = Node.node_classes[self.module][self.case["cls"]]._node_config.inputs[self.option]
        c = copy.deepcopy(template)
        must(c.set_value(self.paths[choice % len(self.paths)] if isinstance(choice, int) else interface(choice)), "option")
        return io(self.option, c)

    def message(self, name, given):
        return NodeStructure(module=self.module, node_class=self.case["cls"], name=name, inputs=list(given.values()))

    def fresh(self, given):
        """A node that was made with these inputs right away."""
        n = must_node(Node.from_msg(with_id(self.message(self.name, given)), self.ros))
        return n

    def value_of(self, template, pick):
        """A way to give an input: a static value, or dynamically"""
        c = copy.deepcopy(template)
        kind = c.serialize_type().type_identifier
        pool = {dt.IntType: int, dt.FloatType: float, dt.StringType: str, dt.BoolType: bool}
        values = next((VALUES[p] for k, p in pool.items() if isinstance(c, k)), None)
        if not c.allow_static or c.allow_dynamic and (pick is None or values is None):
            c.is_static = False
            return c
        pick = pick or 0
        msg = c.serialize_type()
        msg.is_static = True
        r = dt.get_iotype_for_msg(msg)
        must(r, "container of a type that was made into a message")
        c = r.unwrap()
        must(c.set_value(values[pick % len(values)]), "value of type %d" % kind)
        return c

    def start(self):
        m = self.m
        r = m.add_node(bt_srv.AddNode.Request(node=NodeStructure(module=edit.KINDS["Sequence"][0], node_class="Sequence", name="root"), parent_node_id=ROOT), bt_srv.AddNode.Response())
        expect(r.success, "root: " + r.error_message)
        self.root = r.node_id
        for i in range(3):
            if i == self.at:
                first = {self.option: self.chosen(self.case["first"])}
                r = m.add_node(bt_srv.AddNode.Request(node=self.message(self.name, first), parent_node_id=self.root), bt_srv.AddNode.Response())
                expect(r.success, "the node is not made: " + r.error_message)
                self.id = r.node_id
                self.given = first
            else:
                r = m.add_node(
                    bt_srv.AddNode.Request(node=NodeStructure(module="vt.nodes", node_class="Source", name="s%d" % i), parent_node_id=self.root), bt_srv.AddNode.Response()
                )
                expect(r.success, "source: " + r.error_message)
                self.source = r.node_id
        self.children = [str(c.node_id) for c in m.nodes[uuid.UUID(self.root)].children]

    def apply(self, op, ctx):
        inputs, given = {}, dict(self.given)
        name = None
        if op[0] == "type":
            inputs[self.option] = self.chosen(op[1])
        if op[0] == "name":
            name = self.name = op[1]
        fresh = self.fresh(given)
        extra = [k for k in sorted(fresh.node_config.inputs) if k not in fresh._node_config.inputs]
        if op[0] == "values" and extra:
            for k, pick in op[1]:
                key = extra[k % len(extra)]
                inputs[key] = io(key, self.value_of(fresh.node_config.inputs[key], pick))
        if op[0] == "wire":
            self.wire(fresh, extra, op[1])
            return
        r = self.m.set_options(
            bt_srv.SetOptions.Request(node_id=self.id, rename_node=name is not None, new_name=name or "", inputs=list(inputs.values())),
            bt_srv.SetOptions.Response(),
        )
        expect(r.success, "refused: " + r.error_message)
        given.update(inputs)
        if op[0] == "type":
            # extra inputs that there still are, of the same type, stay what they were
            now = self.fresh({self.option: given[self.option]}).node_config.inputs
            kept = {}
            for key, msg in given.items():
                if key == self.option or key in fresh._node_config.inputs:
                    kept[key] = msg
                elif key in now and same_type(now[key].serialize_type(), msg.type):
                    kept[key] = msg
                    ctx.tag("kept")
                else:
                    ctx.tag("dropped")
            given = kept
        self.given = given

    def wire(self, fresh, extra, picks):
        for k, out in picks:
            if not extra:
                return
            if out is None:
                # one that may fit
                want = fresh.node_config.inputs[extra[k % len(extra)]].get_runtime_type()
                outs = self.m.nodes[uuid.UUID(self.source)].node_config.outputs
                out = next((o for o in sorted(outs) if want.is_compatible(outs[o].get_runtime_type())), "i")
            self.m.wire_data(
                bt_srv.WireNodeData.Request(
                    wirings=[
                        Wiring(
                            source=NodeDataLocation(node_id=self.source, data_key=out),
                            target=NodeDataLocation(node_id=self.id, data_key=extra[k % len(extra)]),
                        )
                    ]
                ),
                bt_srv.WireNodeData.Response(),
            )

    def check(self, step, wirings):
        want = self.fresh(self.given)
        node = self.m.nodes[uuid.UUID(self.id)]
        a, b = want.to_structure_msg(), node.to_structure_msg()
        expect_eq(b.name, self.name, step + ": name")
        for what in ("inputs", "outputs"):
            x, y = ({i.key: i for i in getattr(n, what)} for n in (a, b))
            expect_eq(sorted(y), sorted(x), "%s: %s" % (step, what))
            for key in x:
                expect_eq(plain(y[key].type), plain(x[key].type), "%s: type of %s" % (step, key))
                expect_eq(y[key].serialized_value, x[key].serialized_value, "%s: value of %s" % (step, key))
        expect_eq(
            [str(c.node_id) for c in self.m.nodes[uuid.UUID(self.root)].children], self.children, step + ": children of the root"
        )
        out = self.m.nodes[uuid.UUID(self.source)].node_config.outputs
        fit = [
            w
            for w in wirings
            if w[1] in want.node_config.inputs and want.node_config.inputs[w[1]].get_runtime_type().is_compatible(out[w[0]].get_runtime_type())
        ]
        expect_eq(self.wirings(), fit, step + ": wirings")

    def wirings(self):
        return sorted((w.source.data_key, w.target.data_key) for w in self.m.wirings)


def interface(name):
    package, kind, cls = name.split("/")
    return getattr(importlib.import_module("%s.%s" % (package, kind)), cls)


def must_node(r):
    must(r, "the node as it has to be")
    return r.unwrap()


def with_id(msg):
    msg.node_id = str(uuid.UUID(int=5))
    return msg


def plain(t):
    """The description of a type, without numbers that identify what it is about."""
    return {f: getattr(t, f) for f in t.get_fields_and_field_types() if f != "interface_id"}


def same_type(a, b):
    a, b = plain(a), plain(b)
    a.pop("is_static"), b.pop("is_static")
    return a == b


def run(case, ctx):
    subtree.begin()
    changed = 0
    with Scratch() as top:
        b = subtree.Builder(top, FakeNode())
        h = Harness(case, [b.file(p) for p in case.get("files", [])])
        h.start()
        h.check("start", [])
        last = case["first"]
        for i, op in enumerate(case["ops"]):
            before = h.wirings()
            h.apply(op, ctx)
            after = h.wirings() if op[0] == "wire" else before
            h.check("step %d %s" % (i, op), after)
            if op[0] == "type" and op[1] != last:
                changed += 1
                last = op[1]
                if before:
                    ctx.tag("wired")
    ctx.tag(case["cls"])
    ctx.nontrivial(changed >= 2 and any(o[0] in ("values", "wire") for o in case["ops"]))


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(["FieldsToMessage"] * 4 + ["Service"] * 2 + ["Subtree"]))
    choices = CLASSES[cls][2]
    if cls == "FieldsToMessage" and draw(st.booleans()):
        # with fields of the same names
        choices = [c for c in choices if c.startswith("geometry_msgs") or draw(st.integers(0, 4)) == 0]
    case = {"cls": cls, "at": draw(st.integers(0, 2)), "first": draw(st.sampled_from(choices)), "ops": []}
    if cls == "Subtree":
        case["files"] = [
            {
                "tree": {"k": "Sequence", "n": "r%d" % k, "p": {}, "c": [
                    {"k": "io", "n": n, "p": {"cls": draw(st.sampled_from(["IOInput", "IOInput", "IOOutput"])), "t": draw(st.sampled_from(subtree.IO_TYPES))}}
                    for n in draw(st.lists(st.sampled_from(["x1", "x2", "x3"]), unique=True, max_size=3))
                ]},
                "wires": [], "file": "f%d" % k, "depth": 0,
            }
            for k in range(draw(st.integers(2, 4)))
        ]
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["type", "type", "values", "wire", "wire", "name"]))
        if k == "type":
            op = [k, draw(st.sampled_from(choices))]
        elif k == "values":
            op = [k, draw(st.lists(st.tuples(st.integers(0, 5), st.one_of(st.none(), st.integers(0, 3))).map(list), min_size=1, max_size=3))]
        elif k == "wire":
            op = [k, draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from([None, None, None, "i", "s", "b", "f", "small"])).map(list), min_size=1, max_size=4))]
        else:
            op = [k, draw(st.sampled_from(["a", "b c", "n"]))]
        if k == "wire" and draw(st.integers(0, 3)):
            # static inputs can't be wired
            case["ops"].append(["values", [[i, None] for i, _ in op[1]]])
        case["ops"].append(op)
    return case
