"""A tree inside a Subtree node behaves like a node with the tree's inputs and outputs."""
import copy
import json
import os
import uuid

from hypothesis import strategies as st

from . import bootstrap

bootstrap.boot()

import rclpy  # noqa: E402
import rosidl_runtime_py  # noqa: E402
from ros_bt_py.data_flow_manager import DataFlowManager  # noqa: E402
from ros_bt_py.nodes.io import IOInput, IOOutput  # noqa: E402
from ros_bt_py.ros_nodes.subtree import Subtree  # noqa: E402
from ros_bt_py.data_types import GenericType, PathType  # noqa: E402
from ros_bt_py.subtree_manager import SubtreeManager  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import TreeStructure, Wiring  # noqa: E402
from ros_bt_py_interfaces.srv import ControlTreeExecution, LoadTree  # noqa: E402
from std_srvs.srv import SetBool  # noqa: E402

from . import control, edit, flow, model, nodes  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402
from .edit import must, quiet  # noqa: E402
from .execution import CMD  # noqa: E402
from .fakeros import FakeNode  # noqa: E402
from .store import Scratch  # noqa: E402

IO_TYPE = {
    "i": dict(edit.TYPES["int"][0], max_value=2**64 - 1),
    "s": dict(edit.TYPES["str"][0], max_length=flow.dt.INT_FLOAT_MAX),
    "b": edit.TYPES["bool"][0],
    "small": edit.TYPES["small"][0],
    "l": dict(edit.TYPES["lint"][0], max_length=flow.dt.INT_FLOAT_MAX, element_type=dict(edit.TYPES["int"][0], max_value=2**64 - 1)),
}
IO_TYPES = ("i", "s", "b", "small", "l")


# ------------------------------------------------------------------ the model
class DataLeaf(flow.DataLeaf):
    def init(self):
        super().init()
        self.calls = ""

    def hook(self, code, state):
        self.calls += code
        return state

    def do_setup(self):
        return self.hook("s", model.I)

    def do_untick(self):
        return self.hook("u", model.I)

    def do_reset(self):
        return self.hook("r", model.I)

    def do_shutdown(self):
        return self.hook("x", model.X)


class IO(model.MNode):
    """Hands its input on."""

    def init(self):
        self.inputs, self.updated = {"in": None}, {"in": False}
        self.outputs, self.out_upd = {"out": None}, {"out": False}

    def do_tick(self):
        self.set_output("out", self.inputs["in"])
        return model.S


class Sub(model.MNode):
    """A node around a tree of its own, fed by its inputs."""

    def init(self):
        p = self.p
        self.inner = Tree(p["tree"], [tuple(w) for w in p["wires"]], self)
        self.root = self.inner.nodes[p["tree"]["n"]] if p["tree"] else None
        for n in self.inner.nodes.values():
            if n.spec["k"] == "io":
                group, flags = (self.inputs, self.updated) if n.p["cls"] == "IOInput" else (self.outputs, self.out_upd)
                key = n.name + (".in" if n.p["cls"] == "IOInput" else ".out")
                group[key], flags[key] = None, False
        self.acted = self.fresh = self.ticked = False

    def type_of(self, key):
        return self.inner.nodes[key.rsplit(".", 1)[0]].p["t"]

    def act(self, what):
        if not self.root:
            raise model.ModelErr()
        self.acted = True
        self.fresh = what == "tick"
        self.ticked = self.ticked or self.fresh
        getattr(self.root, what)()
        return self.root.state

    def do_setup(self):
        return self.act("setup") if self.root else model.I

    def do_tick(self):
        if not self.root:
            raise model.ModelErr()
        for key, value in self.inputs.items():
            if self.updated[key]:
                self.inner.put(key.rsplit(".", 1)[0], "in", value)
        return self.act("tick")

    def do_untick(self):
        return self.act("untick")

    def do_reset(self):
        return self.act("reset") if self.root else model.I

    def do_shutdown(self):
        return self.act("shutdown") if self.root else model.X


class Tree(flow.FlowTree):
    def __init__(self, spec, wires, owner=None):
        self.owner = owner
        if spec is None:
            self.nodes, self.wires = {}, wires
            return
        super().__init__(spec, wires)

    # every tree logs into the outermost one
    @property
    def tick_order(self):
        return self.owner.tree.tick_order if self.owner else self._order

    @tick_order.setter
    def tick_order(self, v):
        self._order = v

    def in_type(self, name, key):
        n = self.nodes[name]
        if isinstance(n, IO):
            return n.p["t"]
        if isinstance(n, Sub):
            return n.type_of(key)
        return super().in_type(name, key)

    def push(self, node):
        super().push(node)
        if self.owner and isinstance(node, IO) and node.p["cls"] == "IOOutput" and node.out_upd["out"]:
            self.owner.set_output(node.name + ".out", node.outputs["out"])


model.KINDS.update({"sdata": DataLeaf, "io": IO, "sub": Sub})


# ---------------------------------------------------------------- real trees
def node_id(name):
    return uuid.uuid5(uuid.NAMESPACE_DNS, name)


def real_key(key):
    """A model key such as "n3.in" of a subtree node, as the real node has it."""
    if "." in key:
        name, k = key.rsplit(".", 1)
        return "%s.%s" % (node_id(name), k)
    return key


class Builder:
    def __init__(self, top, ros_node, subtree_manager=None):
        self.top = top
        self.ros_node = ros_node
        self.subtree_manager = subtree_manager
        self.files = {}

    def node(self, spec, made):
        kind, p = spec["k"], spec.get("p", {})
        kwargs = {"name": spec["n"], "node_id": node_id(spec["n"])}
        if kind == "sdata":
            cls = nodes.DATA[p["cls"]]
            nodes.STEPS[spec["n"]] = p["steps"]
        elif kind == "io":
            cls = {"IOInput": IOInput, "IOOutput": IOOutput}[p["cls"]]
            g = GenericType()
            must(g.set_value(copy.deepcopy(IO_TYPE[p["t"]])), "io type")
            kwargs["new_inputs"] = {"io_type": g}
        elif kind == "sub":
            cls = Subtree
            path = PathType(allow_dynamic=False)
            must(path.set_value(self.file(p)), "path")
            kwargs["new_inputs"] = {"subtree_path": path}
            kwargs["ros_node"] = self.ros_node
            kwargs["subtree_manager"] = self.subtree_manager
        else:
            cls = control.REAL[kind]
        node = cls(**kwargs)
        for key, value in control.static(kind, p).items():
            c = node.node_config.inputs[key]
            must(c.set_value(value), "option")
            c.reset_updated()
        for c in spec.get("c", []):
            must(node.add_child(self.node(c, made)), "child")
        made[spec["n"]] = node
        return node

    def message(self, spec, wires, name):
        made = {}
        if spec:
            b = Builder(self.top, self.ros_node)
            b.files = self.files
            b.node(spec, made)
        msgs = [n.to_structure_msg() for n in made.values()]
        for n in msgs:
            n.outputs = []  # follow from the class and the inputs
        return TreeStructure(
            name=name,
            nodes=msgs,
            data_wirings=[wiring(w) for w in wires],
            tick_frequency_hz=10.0,
        )

    def file(self, p):
        if p["file"] not in self.files:
            path = os.path.join(self.top, p["file"] + ".yaml")
            self.files[p["file"]] = "file://" + path
            d = rosidl_runtime_py.message_to_ordereddict(self.message(p["tree"], p["wires"], p["file"]))
            with open(path, "w") as f:
                # JSON is YAML; what is left out has its default value
                f.write("version: %s\n" % bootstrap.package_version())
                for key, value in lean(d).items():
                    f.write("%s: %s\n" % (key, json.dumps(value)))
        return self.files[p["file"]]


def lean(d):
    if isinstance(d, dict):
        return {k: lean(v) for k, v in d.items() if v}
    return [lean(x) for x in d] if isinstance(d, list) else d


def wiring(w):
    s, sk, d, dk = w
    loc = flow.NodeDataLocation
    return Wiring(
        source=loc(node_id=str(node_id(s)), data_key=real_key(sk)),
        target=loc(node_id=str(node_id(d)), data_key=real_key(dk)),
    )


# ------------------------------------------------------------------ comparing
def inner_nodes(sub):
    return {n.name: n for n in sub.manager.nodes.values()}


def compare(step, real, mtree, where=""):
    for name, m in mtree.nodes.items():
        r = real[name]
        at = "step %s: %s%s" % (step, where, name)
        if r.state != m.state:
            raise Violation("%s (%s) is in state %s, expected %s" % (at, m.spec["k"], r.state, m.state))
        if isinstance(m, DataLeaf):
            expect_eq(getattr(r, "vt_seen", []), m.seen, at + ": inputs (value, updated) seen at ticks")
            expect_eq(getattr(r, "vt_calls", ""), m.calls, at + ": calls (s=setup u=untick r=reset x=shutdown)")
        if m.was_setup:
            for what, group, values, flags in (
                ("input", r.node_config.inputs, m.inputs, m.updated),
                ("output", r.node_config.outputs, m.outputs, m.out_upd),
            ):
                for k, v in values.items():
                    if isinstance(m, (IO, Sub)) and v is None and m.state in (model.B, model.X, model.U):
                        continue
                    c = group[real_key(k)]
                    got = c.get_value()
                    got = got.unwrap() if got.is_ok() else None
                    if got != v or type(got) is not type(v):
                        raise Violation("%s: %s %s is %r, expected %r" % (at, what, k, got, v))
                    if m.state not in (model.B, model.U, model.X) and c.is_updated() != flags[k]:
                        raise Violation("%s: %s %s: updated is %s, expected otherwise" % (at, what, k, c.is_updated()))
        if isinstance(m, Sub):
            inner = inner_nodes(r)
            expect_eq(sorted(inner), sorted(m.inner.nodes), at + ": nodes of the subtree")
            compare(step, inner, m.inner, where + name + "/")


def same_outside(m, r, at):
    """Inputs and outputs of a subtree node are those its tree shows."""
    ins = {real_key(k) for k in m.inputs} | {"subtree_path"}
    expect_eq(set(r.node_config.inputs), ins, at + ": inputs")
    expect_eq(set(r.node_config.outputs), {real_key(k) for k in m.outputs}, at + ": outputs")
    for k, group in [(k, r.node_config.inputs) for k in m.inputs] + [(k, r.node_config.outputs) for k in m.outputs]:
        expect_eq(
            group[real_key(k)].get_runtime_type().serialize_type().type_identifier,
            flow.container(m.type_of(k)).type_identifier,
            at + ": type of " + k,
        )


def subs(mtree, real, path=()):
    """Every subtree node, also inside of subtrees: (model, real, depth)."""
    for name, m in mtree.nodes.items():
        if isinstance(m, Sub):
            yield m, real[name], path + (name,)
            yield from subs(m.inner, inner_nodes(real[name]), path + (name,))


def check_published(step, what, got, mtree, real, on, ids):
    """`got` are the messages for subtrees; `ids`: path -> tree id."""
    want = {p: (m, r) for m, r, p in subs(mtree, real)} if on else {}
    by_id = {}
    for g in got:
        expect(g.tree_id not in by_id, "step %s: two %s messages for one tree" % (step, what))
        by_id[g.tree_id] = g
    if what == "structure":
        for p, (m, r) in want.items():
            tid = str(r.manager.tree_id.unwrap())
            expect(tid in by_id, "step %s: no structure of subtree %s" % (step, "/".join(p)))
            expect(ids.setdefault(p, tid) == tid, "step %s: the id of subtree %s changed" % (step, p))
        expect_eq(len(by_id), len(want), "step %s: number of published structures of subtrees" % step)
        expect_eq(len(set(ids.values())), len(ids), "ids of subtrees are unique")
    for p, (m, r) in want.items():
        at = "step %s: published %s of subtree %s" % (step, what, "/".join(p))
        g = by_id.get(ids.get(p) or str(r.manager.tree_id.unwrap()))
        if what == "structure":
            names = {n.name: n for n in g.nodes}
            expect_eq(sorted(names), sorted(m.inner.nodes), at + ": nodes")
            expect_eq(g.name, m.p["file"], at + ": name")
            for name, n in names.items():
                expect_eq(n.node_id, str(node_id(name)), at + ": id of " + name)
                expect_eq(list(n.child_ids), [str(node_id(c.name)) for c in m.inner.nodes[name].children], at + ": children of " + name)
            if m.root:
                expect_eq(g.root_id, str(node_id(m.root.name)), at + ": root")
            expect_eq(
                sorted(map(str, g.data_wirings)), sorted(str(wiring(w)) for w in m.p["wires"]), at + ": wirings"
            )
        elif what == "state" and m.acted:
            expect(g is not None, at + " is missing")
            states = {s.node_id: s.state for s in g.node_states}
            expect_eq(states, {str(node_id(n)): x.state for n, x in m.inner.nodes.items()}, at)
        elif what == "data" and m.fresh:
            expect(g is not None, at + " is missing")
            check_data(at, g.wiring_data, m.inner, inner_nodes(r))


def check_data(at, got, mtree, real):
    want = {tuple(map(str, (wiring(w).source, wiring(w).target))): w for w in mtree.wires}
    expect_eq(sorted((str(g.wiring.source), str(g.wiring.target)) for g in got), sorted(want), at + ": wirings")
    for g in got:
        s, sk, d, dk = want[(str(g.wiring.source), str(g.wiring.target))]
        sv, dv = mtree.nodes[s].outputs[sk], mtree.nodes[d].inputs[dk]
        w = "%s: data of wiring %s.%s -> %s.%s" % (at, s, sk, d, dk)
        expect_eq(g.serialized_data == "", sv is None, w + ": there is no value")
        if sv is not None:
            expect_eq(json.loads(g.serialized_data), sv, w)
            expect_eq(g.is_current, type(sv) is type(dv) and sv == dv, w + ": is it what the target has")
        src = real[s].node_config.outputs[real_key(sk)].get_runtime_type().serialize_type()
        dst = real[d].node_config.inputs[real_key(dk)].get_runtime_type().serialize_type()
        expect_eq(g.source_type, src, w + ": type of the source")
        expect_eq(g.target_type, dst, w + ": type of the target")


# --------------------------------------------------------------------- runs
def begin():
    if not rclpy.ok():
        rclpy.init()
    quiet()
    nodes.clear()
    nodes.PER_INSTANCE.append(1)


def all_subs(mtree):
    for m in mtree.nodes.values():
        if isinstance(m, Sub):
            yield m
            yield from all_subs(m.inner)


def call(mtree, name, op):
    for m in all_subs(mtree):
        m.fresh = False
    return mtree.call(name, op)


def finish(mtree, ctx, ticks):
    used = False
    for m in all_subs(mtree):
        ctx.tag("subtree")
        if m.tree.owner:
            ctx.tag("nested")
        if m.state == model.B:
            ctx.tag("broken")
        if m.acted:
            ctx.tag("setup")
        if m.ticked:
            ctx.tag("ticked")
        inside = any(n.seen for n in m.inner.nodes.values() if isinstance(n, DataLeaf))
        io = any(n.inputs["in"] is not None for n in m.inner.nodes.values() if isinstance(n, IO))
        if io:
            ctx.tag("io")
        used = used or (inside and io)
    ctx.nontrivial(used and ticks >= 2)


def run(case, ctx):
    """The nodes themselves, called one by one."""
    begin()
    wires = [tuple(w) for w in case["wires"]]
    mtree = Tree(case["tree"], wires)
    pub = {"subtrees": True, "data": False}
    ids = {}
    with Scratch() as top:
        manager = SubtreeManager()
        if case["data_first"]:
            manager.set_publish_data(True)
            pub["data"] = True
        real = {}
        root = Builder(top, FakeNode(), manager).node(case["tree"], real)
        flowing = DataFlowManager()
        for n in real.values():
            n.data_flow_manager = flowing
        must(flowing.initialize({n.node_id: n for n in real.values()}, [wiring(w) for w in wires]), "wirings")
        for m, r, path in subs(mtree, real):
            same_outside(m, r, "subtree " + "/".join(path))
        check_published("build", "structure", manager.get_subtree_structures(), mtree, real, True, ids)
        ticks = 0
        for i, op in enumerate(case["ops"]):
            step = "%d(%s)" % (i, op)
            if isinstance(op, list):
                what, on = op
                pub[what] = on
                if what == "data":
                    manager.set_publish_data(on)
                else:
                    manager.publish_subtrees = on
                for m in all_subs(mtree):
                    m.fresh = False
            else:
                want, state = call(mtree, case["tree"]["n"], control.OPS[op])
                res = getattr(root, control.OPS[op])()
                if res.is_ok() != (want == "ok"):
                    raise Violation("step %s: the root returned %r, expected %s in state %s" % (step, res, want, state))
                ticks += op == "t"
                compare(step, real, mtree)
                expect_eq(nodes.TICK_ORDER, mtree.tick_order, "step %s: order of leaf ticks" % step)
                if want == "err":
                    ctx.tag("error")
            on = pub["subtrees"]
            check_published(step, "structure", manager.get_subtree_structures(), mtree, real, on, ids)
            check_published(step, "state", manager.get_subtree_states(), mtree, real, on, ids)
            if not on:
                expect_eq(manager.get_subtree_states(), [], "step %s: published states" % step)
                expect_eq(manager.get_subtree_data(), [], "step %s: published data" % step)
            elif pub["data"]:
                check_published(step, "data", manager.get_subtree_data(), mtree, real, on, ids)
    finish(mtree, ctx, ticks)


def run_managed(case, ctx, make=TreeEditManager):
    """The same as a tree that is loaded into a tree manager."""
    begin()
    wires = [tuple(w) for w in case["wires"]]
    mtree = Tree(case["tree"], wires)
    ids = {}
    with Scratch() as top:
        msg = Builder(top, FakeNode()).message(case["tree"], wires, "tree")
        structures, states, data = [], [], []
        m = make(
            ros_node=FakeNode(),
            publish_tree_structure_callback=structures.append,
            publish_tree_state_callback=states.append,
            publish_tree_data_callback=data.append,
        )
        if case["data_first"]:
            m.set_publish_data(SetBool.Request(data=True), SetBool.Response())
        r = m.load_tree(LoadTree.Request(tree=msg), LoadTree.Response())
        expect(r.success, "the tree is not loaded: %s" % r.error_message)
        if not case["data_first"]:
            m.set_publish_data(SetBool.Request(data=True), SetBool.Response())
        real = {n.name: n for n in m.nodes.values()}
        root = mtree.nodes[case["tree"]["n"]]
        for sm, sr, path in subs(mtree, real):
            same_outside(sm, sr, "subtree " + "/".join(path))

        def others(msgs):
            """Messages about subtrees in what was published last."""
            trees = getattr(msgs[-1], [f for f in msgs[-1].get_fields_and_field_types() if f.startswith("tree_")][0])
            own = str(m.tree_id.unwrap())
            expect(own in [t.tree_id for t in trees], "the tree itself is not among what is published")
            return [t for t in trees if t.tree_id != own]

        def command(c):
            return m.control_execution(
                ControlTreeExecution.Request(command=CMD[c]), ControlTreeExecution.Response()
            )

        expect(bool(structures), "the loaded tree is not published")
        check_published("load", "structure", others(structures), mtree, real, True, ids)
        on = data_on = True
        running = waiting = failed = False
        ticks = 0
        for i, op in enumerate(case["ops"]):
            step = "%d(%s)" % (i, op)
            del data[:]
            if isinstance(op, list):
                if op[0] == "subtrees":
                    on = op[1]
                    r = m.set_publish_subtrees(SetBool.Request(data=on), SetBool.Response())
                    expect(r.success, "publishing of subtrees can't be set: %s" % r.message)
                else:
                    data_on = op[1]
                    r = m.set_publish_data(SetBool.Request(data=data_on), SetBool.Response())
                    expect(r.success, "publishing of data can't be set: %s" % r.message)
                    if not data_on:
                        expect(data and not data[-1].tree_data, "step %s: the data that was published is not taken back" % step)
                for x in all_subs(mtree):
                    x.fresh = False
                continue
            if op == "t" and not failed:
                how = "ok"
                if root.state in (model.U, model.X):
                    how, _ = call(mtree, root.name, "setup")
                if how == "ok":
                    how, _ = call(mtree, root.name, "tick")
                r = command("once")
                expect_eq(r.success, how == "ok", "step %s: tick succeeded (%s)" % (step, r.error_message))
                failed = how != "ok"
                if failed:
                    ctx.tag("error")
                else:
                    running = waiting = True
                    ticks += 1
                    if data_on:
                        check_published(step, "data", others(data), mtree, real, on, ids)
                    else:
                        expect_eq(data, [], "step %s: data published while that is switched off" % step)
            elif op == "u" and waiting and not failed:
                waiting = False
                call(mtree, root.name, "untick")
                expect(command("stop").success, "step %s: the tree can't be stopped" % step)
            elif op == "r" and running and not failed:
                if waiting:
                    call(mtree, root.name, "untick")
                    command("stop")
                    waiting = False
                call(mtree, root.name, "reset")
                r = command("reset")
                expect(r.success, "step %s: the tree can't be reset: %s" % (step, r.error_message))
            elif op == "x" and (running or failed):
                if waiting:
                    call(mtree, root.name, "untick")
                call(mtree, root.name, "shutdown")
                r = command("shutdown")
                expect(r.success, "step %s: the tree can't be shut down: %s" % (step, r.error_message))
                running = waiting = failed = False
            else:
                continue
            compare(step, real, mtree)
            expect_eq(nodes.TICK_ORDER, mtree.tick_order, "step %s: order of leaf ticks" % step)
            if not failed:
                check_published(step, "state", others(states), mtree, real, on, ids)
            if not on:
                expect_eq(others(states), [], "step %s: published states of subtrees" % step)
    finish(mtree, ctx, ticks)


# ----------------------------------------------------------------- generator
INNER = ("Sequence",) * 6 + ("Fallback", "MemorySequence", "Parallel", "Inverter", "IgnoreFailure", "Repeat", "Retry")


control_single = ("Inverter", "IgnoreFailure", "Repeat", "Retry")


class Gen:
    def __init__(self, draw):
        self.draw = draw
        self.n = 0
        self.files = []

    def fresh(self):
        self.n += 1
        return "n%d" % self.n

    def one_in(self, k):
        return self.draw(st.integers(0, k - 1)) == 0

    def leaf(self, depth, inside, first=False):
        draw = self.draw
        c = draw(st.integers(0, 9))
        if depth and not first and c < 4:
            return self.sub(depth)
        if inside and c < 8:
            return {"k": "io", "n": self.fresh(), "p": {"cls": draw(st.sampled_from(["IOInput", "IOInput", "IOOutput"])), "t": draw(st.sampled_from(IO_TYPES))}}
        cls = "Feeder" if first else draw(st.sampled_from(["Feeder", "Join", "Relay_i", "Relay_s", "Relay_b", "Relay_l", "Relay_small"]))
        steps = draw(flow.steps(cls))
        if first or cls == "Feeder":
            steps[0][0] = draw(st.sampled_from("SSSSSSSSSSSFR"))
            for k, t in flow.OUT[cls].items():
                steps[0][1].setdefault(k, flow.VALUES[t][1])
        elif not self.one_in(3):
            steps[0][0] = "S"
        return {"k": "sdata", "n": self.fresh(), "p": {"cls": cls, "steps": steps}}

    def tree(self, depth, inside, level=0):
        draw = self.draw
        kind = draw(st.sampled_from(INNER[:9] if level == 0 else INNER))
        spec = {"k": kind, "n": self.fresh(), "p": {}, "c": []}
        many = kind in ("Sequence", "Fallback", "MemorySequence", "Parallel")
        n = draw(st.integers(2 if level == 0 else 1, 4)) if many else 1
        for j in range(n):
            if level < 1 and self.one_in(4):
                spec["c"].append(self.tree(depth, inside, level + 1))
            else:
                spec["c"].append(self.leaf(depth, inside, not inside and level == 0 and j == 0))
        if kind == "Parallel":
            spec["p"] = {"needed": draw(st.integers(1, n)), "tolerate": 0}
        if kind in ("Repeat", "Retry"):
            spec["p"] = {"n": draw(st.integers(1, 2))}
        return spec

    def sub(self, depth):
        if self.files and self.one_in(3):
            p = self.draw(st.sampled_from(self.files))
            if depth > 1 or p["depth"] == 0:
                return {"k": "sub", "n": self.fresh(), "p": p}
        # sometimes a single node
        tree = self.leaf(0, True) if self.one_in(12) else self.tree(depth - 1, True)
        self.repair(tree)
        p = {"tree": tree, "wires": self.wires(tree, True), "file": self.fresh(), "depth": depth - 1}
        self.files.append(p)
        return {"k": "sub", "n": self.fresh(), "p": p}

    def feeder(self):
        steps = self.draw(flow.steps("Feeder"))
        steps[0][0] = "S"
        for k, t in flow.OUT["Feeder"].items():
            steps[0][1].setdefault(k, flow.VALUES[t][1])
        return {"k": "sdata", "n": self.fresh(), "p": {"cls": "Feeder", "steps": steps}}

    def repair(self, tree):
        """Mostly let every node find a value for each of its inputs."""
        if self.one_in(16):
            return
        have = set()
        for s in control.walk(tree):
            if s["k"] not in ("sdata", "io", "sub"):
                continue
            ends = [e for e in self.ends({k: v for k, v in s.items() if k != "c"})]
            need = {t for _, _, t, out in ends if not out}
            if s["k"] == "io" and s["p"]["cls"] == "IOInput":
                need = set()
            if need - have:
                if s["k"] == "sub":
                    if tree.get("c") and tree["k"] not in control_single:
                        tree["c"].insert(0, self.feeder())
                        have |= set(flow.OUT["Feeder"])
                        if tree["k"] == "Parallel":
                            tree["p"]["needed"] += 1
                elif s["k"] == "io":
                    if have:
                        s["p"]["t"] = sorted(have)[0]
                    else:
                        s["p"]["cls"] = "IOInput"
                else:
                    s.update({k: v for k, v in self.feeder().items() if k != "n"})
            have |= {t for _, _, t, out in self.ends({k: v for k, v in s.items() if k != "c"}) if out}

    def ends(self, tree):
        """(name, key, type, is_output) in depth-first order."""
        for s in control.walk(tree):
            p = s.get("p", {})
            if s["k"] == "sdata":
                for k, t in flow.IN[p["cls"]].items():
                    yield s["n"], k, t, False
                for k, t in flow.OUT[p["cls"]].items():
                    yield s["n"], k, t, True
            elif s["k"] == "io":
                yield s["n"], "in", p["t"], False
                yield s["n"], "out", p["t"], True
            elif s["k"] == "sub" and p["tree"]:
                for x in control.walk(p["tree"]):
                    if x["k"] == "io":
                        if x["p"]["cls"] == "IOInput":
                            yield s["n"], x["n"] + ".in", x["p"]["t"], False
                        else:
                            yield s["n"], x["n"] + ".out", x["p"]["t"], True

    def wires(self, tree, inside):
        draw = self.draw
        ends = list(self.ends(tree))
        at = {s["n"]: i for i, s in enumerate(control.walk(tree))}
        kinds = {s["n"]: s.get("p", {}).get("cls") for s in control.walk(tree)}
        out = set()
        for name, key, t, is_out in ends:
            if is_out:
                continue
            c = draw(st.integers(0, 19))
            if inside and kinds[name] == "IOInput" and c < 19:
                continue  # gets its value from outside
            fit = [e for e in ends if e[3] and (e[2] == t or (e[2], t) == ("small", "i"))]
            early = [e for e in fit if at[e[0]] < at[name]]
            if early and c:
                fit = early
            if not fit or self.one_in(60):
                continue
            for _ in range(2 if c == 1 else 1):
                e = draw(st.sampled_from(fit))
                out.add((e[0], e[1], name, key))
        order = sorted(out)
        if len(order) > 1:
            order = draw(st.permutations(order))
        return [list(w) for w in order]


@st.composite
def cases(draw):
    g = Gen(draw)
    tree = g.tree(2, False)
    if not g.files:
        tree["c"].append(g.sub(draw(st.integers(1, 2))))
    g.repair(tree)
    wires = g.wires(tree, False)
    ops = ["s"]
    for _ in range(draw(st.integers(2, 12))):
        c = draw(st.sampled_from("ttttttttttturrxp"))
        if c == "p":
            what, on = draw(st.sampled_from(["subtrees", "data"])), draw(st.booleans())
            ops.append([what, on])
            if not on:
                # off for some time only
                ops += ["t"] * draw(st.integers(0, 2)) + [[what, True], "t"]
        else:
            ops.append(c)
            if c == "x":
                ops.append("s")
    return {"tree": tree, "wires": wires, "ops": ops, "data_first": draw(st.booleans())}
