"""Data flow: values travel along wirings exactly when they are produced."""
import json
import uuid

from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402

from ros_bt_py import data_types as dt  # noqa: E402
from ros_bt_py.data_flow_manager import DataFlowManager  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring  # noqa: E402

from . import control, model, nodes  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402

INT_LO, INT_HI = dt.INT_LIMITS["int64"]
OUT = {"Feeder": {"i": "i", "small": "small", "s": "s", "b": "b", "l": "l"}, "Join": {"o": "i", "p": "s"}}
IN = {"Feeder": {}, "Join": {"a": "i", "b": "s"}}
for _k in ("i", "small", "s", "b", "l"):
    OUT["Relay_" + _k] = {"o": _k}
    IN["Relay_" + _k] = {"a": _k}
FITS = {("small", "i"), ("i", "small")}  # the latter only for some values
SWITCHES = {"NameSwitch": ("name", "s"), "Watch": ("watch", "s"), "RepeatNoAutoReset": ("reset", "b")}


def accepts(t, v):
    if t in ("i", "small"):
        lo, hi = (INT_LO, INT_HI) if t == "i" else (0, 10)
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v <= hi
    if t == "s":
        return isinstance(v, str)
    if t == "b":
        return isinstance(v, bool)
    return isinstance(v, list)


class DataLeaf(model.Leaf):
    def init(self):
        super().init()
        self.cls = self.p["cls"]
        self.inputs = {k: None for k in IN[self.cls]}
        self.updated = {k: False for k in self.inputs}
        self.outputs = {k: None for k in OUT[self.cls]}
        self.out_upd = {k: False for k in self.outputs}
        self.seen = []

    def do_tick(self):
        steps = self.p["steps"] or [["S", {}]]
        code, writes = steps[len(self.seen) % len(steps)]
        self.seen.append({k: [v, self.updated[k]] for k, v in self.inputs.items()})
        self.tree.tick_order.append(self.name)
        for k, v in writes.items():
            if isinstance(v, list) and v[:1] == ["<"]:
                v = self.inputs[v[1]]
            if not accepts(OUT[self.cls][k], v):
                raise model.ModelErr()
            self.set_output(k, v)
        return self._r(code)

    def do_setup(self):
        return model.I

    do_untick = do_reset = do_setup

    def do_shutdown(self):
        return model.X


model.KINDS["data"] = DataLeaf


class FlowTree(model.Tree):
    def __init__(self, spec, wires, exported=()):
        self.wires = wires
        self.exported = {tuple(e): [None, False] for e in exported}
        super().__init__(spec)

    def in_type(self, name, key):
        n = self.nodes[name]
        if isinstance(n, DataLeaf):
            return IN[n.cls][key]
        return SWITCHES[n.spec["k"]][1]

    def push(self, node):
        for s, sk, d, dk in self.wires:
            if s != node.name or not node.out_upd.get(sk) or node.outputs[sk] is None:
                continue
            self.put(d, dk, node.outputs[sk])
        for (name, key), cell in self.exported.items():
            if name == node.name and node.out_upd.get(key) and node.outputs[key] is not None:
                if cell[0] != node.outputs[key]:
                    cell[:] = [node.outputs[key], True]

    def put(self, name, key, value):
        if not accepts(self.in_type(name, key), value):
            raise model.ModelErr()
        self.nodes[name].set_input(key, value)


def container(t):
    return {
        "i": dt.IntType,
        "small": lambda **k: dt.IntType(min_value=0, max_value=10, **k),
        "s": dt.StringType,
        "b": dt.BoolType,
        "l": lambda **k: dt.ListType(element_type=dt.IntType(), **k),
    }[t](allow_static=False)


def dynamic(t):
    c = container(t)
    c.reset_value()
    c.reset_updated()
    return c


def loc(node, key):
    return NodeDataLocation(node_id=str(node.node_id), data_key=key)


def compare_data(step, real, mtree):
    for name, m in mtree.nodes.items():
        if isinstance(m, DataLeaf):
            got = nodes.SEEN.get(name, [])
            if got != m.seen:
                raise Violation(
                    "step %s: %s %s saw inputs %r, expected %r (value, updated)"
                    % (step, m.cls, name, got[-3:], m.seen[-3:])
                )
        if not m.was_setup:
            continue
        cfg = real[name].node_config
        for what, group, values, flags in (
            ("input", cfg.inputs, m.inputs, m.updated),
            ("output", cfg.outputs, m.outputs, m.out_upd),
        ):
            for k, v in values.items():
                r = group[k].get_value()
                got = r.unwrap() if r.is_ok() else None
                if got != v or type(got) is not type(v):
                    raise Violation("step %s: %s %s of %s is %r, expected %r" % (step, what, k, name, got, v))
                if m.state not in (model.B, model.U, model.X) and group[k].is_updated() != flags[k]:
                    raise Violation(
                        "step %s: %s %s of %s is%s flagged as updated, expected otherwise"
                        % (step, what, k, name, "" if group[k].is_updated() else " not")
                    )


def check_wiring_data(where, got, wires, mtree, real):
    key = lambda w: (w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key)  # noqa: E731
    ids = {n: str(real[n].node_id) for n in real}
    want = {(ids[s], sk, ids[d], dk): (s, sk, d, dk) for s, sk, d, dk in wires}
    expect_eq(sorted(key(g.wiring) for g in got), sorted(want), where + ": reported wirings")
    for g in got:
        s, sk, d, dk = want[key(g.wiring)]
        sv, dv = mtree.nodes[s].outputs[sk], mtree.nodes[d].inputs[dk]
        w = "%s: data of wiring %s.%s -> %s.%s" % (where, s, sk, d, dk)
        expect_eq(g.serialized_data == "", sv is None, w + ": there is a value")
        if sv is not None:
            expect_eq(json.loads(g.serialized_data), sv, w)
            expect_eq(g.is_current, type(sv) is type(dv) and sv == dv, w + ": is it what the target has")
        src = real[s].node_config.outputs[sk].get_runtime_type().serialize_type()
        dst = real[d].node_config.inputs[dk].get_runtime_type().serialize_type()
        expect_eq(g.source_type, src, w + ": type of the source")
        expect_eq(g.target_type, dst, w + ": type of the target")
        expect_eq(g.source_type.type_identifier, container(OUT[mtree.nodes[s].cls][sk]).type_identifier, w + ": kind of the source")


def outside(case, mtree, real):
    """What is outside of the tree: values that go in, the model of these, values that come out."""
    incoming, inc_model, outgoing = {}, {}, {}

    def extras():
        for extra in case.get("extra", ()):
            # keys that match nothing are to be ignored
            incoming[extra] = c = dynamic("i")
            c.set_value(5)
            outgoing[extra] = dynamic("i")

    if case.get("extra_first"):
        extras()
    for name, key in case.get("in", ()):
        t = mtree.in_type(name, key)
        incoming["%s.%s" % (real[name].node_id, key)] = c = dynamic(t)
        inc_model[(name, key)] = [c, None, False]
    for name, key in case.get("out", ()):
        outgoing["%s.%s" % (real[name].node_id, key)] = dynamic(OUT[mtree.nodes[name].cls][key])
    if not case.get("extra_first"):
        extras()
    return incoming, inc_model, outgoing


def give(case, mtree, inc_model, op):
    """A value is given from outside."""
    k = sorted(inc_model)[op[1] % len(inc_model)]
    t = mtree.in_type(*k)
    value = VALUES[t][op[2] % len(VALUES[t])]
    cell = inc_model[k]
    expect(cell[0].set_value(value).is_ok(), "value refused")
    if cell[1] != value:
        cell[1:] = [value, True]


def taken(inc_model):
    for cell in inc_model.values():
        cell[0].reset_updated()
        cell[2] = False


def check_exported(step, mtree, real, outgoing, ticked):
    for (name, key), cell in mtree.exported.items():
        c = outgoing["%s.%s" % (real[name].node_id, key)]
        r = c.get_value()
        expect_eq(r.unwrap() if r.is_ok() else None, cell[0], "step %s: exported value %s.%s" % (step, name, key))
        expect_eq(c.is_updated(), cell[1], "step %s: exported value %s.%s is updated" % (step, name, key))
        if ticked:
            c.reset_updated()
            cell[1] = False


def run(case, ctx):
    nodes.clear()
    wires = [tuple(w) for w in case["wires"]]
    mtree = FlowTree(case["tree"], wires, case.get("out", ()))
    real = {}
    root = control.build_real(case["tree"], real)
    incoming, inc_model, outgoing = outside(case, mtree, real)
    m = DataFlowManager(incoming, outgoing)
    for n in real.values():
        n.data_flow_manager = m
    r = m.initialize(
        {n.node_id: n for n in real.values()},
        [Wiring(source=loc(real[s], sk), target=loc(real[d], dk)) for s, sk, d, dk in wires],
    )
    expect(r.is_ok(), "wirings refused: %s" % r)
    moved = 0
    ticks = 0
    for i, op in enumerate(case["ops"]):
        step = "%d(%s)" % (i, op)
        if op[0] == "inc":
            if inc_model:
                give(case, mtree, inc_model, op)
            continue
        if op[0] == "push":
            r = m.push_incoming_data()
            expect(r.is_ok(), "step %s: pushing incoming data failed: %s" % (step, r))
            for (name, key), cell in inc_model.items():
                if cell[2]:
                    mtree.put(name, key, cell[1])
                    moved += 1
            taken(inc_model)
            compare_data(step, real, mtree)
            continue
        before = sum(len(n.seen) for n in mtree.nodes.values() if isinstance(n, DataLeaf))
        want, state = mtree.call(case["tree"]["n"], control.OPS[op])
        res = getattr(root, control.OPS[op])()
        got = "ok" if res.is_ok() else "err"
        if got != want:
            raise Violation(
                "step %s: %s of the root returned %r, expected %s in state %s"
                % (step, control.OPS[op], res, want, state)
            )
        control.compare(step, real, mtree, "data flow")
        compare_data(step, real, mtree)
        if want == "err":
            ctx.tag("error")
        if op == "t":
            ticks += 1
            moved += sum(len(n.seen) for n in mtree.nodes.values() if isinstance(n, DataLeaf)) - before > 0
        check_exported(step, mtree, real, outgoing, op == "t")
        check_wiring_data("step " + step, m.get_wiring_data(), wires, mtree, real)
    used = {
        name
        for name, n in mtree.nodes.items()
        for w in wires
        if w[2] == name and any(v[0] is not None for s in getattr(n, "seen", []) for v in s.values())
    }
    if used:
        ctx.tag("received")
    if mtree.exported:
        ctx.tag("exports")
    if any(mtree.nodes[d].state == model.B for _, _, d, _ in wires):
        ctx.tag("broken")
    if any(not isinstance(mtree.nodes[d], DataLeaf) for _, _, d, _ in wires):
        ctx.tag("wired_switch")
    ctx.nontrivial(bool(used) and ticks >= 2)


VALUES = {
    "i": [0, 1, -5, 11, INT_HI, 10],
    "small": [0, 10, 3],
    "s": ["", "a", "b", "n3", "n4", "n5"],
    "b": [True, False],
    "l": [[], [1], [1, 2], [2]],
}


@st.composite
def steps(draw, cls):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        writes = {}
        for k, t in OUT[cls].items():
            c = draw(st.integers(0, 5))
            if cls == "Feeder":
                if c:
                    writes[k] = draw(st.sampled_from(VALUES[t]))
            elif c >= 3:
                writes[k] = ["<", {"o": "a", "p": "b"}[k]]
            elif c:
                writes[k] = draw(st.sampled_from(VALUES[t]))
        out.append([draw(st.sampled_from("SSSSSFRR")), writes])
    return out


INNER = ("Sequence", "Sequence", "Fallback", "MemorySequence", "Parallel", "IgnoreFailure", "Inverter", "NameSwitch", "Watch", "RepeatNoAutoReset", "Repeat")


@st.composite
def cases(draw, manager=False):
    counter = [0]

    def fresh():
        counter[0] += 1
        return "n%d" % counter[0]

    def leaf(first=False):
        cls = "Feeder" if first else draw(st.sampled_from(sorted(OUT) + ["Feeder", "Join", "Relay_l"]))
        st_ = draw(steps(cls))
        if first:
            # mostly something for everybody before anything else is ticked
            st_[0][0] = draw(st.sampled_from("SSSSSFR"))
            for k, t in OUT[cls].items():
                st_[0][1].setdefault(k, VALUES[t][1])
        return {"k": "data", "n": fresh(), "p": {"cls": cls, "steps": st_}}

    def gen(level):
        kind = draw(st.sampled_from(INNER[:5] if level == 0 else INNER))
        spec = {"k": kind, "n": fresh(), "p": {}, "c": []}
        many = kind in ("Sequence", "Fallback", "MemorySequence", "Parallel", "NameSwitch")
        n = draw(st.integers(2 if level == 0 else 1, 4)) if many else 1
        for j in range(n):
            if level < 1 and draw(st.integers(0, 2)) == 0:
                spec["c"].append(gen(level + 1))
            else:
                spec["c"].append(leaf(first=level == 0 and j == 0))
        if kind == "Parallel":
            spec["p"] = {"needed": draw(st.integers(1, n)), "tolerate": 0}
        if kind in ("Repeat", "RepeatNoAutoReset"):
            spec["p"] = {"n": draw(st.integers(1, 2))}
        return spec

    tree = gen(0)
    outs, ins = [], []
    for s in control.walk(tree):
        if s["k"] == "data":
            outs += [(s["n"], k, t) for k, t in OUT[s["p"]["cls"]].items()]
            ins += [(s["n"], k, t) for k, t in IN[s["p"]["cls"]].items()]
        elif s["k"] in SWITCHES:
            ins.append((s["n"],) + SWITCHES[s["k"]])
    wires = set()
    incoming = set()
    seen_at = {s["n"]: i for i, s in enumerate(control.walk(tree))}
    for name, key, t in ins:
        fit = [o for o in outs if o[2] == t or (o[2], t) == ("small", "i")]
        if not manager:
            odd = [o for o in outs if (o[2], t) == ("i", "small")]
            if odd and draw(st.integers(0, 4)) == 0:
                fit = odd
        early = [o for o in fit if seen_at[o[0]] < seen_at[name]]
        if early and draw(st.integers(0, 7)):
            fit = early
        first = [o for o in fit if o[0] == outs[0][0]]
        if first and draw(st.integers(0, 2)) == 0:
            fit = first
        c = draw(st.integers(0, 29))
        if c == 0 or not fit:
            if draw(st.integers(0, 3)):
                incoming.add((name, key))
            continue
        for _ in range(1 if c > 4 else 2):
            o = draw(st.sampled_from(fit))
            wires.add((o[0], o[1], name, key))
        if c in (1, 2) or manager and c in (11, 12, 13):
            incoming.add((name, key))
    order = sorted(wires)
    if len(order) > 1:
        order = draw(st.permutations(order))
    ops = ["s"]
    for _ in range(draw(st.integers(2, 14))):
        c = draw(st.sampled_from("tttttttttturrxii" + "iiii" * bool(manager and incoming)))
        if c == "i":
            if incoming:
                ops.append(["inc", draw(st.integers(0, 5)), draw(st.integers(0, 5))])
        else:
            if c == "t" and incoming and not manager:
                ops.append(["push"])
            ops.append(c)
            if c == "x":
                ops.append("s")
    case = {"tree": tree, "wires": [list(w) for w in order], "ops": ops}
    if manager:
        case["fit"] = [
            [o[0], o[1], name, key] for name, key, t in ins for o in outs if o[2] == t and (o[0], o[1], name, key) not in wires
        ][:20]
    case["in"] = [list(x) for x in sorted(incoming)]
    picks = draw(st.lists(st.sampled_from(outs), max_size=3))
    case["out"] = [list(x) for x in sorted({(o[0], o[1]) for o in picks})]
    case["extra"] = draw(
        st.lists(st.sampled_from(["x", "a.b", str(uuid.UUID(int=3)) + ".a", "a.b.c", "."]), max_size=1)
    )
    case["extra_first"] = draw(st.booleans())
    return case


# ------------------------------------------------------------ through a manager
def run_managed(case, ctx, make=None):
    """The same, with wirings and commands given to a tree manager."""
    import rclpy

    from ros_bt_py.tree_edit_manager import TreeEditManager
    from ros_bt_py_interfaces.msg import TreeStructure
    from ros_bt_py_interfaces.srv import ControlTreeExecution, LoadTree, WireNodeData
    from std_srvs.srv import SetBool

    from .edit import quiet
    from .execution import CMD
    from .fakeros import FakeNode

    if not rclpy.ok():
        rclpy.init()
    quiet()
    nodes.clear()
    wires = [tuple(w) for w in case["wires"]]
    # the node itself has nothing outside of its tree
    mtree = FlowTree(case["tree"], wires, () if make else case["out"])
    made = {}
    control.build_real(case["tree"], made)
    data = []
    incoming, inc_model, outgoing = {}, {}, {}
    more = {}
    if not make:
        incoming, inc_model, outgoing = outside(case, mtree, made)
        more["data_flow_manager"] = DataFlowManager(incoming, outgoing)
    m = (make or TreeEditManager)(ros_node=FakeNode(), publish_tree_data_callback=data.append, **more)
    msgs = [Wiring(source=loc(made[s], sk), target=loc(made[d], dk)) for s, sk, d, dk in wires]
    first = len(msgs) if case["loaded"] else 0
    r = m.load_tree(
        LoadTree.Request(
            tree=TreeStructure(
                name="tree", nodes=[n.to_structure_msg() for n in made.values()], data_wirings=msgs[:first]
            )
        ),
        LoadTree.Response(),
    )
    expect(r.success, "the tree is not loaded: %s" % r.error_message)
    real = {n.name: n for n in m.nodes.values()}
    if msgs[first:]:
        r = m.wire_data(WireNodeData.Request(wirings=msgs[first:]), WireNodeData.Response())
        expect(r.success, "the wirings are refused: %s" % r.error_message)
    m.set_publish_data(SetBool.Request(data=True), SetBool.Response())
    running = waiting = failed = False
    ticks = runs = edited = 0
    root = mtree.nodes[case["tree"]["n"]]

    def command(c):
        return m.control_execution(
            ControlTreeExecution.Request(command=CMD[c]), ControlTreeExecution.Response()
        )

    for i, op in enumerate(case["ops"]):
        step = "%d(%s)" % (i, op)
        del data[:]
        if op[0] == "edit":
            pool = [tuple(w) for w in case["pool"]]
            if running or failed or not pool:
                continue
            w = pool[op[1] % len(pool)]
            s, sk, d, dk = w
            msg = Wiring(source=loc(real[s], sk), target=loc(real[d], dk))
            if w in wires:
                wires.remove(w)
                r = m.unwire_data(WireNodeData.Request(wirings=[msg]), WireNodeData.Response())
            else:
                wires.append(w)
                r = m.wire_data(WireNodeData.Request(wirings=[msg]), WireNodeData.Response())
            expect(r.success, "step %s: the wirings can't be changed: %s" % (step, r.error_message))
            if runs:
                edited += 1
                ctx.tag("edited")
            continue
        if op[0] == "inc":
            if inc_model:
                give(case, mtree, inc_model, op)
            continue
        if op == "t" and not failed:
            how = "ok"
            if root.state in (model.U, model.X):
                runs += 1
                how, _ = mtree.call(root.name, "setup")
                for cell in inc_model.values():
                    cell[0].flag_updated()
                    cell[2] = cell[1] is not None
            if how == "ok":
                for (name, key), cell in inc_model.items():
                    if cell[2]:
                        mtree.put(name, key, cell[1])
                        ctx.tag("from_outside")
                how, _ = mtree.call(root.name, "tick")
            r = command("once")
            expect_eq(r.success, how == "ok", "step %s: tick succeeded (%s)" % (step, r.error_message))
            taken(inc_model)
            if how == "ok":
                running = waiting = True
                ticks += 1
                expect(bool(data), "step %s: no data was published" % step)
                check_wiring_data("step " + step, data[-1].tree_data[-1].wiring_data, wires, mtree, real)
            else:
                failed = True
                ctx.tag("error")
        elif op == "u" and waiting and not failed:
            waiting = False
            mtree.call(root.name, "untick")
            expect(command("stop").success, "step %s: the tree can't be stopped" % step)
        elif op == "r" and running and not failed:
            if waiting:
                mtree.call(root.name, "untick")
                command("stop")
                waiting = False
            mtree.call(root.name, "reset")
            r = command("reset")
            expect(r.success, "step %s: the tree can't be reset: %s" % (step, r.error_message))
        elif op == "x" and (running or failed):
            mtree.call(root.name, "shutdown")
            r = command("shutdown")
            expect(r.success, "step %s: the tree can't be shut down: %s" % (step, r.error_message))
            running = waiting = failed = False
        else:
            continue
        control.compare(step, real, mtree, "data flow")
        compare_data(step, real, mtree)
        check_exported(step, mtree, real, outgoing, op == "t")
    if mtree.exported:
        ctx.tag("exports")
    used = any(
        any(v[0] is not None for s in getattr(mtree.nodes[w[2]], "seen", []) for v in s.values()) for w in wires
    )
    if used:
        ctx.tag("received")
    ctx.tag("loaded" if case["loaded"] else "wired")
    ctx.nontrivial(used and ticks >= 2)


@st.composite
def managed_cases(draw):
    case = draw(cases(manager=True))
    case["loaded"] = draw(st.booleans())
    pool = case["wires"] + case.pop("fit")
    case["pool"] = pool
    ops = []
    for op in case["ops"]:
        ops.append(op)
        if op == "x" or (not ops[1:] and draw(st.integers(0, 3)) == 0):
            ops += [["edit", draw(st.integers(0, max(0, len(pool) - 1)))] for _ in range(draw(st.integers(0, 3)))]
    case["ops"] = ops
    return case
