"""Drives real control-flow nodes and the model side by side."""
from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402

from ros_bt_py.nodes import decorators, fallback, parallel, sequence  # noqa: E402
from ros_bt_py.ros_nodes import enum_switch, throttle, wait  # noqa: E402
from ros_bt_py.ros_nodes import time as time_node  # noqa: E402
from ros_bt_py.data_types import IntType, RosComponentType  # noqa: E402

from . import model, nodes  # noqa: E402
from . import fakeros  # noqa: E402
from .core import Violation, expect_eq  # noqa: E402

REAL = {"leaf": nodes.ScriptLeaf}
for _m in (decorators, fallback, parallel, sequence, enum_switch, throttle, wait, time_node):
    for _n in model.KINDS:
        if _n != "leaf" and hasattr(_m, _n):
            REAL.setdefault(_n, getattr(_m, _n))


def static(kind, p):
    def num(v):
        return IntType(value=v, allow_dynamic=False, min_value=None)

    out = {}
    if kind in ("Parallel", "ParallelFailureTolerance"):
        out["needed_successes"] = p["needed"]
    if kind == "ParallelFailureTolerance":
        out["tolerate_failures"] = p["tolerate"]
    if kind == "Retry":
        out["num_retries"] = p["n"]
    if kind in ("Repeat", "RepeatNoAutoReset"):
        out["num_repeats"] = p["n"]
    if kind == "IgnoreRunning":
        out["running_is_success"] = p["running_is_success"]
    if kind == "Wait":
        out["seconds_to_wait"] = p["ms"] / 1000
    if kind in ("Throttle", "ThrottleSuccess"):
        out["tick_interval"] = p["ms"] / 1000
    return out


T0 = fakeros.FakeClock().ns // 10**6


def enum_constants(which):
    from vt_interfaces.msg import Enums, StrEnums

    if which == "str":
        return StrEnums, {"red": "RED", "green": "GREEN"}
    return Enums, {"0": "ZERO", "1": "ONE", "2": "TWO", "7": "SEVEN"}


# the ROS node whose clock timed nodes use
ROS = [None]


def build_real(spec, made):
    kind = spec["k"]
    cls = REAL[kind] if kind != "data" else nodes.DATA[spec["p"]["cls"]]
    p = spec.get("p", {})
    kwargs = {}
    if kind == "EnumSwitch":
        c = RosComponentType(value=enum_constants(p["enum"])[0])
        kwargs["new_inputs"] = {"ros_message_type": c}
    if kind in model.TIMED:
        kwargs["ros_node"] = ROS[0]
    node = cls(name=spec["n"], **kwargs)
    for key, value in static(kind, p).items():
        container = node.node_config.inputs[key]
        r = container.set_value(value)
        if r.is_err():
            raise Violation("static input %s rejects %r: %s" % (key, value, r))
        container.reset_updated()
    if kind == "leaf":
        nodes.SCRIPTS[spec["n"]] = nodes.Script(**p)
    if kind == "data":
        nodes.STEPS[spec["n"]] = p["steps"]
    for c in spec.get("c", []):
        child = build_real(c, made)
        r = node.add_child(child)
        if r.is_err():
            raise Violation("add_child refused: %s" % r)
    made[spec["n"]] = node
    return node


OPS = {"s": "setup", "t": "tick", "u": "untick", "r": "reset", "x": "shutdown"}


def compare(step, real, mtree, what):
    for name, m in mtree.nodes.items():
        if real[name].state != m.state:
            raise Violation(
                "%s, step %s: node %s (%s) is in state %s, expected %s"
                % (what, step, name, m.spec["k"], real[name].state, m.state)
            )
    for name, m in mtree.nodes.items():
        if m.spec["k"] == "leaf":
            log = nodes.SCRIPTS[name].log
            if log != m.log:
                raise Violation(
                    "%s, step %s: leaf %s received calls %s, expected %s "
                    "(s=setup t=tick u=untick r=reset x=shutdown)"
                    % (what, step, name, "".join(log[-12:]), "".join(m.log[-12:]))
                )
        if m.spec["k"] == "GetTimeNow" and m.outputs["current_time"] is not None:
            t = real[name].node_config.outputs["current_time"].get_value()
            ms = T0 + m.outputs["current_time"]
            if not t.is_ok() or (t.unwrap().sec, t.unwrap().nanosec) != (ms // 1000, ms % 1000 * 10**6):
                raise Violation("%s, step %s: %s gives the time %s, it is %d ms" % (what, step, name, t, ms))
    if nodes.TICK_ORDER != mtree.tick_order:
        raise Violation(
            "%s, step %s: order of leaf ticks %s, expected %s"
            % (what, step, nodes.TICK_ORDER[-10:], mtree.tick_order[-10:])
        )


def run_program(case, ctx):
    """case: {"tree": spec, "ops": [...]}; op: "s|t|u|r|x" or ["in", node, value]."""
    nodes.clear()
    ROS[0] = fakeros.FakeNode()
    mtree = model.Tree(case["tree"])
    real = {}
    root = build_real(case["tree"], real)
    compare("build", real, mtree, "after construction")
    results = set()
    for i, op in enumerate(case["ops"]):
        step = "%d(%s)" % (i, op)
        if isinstance(op, list) and op[0] == "adv":
            ROS[0].clock.ns += op[1] * 10**6
            mtree.now += op[1]
            continue
        if isinstance(op, list):
            _, name, value = op
            if name not in real:
                continue
            m = mtree.nodes[name]
            key = next(iter(m.inputs))
            m.set_input(key, value)
            r = real[name].node_config.inputs[key].set_value(value)
            if r.is_err():
                raise Violation("input refused: %r" % (r,))
            continue
        want, state = mtree.call(case["tree"]["n"], OPS[op])
        res = getattr(root, OPS[op])()
        got = "ok" if res.is_ok() else "err"
        if got != want:
            raise Violation(
                "step %s: %s of the root returned %r, expected %s in state %s"
                % (step, OPS[op], res, want, state)
            )
        if got == "ok":
            expect_eq(res.unwrap(), state, "step %s: state returned by root" % step)
            if op == "t":
                results.add(state)
        compare(step, real, mtree, "root %s" % case["tree"]["k"])
    for r in results:
        ctx.tag("root_" + r)
    ctx.tag(case["tree"]["k"])
    ctx.nontrivial((len(mtree.tick_order) >= 2 or case.get("timed", False)) and len(results) >= 2)


# ------------------------------------------------------------- strategies
@st.composite
def utility(draw):
    """[can be executed, least and highest cost of success, of failure]; None if unknown."""
    r = draw(st.integers(0, 19))
    if r == 0:
        return "E"
    if r == 1:
        return [False, None, None, None, None]
    if r == 2:
        return None
    out = [True]
    for _ in range(2):
        # multiples of a quarter: sums are exact
        a, b = sorted(draw(st.tuples(st.integers(0, 40), st.integers(0, 40))))
        out += [a / 4 if draw(st.integers(0, 11)) else None, b / 4 if draw(st.integers(0, 11)) else None]
    return out


def leaf_params(errors=True, utils=False):
    tick = st.text("SSSFFFRRR" + ("E" if errors else ""), min_size=1, max_size=5)
    d = {"ticks": tick}
    if errors:
        d["untick"] = st.sampled_from("IIIIIIIIPPPPE")
        d["reset"] = st.sampled_from("IIIIIIIIIIIIIIIE")
        d["setup"] = st.sampled_from("IIIIIIIIIIIIIIIIIIIE")
        d["shutdown"] = st.sampled_from("XXXXXXXXXXXE")
    else:
        d["untick"] = st.sampled_from("IIIP")
    if utils:
        d["util"] = utility()
    return st.fixed_dictionaries(d)


DECORATORS = (
    "IgnoreFailure",
    "IgnoreSuccess",
    "IgnoreRunning",
    "Inverter",
    "UntilSuccess",
    "RepeatIfFail",
    "RepeatUntilFail",
    "RepeatAlways",
    "Retry",
    "Repeat",
    "RepeatNoAutoReset",
    "Optional",
    "Watch",
)
ORDERED = ("Sequence", "MemorySequence", "Fallback", "MemoryFallback")
PARALLELS = ("Parallel", "ParallelFailureTolerance")


@st.composite
def tree_spec(draw, root_kinds, inner_kinds, depth=2, errors=True, max_kids=4, utils=False):
    counter = [0]

    def fresh():
        counter[0] += 1
        return "n%d" % counter[0]

    def gen(kinds, level):
        kind = draw(st.sampled_from(kinds))
        name = fresh()
        if kind == "leaf":
            return {"k": "leaf", "n": name, "p": draw(leaf_params(errors, utils))}
        if kind in ("Wait", "GetTimeNow"):
            return {"k": kind, "n": name, "p": {"ms": draw(st.sampled_from([0, 100, 200, 300, 700, 1000]))}}
        p = {}
        if kind in DECORATORS or kind in TIMED:
            lo, hi = (0, 1) if level == 0 and draw(st.integers(0, 9)) == 0 else (1, 1)
        else:
            lo, hi = (0 if draw(st.integers(0, 11)) == 0 else 1), max_kids
        n = draw(st.integers(lo, hi))
        kids = []
        for _ in range(n):
            kids.append(
                gen(("leaf",) if level + 1 >= depth else ("leaf", "leaf") + inner_kinds, level + 1)
            )
        if kind in PARALLELS:
            p["needed"] = draw(st.integers(1, max(1, n + (draw(st.integers(0, 9)) == 0))))
            p["tolerate"] = draw(st.integers(0, n))
        elif kind == "Retry":
            p["n"] = draw(st.integers(0, 3))
        elif kind in ("Repeat", "RepeatNoAutoReset"):
            p["n"] = draw(st.integers(1, 3))
        elif kind in ("Throttle", "ThrottleSuccess"):
            p["ms"] = draw(st.sampled_from([50, 150, 250, 450, 950]))
        elif kind == "IgnoreRunning":
            p["running_is_success"] = draw(st.booleans())
        elif kind == "EnumSwitch":
            p["enum"] = draw(st.sampled_from(["int", "str"]))
            consts = enum_constants(p["enum"])[1]
            p["constants"] = consts
            labels = list(consts.values()) + ["OTHER"]
            used = draw(st.permutations(labels))
            for i, kid in enumerate(kids[: len(labels)]):
                prefix = draw(st.sampled_from(["", kid["n"] + ".", "a.%s." % kid["n"]]))
                if level > 0 and not prefix:
                    prefix = kid["n"] + "."
                _rename(kid, prefix + used[i])
            kids = kids[: len(labels)]
        return {"k": kind, "n": name, "c": kids, "p": p}

    return gen(tuple(root_kinds), 0)


def _rename(spec, name):
    spec["n"] = name


def walk(spec):
    yield spec
    for c in spec.get("c", []):
        yield from walk(c)


@st.composite
def program(draw, root_kinds, inner_kinds=(), depth=2, errors=True, max_ops=24, utils=False):
    tree = draw(tree_spec(root_kinds, tuple(inner_kinds), depth, errors, utils=utils))
    fed = [s for s in walk(tree) if s["k"] in ("NameSwitch", "EnumSwitch", "Watch", "RepeatNoAutoReset")]

    def value_for(s):
        if s["k"] == "NameSwitch":
            opts = [c["n"] for c in s["c"]]
            return draw(st.sampled_from(opts * 4 + ["nobody"]))
        if s["k"] == "EnumSwitch":
            if s["p"]["enum"] == "str":
                return draw(st.sampled_from(["red", "green", "red", "green", "mauve"]))
            return draw(st.sampled_from([0, 1, 2, 7, 0, 1, 2, 7, 3]))
        if s["k"] == "Watch":
            return draw(st.sampled_from(["a", "a", "b"]))
        return draw(st.sampled_from([False, False, False, True]))

    ops = []
    if draw(st.integers(0, 11)) == 0:
        ops.append(draw(st.sampled_from("turx")))
    ops.append("s")
    for s in fed:
        if draw(st.integers(0, 11)):
            ops.append(["in", s["n"], value_for(s)])
    n = draw(st.integers(2, max_ops))
    alphabet = "tttttttttturrx" if not fed else "tttttttttiiiiurx"
    for _ in range(n):
        c = draw(st.sampled_from(alphabet))
        if c == "i":
            s = draw(st.sampled_from(fed))
            ops.append(["in", s["n"], value_for(s)])
        elif c == "x":
            ops.append("x")
            if draw(st.integers(0, 3)):
                ops.append("s")
                for s in fed:
                    ops.append(["in", s["n"], value_for(s)])
        else:
            ops.append(c)
    return {"tree": tree, "ops": ops}


TIMED = ("Throttle", "ThrottleSuccess", "Wait", "GetTimeNow")


@st.composite
def timed_program(draw, root_kinds, inner_kinds=(), depth=2, errors=True, max_ops=30):
    """Time goes in steps of 100 ms; throttles are set in between, so it is never about a single instant."""
    tree = draw(tree_spec(root_kinds, tuple(inner_kinds), depth, errors))
    ops = ["s"]
    for c in draw(st.lists(st.sampled_from("tttttttttaaaaaaurx"), min_size=8, max_size=max_ops)):
        if c == "a":
            ops.append(["adv", draw(st.sampled_from([100, 100, 200, 300, 500, 1000, 5000]))])
        else:
            ops.append(c)
            if c == "x" and draw(st.integers(0, 4)):
                ops.append("s")
    return {"tree": tree, "ops": ops, "timed": True}
