"""Utility bounds."""
from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402

import rosidl_runtime_py  # noqa: E402
from rclpy.qos import QoSDurabilityPolicy, QoSProfile, QoSReliabilityPolicy  # noqa: E402
from ros_bt_py.data_types import PathType  # noqa: E402
from ros_bt_py.ros_nodes.subtree import Subtree  # noqa: E402
from ros_bt_py.ros_nodes.topic import TopicMemorySubscriber, TopicSubscriber  # noqa: E402

from . import control, fakeros, model, nodes, ros, store, subtree, types  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402


def bounds(u):
    return (
        u.can_execute,
        u.lower_bound_success if u.has_lower_bound_success else None,
        u.upper_bound_success if u.has_upper_bound_success else None,
        u.lower_bound_failure if u.has_lower_bound_failure else None,
        u.upper_bound_failure if u.has_upper_bound_failure else None,
    )


def ask(node):
    r = node.calculate_utility()
    return "E" if r.is_err() else bounds(r.unwrap())


def run_bounds(case, ctx):
    nodes.clear()
    control.ROS[0] = fakeros.FakeNode()
    mtree = model.Tree(case["tree"])
    real = {}
    root = control.build_real(case["tree"], real)
    kinds = set()
    for stage in case["stages"]:
        if stage != "-":
            getattr(root, control.OPS[stage])()
        states = {n: (r.state, list(nodes.SCRIPTS[n].log) if n in nodes.SCRIPTS else None) for n, r in real.items()}
        for name in sorted(real, reverse=case["down"]):
            want = model.utility(mtree.nodes[name])
            got = ask(real[name])
            if got != want:
                raise Violation("bounds of %s %s after %s are %s, expected %s" % (mtree.nodes[name].spec["k"], name, stage, got, want))
            if want != "E" and want[0]:
                kinds.add(mtree.nodes[name].spec["k"])
        expect_eq({n: (r.state, list(nodes.SCRIPTS[n].log) if n in nodes.SCRIPTS else None) for n, r in real.items()}, states, "states and calls after asking")
    for k in kinds:
        ctx.tag(k)
    ctx.nontrivial(len(kinds) >= 2)


KINDS = control.ORDERED + control.PARALLELS + ("NameSwitch", "EnumSwitch")


@st.composite
def bounds_cases(draw):
    tree = draw(control.tree_spec(KINDS * 2 + control.DECORATORS + ("Throttle",), KINDS * 2 + control.DECORATORS, depth=3, errors=False, utils=True))
    return {"tree": tree, "stages": draw(st.sampled_from(["-", "s", "-s", "st", "sx"])), "down": draw(st.booleans())}


# -------------------------------------------------------------- what it costs
def run_cost(case, ctx):
    """Executes a tree: what the leaves cost that it executed lies within its bounds."""
    nodes.clear()
    real = {}
    root = control.build_real(case["tree"], real)
    u = ask(root)
    if root.setup().is_err():
        raise Violation("set-up failed")
    r = root.tick()
    expect(r.is_ok(), "tick failed: %s" % r)
    cost = 0.0
    leaves = {s["n"]: s["p"] for s in control.walk(case["tree"]) if s["k"] == "leaf"}
    for name in nodes.TICK_ORDER:
        p = leaves[name]
        lo, up = p["util"][1:3] if p["ticks"] == "S" else p["util"][3:5]
        # unknown bounds can be anything
        lo = 0.0 if lo is None else lo
        up = 1000.0 if up is None else up
        cost += lo + (up - lo) * case["where"] / 4
    expect(u != "E" and u[0], "a tree that can be executed has bounds %s" % (u,))
    state = r.unwrap()
    lo, up = u[1:3] if state == "SUCCEEDED" else u[3:5]
    if (lo is not None and cost < lo) or (up is not None and cost > up):
        raise Violation("it %s at a cost of %s, bounds for that are %s and %s" % (state, cost, lo, up))
    known = lo is not None or up is not None
    ctx.tag(state)
    if known:
        ctx.tag("bounded")
    # known bounds of all leaves make known bounds of the tree
    if all(None not in p["util"] for p in leaves.values()):
        expect(None not in u, "bounds %s of a tree whose leaves have bounds" % (u,))
    ctx.nontrivial(len(nodes.TICK_ORDER) >= 2 and known)


@st.composite
def cost_cases(draw):
    tree = draw(control.tree_spec(control.ORDERED, control.ORDERED, depth=3, errors=False, utils=True))
    for s in control.walk(tree):
        if s["k"] == "leaf":
            s["p"]["ticks"] = draw(st.sampled_from("SF"))
            u = s["p"]["util"]
            if u == "E" or u is None or not u[0]:
                s["p"]["util"] = [True, 1.0, 2.0, 1.0, 2.0]
    return {"tree": tree, "where": draw(st.integers(0, 4))}


# -------------------------------------------------------------- who can receive
class Endpoint:
    def __init__(self, topic_type, qos_profile):
        self.topic_type, self.qos_profile = topic_type, qos_profile


def qos(q):
    return QoSProfile(
        reliability=QoSReliabilityPolicy.RELIABLE if q[0] else QoSReliabilityPolicy.BEST_EFFORT,
        durability=QoSDurabilityPolicy.TRANSIENT_LOCAL if q[1] else QoSDurabilityPolicy.VOLATILE,
        depth=q[2],
    )


def run_topic(case, ctx):
    cls = {"TopicSubscriber": TopicSubscriber, "TopicMemorySubscriber": TopicMemorySubscriber}[case["cls"]]
    ros = fakeros.FakeNode() if case["ros"] else None
    if ros:
        ros.endpoints = [(t, Endpoint(ty, qos(q))) for t, ty, q in case["endpoints"]]
    node = cls(name="n", ros_node=ros)
    topic, ty, q = case["own"]
    for k, v in (("topic_name", topic), ("topic_type", types.get_interface(ty)), ("reliable", q[0]), ("transient_local", q[1]), ("depth", q[2])):
        r = node.node_config.inputs[k].set_value(v)
        if r.is_err():
            raise Violation("%s: %s" % (k, r))
    full = topic if topic.startswith("/") else "/" + topic
    can = bool(ros) and any(t == full and y == ty and p == q for t, y, p in case["endpoints"])
    want = (True, 0.0, 0.0, 0.0, 0.0) if can else (False, None, None, None, None)
    expect_eq(ask(node), want, "bounds with publishers %s" % case["endpoints"])
    ctx.tag("can" if can else "cannot")
    ctx.nontrivial(len(case["endpoints"]) >= 2)


@st.composite
def topic_cases(draw):
    q = st.tuples(st.booleans(), st.booleans(), st.integers(0, 2)).map(list)
    ty = st.sampled_from(["example_interfaces/msg/Bool", "example_interfaces/msg/Int64"])
    own = [draw(st.sampled_from(["a", "/a", "/b"])), draw(ty), draw(q)]
    full = own[0] if own[0][0] == "/" else "/" + own[0]
    ends = draw(
        st.lists(
            st.tuples(st.sampled_from(["/a", "/b", full, full]), st.one_of(ty, st.just(own[1])), st.one_of(q, st.just(own[2]))).map(list), max_size=4
        )
    )
    return {"cls": draw(st.sampled_from(["TopicSubscriber", "TopicMemorySubscriber"])), "ros": draw(st.integers(0, 9)) > 0, "own": own, "endpoints": ends}


# ----------------------------------------------------------- who has a server
def run_servers(case, ctx):
    """Services and actions are executable if their server is there."""
    seen = set()

    def check(at, fake, node, m):
        got = ask(node)
        made = fake.clis if case["kind"] == "Service" else fake.action_clients
        live = [c for c in made if c.alive]
        waiting = case["kind"] == "Action" and any(g.doomed and g.accepted is None for g in m.goals)
        if m.state in (model.U, model.X) or len(live) != 1 or waiting:
            expect(got != "E", "%s: error when asked for its bounds" % at)
            if case["kind"] == "Action" and m.state in (model.U, model.X):
                expect(not got[0], "%s: executable without a client" % at)
            return
        there = live[-1].service_is_ready() if case["kind"] == "Service" else live[-1].server_is_ready()
        seen.add(there)
        expect_eq(got, (True, 0.0, 0.0, 0.0, 0.0) if there else (False, None, None, None, None), at + ": bounds, server is %s" % ("there" if there else "not there"))

    ros.run(case, ctx, check)
    ctx.nontrivial(len(seen) == 2)
    for x in seen:
        ctx.tag("%s %s server" % (case["kind"], "with" if x else "without"))


@st.composite
def server_cases(draw):
    return draw(ros.cases(draw(st.sampled_from(["Service", "Action"]))))


# --------------------------------------------------------------- in a subtree
def run_subtree(case, ctx):
    """A subtree costs what its tree costs."""
    nodes.clear()
    fake = control.ROS[0] = fakeros.FakeNode()
    mtree = model.Tree(case["tree"])
    with store.Scratch() as top:
        made = {}
        control.build_real(case["tree"], made)
        msgs = [n.to_structure_msg() for n in made.values()]
        d = subtree.lean(rosidl_runtime_py.message_to_ordereddict(subtree.TreeStructure(name="t", nodes=msgs, tick_frequency_hz=10.0)))
        path = os.path.join(top, "t.yaml")
        with open(path, "w") as f:
            f.write("version: %s\n" % subtree.bootstrap.package_version())
            for k, v in d.items():
                f.write("%s: %s\n" % (k, json.dumps(v)))
        c = PathType(allow_dynamic=False)
        c.set_value("file://" + path)
        node = Subtree(name="sub", ros_node=fake, new_inputs={"subtree_path": c}, subtree_manager=subtree.SubtreeManager() if case["manager"] else None)
        for op in case["stages"]:
            if op != "-":
                getattr(node, control.OPS[op])()
            got = ask(node)
            logs = {n: list(s.log) for n, s in nodes.SCRIPTS.items()}
            expect_eq(got, model.utility(mtree.root), "bounds of a subtree after %s" % op)
            expect_eq({n: list(s.log) for n, s in nodes.SCRIPTS.items()}, logs, "calls of its leaves when asked")
            if got != "E" and got[0]:
                ctx.nontrivial(len(mtree.nodes) >= 3)
                ctx.tag("can")
            else:
                ctx.tag("cannot")


@st.composite
def subtree_cases(draw):
    case = draw(bounds_cases())
    case["manager"] = draw(st.integers(0, 3)) > 0
    return case
