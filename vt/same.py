"""Two nodes are equal exactly if they are described alike."""
import uuid

from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402
from ros_bt_py.node import Node  # noqa: E402

from . import control, execution, fakeros, nodes  # noqa: E402
from .core import expect, expect_eq  # noqa: E402


def value(c):
    v = c._value
    return type(v).__name__, repr(v)


def canon(n):
    """All there is to say about a node, without comparing any nodes."""
    cfg = n.node_config
    return (
        n.node_id,
        n.name,
        n.parent.node_id if n.parent is not None else None,
        str(n.state),
        type(n).__module__ + "." + type(n).__name__,
        [
            sorted((k, repr(c.serialize_type()), c.is_static, value(c)) for k, c in group.items())
            for group in (cfg.inputs, cfg.outputs)
        ],
        [canon(c) for c in n.children],
    )


def copy(n, ros):
    """The same node, made from the descriptions of it and those below it."""
    c = Node.from_msg(n.to_structure_msg(), ros_node=ros).unwrap()
    for child in n.children:
        c.add_child(copy(child, ros)).unwrap()
    return c


def below(n):
    return [n] + [d for c in n.children for d in below(c)]


OTHERS = [None, "", 0, "n1", object(), [], {}, Node, uuid.UUID(int=0)]


def compare(step, left, right):
    """Every node of one with every node of the other; the number of equal pairs."""
    equal = 0
    described = [[(n, canon(n)) for n in side] for side in (left, right)]
    for a, ca in described[0]:
        for b, cb in described[1]:
            where = "step %s: %s %s and %s %s" % (step, type(a).__name__, a.name, type(b).__name__, b.name)
            same = ca == cb
            equal += same
            expect_eq((a == b, b == a), (same, same), where + ": equal")
            expect_eq((a != b, b != a), (not same, not same), where + ": differ")
        expect(a == a and not a != a, "step %s: %s differs from itself" % (step, a.name))
        for other in OTHERS:
            where = "step %s: %s and %r" % (step, a.name, other)
            expect_eq((a == other, other == a, a != other, other != a), (False, False, True, True), where)
    return equal


def change(op, all_):
    n = all_[op[1] % len(all_)]
    if op[0] == "name":
        n.name = op[2]
    elif op[0] == "id":
        n.node_id = uuid.UUID(int=op[2])
    elif op[0] == "state":
        n.state = op[2]
    elif op[0] == "value":
        inputs = [c for _, c in sorted(n.node_config.inputs.items()) if isinstance(c._value, (int, float)) and not isinstance(c._value, bool)]
        if not inputs:
            return False
        c = inputs[0]
        c.reset_updated()
        r = c.set_value(type(c._value)(op[2]))
        c.reset_updated()
        return r.is_ok()
    elif op[0] == "drop":
        if n.parent is None:
            return False
        n.parent.remove_child(n.node_id).unwrap()
    elif op[0] == "swap":
        if len(n.children) < 2:
            return False
        first = n.remove_child(n.children[0].node_id).unwrap()
        n.add_child(first).unwrap()
    return True


def run(case, ctx):
    nodes.clear()
    ros = fakeros.FakeNode()
    made = {}
    left = control.build_real(case["tree"], made)
    right = copy(left, ros)
    sides = [left, right]
    for n in below(left):
        # a copy made from a description is as it was before the first run
        for c in list(n.node_config.inputs.values()) + list(n.node_config.outputs.values()):
            c.reset_updated()
    expect_eq(compare("copy", below(left), below(right)), len(below(left)), "equal nodes of the copy")
    both = 0
    for i, op in enumerate(case["ops"]):
        step = "%d(%s)" % (i, op)
        if op[0] == "both":
            done = [change(op[1], below(s)) for s in sides]
            both += all(done)
        else:
            change(op[1], below(sides[op[0] == "right"]))
        compare(step, below(left), below(right))
    if both:
        ctx.tag("changed alike")
    ctx.nontrivial(len(below(left)) > 1)


@st.composite
def cases(draw):
    tree = draw(control.tree_spec(control.ORDERED + ("Parallel",), execution.KINDS, 3))
    index = st.integers(0, 9)
    op = st.one_of(
        st.tuples(st.just("name"), index, st.sampled_from(["", "n1", "n2", "x"])),
        st.tuples(st.just("id"), index, st.integers(1, 3)),
        st.tuples(st.just("state"), index, st.sampled_from(["UNINITIALIZED", "IDLE", "RUNNING", "SUCCEEDED", "SHUTDOWN"])),
        st.tuples(st.just("value"), index, st.integers(0, 3)),
        st.tuples(st.just("drop"), index),
        st.tuples(st.just("swap"), index),
    ).map(list)
    ops = draw(st.lists(st.tuples(st.sampled_from(["left", "right", "both", "both"]), op).map(list), max_size=6))
    return {"tree": tree, "ops": ops}
