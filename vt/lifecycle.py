"""The life cycle every node shares, whatever its hooks answer."""
import uuid

from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402

from . import control, flow, model, nodes  # noqa: E402
from .core import HarnessError, Violation, expect, expect_eq  # noqa: E402

INNER = ("Sequence", "Sequence", "Fallback", "Parallel", "Inverter", "MemorySequence", "NameSwitch")


def is_below(node, other):
    """`other` is `node` or one of its descendants."""
    return node is other or any(is_below(c, other) for c in node.children)


def run(case, ctx):
    nodes.clear()
    mtree = flow.FlowTree(case["tree"], [])
    real = {}
    control.build_real(case["tree"], real)
    seen = set()
    called = 0
    for i, op in enumerate(case["ops"]):
        step = "%d(%s)" % (i, op)
        name = op[1]
        m, r = mtree.nodes[name], real[name]
        if op[0] in ("add", "drop") and m.state not in (model.U, model.X):
            continue  # trees are edited when they are not running
        if op[0] == "call":
            before = m.state
            want, state = mtree.call(name, control.OPS[op[2]])
            res = getattr(r, control.OPS[op[2]])()
            got = "ok" if res.is_ok() else "err"
            if got != want:
                raise Violation(
                    "step %s: %s of %s (%s) in state %s returned %r, expected %s and state %s"
                    % (step, control.OPS[op[2]], name, m.spec["k"], before, res, want, state)
                )
            if got == "ok":
                expect_eq(res.unwrap(), state, "step %s: state that was returned" % step)
            seen.add((op[2], want))
            called += want == "ok"
            ctx.tag("%s %s" % (control.OPS[op[2]], want))
        elif op[0] == "in":
            keys = sorted(m.inputs)
            if not keys:
                continue
            key = keys[op[2] % len(keys)]
            t = mtree.in_type(name, key)
            value = flow.VALUES[t][op[3] % len(flow.VALUES[t])]
            res = r.node_config.inputs[key].set_value(value)
            if res.is_err():
                raise Violation(str(res))
            m.set_input(key, value)
        elif op[0] == "add":
            child = sorted(real)[op[2] % len(real)]
            mc, rc = mtree.nodes[child], real[child]
            if m.spec["k"] in control.DECORATORS:
                limit = 1
            elif m.spec["k"] in ("leaf", "data"):
                limit = 0
            else:
                limit = None
            if is_below(mc, m) or (rc.parent is not None and rc.parent is not r):
                continue
            ok = not (limit is not None and len(m.children) == limit) and mc not in m.children
            index = op[3]
            res = r.add_child(rc) if index is None else r.add_child(rc, index)
            expect_eq(res.is_ok(), ok, "step %s: child %s accepted" % (step, child))
            if ok:
                expect(res.unwrap() is r, "step %s: add_child does not return the node" % step)
                at = len(m.children) if index is None else index
                if at < 0:
                    at = max(0, at + len(m.children) + 1)
                m.children.insert(at, mc)
                ctx.tag("add")
            else:
                ctx.tag("add refused")
        elif op[0] == "move":
            # a child is taken out and put back at some place
            if not m.children:
                continue
            mc = m.children[op[2] % len(m.children)]
            rc = real[mc.name]
            res = r.remove_child(rc.node_id)
            expect(res.is_ok() and res.unwrap() is rc, "step %s: got %r" % (step, res))
            m.children.remove(mc)
            n = len(m.children)
            at = op[3] % (2 * n + 2) - n - 1
            res = r.add_child(rc, at)
            expect(res.is_ok(), "step %s: child %s is not accepted: %s" % (step, mc.name, res))
            m.children.insert(at if at >= 0 else at + n + 1, mc)
            ctx.tag("move")
        elif op[0] == "drop":
            if m.children and op[2] is not None:
                mc = m.children[op[2] % len(m.children)]
                res = r.remove_child(real[mc.name].node_id)
                expect(res.is_ok() and res.unwrap() is real[mc.name], "step %s: got %r" % (step, res))
                m.children.remove(mc)
                expect(real[mc.name].parent is None, "step %s: a removed child keeps its parent" % step)
                ctx.tag("drop")
            else:
                res = r.remove_child(uuid.UUID(int=99))
                expect(res.is_err(), "step %s: removed a child that isn't there" % step)
        else:
            raise HarnessError(op)
        check(step, real, mtree)
    ctx.nontrivial(called >= 2 and len(seen) >= 4)


def check(step, real, mtree):
    control.compare(step, real, mtree, "life cycle")
    flow.compare_data(step, real, mtree)
    for name, m in mtree.nodes.items():
        r = real[name]
        expect_eq([c.name for c in r.children], [c.name for c in m.children], "step %s: children of %s" % (step, name))
        for k, c in enumerate(m.children):
            expect(real[c.name].parent is r, "step %s: parent of %s" % (step, c.name))
            expect_eq(r.get_child_index(real[c.name].node_id), k, "step %s: index of child %s" % (step, c.name))
        expect(r.get_child_index(uuid.UUID(int=98)) is None, "step %s: index of an unknown child" % step)
        msg = r.to_state_msg()
        expect_eq((msg.node_id, msg.state), (str(r.node_id), m.state), "step %s: state message of %s" % (step, name))
        below = [real[n].node_id for n in order(m)]
        expect_eq([x.node_id for x in r.get_children_recursive()], below, "step %s: nodes below %s" % (step, name))


def order(m):
    yield m.name
    for c in m.children:
        yield from order(c)


@st.composite
def cases(draw):
    counter = [0]

    def fresh():
        counter[0] += 1
        return "n%d" % counter[0]

    def leaf():
        n = fresh()
        if draw(st.integers(0, 2)) == 0:
            cls = draw(st.sampled_from(sorted(flow.OUT)))
            return {"k": "data", "n": n, "p": {"cls": cls, "steps": draw(flow.steps(cls))}}
        odd = "SSSSSSSFFFFRRRRRIPXE"
        return {
            "k": "leaf",
            "n": n,
            "p": {
                "ticks": draw(st.text(odd, min_size=1, max_size=4)),
                "untick": draw(st.sampled_from("I" * 12 + "PPPPSFRXE")),
                "reset": draw(st.sampled_from("I" * 20 + "PSXE")),
                "setup": draw(st.sampled_from("I" * 40 + "PRXE")),
                "shutdown": draw(st.sampled_from("XXXXXXIFE")),
            },
        }

    def gen(level):
        if level == 2 or (level and draw(st.booleans())) or (not level and draw(st.integers(0, 3)) == 0):
            return leaf()
        kind = draw(st.sampled_from(INNER))
        name = fresh()
        n = 1 if kind == "Inverter" else draw(st.integers(1, 3))
        kids = [gen(level + 1) for _ in range(n)]
        p = {"needed": draw(st.integers(1, n)), "tolerate": 0} if kind == "Parallel" else {}
        return {"k": kind, "n": name, "c": kids, "p": p}

    tree = gen(0)
    names = [s["n"] for s in control.walk(tree)]
    ops = []
    root = names[0]
    if draw(st.integers(0, 4)):
        ops.append(["call", root, "s"])
        for s in control.walk(tree):
            if draw(st.integers(0, 4)):
                ops += [["in", s["n"], k, draw(st.integers(0, 5))] for k in (0, 1)]
    for _ in range(draw(st.integers(2, 16))):
        c = draw(st.sampled_from("ccccccccciiadm"))
        who = draw(st.sampled_from([root, draw(st.sampled_from(names))]))
        if c == "c":
            ops.append(["call", who, draw(st.sampled_from("ssttttttuurrxx"))])
        elif c == "i":
            ops.append(["in", draw(st.sampled_from(names)), draw(st.integers(0, 3)), draw(st.integers(0, 5))])
        elif c == "m":
            inner = [x["n"] for x in control.walk(tree) if x.get("c")]
            if inner:
                ops.append(["move", draw(st.sampled_from(inner)), draw(st.integers(0, 3)), draw(st.integers(0, 20))])
        elif c == "a":
            ops.append(["add", who, draw(st.integers(0, 8)), draw(st.sampled_from([None, 0, 1, -1, -2]))])
        else:
            ops.append(["drop", who, draw(st.sampled_from([None, 0, 1, 2]))])
    return {"tree": tree, "ops": ops}
