"""What is published about subtrees while the tree around them is edited."""

import uuid

from hypothesis import strategies as st

from . import bootstrap

bootstrap.boot()

from ros_bt_py.data_types import IntType, PathType  # noqa: E402
from ros_bt_py.ros_nodes.subtree import Subtree  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces import srv as bt_srv  # noqa: E402
from ros_bt_py_interfaces.msg import NodeStructure, TreeStructure  # noqa: E402
from std_srvs.srv import SetBool  # noqa: E402

from . import edit, execution, subtree  # noqa: E402
from .core import expect, expect_eq  # noqa: E402
from .edit import io, must  # noqa: E402
from .fakeros import FakeNode  # noqa: E402
from .store import Scratch  # noqa: E402

ROOT = str(uuid.UUID(int=0))


def live_subtrees(tree_nodes):
    """Every Subtree node there is, those within other ones included."""
    for n in tree_nodes:
        if isinstance(n, Subtree):
            yield n
            yield from live_subtrees(n.manager.nodes.values())


class Harness:
    def __init__(self, case, make):
        self.structures, self.states = [], []
        self.m = make(
            ros_node=FakeNode(),
            publish_tree_structure_callback=self.structures.append,
            publish_tree_state_callback=self.states.append,
        )
        self.case = case
        self.on = True

    def nth(self, k, only=None):
        """The id of a node of the tree, in the order of their making."""
        have = [str(i) for i, n in self.m.nodes.items() if only is None or isinstance(n, only)]
        return have[k % len(have)] if have else str(uuid.UUID(int=77))

    def message(self, what, name):
        """what: a file of the case, or the name of a class, or something that can't be made"""
        msg = NodeStructure(name=name)
        if isinstance(what, int):
            p = PathType(allow_dynamic=False)
            must(p.set_value(self.paths[what % len(self.paths)]), "path")
            msg.module, msg.node_class = "ros_bt_py.ros_nodes.subtree", "Subtree"
            msg.inputs = [io("subtree_path", p)]
        elif what == "nofile":
            p = PathType(allow_dynamic=False)
            must(p.set_value("file:///nonexistent/tree.yaml"), "path")
            msg.module, msg.node_class = "ros_bt_py.ros_nodes.subtree", "Subtree"
            msg.inputs = [io("subtree_path", p)]
        else:
            msg.module, msg.node_class = edit.KINDS[what][0], what
        return msg

    def refused(self, msg, bad):
        if bad:
            msg.inputs = list(msg.inputs) + [io("no_such_input", IntType(value=1))]
        return msg

    def apply(self, op):
        m, kind = self.m, op[0]
        if kind == "add":
            _, what, parent, bad = op
            parent = ROOT if parent is None else "zzz" if parent == "none" else self.nth(parent)
            return m.add_node(
                bt_srv.AddNode.Request(node=self.refused(self.message(what, "added"), bad), parent_node_id=parent),
                bt_srv.AddNode.Response(),
            )
        if kind == "remove":
            return m.remove_node(
                bt_srv.RemoveNode.Request(node_id=self.nth(op[1], Subtree if op[3] else None), remove_children=op[2]),
                bt_srv.RemoveNode.Response(),
            )
        if kind == "morph":
            _, k, sub, what, bad = op
            return m.morph_node(
                bt_srv.MorphNode.Request(
                    node_id=self.nth(k, Subtree if sub else None), new_node=self.refused(self.message(what, "morphed"), bad)
                ),
                bt_srv.MorphNode.Response(),
            )
        if kind == "opts":
            _, k, what, bad = op
            msg = self.refused(self.message(what, "x"), bad)
            return m.set_options(
                bt_srv.SetOptions.Request(node_id=self.nth(k, Subtree), inputs=msg.inputs), bt_srv.SetOptions.Response()
            )
        if kind == "replace":
            return m.replace_node(
                bt_srv.ReplaceNode.Request(old_node_id=self.nth(op[1], Subtree if op[3] else None), new_node_id=self.nth(-1 if op[2] == "last" else op[2])),
                bt_srv.ReplaceNode.Response(),
            )
        if kind == "clear":
            return m.clear(bt_srv.ClearTree.Request(), bt_srv.ClearTree.Response())
        if kind == "reload":
            return m.reload_tree(bt_srv.ReloadTree.Request(), bt_srv.ReloadTree.Response())
        if kind == "load":
            if op[1] == "none":
                msg = TreeStructure(path="file:///nonexistent/tree.yaml")
            elif op[1] == "same":
                msg = self.load_msg()
            else:
                msg = TreeStructure(path=self.paths[op[1] % len(self.paths)])
            return m.load_tree(bt_srv.LoadTree.Request(tree=msg), bt_srv.LoadTree.Response())
        if kind == "run":
            r = None
            for c in ["once"] * op[1] + ["shutdown"]:
                r = m.control_execution(
                    bt_srv.ControlTreeExecution.Request(command=execution.CMD[c]), bt_srv.ControlTreeExecution.Response()
                )
            return r
        if kind == "subtrees":
            self.on = op[1]
            return m.set_publish_subtrees(SetBool.Request(data=op[1]), SetBool.Response())
        raise AssertionError(op)

    def check(self, step):
        want = {}
        if self.on:
            for n in live_subtrees(self.m.nodes.values()):
                want[str(n.manager.tree_id.unwrap())] = n
        expect(bool(self.structures), "%s: nothing was published" % step)
        last = self.structures[-1].tree_structures
        own = str(self.m.tree_id.unwrap())
        expect_eq(sum(t.tree_id == own for t in last), 1, step + ": structures of the tree itself")
        got = {t.tree_id: t for t in last if t.tree_id != own}
        expect_eq(len(got), len(last) - 1, step + ": structures of different subtrees")
        expect_eq(
            sorted((t.name, len(t.nodes)) for t in got.values()),
            sorted((n.manager.name, len(n.manager.nodes)) for n in want.values()),
            step + ": names and sizes of the subtrees published",
        )
        expect_eq(set(got), set(want), step + ": ids of the subtrees published")
        for i, n in want.items():
            expect_eq({x.node_id for x in got[i].nodes}, {str(x) for x in n.manager.nodes}, "%s: nodes of the subtree of %s" % (step, n.name))
        refs = {x.node_id: x.tree_ref for t in last for x in t.nodes if t.tree_id == own}
        for i, n in self.m.nodes.items():
            ref = str(n.manager.tree_id.unwrap()) if isinstance(n, Subtree) else ""
            expect_eq(refs.get(str(i)), ref, "%s: reference of node %s to a subtree" % (step, n.name))
        for t in self.states[-1].tree_states if self.states and not self.m.nodes else []:
            expect_eq(t.tree_id, own, step + ": state of a subtree though there are no nodes")


def run(case, ctx, make=TreeEditManager):
    subtree.begin()
    done = refused = 0
    with Scratch() as top:
        h = Harness(case, make)
        b = subtree.Builder(top, FakeNode())
        wires = [tuple(w) for w in case["wires"]]
        h.load_msg = lambda: subtree.Builder(top, FakeNode()).message(case["tree"], wires, "tree")
        h.paths = [b.file(p) for p in case["files"]]
        r = h.apply(["load", "same"])
        expect(r.success, "the tree is not loaded: %s" % r.error_message)
        h.check("load")
        most = 0
        for i, op in enumerate(case["ops"]):
            before = sum(1 for _ in live_subtrees(h.m.nodes.values()))
            r = h.apply(op)
            h.check("step %d %s (%s)" % (i, op, "done" if r.success else "refused"))
            after = sum(1 for _ in live_subtrees(h.m.nodes.values()))
            if op[0] not in ("run", "subtrees"):
                done += r.success and (before or after) > 0
                refused += not r.success
            most = max(most, after)
            ctx.tag(op[0] if r.success else op[0] + " refused")
    ctx.nontrivial(done >= 3 and most >= 2)


WHAT = st.one_of(st.integers(0, 5), st.integers(0, 5), st.sampled_from(["Sequence", "Inverter", "IntSink", "nofile"]))


@st.composite
def cases(draw):
    g = subtree.Gen(draw)
    tree = g.tree(2, False)
    if not g.files or draw(st.booleans()):
        tree["c"].append(g.sub(draw(st.integers(1, 2))))
    g.repair(tree)
    wires = g.wires(tree, False)
    ref = st.integers(0, 20)
    bad = st.sampled_from([False, False, False, True])
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        c = draw(st.sampled_from(["add", "add", "remove", "remove", "morph", "morph", "opts", "opts", "replace", "load", "clear", "reload", "run", "subtrees"]))
        if c == "add":
            op = [c, draw(WHAT), draw(st.one_of(st.none(), st.sampled_from([0, 0, 0, "none"]), ref)), draw(bad)]
        elif c == "remove":
            op = [c, draw(ref), draw(st.booleans()), draw(st.booleans())]
        elif c == "morph":
            op = [c, draw(ref), draw(st.booleans()), draw(WHAT), draw(bad)]
        elif c == "opts":
            op = [c, draw(ref), draw(st.one_of(st.integers(0, 5), st.sampled_from([0, 1, "nofile"]))), draw(bad)]
        elif c == "replace":
            ops.append(["add", draw(WHAT), None, False])
            op = [c, draw(ref), draw(st.one_of(st.just("last"), ref)), draw(st.booleans())]
        elif c == "load":
            op = [c, draw(st.one_of(st.sampled_from(["same", "none"]), ref))]
        elif c == "run":
            op = [c, draw(st.integers(0, 2))]
        elif c == "subtrees":
            op = [c, draw(st.booleans())]
        else:
            op = [c]
        ops.append(op)
    return {"tree": tree, "wires": wires, "files": g.files, "ops": ops}
