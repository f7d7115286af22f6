"""Runs a tree through the manager's execution commands next to the reference model.

The tick thread is real.  Its rate object is ours: it parks the thread after every
tick until the check lets it go on or a stop is requested, so every schedule of
commands, edits and ticks is chosen by the case.
"""
import copy
import threading
import uuid

from hypothesis import strategies as st

from . import bootstrap

bootstrap.boot()

import rclpy  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import (  # noqa: E402
    NodeDataLocation,
    NodeStructure,
    TreeState,
    TreeStructure,
    Wiring,
)
from ros_bt_py_interfaces.srv import (  # noqa: E402
    AddNode,
    AddNodeAtIndex,
    ChangeTreeName,
    ClearTree,
    ControlTreeExecution,
    LoadTree,
    LoadTreeFromPath,
    MorphNode,
    MoveNode,
    ReloadTree,
    RemoveNode,
    ReplaceNode,
    SetOptions,
    WireNodeData,
)

from . import control, edit, model, nodes  # noqa: E402
from .core import HarnessError, Violation, expect, expect_eq  # noqa: E402
from .fakeros import FakeNode  # noqa: E402

edit.quiet()

WAIT = 20.0
C = ControlTreeExecution.Request
CMD = {
    "nothing": C.DO_NOTHING,
    "once": C.TICK_ONCE,
    "periodic": C.TICK_PERIODICALLY,
    "until": C.TICK_UNTIL_RESULT,
    "stop": C.STOP,
    "reset": C.RESET,
    "shutdown": C.SHUTDOWN,
    "setup_shutdown": C.SETUP_AND_SHUTDOWN,
    "unknown": 200,
}
EDITABLE, IDLE, TICKING, WAITING, STOPPING, ERROR = (
    TreeState.EDITABLE,
    TreeState.IDLE,
    TreeState.TICKING,
    TreeState.WAITING_FOR_TICK,
    TreeState.STOP_REQUESTED,
    TreeState.ERROR,
)

# every service that changes a tree
EDITS = (
    "add",
    "add_at",
    "name",
    "remove",
    "remove_all",
    "morph",
    "options",
    "move",
    "replace",
    "wire",
    "unwire",
    "clear",
    "reload",
    "load",
    "load_path",
)


def leaf_msg(name, cls="ScriptLeaf"):
    return NodeStructure(module="vt.nodes", node_class=cls, name=name, max_children=0)


def do_edit(m, kind, ids, root_id, k=0):
    """Issue an edit that would be fine on an editable tree."""
    node = ids[k % len(ids)] if ids else str(uuid.UUID(int=7))
    other = ids[(k + 1) % len(ids)] if ids else node
    if kind == "add":
        return m.add_node(AddNode.Request(parent_node_id=edit.ZERO, node=leaf_msg("extra")), AddNode.Response())
    if kind == "add_at":
        return m.add_node_at_index(
            AddNodeAtIndex.Request(parent_node_id=root_id, node=leaf_msg("extra"), new_child_index=0),
            AddNodeAtIndex.Response(),
        )
    if kind == "name":
        return m.change_tree_name(ChangeTreeName.Request(name="other name"), ChangeTreeName.Response())
    if kind in ("remove", "remove_all"):
        return m.remove_node(
            RemoveNode.Request(node_id=node, remove_children=kind == "remove_all"), RemoveNode.Response()
        )
    if kind == "morph":
        return m.morph_node(
            MorphNode.Request(
                node_id=node,
                new_node=NodeStructure(
                    module="ros_bt_py.nodes.sequence", node_class="Sequence", name="morphed", max_children=-1
                ),
            ),
            MorphNode.Response(),
        )
    if kind == "options":
        return m.set_options(
            SetOptions.Request(node_id=node, rename_node=True, new_name="renamed"), SetOptions.Response()
        )
    if kind == "move":
        return m.move_node(
            MoveNode.Request(node_id=other, parent_node_id=root_id, new_child_index=-1), MoveNode.Response()
        )
    if kind == "replace":
        return m.replace_node(
            ReplaceNode.Request(old_node_id=node, new_node_id=other), ReplaceNode.Response()
        )
    if kind in ("wire", "unwire"):
        w = Wiring(
            source=NodeDataLocation(node_id=node, data_key="i"),
            target=NodeDataLocation(node_id=other, data_key="i"),
        )
        fn = m.wire_data if kind == "wire" else m.unwire_data
        return fn(WireNodeData.Request(wirings=[w]), WireNodeData.Response())
    if kind == "clear":
        return m.clear(ClearTree.Request(), ClearTree.Response())
    if kind == "reload":
        return m.reload_tree(ReloadTree.Request(), ReloadTree.Response())
    if kind == "load":
        return m.load_tree(
            LoadTree.Request(tree=TreeStructure(name="loaded", nodes=[leaf_msg("l")])), LoadTree.Response()
        )
    if kind == "load_path":
        return m.load_tree_from_path(
            LoadTreeFromPath.Request(path="package://ros_bt_py/trees/test.yaml"), LoadTreeFromPath.Response()
        )
    raise HarnessError(kind)


class Stuck(Exception):
    pass


class Exec:
    def __init__(self, case, node=None, make=TreeEditManager):
        nodes.clear()
        if not rclpy.ok():
            rclpy.init()
        self.case = case
        self.cond = threading.Condition()
        self.parked = 0  # how often the tick thread went to sleep
        self.asleep = False
        self.permits = 0
        self.over = False
        self.rate_seen = None
        self.tick_threads = set()
        self.published = []
        self.freqs = []
        self.durations = []
        self.node = node or FakeNode()
        self.node.on_sleep = self._sleep
        self.freq = case.get("freq", 10.0)
        self.m = make(
            ros_node=self.node,
            # before any tree is loaded
            tick_frequency_hz=case.get("made", self.freq),
            publish_tree_state_callback=self._state,
            publish_tick_frequency_callback=self._freq,
        )
        self.state = EDITABLE
        self.alive = False
        self.until = False
        self.pause = None  # (reached, go on) events for a tick
        self.leaf_edit = None
        self.leaf_results = []
        self.trees = case["trees"]
        self.mtree = None
        self.load()
        nodes.ON_TICK.append(self._on_tick)

    # -- building
    def load(self):
        made = {}
        msgs = []
        self.roots = []
        for spec in self.trees:
            here = {}
            root = control.build_real(spec, here)
            self.roots.append(root)
            made.update(here)
        msgs = [n.to_structure_msg() for n in made.values()]
        if not msgs:
            self.real, self.ids, self.root_id = {}, [], ""
            return
        r = self.m.load_tree(
            LoadTree.Request(tree=TreeStructure(name="tree", nodes=msgs, tick_frequency_hz=self.freq)),
            LoadTree.Response(),
        )
        expect(r.success, "loading the tree failed: %s" % r.error_message)
        self.bind()

    def bind(self):
        self.real = {n.name: n for n in self.m.nodes.values()}
        if len(self.trees) == 1:
            self.mtree = model.Tree(self.trees[0])
            self.root_name = self.trees[0]["n"]
        self.ids = [str(n.node_id) for n in self.real.values()]
        self.root_id = str(self.real[self.trees[0]["n"]].node_id) if self.trees else ""

    # -- callbacks
    def _state(self, msg):
        self.published.append(msg.tree_states[-1].state)

    def _freq(self, msg):
        self.freqs.append(msg.data)

    def _on_tick(self, name):
        self.tick_threads.add(threading.get_ident())
        d = self.case.get("took", 0)
        if d:
            self.node.clock.advance(d)
        if self.leaf_edit is not None:
            kind, self.leaf_edit = self.leaf_edit, None
            before = self.snapshot()
            r = do_edit(self.m, kind, self.ids, self.root_id)
            self.leaf_results.append((kind, r.success, before == self.snapshot(), self.m.state))
        if self.pause is not None:
            (reached, go), self.pause = self.pause, None
            reached.set()
            if not go.wait(WAIT):
                raise HarnessError("nobody let the leaf go on")

    def _sleep(self, rate):
        self.rate_seen = rate.frequency
        with self.cond:
            self.parked += 1
            self.asleep = True
            self.cond.notify_all()
            waited = 0.0
            while not self.permits and not self.over and self.m.state != STOPPING:
                self.cond.wait(0.002)
                waited += 0.002
            if self.permits:
                self.permits -= 1
            self.asleep = False
            self.cond.notify_all()
        if self.over:
            raise Stuck()

    def close(self):
        self.over = True
        with self.cond:
            self.cond.notify_all()
        t = self.thread()
        if t is not None and t.is_alive():
            t.join(5)

    def thread(self):
        return getattr(self.m, "_tick_thread", None)

    # -- waiting
    def ended(self):
        """The manager says that it isn't ticking any more."""
        return self.m.state not in (TICKING, STOPPING)

    def settle(self, target):
        """Wait until the tick thread has gone to sleep `target` times or has ended."""
        deadline = WAIT
        with self.cond:
            while deadline > 0:
                if self.parked >= target:
                    return
                if self.ended():
                    break
                self.cond.wait(0.001)
                deadline -= 0.001
        if not self.ended():
            raise Violation("the tree neither goes on ticking nor stops (state %s)" % self.m.state)
        # let the thread finish what it does after the last tick
        deadline = WAIT
        t = self.thread()
        if t is not None:
            t.join(WAIT)

    def call(self, cmd, **kw):
        """Issue a command; hang protection by a helper thread."""
        box = []

        def work():
            try:
                box.append(
                    self.m.control_execution(
                        C(command=CMD[cmd], **kw), ControlTreeExecution.Response()
                    )
                )
            except BaseException as exc:  # handed on below
                box.append(exc)

        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join(WAIT)
        if t.is_alive():
            raise Violation("command %s does not return (tree state %s)" % (cmd, self.m.state))
        if isinstance(box[0], BaseException):
            raise box[0]
        return box[0]

    def snapshot(self):
        return edit.canonical(self.m.structure_to_msg())

    # -- the model of one tick
    def model_tick(self):
        """Returns "error", "stop" or "go"."""
        root = self.mtree.root
        if root.state in (model.U, model.X):
            self.mtree.call(self.root_name, "setup")
            if root.state != model.I:
                return "error"
        return self.model_root_tick()

    def model_root_tick(self):
        how, state = self.mtree.call(self.root_name, "tick")
        if how == "err":
            return "error"
        if self.until and state in (model.S, model.F):
            return "stop"
        return "go"

    def model_end(self, how):
        self.alive = False
        if how == "error":
            self.state = ERROR
        else:
            how, _ = self.mtree.call(self.root_name, "untick")
            self.state = IDLE if how == "ok" else ERROR

    def compare(self, step):
        expect_eq(self.m.state, self.state, "step %s: state of the tree" % step)
        if self.mtree is not None:
            control.compare(step, self.real, self.mtree, "execution")
        if self.published:
            expect_eq(self.published[-1], self.state, "step %s: last published state" % step)

    # -- operations
    def op(self, step, op, ctx):
        kind = op[0]
        if kind in CMD:
            return self.command(step, kind, op, ctx)
        if kind == "ticks":
            for _ in range(op[1]):
                if not self.alive:
                    return
                with self.cond:
                    target = self.parked + 1
                    self.permits += 1
                    self.cond.notify_all()
                how = self.model_root_tick()
                if how != "go":
                    self.model_end(how)
                self.settle(target)
                expect_eq(self.alive, self.m.state == TICKING, "step %s: is it ticking" % step)
                ctx.tag("tick_" + how)
        elif kind == "edit":
            if self.state == EDITABLE:
                return self.edit_allowed(step, ctx)
            before = self.snapshot()
            r = do_edit(self.m, op[1], self.ids, self.root_id, op[2])
            expect(not r.success, "step %s: edit %s is accepted in tree state %s" % (step, op[1], self.state))
            expect(r.error_message, "step %s: refused edit %s gives no reason" % (step, op[1]))
            expect_eq(self.snapshot(), before, "step %s: tree after refused edit %s" % (step, op[1]))
            ctx.tag("refused_in_" + self.state)
            self.refused += 1
        elif kind == "load":
            # the same tree again, with another frequency
            if self.state != EDITABLE or len(self.trees) != 1:
                return
            msg = copy.deepcopy(self.m.structure_to_msg())
            self.freq = msg.tick_frequency_hz = op[1]
            r = self.m.load_tree(LoadTree.Request(tree=msg), LoadTree.Response())
            expect(r.success, "step %s: loading the tree failed: %s" % (step, r.error_message))
            for script in nodes.SCRIPTS.values():
                script.pos = 0
                del script.log[:]
            del nodes.TICK_ORDER[:]
            self.bind()
            ctx.tag("loaded_again")
        elif kind == "leaf_edit":
            # during the next tick, by the tick thread itself
            if self.alive:
                self.leaf_edit = op[1]
                self.op(step, ["ticks", 1], ctx)
                self.check_leaf(step, ctx)
        elif kind == "stop_mid":
            # a stop while a leaf is being ticked
            if not self.alive:
                return
            reached, go = threading.Event(), threading.Event()
            self.pause = (reached, go)
            how = self.model_root_tick()
            with self.cond:
                self.permits += 1
                self.cond.notify_all()
            while not reached.wait(0.002):
                if self.ended() or self.asleep and not self.permits:
                    break
            if not reached.is_set():
                # no leaf was ticked this time
                self.pause = None
                if how != "go":
                    self.model_end(how)
                self.settle(self.parked)
                return
            box = []

            def work():
                box.append(self.call(op[1]))

            t = threading.Thread(target=work, daemon=True)
            t.start()
            spent = 0.0
            while self.m.state == TICKING and spent < 5:
                t.join(0.001)
                spent += 0.001
            before = self.snapshot()
            r = do_edit(self.m, op[2], self.ids, self.root_id)
            edit_ok = r.success
            unchanged = before == self.snapshot()
            mid = self.m.state
            self.meanwhile(step)
            go.set()
            t.join(2 * WAIT)
            if t.is_alive() or not box:
                raise Violation("step %s: %s during a tick does not return" % (step, op[1]))
            expect(mid == STOPPING, "step %s: %s during a tick leaves the state at %s" % (step, op[1], mid))
            expect(not edit_ok and unchanged, "step %s: edit %s carried out in the middle of a tick" % (step, op[2]))
            self.model_end("error" if how == "error" else "stop")
            self.settle(self.parked)
            ctx.tag("stop_mid_tick")
            self.refused += 1
            r = box[0]
            if self.state == ERROR:
                expect(not r.success, "step %s: %s reports success but ticking ended in an error" % (step, op[1]))
            elif op[1] == "shutdown":
                self.model_shutdown(step, r)
            else:
                self.success(step, r, True)
        else:
            raise HarnessError(op)
        self.compare(step)

    def meanwhile(self, step):
        """A stop is pending in the middle of a tick."""

    def check_leaf(self, step, ctx):
        for kind, ok, same, state in self.leaf_results:
            expect(not ok and same, "step %s: edit %s carried out in the middle of a tick (state %s)" % (step, kind, state))
            ctx.tag("refused_mid_tick")
            self.refused += 1
        self.leaf_results = []
        self.leaf_edit = None

    def edit_allowed(self, step, ctx):
        """The tree must be editable: add a node and take it out again."""
        before = self.snapshot()
        r = self.m.add_node(AddNode.Request(parent_node_id=edit.ZERO, node=leaf_msg("visitor")), AddNode.Response())
        expect(r.success, "step %s: adding a node to an editable tree is refused: %s" % (step, r.error_message))
        r = self.m.remove_node(RemoveNode.Request(node_id=r.node_id, remove_children=False), RemoveNode.Response())
        expect(r.success, "step %s: removing a node of an editable tree is refused: %s" % (step, r.error_message))
        expect_eq(self.snapshot(), before, "step %s: tree after adding and removing a node" % step)
        ctx.tag("edited_between")
        self.compare(step)

    def success(self, step, r, want):
        expect_eq(r.success, want, "step %s: success (message %r)" % (step, r.error_message))
        if want and r.tree_state:
            expect_eq(r.tree_state, self.state, "step %s: tree state in the response" % step)

    def model_shutdown(self, step, r):
        if self.mtree is None:
            self.state = EDITABLE
            return self.success(step, r, True)
        how, _ = self.mtree.call(self.root_name, "shutdown")
        if how == "ok":
            self.state = EDITABLE
            self.success(step, r, True)
        else:
            self.success(step, r, False)
            expect(r.error_message, "step %s: a shutdown that failed gives no reason" % step)

    def command(self, step, kind, op, ctx):
        kw = {}
        if kind in ("periodic", "until") and len(op) > 1:
            kw["tick_frequency_hz"] = op[1]
        ctx.tag("%s_in_%s" % (kind, self.state))
        parked = self.parked
        if kind in ("periodic", "until") and self.state != ERROR and not self.alive and self.trees:
            self.freqs = []
        before = self.state
        r = self.call(kind, **kw)
        if self.state == ERROR and kind not in ("shutdown",):
            self.success(step, r, False)
            expect(r.error_message, "step %s: no reason given" % step)
        elif kind == "nothing":
            self.success(step, r, True)
        elif kind == "unknown":
            self.success(step, r, False)
        elif kind in ("once", "periodic", "until", "reset") and self.alive:
            self.success(step, r, False)
            expect(r.error_message, "step %s: no reason given" % step)
        elif len(self.trees) > 1 and kind in ("once", "periodic", "until", "reset"):
            self.success(step, r, False)
            expect(r.error_message, "step %s: no reason given" % step)
        elif not self.trees and kind in ("once", "periodic", "until", "reset"):
            # what an empty tree answers is not documented
            if self.m.state not in (EDITABLE, IDLE):
                raise Violation("step %s: an empty tree is in state %s" % (step, self.m.state))
            self.state = self.m.state
        elif kind == "once":
            self.until = False
            if self.model_tick() == "error":
                self.model_end("error")
                self.success(step, r, False)
                expect(r.error_message, "step %s: no reason given" % step)
            else:
                self.state = WAITING
                self.success(step, r, True)
            expect(self.parked == parked, "step %s: the tick thread goes on after a single tick" % step)
            self.settle(parked)
        elif kind in ("periodic", "until"):
            self.success_only(step, r)
            f = kw.get("tick_frequency_hz", 0)
            if f > 0:
                self.freq = f
            elif f:
                # nonsense: any sane frequency will do
                self.freq = self.m.tick_frequency_hz
                expect(self.freq > 0, "step %s: tick frequency %r" % (step, self.freq))
            self.until = kind == "until"
            self.state, self.alive = TICKING, True
            how = self.model_tick()
            if how != "go":
                self.model_end(how)
            self.settle(parked + 1)
            if self.alive:
                expect_eq(self.rate_seen, self.freq, "step %s: frequency of the rate" % step)
        elif kind == "reset":
            how, _ = self.mtree.call(self.root_name, "reset")
            if how == "ok":
                self.state = IDLE
                self.success(step, r, True)
            else:
                self.success(step, r, False)
                expect(r.error_message, "step %s: no reason given" % step)
        else:  # stop, shutdown, setup_shutdown
            if kind == "setup_shutdown" and self.alive:
                self.success(step, r, False)
                self.settle(parked)
                return self.compare(step)
            if self.alive:
                self.model_end("stop")
                stopped = self.state == IDLE
            elif self.state == WAITING:
                _, state = self.mtree.call(self.root_name, "untick")
                stopped = state in (model.I, model.P)
                self.state = IDLE if stopped else ERROR
            else:
                stopped = None
            if stopped is False:
                self.success(step, r, False)
                expect(r.error_message, "step %s: no reason given" % step)
            elif kind == "stop":
                # stopping a tree that does not run changes nothing; what it answers is not documented
                if stopped:
                    self.success(step, r, True)
            elif len(self.trees) > 1 and kind == "setup_shutdown":
                self.success(step, r, False)
            else:
                self.model_shutdown(step, r)
                if len(self.trees) > 1:
                    # whether a forest keeps its links is not documented
                    self.trees = []
                    self.over_forest = True
            self.settle(parked)
        self.commands += before != self.state or kind in ("once", "reset")
        self.compare(step)

    def success_only(self, step, r):
        expect(r.success, "step %s: starting is refused: %s" % (step, r.error_message))

    def run(self, ctx):
        self.refused = self.commands = 0
        self.over_forest = False
        try:
            for i, op in enumerate(self.case["ops"]):
                if self.over_forest:
                    break
                self.op("%d %s" % (i, op), op, ctx)
                self.check_freqs()
        finally:
            self.close()
        expect(
            threading.get_ident() not in self.tick_threads, "the tree is ticked by the thread that gives the command"
        )

    def check_freqs(self):
        """Published frequencies: never above the set one, never below the slowest tick allows."""
        if not self.freqs or "took" not in self.case:
            return
        low = min([self.freq, self.case["freq"]] + [1 / t for t in (self.case["took"] * self.leaves(),) if t])
        high = max(self.freq, self.case["freq"], *self.used)
        low = min(low, *self.used)
        for f in self.freqs:
            expect(low * 0.999 <= f <= high * 1.001, "published tick frequency %r outside %r .. %r" % (f, low, high))

    @property
    def used(self):
        return [o[1] for o in self.case["ops"] if o[0] in ("periodic", "until", "load") and len(o) > 1 and o[1] > 0] + [10.0, self.case.get("made", 10.0)]

    def leaves(self):
        # a leaf may be ticked several times within one tick of the root
        return 40 * sum(1 for t in self.case["trees"] for s in control.walk(t) if s["k"] == "leaf")


KINDS = control.ORDERED + control.PARALLELS + (
    "Inverter",
    "Retry",
    "Repeat",
    "IgnoreFailure",
    "IgnoreRunning",
    "RepeatUntilFail",
    "UntilSuccess",
)


@st.composite
def ops(draw, mode):
    n = draw(st.integers(3, 24))
    out = []
    start = ["once", "periodic", "periodic", "until"]
    for _ in range(n):
        if mode == "edits":
            pick = draw(st.sampled_from(["start"] * 3 + ["edit"] * 5 + ["leaf_edit", "stop_mid", "ticks", "ticks", "end"]))
        else:
            pick = draw(st.sampled_from(["start"] * 5 + ["ticks"] * 4 + ["end"] * 4 + ["stop_mid", "reset", "edit", "odd", "load"]))
        if pick == "start":
            k = draw(st.sampled_from(start))
            op = [k]
            if k != "once" and draw(st.integers(0, 2)) == 0:
                op.append(draw(st.sampled_from([1.0, 50.0, 0.5, 1000.0, -1.0])))
            out.append(op)
        elif pick == "ticks":
            out.append(["ticks", draw(st.integers(1, 4))])
        elif pick == "end":
            out.append([draw(st.sampled_from(["stop", "stop", "shutdown", "shutdown", "setup_shutdown"]))])
        elif pick == "reset":
            out.append(["reset"])
        elif pick == "load":
            if draw(st.booleans()):
                out.append(["shutdown"])
            out.append(["load", draw(st.sampled_from([10.0, 40.0, 0.5]))])
        elif pick == "odd":
            out.append([draw(st.sampled_from(["nothing", "unknown"]))])
        elif pick == "edit":
            out.append(["edit", draw(st.sampled_from(EDITS)), draw(st.integers(0, 5))])
        elif pick == "leaf_edit":
            out.append(["leaf_edit", draw(st.sampled_from(EDITS))])
        else:
            out.append(["stop_mid", draw(st.sampled_from(["stop", "stop", "shutdown"])), draw(st.sampled_from(EDITS))])
    return out


@st.composite
def cases(draw, mode):
    errors = draw(st.integers(0, 2)) == 0
    raising = mode != "edits" and draw(st.booleans())
    many = draw(st.integers(0, 14))
    count = 0 if many == 0 else 2 if many == 1 else 1
    trees = []
    for i in range(count):
        t = draw(control.tree_spec(KINDS, KINDS, depth=2 if mode == "edits" else 3, errors=errors, max_kids=3))
        if i:
            for s in control.walk(t):
                s["n"] = "b" + s["n"]
        if errors and raising:
            for s in control.walk(t):
                if s["k"] == "leaf":
                    s["p"]["ticks"] = s["p"].get("ticks", "S").replace("E", "!")
        trees.append(t)
    case = {"trees": trees, "ops": draw(ops(mode)), "freq": draw(st.sampled_from([10.0, 10.0, 25.0, 2.0]))}
    if mode != "edits":
        case["made"] = draw(st.sampled_from([10.0, 5.0, 100.0]))
        case["took"] = draw(st.sampled_from([0, 0.001, 0.3]))
    return case


def run(case, ctx):
    e = Exec(case)
    e.run(ctx)
    ctx.nontrivial(e.commands >= 2 and len(nodes.TICK_ORDER) >= 2)


def run_edits(case, ctx):
    e = Exec(case)
    e.run(ctx)
    ctx.nontrivial(e.refused >= 1)


# -------------------------------------------------------------- races
def run_race(case, ctx):
    """An edit is in progress (its node is being constructed) when execution is started."""
    e = Exec({"trees": [case["tree"]], "ops": [], "freq": 100.0})
    m = e.m
    entered, go = threading.Event(), threading.Event()
    seen = {}

    def construction(name):
        seen.setdefault(name, []).append(m.state)
        if name == "gate" and not entered.is_set():
            entered.set()
            go.wait(WAIT)
            seen[name].append(m.state)

    nodes.ON_CONSTRUCTION.append(construction)
    out = {}

    def guarded(key, fn):
        def work():
            try:
                out[key] = fn()
            except BaseException as exc:
                out[key] = exc

        t = threading.Thread(target=work, daemon=True)
        t.start()
        return t

    def add(name):
        return m.add_node(
            AddNode.Request(parent_node_id=e.root_id, node=leaf_msg(name, "GateLeaf")), AddNode.Response()
        )

    try:
        first = guarded("gate", lambda: add("gate"))
        if not entered.wait(WAIT):
            raise Violation("adding a node never constructs it")
        threads = [first]
        for who in case["order"]:
            if who == "edit":
                threads.append(guarded("probe", lambda: add("probe")))
            else:
                threads.append(guarded("control", lambda: m.control_execution(C(command=CMD[case["cmd"]]), ControlTreeExecution.Response())))
            spent = 0
            while spent < case["ms"] and m.state == EDITABLE:
                threads[-1].join(0.001)
                spent += 1
        go.set()
        deadline = WAIT
        for t in threads:
            t.join(deadline)
            if t.is_alive():
                raise Violation("edits and %s block each other" % case["cmd"])
        for key, r in out.items():
            if isinstance(r, BaseException):
                raise r
        for key in ("gate", "probe"):
            if key in out and out[key].success:
                expect(
                    all(s == EDITABLE for s in seen.get(key, [])),
                    "an edit was carried out although ticking had started (tree states meanwhile: %s)" % seen.get(key),
                )
        r = out["control"]
        n = m.control_execution(C(command=C.SHUTDOWN), ControlTreeExecution.Response())
        if r.success:
            expect(n.success, "shutdown fails: %s" % n.error_message)
        ctx.tag("edits_done %d" % sum(1 for k in ("gate", "probe") if k in out and out[k].success))
        ctx.nontrivial(r.success)
    finally:
        go.set()
        e.close()


@st.composite
def race_cases(draw):
    kids = draw(st.integers(1, 3))
    tree = {
        "k": draw(st.sampled_from(["Sequence", "Fallback", "MemorySequence"])),
        "n": "n1",
        "c": [
            {"k": "leaf", "n": "n%d" % (i + 2), "p": {"ticks": draw(st.text("SFR", min_size=1, max_size=3))}}
            for i in range(kids)
        ],
        "p": {},
    }
    return {
        "tree": tree,
        "cmd": draw(st.sampled_from(["once", "periodic", "until"])),
        "order": draw(st.sampled_from([["control"], ["edit", "control"], ["control", "edit"]])),
        "ms": draw(st.sampled_from([3, 10])),
    }


# -------------------------------------------------- races between commands
STARTS = ["once", "once", "periodic", "until"]


def hooked(on_access):
    """A manager that tells us whenever its state is read or is about to be written."""
    base = TreeEditManager.state
    if not isinstance(base, property) or base.fset is None:
        return TreeEditManager

    class Hooked(TreeEditManager):
        @property
        def state(self):
            value = base.fget(self)
            on_access()
            return value

        @state.setter
        def state(self, value):
            on_access()
            base.fset(self, value)

    return Hooked


def background(out, key, fn):
    def work():
        try:
            out[key] = fn()
        except BaseException as exc:  # judged by the check
            out[key] = exc

    t = threading.Thread(target=work, daemon=True)
    t.start()
    return t


def finish(threads, out, what):
    for t in threads:
        t.join(WAIT)
        if t.is_alive():
            raise Violation("%s: a command does not return" % what)
    for key, r in out.items():
        if isinstance(r, (HarnessError, Violation)):
            raise r
        if isinstance(r, BaseException):
            raise Violation("%s: %s raised %s: %s" % (what, key, type(r).__name__, r))


def run_command_race(case, ctx):
    return {"stop": run_stop_race, "start": run_start_race, "ending": run_ending_race}[case["race"]](case, ctx)


def usable(e, what):
    """Whatever happened: the tree can be shut down, ticked, and shut down again."""
    for cmd, want in (("shutdown", EDITABLE), ("once", WAITING), ("stop", IDLE), ("shutdown", EDITABLE)):
        if cmd == "once":
            # a tick may take as long as it likes
            go = threading.Event()
            e.pause = (threading.Event(), go)
            threading.Timer(e.case.get("slow", 0), go.set).start()
        r = e.call(cmd)
        expect(r.success, "%s: afterwards %s fails: %s" % (what, cmd, r.error_message))
        expect_eq(e.m.state, want, "%s: state after a %s afterwards" % (what, cmd))


def run_stop_race(case, ctx):
    """A tick ends while a command to stop is being carried out, at every point of it that we can see."""
    reached, go = threading.Event(), threading.Event()
    who = []
    accesses = [0]
    released = []

    def on_access():
        if not who or who[0] != threading.get_ident():
            return
        accesses[0] += 1
        if accesses[0] == case["at"] and not go.is_set():
            # the command has just read, or is about to write, the state
            released.append(True)
            go.set()
            t = e.thread()
            if t is not None and t.is_alive():
                t.join(0.04)

    e = Exec({"trees": [case["tree"]], "ops": [], "freq": case["freq"], "slow": case["slow"]}, make=hooked(on_access))
    m = e.m
    what = "%s against the end of a %s" % (case["end"], case["start"])
    out = {}

    def end():
        who.append(threading.get_ident())
        return m.control_execution(C(command=CMD[case["end"]]), ControlTreeExecution.Response())

    try:
        e.pause = (reached, go)
        threads = [
            background(
                out,
                "start",
                lambda: m.control_execution(C(command=CMD[case["start"]]), ControlTreeExecution.Response()),
            )
        ]
        if not reached.wait(WAIT):
            raise Violation("%s: no leaf is ever ticked" % what)
        threads.append(background(out, "end", end))
        spent = 0.0
        while not go.is_set() and m.state != STOPPING and spent < 1:
            threads[-1].join(0.001)
            spent += 0.001
        if not case["at"]:
            # many periods go by before the tick ends
            threads[-1].join(case["slow"])
        else:
            # let the command get as far as it does while the leaf is busy
            go.wait(0.02)
        go.set()
        finish(threads, out, what)
        t = e.thread()
        if t is not None:
            t.join(WAIT)
        r = out["end"]
        want = IDLE if case["end"] == "stop" else EDITABLE
        expect_eq(m.state, want, "%s: state of the tree" % what)
        # with "until" the tree may have stopped on its own; what a stop answers then is not documented
        if case["start"] != "until" or case["end"] == "shutdown":
            expect(r.success, "%s fails: %s" % (what, r.error_message))
        for n in m.nodes.values():
            expect(
                n.state not in ("RUNNING", "ASSIGNED"),
                "%s: node %s is %s when the command has returned" % (what, n.name, n.state),
            )
        ticked = list(nodes.TICK_ORDER)
        expect(len(ticked) == len(set(ticked)), "%s: ticked on: %s" % (what, ticked))
        usable(e, what)
        ctx.tag("released_at_%d" % case["at"] if released else "released_while_waiting")
        ctx.nontrivial(True)
    finally:
        go.set()
        e.close()


def run_start_race(case, ctx):
    """Two commands to start while an edit is in progress."""
    e = Exec({"trees": [case["tree"]], "ops": [], "freq": case["freq"], "slow": case["slow"]})
    m = e.m
    entered, go = threading.Event(), threading.Event()
    busy = set()
    both = []

    def construction(name):
        if name == "gate" and not entered.is_set():
            entered.set()
            go.wait(WAIT)

    def tick(name):
        me = threading.get_ident()
        busy.add(me)
        if len(busy) > 1:
            both.append(name)
        threading.Event().wait(0.002)
        busy.discard(me)

    nodes.ON_CONSTRUCTION.append(construction)
    nodes.ON_TICK.append(tick)
    out = {}
    what = "%s and %s during an edit" % tuple(case["starts"])
    try:
        threads = [
            background(
                out,
                "the edit",
                lambda: m.add_node(
                    AddNode.Request(parent_node_id=e.root_id, node=leaf_msg("gate", "GateLeaf")), AddNode.Response()
                ),
            )
        ]
        if not entered.wait(WAIT):
            raise Violation("adding a node never constructs it")
        for i, cmd in enumerate(case["starts"]):
            threads.append(
                background(
                    out,
                    "%s (%d)" % (cmd, i),
                    lambda cmd=cmd: m.control_execution(C(command=CMD[cmd]), ControlTreeExecution.Response()),
                )
            )
            spent = 0
            while spent < case["ms"] and m.state == EDITABLE:
                threads[-1].join(0.001)
                spent += 1
        go.set()
        finish(threads, out, what)
        results = [r for k, r in out.items() if k != "the edit"]
        good = sum(1 for r in results if r.success)
        expect(good >= 1, "%s: neither starts: %s" % (what, [r.error_message for r in results]))
        for r in results:
            expect(r.success or r.error_message, "%s: one is refused without a reason" % what)
        if set(case["starts"]) == {"periodic"}:
            expect_eq(good, 1, "%s: commands that started ticking" % what)
            expect_eq(m.state, TICKING, "%s: state of the tree" % what)
        expect(not both, "%s: two threads tick the tree at the same time (%s)" % (what, both))
        usable(e, what)
        expect(not both, "%s: two threads tick the tree at the same time (%s)" % (what, both))
        ctx.tag("starts_%d" % good)
        ctx.nontrivial(True)
    finally:
        go.set()
        e.close()


def run_ending_race(case, ctx):
    """A command while the tick thread is interrupting the tree, which it does last."""
    e = Exec({"trees": [case["tree"]], "ops": [], "freq": case["freq"], "slow": 0})
    m = e.m
    root = e.real[e.root_name]
    reached, go = threading.Event(), threading.Event()
    untick = root._do_untick
    cmd = case["next"]
    what = "%s while %s ends" % (cmd, case["start"])
    out = {}
    threads = []

    def slow_untick():
        reached.set()
        go.wait(WAIT)
        return untick()

    try:
        r = e.call(case["start"])
        expect(r.success, "%s: it does not start: %s" % (what, r.error_message))
        if case["start"] == "periodic":
            e.settle(1)
        root._do_untick = slow_untick
        if case["start"] == "periodic":
            threads.append(background(out, "stop", lambda: e.call("stop")))
            if not reached.wait(WAIT):
                raise Violation("%s: a stop does not interrupt the tree" % what)
        else:
            with e.cond:
                e.permits += 50
                e.cond.notify_all()
            # the tree may have ended before we could slow it down
            spent = 0
            while not reached.is_set() and (m.state == TICKING or e.thread() and e.thread().is_alive()) and spent < 2000:
                reached.wait(0.001)
                spent += 1
        if m.state != IDLE:
            # it does not say that it is idle before it is
            go.set()
            finish(threads, out, what)
            if e.thread() is not None and e.thread().is_alive():
                e.thread().join(WAIT)
            ctx.tag("not_idle_yet")
        waited = []

        def give():
            waited.append(m.control_execution(C(command=CMD[cmd]), ControlTreeExecution.Response()))

        t = threading.Thread(target=give, daemon=True)
        t.start()
        t.join(0.004)
        early = bool(waited)
        root._do_untick = untick
        go.set()
        t.join(WAIT)
        finish(threads, out, what)
        if not waited:
            raise Violation("%s: it does not return" % what)
        r = waited[0]
        ctx.tag("early" if early else "waited")
        ctx.tag("next_" + cmd)
        expect(r.success, "%s: refused: %s" % (what, r.error_message))
        want = {"once": WAITING, "shutdown": EDITABLE, "reset": IDLE}.get(cmd)
        if want:
            expect_eq(m.state, want, "%s: state of the tree" % what)
        if cmd == "shutdown":
            for n in m.nodes.values():
                expect_eq(n.state, "SHUTDOWN", "%s: state of node %s" % (what, n.name))
        usable(e, what)
        ctx.nontrivial(reached.is_set())
    finally:
        go.set()
        e.close()


@st.composite
def command_race_cases(draw):
    case = {"tree": draw(race_cases())["tree"]}
    # longer than the four periods the commands wait at first
    case["freq"], case["slow"] = draw(st.sampled_from([(100.0, 0), (1000.0, 0.012)]))
    kind = draw(st.integers(0, 5))
    if kind == 0:
        case["race"] = "ending"
        case["start"] = draw(st.sampled_from(["until", "periodic"]))
        case["next"] = draw(st.sampled_from(["once", "periodic", "until", "reset", "shutdown"]))
        if case["start"] == "until":
            # one tick decides, and the first one is slow enough for us
            for s in case["tree"]["c"]:
                s["p"]["ticks"] = "R" + s["p"]["ticks"].replace("R", "S")
    elif kind < 5:
        case["race"] = "stop"
        case["start"] = draw(st.sampled_from(STARTS))
        case["end"] = draw(st.sampled_from(["stop", "shutdown"]))
        case["at"] = draw(st.integers(0, 4))
    else:
        case["race"] = "start"
        case["starts"] = draw(st.lists(st.sampled_from(STARTS), min_size=2, max_size=2))
        case["ms"] = draw(st.sampled_from([3, 10]))
    return case
