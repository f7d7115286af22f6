"""What a running tree reports: diagnostics of each call of a node, and log messages."""
import os
import sys

from . import bootstrap

bootstrap.boot()

import rclpy  # noqa: E402
import rclpy.impl.rcutils_logger as rcl  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from ros_bt_py.data_types import PathType  # noqa: E402
from ros_bt_py.ros_nodes.subtree import Subtree  # noqa: E402
from ros_bt_py_interfaces.msg import TreeState, TreeStructure  # noqa: E402
from ros_bt_py_interfaces.srv import ChangeTreeName, ControlTreeExecution, LoadTree, MoveNode, SetLogLevel, SetOptions  # noqa: E402
from std_srvs.srv import SetBool  # noqa: E402

from . import control, edit, execution, nodes, server, store  # noqa: E402
from .core import expect, expect_eq  # noqa: E402
from .execution import CMD  # noqa: E402

LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "fatal": 50}
METHOD = {"debug": "logdebug", "info": "loginfo", "warn": "logwarn", "error": "logerr", "fatal": "logfatal"}
PHASE = {"s": "SETUP", "t": "TICK", "u": "UNTICK", "r": "RESET", "x": "SHUTDOWN"}


class Logger(rcl.RcutilsLogger):
    """Stands for the log of ROS."""

    def __init__(self, name, records):
        self.name = name
        self.logger_sublogger_namepair = None
        self.records = records

    def __del__(self):
        pass

    def get_child(self, name):
        if not name:
            raise ValueError("Child logger name must not be empty.")
        return Logger(self.name + "." + name, self.records)

    def log(self, message, severity, **kwargs):
        self.records.append((self.name, int(severity), message))
        return True

    def debug(self, message, **kwargs):
        return self.log(message, 10)

    def info(self, message, **kwargs):
        return self.log(message, 20)

    def warning(self, message, **kwargs):
        return self.log(message, 30)

    warn = warning

    def error(self, message, **kwargs):
        return self.log(message, 40)

    def fatal(self, message, **kwargs):
        return self.log(message, 50)


class Server(server.Server):
    def __init__(self):
        self.ros_log = []
        super().__init__()

    def get_logger(self):
        return Logger("node", self.ros_log)


class Hook(list):
    def __init__(self, name, sink):
        self.name, self.sink = name, sink

    def append(self, letter):
        super().append(letter)
        self.sink(self.name, letter)


class Run:
    def __init__(self, case, top):
        nodes.clear()
        if not rclpy.ok():
            rclpy.init()
        self.case = case
        self.server = Server().start()
        self.events = []
        self.collecting = False
        self.toggled = False  # within the current command
        self.level = None
        self.toggle = None
        self.plan = []
        self.logged = []  # what has been logged: (level, text, internal, line, node)
        self.server.published("debug/node_diagnostics").listeners.append(self.diagnostic)
        self.log_topic = self.server.published("log_messages")
        self.got = []
        self.log_topic.listeners.append(self.got.append)
        self.build(top)

    def build(self, top):
        made = {}
        root = control.build_real(self.case["tree"], made)
        msgs = None
        if self.case["inner"]:
            inner = {}
            control.build_real(self.case["inner"], inner)
            path = os.path.join(top, "inner.yaml")
            with open(path, "w") as f:
                f.write("version: %s\n" % bootstrap.package_version())
                f.write(
                    server.rosidl_runtime_py.message_to_yaml(
                        TreeStructure(name="inner", nodes=[n.to_structure_msg() for n in inner.values()])
                    )
                )
            p = PathType(allow_dynamic=False)
            p.set_value("file://" + path).unwrap()
            sub = Subtree(name="sub", new_inputs={"subtree_path": p}, ros_node=self.server)
            root.add_child(sub).unwrap()
            made["sub"] = sub
        msgs = [n.to_structure_msg() for n in made.values()]
        r = self.server.request(
            "load_tree", LoadTree.Request(tree=TreeStructure(name=self.case["name"], nodes=msgs))
        )
        expect(r.success, "the tree is not loaded: %s" % r.error_message)
        self.m = self.server.tree_manager
        self.place = {}  # node id -> (node, tree id, tree name, path)
        self.by_name = {}
        self.collect_all()
        for name, script in nodes.SCRIPTS.items():
            script.log = Hook(name, self.called)
        nodes.ON_TICK.append(self.in_tick)

    def collect_all(self):
        self.place.clear()
        self.by_name.clear()
        self.collect(self.m)
        for n in list(self.by_name.values()):
            if isinstance(n, Subtree):
                self.collect(n.manager)

    def edit(self, step, op):
        """Nodes get another place or name; what is reported from then on has to follow."""
        if self.m.state != TreeState.EDITABLE:
            return
        own = sorted(self.m.nodes.values(), key=lambda n: str(n.name))
        plain = [n for n in own if type(n).__name__ in control.ORDERED]
        if op[0] == "move":
            moved = [n for n in own if not n.children and n.parent in plain]
            if not moved:
                return
            n = moved[op[1] % len(moved)]
            targets = [p for p in plain if p is not n]
            r = self.server.request(
                "move_node",
                MoveNode.Request(
                    node_id=str(n.node_id),
                    parent_node_id=str(targets[op[2] % len(targets)].node_id),
                    new_child_index=op[3],
                ),
            )
        elif op[0] == "tree name":
            r = self.server.request("change_tree_name", ChangeTreeName.Request(name=op[1]))
        else:
            if not plain:
                return
            n = plain[op[1] % len(plain)]
            if op[2] in self.by_name:
                return
            r = self.server.request(
                "set_options", SetOptions.Request(node_id=str(n.node_id), rename_node=True, new_name=op[2])
            )
        expect(r.success, "step %s is refused: %s" % (step, r.error_message))
        self.check_logs(step)
        self.collect_all()
        self.edits += 1

    def collect(self, manager):
        for n in manager.nodes.values():
            path, p = [], n
            while p is not None:
                path.insert(0, p.name)
                p = p.parent
            self.place[str(n.node_id)] = (n, str(manager.tree_id.unwrap()), manager.name, path)
            self.by_name[n.name] = n

    # -- what happens
    def diagnostic(self, msg):
        self.events.append(("msg", {v.key: v.value for v in msg.values}, msg.name))

    def called(self, name, letter):
        self.events.append(("call", name, letter))

    def in_tick(self, name):
        if self.toggle is not None:
            on, self.toggle = self.toggle, None
            self.collect_diagnostics(on)
        node = self.by_name[name]
        todo, self.plan = self.plan, []
        for how, text, internal in todo:
            f = getattr(node, METHOD[how])
            line = sys._getframe().f_lineno + 1
            f(text, internal=internal) if internal else f(text)
            self.logged.append((LEVELS[how], text, internal, line, node))

    def collect_diagnostics(self, on):
        r = self.server.request("set_collect_node_diagnostics", SetBool.Request(data=on))
        expect(r.success, "node diagnostics can't be switched")
        self.toggled = True
        self.collecting = on

    def set_level(self, level):
        self.server.request("set_min_log_level", SetLogLevel.Request(min_log_level=level))
        self.level = level

    # -- judgement
    def check_diagnostics(self, step, was):
        """One command has been carried out."""
        events, self.events = self.events, []
        if self.toggled:
            for e in events:
                if e[0] == "msg":
                    self.fields(step, e)
            return
        if not was:
            expect(not any(e[0] == "msg" for e in events), "step %s: diagnostics although they are off" % step)
            return
        stack = []
        pairs = {}
        for e in events:
            if e[0] == "call":
                want = (str(self.by_name[e[1]].node_id), PHASE[e[2]])
                expect(
                    bool(stack) and stack[-1] == want,
                    lambda: "step %s: %s of %s is not reported before (open: %s)" % (step, PHASE[e[2]], e[1], stack),
                )
                self.calls += 1
                continue
            node, phase, when = self.fields(step, e)
            nid = str(node.node_id)
            if when == "PRE":
                if node.parent is not None and stack:
                    above = self.place[stack[-1][0]][0]
                    expect(
                        above is node.parent or above is node,
                        "step %s: %s of %s reported within a call of %s" % (step, phase, node.name, above.name),
                    )
                stack.append((nid, phase))
            else:
                expect(
                    bool(stack) and stack[-1] == (nid, phase),
                    lambda: "step %s: end of %s of %s is reported, open: %s" % (step, phase, node.name, stack),
                )
                stack.pop()
                pairs[nid, phase] = pairs.get((nid, phase), 0) + 1
        expect_eq(stack, [], "step %s: calls whose end is not reported" % step)
        return pairs

    def fields(self, step, e):
        _, v, name = e
        at = "step %s: diagnostics %s" % (step, v)
        expect(v.get("node_id") in self.place, at + ": unknown node")
        node, _, _, path = self.place[v["node_id"]]
        expect_eq(name, node.name, at + ": name")
        expect_eq(v.get("node_class"), type(node).__name__, at + ": class")
        expect_eq(v.get("module"), type(node).__module__, at + ": module")
        expect_eq(v.get("path"), str(path), at + ": path")
        expect(bool(v.get("stamp")), at + ": no time")
        when, _, phase = v.get("state", "").partition("_")
        expect(when in ("PRE", "POST") and phase in PHASE.values(), at + ": state")
        return node, phase, when

    def check_logs(self, step):
        got, self.got[:] = list(self.got), []
        ros, self.server.ros_log[:] = list(self.server.ros_log), []
        logged, self.logged = self.logged, []
        for g in got:
            expect(g.level >= self.level, "step %s: message of level %d at level %d: %s" % (step, g.level, self.level, g.msg[:200]))
            expect(g.tree_id in {p[1] for p in self.place.values()}, "step %s: log message of tree %r" % (step, g.tree_id))
        mine = [g for g in got if g.msg.startswith("#")]
        want = [w for w in logged if w[0] >= self.level and not w[2]]
        expect_eq([(g.level, g.msg) for g in mine], [(w[0], w[1]) for w in want], "step %s: log messages at level %s" % (step, self.level))
        for g, (level, text, _, line, node) in zip(mine, want):
            _, tid, tname, _ = self.place[str(node.node_id)]
            at = "step %s: log message %r" % (step, text)
            expect_eq(g.node_id, str(node.node_id), at + ": node id")
            expect_eq(g.node_name, node.name, at + ": node name")
            expect_eq(g.tree_id, tid, at + ": tree id")
            expect_eq(g.tree_name, tname, at + ": tree name")
            expect_eq(os.path.realpath(g.file), os.path.realpath(__file__), at + ": file")
            expect_eq(g.function, "in_tick", at + ": function")
            expect_eq(g.line, line, at + ": line")
            expect_eq(g.stamp.sec * 10**9 + g.stamp.nanosec, self.server.clock.ns, at + ": time")
            self.logs += 1
        mine = [(r[1], r[2]) for r in ros if r[2].startswith("#")]
        want = [(w[0], w[1]) for w in logged if w[0] >= self.level]
        expect_eq(mine, want, "step %s: messages in the log of ROS at level %s" % (step, self.level))
        for (name, _, text), w in zip([r for r in ros if r[2].startswith("#")], [w for w in logged if w[0] >= self.level]):
            _, tid, _, _ = self.place[str(w[4].node_id)]
            expect(name.startswith("node.") and tid in name and str(w[4].node_id) in name, "step %s: logger %s" % (step, name))

    def run(self, ctx):
        self.calls = self.logs = self.edits = 0
        self.set_level(self.case["level"])
        for i, op in enumerate(self.case["ops"]):
            step = "%d %s" % (i, op)
            if isinstance(op, list):
                if op[0] == "collect":
                    self.collect_diagnostics(op[1])
                elif op[0] == "level":
                    self.set_level(op[1])
                elif op[0] in ("move", "rename", "tree name"):
                    self.edit(step, op)
                elif op[0] == "toggle":
                    self.toggle = op[1]
                else:
                    self.plan = [[how, "#%d.%d %s" % (i, j, t), internal] for j, (how, t, internal) in enumerate(op[1])]
                continue
            self.server.clock.advance(1.5)
            self.toggled = False
            was = self.collecting
            out = Out()
            with out:
                r = self.server.request(
                    "control_execution", ControlTreeExecution.Request(command=CMD[{"t": "once", "u": "stop", "r": "reset", "x": "shutdown"}[op]])
                )
            expect_eq(out.text, "", "step %s: printed" % step)
            pairs = self.check_diagnostics(step, was)
            self.check_logs(step)
            if pairs:
                ctx.tag("bracketed")
            if self.toggled:
                ctx.tag("switched within a tick")
            if not self.case["errors"]:
                expect(r.success or op != "t", "step %s: fails: %s" % (step, r.error_message))
                if op == "t" and pairs is not None:
                    root = str(self.m.find_root().unwrap().node_id)
                    expect_eq(pairs.get((root, "TICK")), 1, "step %s: reported ticks of the root" % step)
            expect_eq(
                self.m.state == execution.ERROR and not self.case["errors"], False, "step %s: tree in an error" % step
            )


class Out:
    """What is printed meanwhile."""

    def __enter__(self):
        import io

        self.old, sys.stdout = sys.stdout, io.StringIO()

    def __exit__(self, *exc):
        self.text = sys.stdout.getvalue()
        sys.stdout = self.old


def run(case, ctx):
    with store.Scratch() as top:
        try:
            r = Run(case, top)
            r.run(ctx)
        finally:
            edit.quiet()
        if r.edits:
            ctx.tag("edited")
        if r.logs:
            ctx.tag("logged")
        ctx.nontrivial(r.calls >= 4 or r.logs >= 2)


def possible(tree):
    """Parallel nodes that can be done."""
    for s in control.walk(tree):
        if "needed" in s.get("p", {}):
            s["p"]["needed"] = min(s["p"]["needed"], max(1, len(s["c"])))


@st.composite
def cases(draw):
    errors = draw(st.sampled_from([False, False, True]))
    kinds = execution.KINDS
    tree = draw(control.tree_spec(control.ORDERED + ("Parallel",), kinds, 3, errors=errors))
    possible(tree)
    case = {"tree": tree, "inner": None, "errors": errors, "name": draw(st.sampled_from(["tree", "", "a b", "x.yaml"]))}
    if tree["k"] != "Parallel" and draw(st.integers(0, 2)) == 0:
        inner = draw(control.tree_spec(control.ORDERED, kinds, 3, errors=errors))
        for s in control.walk(inner):
            s["n"] = "i" + s["n"]
        possible(inner)
        case["inner"] = inner
    for s in [s for t in (tree, case["inner"]) if t for s in control.walk(t)]:
        if "needed" in s.get("p", {}) and not s["c"]:
            case["errors"] = True
    case["level"] = draw(st.sampled_from([10, 20, 20, 30, 40, 50, 60, 0, 25]))
    ops = []
    if draw(st.integers(0, 3)):
        ops.append(["collect", True])
    for _ in range(draw(st.integers(3, 14))):
        c = draw(st.sampled_from(["t"] * 6 + ["log"] * 6 + ["u", "r", "x", "x", "collect", "level", "toggle"]))
        if c == "log":
            msgs = draw(
                st.lists(
                    st.tuples(
                        st.sampled_from(sorted(LEVELS)),
                        st.sampled_from(["hello", "", "a\nb", "\u00e4", "%s {x}"]),
                        st.sampled_from([False, False, False, True]),
                    ).map(list),
                    min_size=1,
                    max_size=4,
                )
            )
            ops += [["log", msgs], "t"]
        elif c in ("collect", "toggle"):
            ops.append([c, draw(st.booleans())])
            if c == "toggle":
                ops.append("t")
        elif c == "level":
            ops.append(["level", draw(st.sampled_from([0, 10, 20, 30, 40, 50, 100]))])
        else:
            ops.append(c)
            if c == "x":
                for _ in range(draw(st.integers(0, 2))):
                    ops.append(
                        draw(
                            st.one_of(
                                st.tuples(st.just("move"), st.integers(0, 5), st.integers(0, 3), st.integers(0, 3)).map(list),
                                st.tuples(st.just("rename"), st.integers(0, 5), st.sampled_from(["new", "new 2"])).map(list),
                                st.tuples(st.just("tree name"), st.sampled_from(["tree 2", "t", "x.yaml"])).map(list),
                            )
                        )
                    )
    case["ops"] = ops
    return case
