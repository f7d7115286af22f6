"""The node as a whole: its services, topics, parameters and timers.

`Server` is the real TreeNode on the stand-in for ROS, started as its main
function starts it.  `Via` looks like a tree manager, but every request goes to the
service of that name and everything published comes from the topics, so that the
harnesses for tree managers can be run on the node.
"""
import copy
import math
import os
import threading
import types

from . import bootstrap

bootstrap.boot()

import rosidl_runtime_py  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rclpy.qos import QoSDurabilityPolicy as Durability  # noqa: E402
from diagnostic_msgs.msg import DiagnosticStatus  # noqa: E402
from ros_bt_py import tree_node  # noqa: E402
from ros_bt_py.parameters import tree_node_parameters  # noqa: E402
from ros_bt_py_interfaces import msg as bt_msg  # noqa: E402
from ros_bt_py_interfaces import srv as bt_srv  # noqa: E402
from std_srvs.srv import SetBool  # noqa: E402

from . import control, edit, execution, model, nodes, store  # noqa: E402
from .execution import CMD  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402
from .fakeros import FakeNode  # noqa: E402

# method of the tree manager -> name and type of the service
TREE = {
    "add_node": ("add_node", bt_srv.AddNode),
    "add_node_at_index": ("add_node_at_index", bt_srv.AddNodeAtIndex),
    "remove_node": ("remove_node", bt_srv.RemoveNode),
    "morph_node": ("morph_node", bt_srv.MorphNode),
    "wire_data": ("wire_data", bt_srv.WireNodeData),
    "unwire_data": ("unwire_data", bt_srv.WireNodeData),
    "control_execution": ("control_tree_execution", bt_srv.ControlTreeExecution),
    "get_subtree": ("get_subtree", bt_srv.GetSubtree),
    "generate_subtree": ("generate_subtree", bt_srv.GenerateSubtree),
    "set_publish_subtrees": ("debug/set_publish_subtrees", SetBool),
    "set_publish_data": ("debug/set_publish_data", SetBool),
    "set_options": ("set_options", bt_srv.SetOptions),
    "move_node": ("move_node", bt_srv.MoveNode),
    "replace_node": ("replace_node", bt_srv.ReplaceNode),
    "load_tree": ("load_tree", bt_srv.LoadTree),
    "load_tree_from_path": ("load_tree_from_path", bt_srv.LoadTreeFromPath),
    "clear": ("clear", bt_srv.ClearTree),
    "reload_tree": ("reload", bt_srv.ReloadTree),
    "change_tree_name": ("change_tree_name", bt_srv.ChangeTreeName),
    "set_collect_node_diagnostics": ("debug/set_collect_node_diagnostics", SetBool),
    "set_min_log_level": ("set_log_level", bt_srv.SetLogLevel),
    "save_tree_to_path": ("save_tree", bt_srv.SaveTree),
    "get_storage_folders": ("get_storage_folders", bt_srv.GetStorageFolders),
    "get_folder_structure": ("get_folder_structure", bt_srv.GetFolderStructure),
    "get_installed_package_structure": ("get_package_structure", bt_srv.GetPackageStructure),
    "get_available_nodes": ("get_available_nodes", bt_srv.GetAvailableNodes),
}
TOPICS = {
    "tree_structure_list": bt_msg.TreeStructureList,
    "tree_state_list": bt_msg.TreeStateList,
    "tree_data_list": bt_msg.TreeDataList,
    "packages": bt_msg.Packages,
    "message_types": bt_msg.MessageTypes,
}
OK, WARN, ERROR = DiagnosticStatus.OK, DiagnosticStatus.WARN, DiagnosticStatus.ERROR


class Timer:
    def __init__(self, period, callback):
        self.period, self.callback = period, callback
        self.alive = True

    def cancel(self):
        self.alive = False

    def destroy(self):
        self.alive = False


class Topic:
    """A publisher; `last` is what a subscriber that comes now gets to see."""

    def __init__(self, node, msg_type, name, qos):
        self.msg_type, self.name, self.qos = msg_type, name, qos
        self.last = None
        self.n = 0
        self.listeners = []
        self.subscribers = 0
        self.node = node

    def publish(self, msg):
        if not isinstance(msg, self.msg_type):
            raise TypeError("%s instead of %s" % (type(msg), self.msg_type))
        self.last = copy.deepcopy(msg)
        self.n += 1
        for f in self.listeners:
            f(self.last)

    def get_subscription_count(self):
        return self.subscribers

    def late(self):
        durable = not isinstance(self.qos, int) and self.qos.durability == Durability.TRANSIENT_LOCAL
        return self.last if durable else None


class Service:
    def __init__(self, srv_type, name, callback):
        self.srv_type, self.name, self.callback = srv_type, name, callback


def clean(name):
    """Names are relative to the node."""
    return name[2:] if name.startswith("~/") else name


class Server(FakeNode, tree_node.TreeNode):
    def __init__(self):
        FakeNode.__init__(self)
        self.timers_made, self.topics_made, self.services_made = [], {}, {}

    def create_timer(self, period, callback, *a, **k):
        t = Timer(period, callback)
        self.timers_made.append(t)
        return t

    def create_publisher(self, msg_type, topic, qos_profile=10, **k):
        t = Topic(self, msg_type, clean(topic), qos_profile)
        self.topics_made[t.name] = t
        return t

    def create_service(self, srv_type, srv_name, callback=None, **k):
        s = Service(srv_type, clean(srv_name), callback)
        self.services_made[s.name] = s
        return s

    def start(self, params=None):
        """As the main function does."""
        params = params or parameters()
        self.init_publisher()
        self.init_package_manager(params=params)
        self.init_tree_manager(params=params)
        self.load_default_tree(params=params)
        self.init_channels_publisher()
        return self

    def request(self, method, request):
        name, srv_type = TREE[method]
        s = self.services_made.get(name)
        expect(s is not None, "there is no service %s" % name)
        expect(s.srv_type is srv_type, "service %s has type %s" % (name, s.srv_type))
        expect(isinstance(request, srv_type.Request), "HARNESS: %s" % name)
        r = s.callback(request, srv_type.Response())
        expect(isinstance(r, srv_type.Response), "service %s answers with %r" % (name, type(r)))
        return r

    def published(self, name):
        t = self.topics_made.get(name)
        expect(t is not None, "there is no topic %s" % name)
        return t


def parameters(folders=(), modules=(), diagnostics=1.0, load=False, permissive=False, path="", command=2, frequency=10.0):
    p = tree_node_parameters.Params()
    p.node_modules = list(modules)
    p.tree_storage_paths = list(folders)
    p.show_traceback_on_exception = False
    p.diagnostics_frequency_hz = diagnostics
    p.default_tree = types.SimpleNamespace(
        load_default_tree=load,
        load_default_tree_permissive=permissive,
        tick_frequency_hz=frequency,
        tree_path=path,
        control_command=command,
    )
    return p


LISTENS = {
    "publish_tree_structure_callback": "tree_structure_list",
    "publish_tree_state_callback": "tree_state_list",
    "publish_tree_data_callback": "tree_data_list",
    "publish_tick_frequency_callback": "debug/tick_frequency",
    "publish_diagnostic_callback": "/diagnostics",
}


class Via:
    """A tree manager behind the services of a node."""

    def __init__(self, ros_node, tick_frequency_hz=10.0, folders=(), **listeners):
        self.__dict__["server"] = ros_node
        ros_node.start(parameters(folders=folders))
        for k, f in listeners.items():
            if f is not None:
                ros_node.published(LISTENS[k]).listeners.append(f)

    def __getattr__(self, name):
        if name in TREE:
            return lambda request, response: self.server.request(name, request)
        return getattr(self.server.tree_manager, name)

    def __setattr__(self, name, value):
        setattr(self.server.tree_manager, name, value)


def make(**kw):
    kw["ros_node"] = kw["ros_node"] if isinstance(kw["ros_node"], Server) else Server()
    return Via(**kw)


# ------------------------------------------------------------------ topics
def own(server, topic, field, where):
    """The part about the tree itself of what a late subscriber sees."""
    last = server.published(topic).late()
    expect(last is not None, "%s: a new subscriber of %s sees nothing" % (where, topic))
    tid = str(server.tree_manager.tree_id.unwrap())
    mine = [t for t in getattr(last, field) if t.tree_id == tid]
    expect_eq(len(mine), 1, "%s: messages about the tree itself on %s" % (where, topic))
    return mine[0]


def check_topics(server, where, states=True):
    """Structure and state on the topics are those of the tree."""
    m = server.tree_manager
    s = own(server, "tree_structure_list", "tree_structures", where)
    want = m.structure_to_msg()
    got, want_c = edit.canonical(s), edit.canonical(want)
    expect(got == want_c, lambda: "%s: published structure: %s" % (where, edit.diff(want_c, got)))
    expect_eq(s.name, m.name, where + ": published name")
    expect_eq(s.root_id, want.root_id, where + ": published root")
    expect_eq(len(s.nodes), len(m.nodes), where + ": number of published nodes")
    st = own(server, "tree_state_list", "tree_states", where)
    expect_eq(st.state, m.state, where + ": published state of the tree")
    if not states:
        return
    expect_eq(
        {n.node_id: n.state for n in st.node_states},
        {str(n.node_id): str(n.state) for n in m.nodes.values()},
        where + ": published states of nodes",
    )


def fire(server, period=None):
    for t in server.timers_made:
        if t.alive and (period is None or math.isclose(t.period, period)):
            t.callback()


LEVELS = {
    execution.TICKING: OK,
    execution.EDITABLE: WARN,
    execution.IDLE: WARN,
    execution.WAITING: WARN,
    execution.STOPPING: WARN,
    execution.ERROR: ERROR,
}


def check_diagnostics(server, where, name=None, period=1.0):
    t = server.published("/diagnostics")
    before = t.n
    fire(server, period)
    expect(t.n > before, "%s: no diagnostics were published" % where)
    expect_eq(len(t.last.status), 1, where + ": number of diagnostics")
    s = t.last.status[0]
    expect_eq(s.level, LEVELS[server.tree_manager.state], where + ": level of the diagnostics in " + server.tree_manager.state)
    expect(bool(s.message), where + ": diagnostics without a message")
    if name is not None:
        expect_eq(s.name, name, where + ": name in the diagnostics")


# ------------------------------------------------------------------- edits
def run_edits(case, ctx):
    server = Server()
    h = edit.Harness(make=lambda **kw: make(ros_node=server, **{k: v for k, v in kw.items() if k != "ros_node"}))
    changed = 0
    check_topics(server, "after the start")
    for i, op in enumerate(case["ops"]):
        if h.step(op, ctx):
            changed += op[0] not in ("snapshot", "subtree", "generate")
        where = "after %s" % (op,)
        check_topics(server, where)
        if i % 5 == 0 or op[0] == "rename":
            name = None
            if h.tree.name:
                name = os.path.splitext(h.tree.name)[0]
            elif op[0] == "rename" and len(h.tree.roots()) == 1:
                name = h.tree.nodes[h.tree.roots()[0]].spec["n"]
            check_diagnostics(server, where, name)
    ctx.nontrivial(changed >= 4)


# --------------------------------------------------------------- execution
def run_execution(case, ctx):
    server = Server()
    e = execution.Exec(case, node=server, make=lambda **kw: make(**kw))
    compare = e.compare

    def compare_more(step):
        compare(step)
        # a tree that stopped by itself shows its result
        check_topics(server, "step %s" % step, not (e.until and e.state == execution.IDLE))
        check_diagnostics(server, "step %s" % step, "tree" if case["trees"] else None)

    e.compare = compare_more
    e.meanwhile = lambda step: check_diagnostics(server, "step %s, while stopping" % step, "tree" if case["trees"] else None)
    e.run(ctx)
    ctx.nontrivial(e.commands >= 2 and len(nodes.TICK_ORDER) >= 2)


# ------------------------------------------------------- data and subtrees
class Data:
    """Data is published exactly while that is switched on."""

    def __init__(self, **kw):
        self.server = Server()
        self.via = make(**dict(kw, ros_node=self.server))

    def __getattr__(self, name):
        return getattr(self.via, name)

    def control_execution(self, request, response):
        r = self.via.control_execution(request, response)
        if r.success and request.command == execution.CMD["once"]:
            check_topics(self.server, "after a tick")
            got = own(self.server, "tree_data_list", "tree_data", "after a tick")
            want = self.server.tree_manager.data_to_msg()
            expect_eq(str(got.wiring_data), str(want.wiring_data), "published data after a tick")
        return r

    def off(self):
        r = self.server.request("set_publish_data", SetBool.Request(data=False))
        expect(r.success, "publishing of data can't be switched off")
        topic = self.server.published("tree_data_list")
        expect_eq(list(topic.late().tree_data), [], "data on the topic after switching it off")
        n = topic.n
        self.via.control_execution(bt_srv.ControlTreeExecution.Request(command=execution.CMD["once"]), None)
        expect_eq(list(topic.late().tree_data), [], "data published while that is switched off")
        return n


def run_data(case, ctx):
    from . import flow

    made = []

    def maker(**kw):
        made.append(Data(**kw))
        return made[-1]

    flow.run_managed(case, ctx, make=maker)
    made[-1].off()


def run_subtrees(case, ctx):
    from . import subtree

    made = []

    def maker(**kw):
        made.append(Server())
        return make(**dict(kw, ros_node=made[-1]))

    subtree.run_managed(case, ctx, make=maker)
    check_topics(made[-1], "in the end")


def run_subtree_edits(case, ctx):
    from . import subedit

    made = []

    def maker(**kw):
        made.append(Server())
        return make(**dict(kw, ros_node=made[-1]))

    subedit.run(case, ctx, make=maker)
    check_topics(made[-1], "in the end")


# ------------------------------------------------------------------- files
def packages(folders):
    return Via(Server(), folders=folders)


def run_files(case, ctx):
    store.run_roundtrip(case, ctx, make=make, packages=packages)


def run_store(case, ctx):
    store.run_store(case, ctx, make=make, packages=packages)


# ------------------------------------------------------------------- start
COMMANDS = ["nothing", "once", "periodic", "until", "stop", "reset", "shutdown", "setup_shutdown"]


class Start(execution.Exec):
    """The first command is given by the parameters, with a tree from a file,
    the last one by shutting down the node."""

    def __init__(self, case, top):
        self.top = top
        self.starting = self.ending = False
        self.server = Server()
        via = Via.__new__(Via)
        via.__dict__["server"] = self.server
        super().__init__(case, node=self.server, make=lambda **kw: via)

    def load(self):
        made = {}
        for spec in self.trees:
            control.build_real(spec, made)
        self.msg = bt_msg.TreeStructure(
            name=self.case["name"],
            nodes=[n.to_structure_msg() for n in made.values()],
            tick_frequency_hz=self.freq,
        )
        path = os.path.join(self.top, "default.yaml")
        with open(path, "w") as f:
            f.write("version: %s\n" % bootstrap.package_version())
            f.write(rosidl_runtime_py.message_to_yaml(self.msg))
        self.path = {
            "good": "file://" + path,
            "missing": "file://" + path + "x",
            "broken": "file://" + self.top,
            "empty path": "",
        }[self.case["file"]]
        self.good = self.case["load"] and self.case["file"] == "good" and bool(made)
        if not self.good:
            self.trees, self.mtree, self.real, self.ids, self.root_id = [], None, {}, [], ""
        else:
            self.mtree = model.Tree(self.trees[0])
            self.root_name = self.trees[0]["n"]

    def start(self):
        self.server.start(
            parameters(
                diagnostics=self.case["diagnostics"],
                load=self.case["load"],
                permissive=self.case["permissive"],
                path=self.path,
                command=CMD[self.case["command"]],
                frequency=self.case["frequency"],
            )
        )

    def started(self):
        for k, f in (("tree_state_list", self._state), ("debug/tick_frequency", self._freq)):
            self.server.published(k).listeners.append(f)
        self.real = {n.name: n for n in self.m.nodes.values()}
        if self.good:
            self.ids = [str(n.node_id) for n in self.real.values()]
            self.root_id = str(self.real[self.root_name].node_id)

    def call(self, cmd, **kw):
        if not (self.starting or self.ending):
            return super().call(cmd, **kw)
        box = []

        def work():
            try:
                if self.starting:
                    self.start()
                else:
                    self.server.shutdown()
            except BaseException as exc:  # handed on below
                box.append(exc)

        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join(execution.WAIT)
        if t.is_alive():
            raise Violation("the node does not %s" % ("start" if self.starting else "shut down"))
        if box:
            raise box[0]
        if self.starting:
            self.started()
        return types.SimpleNamespace(success=True, error_message="-", tree_state="")

    def success(self, step, r, want):
        if not (self.starting or self.ending):
            super().success(step, r, want)

    def compare(self, step):
        super().compare(step)
        check_topics(self.server, "step %s" % step, not (self.until and self.state == execution.IDLE))
        name = None
        if self.good:
            name = self.case["name"] or self.root_name
        check_diagnostics(self.server, "step %s" % step, name, 1 / self.case["diagnostics"])

    def run(self, ctx):
        self.refused = self.commands = 0
        self.over_forest = False
        c = self.case["command"]
        op = [c, self.case["frequency"]] if c in ("periodic", "until") else [c]
        try:
            self.starting = True
            if self.good:
                self.op_start(op, ctx)
            else:
                self.call("nothing")
                self.starting = False
                expect_eq(len(self.m.nodes), 0, "nodes without a default tree")
                expect_eq(nodes.TICK_ORDER, [], "ticks without a default tree")
                self.compare("start")
            ctx.tag("start " + (c if self.good else "without"))
            for i, op in enumerate(self.case["ops"]):
                self.op("%d %s" % (i, op), op, ctx)
            self.ending = True
            if self.alive or self.state == execution.WAITING:
                self.command("the end", "shutdown", ["shutdown"], ctx)
                ctx.tag("shut down")
            else:
                self.call("shutdown")
                self.compare("the end")
        finally:
            self.close()

    def op_start(self, op, ctx):
        compare, self.compare = self.compare, lambda step: None
        try:
            self.command("start", op[0], op, ctx)
        finally:
            del self.compare
        self.starting = False
        self.compare("start")
        got = edit.canonical(self.m.structure_to_msg())
        want = edit.canonical(self.msg)
        expect(got == want, lambda: "the default tree: " + edit.diff(want, got))


def run_start(case, ctx):
    with store.Scratch() as top:
        e = Start(case, top)
        e.run(ctx)
        ctx.nontrivial(e.good and len(nodes.TICK_ORDER) >= 2)


@st.composite
def start_cases(draw):
    case = draw(execution.cases("control"))
    case["trees"] = case["trees"][:1]
    case["ops"] = [o for o in case["ops"] if o[0] != "edit"][: draw(st.integers(0, 6))]
    case["load"] = draw(st.sampled_from([True] * 5 + [False]))
    case["permissive"] = draw(st.booleans())
    case["file"] = draw(st.sampled_from(["good"] * 9 + ["missing", "broken", "empty path"]))
    case["command"] = draw(st.sampled_from(COMMANDS + ["once", "periodic", "until"]))
    case["frequency"] = draw(st.sampled_from([10.0, 1.0, 30.0]))
    case["diagnostics"] = draw(st.sampled_from([1.0, 0.5, 4.0]))
    case["name"] = draw(st.sampled_from(["tree", "a tree", "", "t\u00e4"]))
    return case
