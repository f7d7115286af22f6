"""What clients are told: node classes, interfaces, packages, channels."""
import copy
import importlib
import itertools
import json
import os
import shutil
import sys
import tempfile
import uuid

from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402
from rosidl_runtime_py.utilities import get_message  # noqa: E402
from ros_bt_py.helpers import BTNodeState  # noqa: E402
from ros_bt_py.node import Decorator, FlowControl, Leaf, Node, define_bt_node  # noqa: E402
from ros_bt_py.package_manager import PackageManager  # noqa: E402
from ros_bt_py.vendor.result import Ok  # noqa: E402
from ros_bt_py_interfaces import msg as bt_msg  # noqa: E402
from ros_bt_py_interfaces import srv as bt_srv  # noqa: E402

from . import nodeio, ros, server, types  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402
from .fakeros import FakeNode  # noqa: E402

COUNTER = itertools.count()
SPECS = {}


# ------------------------------------------------------------- node classes
def hooks():
    def plain(state):
        return lambda self: Ok(state)

    return {
        "_do_setup": plain(BTNodeState.IDLE),
        "_do_tick": plain(BTNodeState.SUCCEEDED),
        "_do_untick": plain(BTNodeState.IDLE),
        "_do_reset": plain(BTNodeState.IDLE),
        "_do_shutdown": plain(BTNodeState.SHUTDOWN),
    }


def config_of(c):
    conf = nodeio.make_config(c)
    if c.get("tags") is not None:
        conf.tags = list(c["tags"])
    return conf


def define(module, key):
    """Called by the generated modules."""
    for name, c in SPECS[key]["classes"]:
        body = dict(hooks(), __module__=module, __qualname__=name)
        if c["doc"] is not None:
            body["__doc__"] = c["doc"]
        base = {0: Leaf, 1: Decorator, None: FlowControl}.get(c["max"], Node)
        define_bt_node(config_of(c))(type(name, (base,), body))


SOURCE = {
    "good": "from vt import capabilities\ncapabilities.define(__name__, %r)\n",
    "plain": "x = 1\n",
    "empty": "",
    "raises": "raise RuntimeError('no')\n",
    "raises_odd": "class Odd(Exception):\n    def __str__(self):\n        return 5\nraise KeyError(('a', 1))\n",
    "syntax": "def (\n",
    "missing_import": "import no_such_module_anywhere\n",
    "name_error": "undefined_name\n",
    "null": "\0",
}
BAD = ["raises", "raises_odd", "syntax", "missing_import", "name_error", "null"]
ODD = ["no.such.module", "..", ".", "a b", "vt..core", ".vt", "os.", "os.path.nothing", "\u00e4\u00f6", "a\0b", "/tmp", "x" * 500, "1", "-", "os path"]


class Folder:
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix="vt-cap-")
        return self.top

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)


def ask(via, modules):
    req = bt_srv.GetAvailableNodes.Request(node_modules=modules)
    if via is not None:
        return via.request("get_available_nodes", req)
    return PackageManager.get_available_nodes(req, bt_srv.GetAvailableNodes.Response())


def entries(r, what):
    out = {}
    for n in r.available_nodes:
        key = (n.module, n.node_class)
        expect(key not in out, "%s: %s is listed twice" % (what, key))
        out[key] = n
    return out


def io_of(config, part, item, k):
    c = getattr(config, part)[k]
    return c.serialize_type(), c.serialize_value() if part == "inputs" else ""


def cleandoc(doc):
    """What a reader of the source sees, by the conventions for documentation."""
    if doc is None:
        return None
    lines = doc.expandtabs().split("\n")
    rest = [len(x) - len(x.lstrip(" ")) for x in lines[1:] if x.strip(" ")]
    margin = min(rest) if rest else 0
    lines = [lines[0].lstrip(" ")] + [x[margin:] for x in lines[1:]]
    while lines and not lines[-1]:
        lines.pop()
    while lines and not lines[0]:
        lines.pop(0)
    return "\n".join(lines)


def check_entry(n, c, what):
    expect_eq(n.max_children, -1 if c["max"] is None else c["max"], what + ": max_children")
    expect_eq(list(n.tags), c.get("tags") or [], what + ": tags")
    doc = cleandoc(c["doc"])
    if doc is not None:
        expect_eq(n.doc, doc, what + ": documentation")
    config = nodeio.make_config(c)
    for part in ("inputs", "outputs"):
        listed = getattr(n, part)
        expect_eq(sorted(io.key for io in listed), sorted(k for k, _ in c[part]), "%s: %s" % (what, part))
        for io in listed:
            item = dict(c[part])[io.key]
            t, v = io_of(config, part, item, io.key)
            expect_eq(str(io.type), str(t), "%s: type of %s" % (what, io.key))
            expect_eq(io.serialized_value, v, "%s: default of %s" % (what, io.key))


def run_nodes(case, ctx):
    # classes that belong to this process, as other cases left them
    before = entries(ask(None, []), "before")
    via = server.Server().start() if case["service"] else None
    with Folder() as top:
        sys.path.insert(0, top)
        try:
            names, specs = [], {}
            for m in case["modules"]:
                name = "vt_cap_%d_%d" % (os.getpid(), next(COUNTER))
                if m["kind"] == "good":
                    SPECS[name] = m
                    specs[name] = m
                text = SOURCE[m["kind"]]
                if m["package"]:
                    os.mkdir(os.path.join(top, name))
                    path = os.path.join(top, name, "inner.py")
                    open(os.path.join(top, name, "__init__.py"), "w").close()
                    full = name + ".inner"
                else:
                    path = os.path.join(top, name + ".py")
                    full = name
                with open(path, "w") as f:
                    f.write(text % name if "%r" in text else text)
                names.append((full, name, m["kind"]))
            importlib.invalidate_caches()
            known, unsure = dict(before), set()
            last = None
            for i, req in enumerate(case["requests"]):
                what = "request %d for %s" % (i, req)
                asked, fine, gone = [], True, False
                for q in req:
                    if isinstance(q, str):
                        asked.append(q)
                        fine = fine and q in ("", "os", "ros_bt_py.nodes.sequence")
                        gone = not fine
                        continue
                    full, name, kind = names[q % len(names)]
                    asked.append(full)
                    if kind in BAD:
                        fine = False
                    if kind == "good":
                        for cls, c in SPECS[name]["classes"]:
                            if fine:
                                known[(full, cls)] = c
                            else:
                                unsure.add((full, cls))
                r = ask(via, asked)
                expect_eq(r.success, fine, "%s: success (%s)" % (what, r.error_message))
                if not fine:
                    expect(r.error_message, "%s: refused without a reason" % what)
                    ctx.tag("refused")
                    continue
                got = entries(r, what)
                wrong = {k for k in set(got) ^ set(known) if k not in unsure}
                if wrong:
                    raise Violation("%s: missing %s, superfluous %s" % (what, sorted(wrong - set(got)), sorted(wrong & set(got))))
                for k, n in got.items():
                    if k in before:
                        if n != before[k]:
                            raise Violation("%s: the entry of %s changed" % (what, k))
                    elif k in known:
                        check_entry(n, known[k], "%s: %s" % (what, k[1]))
                        ctx.nontrivial()
                last = got
                for k in case["use"]:
                    # nodes made from entries with types chosen in them do not change the entries
                    mine = sorted(x for x in known if x not in before)
                    if mine:
                        use(last[mine[k % len(mine)]], known[mine[k % len(mine)]], case["choices"], what)
        finally:
            sys.path.remove(top)
            for full, name, _ in names:
                for x in (full, name):
                    sys.modules.pop(x, None)
                SPECS.pop(name, None)


def use(n, c, picks, what):
    msg = bt_msg.NodeStructure(module=n.module, node_class=n.node_class, name="n", node_id=str(uuid.uuid4()))
    for io in copy.deepcopy(n.inputs):
        item = dict(c["inputs"])[io.key]
        if item["t"] not in nodeio.TYPE_KINDS:
            continue
        options = list(io.type.serialized_value_options)
        if options:
            io.serialized_value = options[picks % len(options)]
            io.type.is_static = True
            msg.inputs.append(io)
    r = Node.from_msg(msg, ros_node=FakeNode())
    expect(r.is_ok(), "%s: no node can be made of the entry of %s: %s" % (what, n.node_class, r))
    node = r.unwrap()
    d = node.to_structure_msg()
    d = d.unwrap() if hasattr(d, "unwrap") else d
    for part in ("inputs", "outputs"):
        expect_eq(
            sorted(io.key for io in getattr(d, part)),
            sorted(k for k, _ in c[part]),
            "%s: %s of a node made of the entry of %s" % (what, part, n.node_class),
        )
    expect_eq(d.max_children, n.max_children, what + ": number of children of a node made of an entry")


DOCS = st.one_of(
    st.none(),
    st.sampled_from(["One line.", "", "  ", "First.\n\n    Indented\n      more\n    back\n    ", "\n    Starts late.\n    ", "a\tb\n\tc", "\u00e4\u2200"]),
    st.lists(st.sampled_from(["", "    word", "  x", "        deep", "flat"]), min_size=1, max_size=5).map("\n".join),
)


@st.composite
def node_class(draw):
    while True:
        c = draw(nodeio.config(nodeio.KEYS))
        if nodeio.config_ok(c):
            break
        c = dict(c, inputs=[x for x in c["inputs"] if x[1]["t"] not in nodeio.REF_CLASS], outputs=[x for x in c["outputs"] if x[1]["t"] not in nodeio.REF_CLASS and x[1]["t"] not in nodeio.TYPE_KINDS])
        break
    c["doc"] = draw(DOCS)
    c["max"] = draw(st.sampled_from([None, 0, 1, 2, 7]))
    c["tags"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(["a", "b c", "\u00e4"]), max_size=3)))
    return c


@st.composite
def node_cases(draw):
    modules = []
    for _ in range(draw(st.integers(1, 3))):
        m = {"kind": draw(st.sampled_from(["good"] * 6 + ["plain", "empty"] + BAD)), "package": draw(st.booleans())}
        if m["kind"] == "good":
            names = draw(st.lists(st.sampled_from(["Alpha", "Beta", "Sequence", "gamma_"]), unique=True, min_size=1, max_size=3))
            m["classes"] = [[n, draw(node_class())] for n in names]
        modules.append(m)
    one = st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.sampled_from(["", "os", "ros_bt_py.nodes.sequence"]), st.sampled_from(ODD))
    requests = draw(st.lists(st.lists(one, max_size=3), min_size=1, max_size=4))
    return {
        "modules": modules,
        "requests": requests + [[0], []],
        "use": draw(st.lists(st.integers(0, 5), max_size=3)),
        "choices": draw(st.integers(0, 5)),
        "service": draw(st.integers(0, 3)) == 0,
    }


# -------------------------------------------------- interfaces and packages
MSGS = types.MESSAGES + types.ARRAY_MESSAGES + [
    "std_msgs/msg/" + n for n in ("Empty", "Header", "ColorRGBA", "MultiArrayLayout", "String", "UInt64")
] + ["geometry_msgs/msg/" + n for n in ("Pose", "Twist", "PoseWithCovariance", "Polygon")] + ["diagnostic_msgs/msg/DiagnosticArray", "rcl_interfaces/msg/ParameterValue", "builtin_interfaces/msg/Time"]
MSGS = sorted(set(MSGS))
SRVS = types.SERVICES + ["std_srvs/srv/SetBool", "std_srvs/srv/Empty", "rcl_interfaces/srv/GetParameters", "ros_bt_py_interfaces/srv/AddNode"]
ACTS = list(types.ACTIONS)


def lay_out(top, prefixes):
    """Prefixes with package indices; returns what is where."""
    found, interfaces, paths = {}, {}, []
    for k, p in enumerate(prefixes):
        prefix = os.path.join(top, p["name"])
        if prefix in paths:
            continue
        paths.append(prefix)
        index = os.path.join(prefix, "share", "ament_index", "resource_index")
        for kind in ("packages", "rosidl_interfaces"):
            os.makedirs(os.path.join(index, kind))
        for name in p["packages"]:
            open(os.path.join(index, "packages", name), "w").close()
            os.makedirs(os.path.join(prefix, "share", name), exist_ok=True)
            found.setdefault(name, prefix)
        by = {}
        for i in p["interfaces"]:
            pkg, kind, n = i.split("/")
            by.setdefault(pkg, []).append("%s/%s" % (kind, n))
        for pkg, names in by.items():
            lines = []
            for n in names:
                lines += [n + ".idl", n + "." + n.split("/")[0]]
                if n.startswith("srv/"):
                    lines += [n + "_Request.msg", n + "_Response.msg"]
            with open(os.path.join(index, "rosidl_interfaces", pkg), "w") as f:
                f.write("\n".join(lines))
            interfaces.setdefault(pkg, names)
        for rel, what in p["files"]:
            path = os.path.join(prefix, "share", rel)
            try:
                if what == "dir":
                    os.makedirs(path, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    open(path, "w").close()
            except OSError:
                pass
    return found, interfaces, paths


def check_packages(msg, found, what):
    expect(msg is not None, what + ": a new subscriber sees no packages")
    expect_eq(len(msg.packages), len(found), what + ": number of packages")
    expect_eq({p.package: p.path for p in msg.packages}, found, what + ": packages")


def check_types(msg, interfaces, what):
    expect(msg is not None, what + ": a new subscriber sees no interfaces")

    def full(prefix):
        return sorted({"%s/%s" % (p, n) for p, ns in interfaces.items() for n in ns if n.startswith(prefix)})

    expect_eq(sorted(t.name for t in msg.topics), full("msg/"), what + ": message types")
    expect_eq(sorted(msg.services), full("srv/"), what + ": service types")
    expect_eq(sorted(msg.actions), full("action/"), what + ": action types")
    for t in msg.topics:
        cls = get_message(t.name)
        want = {"t": "msg", "type": t.name}
        expect_eq(t.type.type_identifier, types.build(want).serialize_type().type_identifier, "%s: kind of %s" % (what, t.name))
        expect_eq(t.type.ros_interface_type if hasattr(t.type, "ros_interface_type") else None, types.build(want).serialize_type().ros_interface_type if hasattr(t.type, "ros_interface_type") else None, "%s: type of %s" % (what, t.name))
        fields = cls.get_fields_and_field_types()
        expect_eq([f.key for f in t.fields], list(fields), "%s: fields of %s" % (what, t.name))
        for f in t.fields:
            spec = ros.spec_of_field(fields[f.key])
            field_type(f.type, spec, "%s: field %s of %s (%s)" % (what, f.key, t.name, fields[f.key]))


def field_type(t, spec, what):
    D = bt_msg.NodeDataType
    kinds = {
        "bool": D.BOOL_TYPE, "int": D.INT_TYPE, "float": D.FLOAT_TYPE, "string": D.STRING_TYPE, "bytes": D.BYTES_TYPE,
        "list": D.LIST_TYPE, "msg": types.build({"t": "msg", "type": "std_msgs/msg/Empty"}).serialize_type().type_identifier,
    }
    expect_eq(t.type_identifier, kinds[spec["t"]], what + ": kind")
    if spec["t"] == "int":
        expect_eq((int(t.min_value), int(t.max_value)), (spec["min"], spec["max"]), what + ": limits")
    limit = t.string_max_length if spec["t"] == "string" else t.iterable_max_length
    if spec["t"] == "string":
        if spec.get("max") is None:
            expect(int(limit) >= 1 << 31, what + ": length limited to %d" % limit)
        else:
            expect_eq(int(limit), spec["max"], what + ": length")
    if spec["t"] == "list":
        if spec.get("max") is not None:
            expect_eq([int(x) for x in limit][:1], [spec["max"]], what + ": length")
            expect_eq([bool(x) for x in t.iterable_strict_length][:1], [bool(spec.get("strict"))], what + ": whether it is the exact length")


def run_index(case, ctx):
    old = os.environ.get("AMENT_PREFIX_PATH")
    with Folder() as top:
        top = os.path.realpath(top)
        found, interfaces, paths = lay_out(top, case["prefixes"])
        try:
            os.environ["AMENT_PREFIX_PATH"] = os.pathsep.join(paths)
            s = server.Server().start()
            check_packages(s.published("packages").late(), found, "at the start")
            check_types(s.published("message_types").late(), interfaces, "at the start")
            ctx.nontrivial(len(found) >= 2 and sum(map(len, interfaces.values())) >= 2)
            ctx.tag("packages %d" % min(5, len(found)))
            for op in case["ops"]:
                check_index(s, op, found, interfaces, paths, ctx)
        finally:
            if old is None:
                del os.environ["AMENT_PREFIX_PATH"]
            else:
                os.environ["AMENT_PREFIX_PATH"] = old


def check_index(s, op, found, interfaces, paths, ctx):
    what = "%s" % (op,)
    if op[0] == "subscribers":
        s.published("packages").subscribers = op[1]
        s.published("message_types").subscribers = op[2]
        before = [s.published(n).n for n in ("packages", "message_types")]
        server.fire(s, 1.0)
        after = [s.published(n).n for n in ("packages", "message_types")]
        expect_eq(
            [b > a for a, b in zip(before, after)],
            [op[1] > 0, op[2] > 0],
            "packages and interfaces published again for %s and %s subscribers" % (op[1], op[2]),
        )
        check_packages(s.published("packages").last, found, what)
        check_types(s.published("message_types").last, interfaces, what)
        return
    _, k, hidden = op
    name = k if isinstance(k, str) else sorted(found)[k % len(found)] if found else "nothing"
    r = s.request("get_installed_package_structure", bt_srv.GetPackageStructure.Request(package=name, show_hidden=hidden))
    if name not in found:
        expect(not r.success and r.error_message, "package %r, which isn't there, is shown: %r" % (name, r.error_message))
        ctx.tag("no such package")
        return
    expect(r.success, "package %s can't be shown: %s" % (name, r.error_message))
    ctx.tag("shown")
    walk(json.loads(r.package_structure), os.path.join(found[name], "share", name), 0, hidden, set(), what)


def walk(d, path, parent, hidden, ids, what):
    expect_eq(d["name"], os.path.basename(path), what + ": name")
    expect_eq(d["parent"], parent, what + ": parent of " + d["name"])
    expect(d["item_id"] not in ids and d["item_id"] != 0, what + ": item id used twice")
    ids.add(d["item_id"])
    if os.path.isdir(path):
        expect_eq(d["type"], "directory", what + ": type of " + d["name"])
        names = [f for f in os.listdir(path) if hidden or not f.startswith(".")]
        expect_eq(sorted(c["name"] for c in d["children"]), sorted(names), what + ": content of " + d["name"])
        for c in d["children"]:
            walk(c, os.path.join(path, c["name"]), d["item_id"], hidden, ids, what)
    else:
        expect_eq(d["type"], "file", what + ": type of " + d["name"])


PKG = st.sampled_from(["alpha", "alpha_msgs", "b2", "c_d", "std_msgs", "robot", "robot_trees"])
ODD_PACKAGES = ["", "nothing", "..", "a b", "alpha/..", "alpha\0", "/", ".", "\u00e4", "alpha ", "../alpha", "x" * 300, "Alpha"]


@st.composite
def index_cases(draw):
    prefixes = []
    for name in draw(st.lists(st.sampled_from(["one", "two", "three x"]), unique=True, min_size=1, max_size=3)):
        packages = draw(st.lists(PKG, unique=True, max_size=4))
        files = []
        for p in packages:
            for _ in range(draw(st.integers(0, 4))):
                parts = draw(st.lists(st.sampled_from(["trees", "a.yaml", ".git", "b", ".hidden.yaml", "c d"]), min_size=1, max_size=3))
                files.append(["/".join([p] + parts), draw(st.sampled_from(["file", "dir"]))])
        interfaces = draw(st.lists(st.sampled_from(MSGS), unique=True, max_size=5)) + draw(st.lists(st.sampled_from(SRVS), unique=True, max_size=3)) + draw(st.lists(st.sampled_from(ACTS), unique=True, max_size=2))
        prefixes.append({"name": name, "packages": packages, "interfaces": interfaces, "files": files})
    show = st.tuples(st.just("show"), st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from(ODD_PACKAGES)), st.booleans()).map(list)
    subs = st.tuples(st.just("subscribers"), st.integers(0, 2), st.integers(0, 2)).map(list)
    return {"prefixes": prefixes, "ops": draw(st.lists(st.one_of(show, show, subs), min_size=1, max_size=5))}


# ------------------------------------------------------------------ channels
class Handle:
    def __init__(self, actions):
        self.actions = actions

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def get_action_names_and_types(self):
        return copy.deepcopy(self.actions)


def run_channels(case, ctx):
    s = server.Server()
    now = {}
    s.get_topic_names_and_types = lambda *a, **k: copy.deepcopy(now["topics"])
    s.get_service_names_and_types = lambda *a, **k: copy.deepcopy(now["services"])
    handle = Handle([])
    type(s).handle = property(lambda self: self.__dict__["_vt_handle"])
    s.__dict__["_vt_handle"] = handle
    for k in ("topics", "services"):
        now[k] = []
    s.start()
    for i, state in enumerate(case["states"]):
        now.update({k: [(n, list(t)) for n, t in state[k]] for k in ("topics", "services")})
        handle.actions = [(n, list(t)) for n, t in state["actions"]]
        t = s.published("message_channels")
        before = t.n
        server.fire(s, 10.0)
        expect(t.n > before, "the channels were not published")
        for kind in ("topics", "services", "actions"):
            got = sorted((c.name, c.type) for c in getattr(t.last, kind))
            expect_eq(got, sorted((n, ts[0]) for n, ts in state[kind]), "%s in state %d" % (kind, i))
        ctx.nontrivial(any(state.values()))


@st.composite
def channel_cases(draw):
    def some(pool):
        return st.lists(
            st.tuples(st.sampled_from(["/a", "/b/c", "/d", "/rosout", "/ns/x_y"]), st.lists(st.sampled_from(pool), min_size=1, max_size=2)).map(list),
            max_size=4,
            unique_by=lambda p: p[0],
        )

    return {
        "states": draw(
            st.lists(st.fixed_dictionaries({"topics": some(MSGS), "services": some(SRVS), "actions": some(ACTS)}), min_size=1, max_size=3)
        )
    }
