"""Loading tree files and messages that are damaged, hostile or old."""
import copy
import os
import uuid

import yaml
from hypothesis import strategies as st

from . import bootstrap, edit

bootstrap.boot()

import rclpy  # noqa: E402
import rosidl_runtime_py  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataLocation, TreeStructure, Wiring  # noqa: E402
from ros_bt_py_interfaces.srv import (  # noqa: E402
    ControlTreeExecution,
    GenerateSubtree,
    GetSubtree,
    LoadTree,
    LoadTreeFromPath,
)

from .core import expect, expect_eq  # noqa: E402
from .execution import do_edit  # noqa: E402
from .fakeros import FakeNode  # noqa: E402
from . import store  # noqa: E402
from .store import Scratch, full  # noqa: E402

U = lambda i: str(uuid.UUID(int=i + 1))  # noqa: E731


def make_tree(spec):
    """spec: {"n": count, "parents": [...], "wire": bool}: node 0 is a Sequence, others as chosen."""
    nodes = []
    kinds = spec["kinds"]
    for i, k in enumerate(kinds):
        s = {"k": k, "n": "n%d" % i}
        if k in edit.OPTIONS:
            s["v"] = s["w"] = 2
        if k in edit.TYPED:
            s["t"] = "int"
            s["v"] = 7
        m = edit.node_msg(s)
        m.node_id = U(i)
        mx = edit.KINDS[k][1]
        m.max_children = -1 if mx is None else mx
        nodes.append(m)
    kids = {i: [] for i in range(len(kinds))}
    for i, p in enumerate(spec["parents"]):
        i += 1
        if i >= len(kinds):
            break
        room = [j for j in range(i) if edit.KINDS[kinds[j]][1] is None or len(kids[j]) < edit.KINDS[kinds[j]][1]]
        kids[room[p % len(room)]].append(i)
    for i, n in enumerate(nodes):
        n.child_ids = [U(c) for c in kids[i]]
    wirings = []
    for i, k in enumerate(kinds):
        for j, k2 in enumerate(kinds):
            if k == "Constant" and k2 == "PassthroughNode" and len(wirings) < 3:
                wirings.append(wire(U(i), "constant", U(j), "in"))
    return TreeStructure(name="t", nodes=nodes, data_wirings=wirings, tick_frequency_hz=10.0)


def wire(a, ak, b, bk):
    return Wiring(
        source=NodeDataLocation(node_id=a, data_key=ak), target=NodeDataLocation(node_id=b, data_key=bk)
    )


@st.composite
def tree_specs(draw):
    n = draw(st.integers(1, 7))
    kinds = ["Sequence"] + draw(
        st.lists(
            st.sampled_from(["Sequence", "Fallback", "Inverter", "Retry", "Constant", "Constant", "PassthroughNode", "Source"]),
            min_size=n - 1,
            max_size=n - 1,
        )
    )
    return {"kinds": kinds, "parents": draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))}


# ------------------------------------------------------------- messages
# damage: (name, args) -> True if the load has to be refused
def damage(msg, d):
    name, i, j = d
    nodes = msg.nodes
    a, b = nodes[i % len(nodes)], nodes[j % len(nodes)]
    if name == "cycle":
        a.child_ids = list(a.child_ids) + [b.node_id]
        return None  # may be a cycle, a second parent or too many children
    if name == "second_parent":
        for n in nodes:
            if n.child_ids:
                c = n.child_ids[0]
                a.child_ids = list(a.child_ids) + [c]
                return True
        return False
    if name == "self_child":
        a.child_ids = [a.node_id]
        return None
    if name == "child_twice":
        for n in nodes:
            if n.child_ids:
                n.child_ids = list(n.child_ids) + [n.child_ids[0]]
                return True
        return False
    if name == "unknown_child":
        a.child_ids = list(a.child_ids) + [U(900 + i)]
        return True
    if name == "bad_child_id":
        a.child_ids = list(a.child_ids) + ["nonsense"]
        return True
    if name == "bad_id":
        a.node_id = ["x", "123", "g" * 32][j % 3]
        return True
    if name == "same_id":
        a.node_id = b.node_id
        return None
    if name == "no_id":
        a.node_id = ""
        return None
    if name == "spoil":
        edit.spoil(a, edit.SPOILS[j % len(edit.SPOILS)])
        return True
    if name == "wire_unknown":
        msg.data_wirings = list(msg.data_wirings) + [
            [wire(U(800), "constant", a.node_id, "in"), wire(a.node_id, "constant", U(800), "in")][j % 2]
        ]
        return True
    if name == "wire_key":
        msg.data_wirings = list(msg.data_wirings) + [wire(a.node_id, "nope", b.node_id, "nope")]
        return True
    if name == "wire_id":
        msg.data_wirings = list(msg.data_wirings) + [wire("zzz", "constant", b.node_id, "in")]
        return True
    if name == "freq":
        msg.tick_frequency_hz = [0.0, -1.0, float("nan"), float("inf"), -0.0][j % 5]
        return False
    if name == "max":
        a.max_children = [0, -1, -5, 2**31 - 1][j % 4]
        return False
    if name == "value":
        for n in nodes:
            if len(n.inputs):
                k = i % len(n.inputs)
                n.inputs[k].serialized_value = ["{", "null", "[]", '"x"', "1e999", "{}", "NaN", "[" * 3000][j % 8]
                return None
        return False
    if name == "type":
        for n in nodes:
            if len(n.inputs):
                n.inputs[0].type.type_identifier = [0, 99, 255, 3][j % 4]
                return None
        return False
    if name == "public":
        msg.public_inputs = [NodeDataLocation(node_id="who", data_key="")]
        return False
    if name == "drop_children":
        a.child_ids = []
        return False
    if name == "module_case":
        a.module = ["os", "ros_bt_py", "..", "ros_bt_py.nodes.sequence ", "ros_bt_py.nodes", "__main__"][j % 6]
        return None
    raise AssertionError(name)


DAMAGES = (
    "cycle",
    "cycle",
    "second_parent",
    "self_child",
    "child_twice",
    "unknown_child",
    "bad_child_id",
    "bad_id",
    "same_id",
    "no_id",
    "spoil",
    "spoil",
    "wire_unknown",
    "wire_key",
    "wire_id",
    "freq",
    "max",
    "value",
    "type",
    "public",
    "drop_children",
    "module_case",
)


@st.composite
def message_cases(draw):
    return {
        "tree": draw(tree_specs()),
        "damage": [
            [draw(st.sampled_from(DAMAGES)), draw(st.integers(0, 8)), draw(st.integers(0, 8))]
            for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2])))
        ],
        "after": draw(st.lists(st.tuples(st.sampled_from(AFTER), st.integers(0, 7)).map(list), min_size=2, max_size=6)),
    }


AFTER = (
    "add",
    "add_at",
    "remove",
    "remove_all",
    "morph",
    "options",
    "move",
    "replace",
    "wire",
    "unwire",
    "reload",
    "clear",
    "subtree",
    "generate",
    "once",
    "until",
    "shutdown",
    "reset",
    "stop",
)


def follow_up(m, after, ctx):
    """Whatever was loaded can be looked at, edited and run: nothing raises, nothing hangs."""
    if not rclpy.ok():
        rclpy.init()
    for kind, k in after:
        ids = [str(i) for i in m.nodes]
        root = ids[0] if ids else edit.ZERO
        if kind in ("once", "until", "shutdown", "reset", "stop"):
            cmd = {"once": 1, "until": 3, "shutdown": 6, "reset": 5, "stop": 4}[kind]
            r = m.control_execution(ControlTreeExecution.Request(command=cmd), ControlTreeExecution.Response())
            t = getattr(m, "_tick_thread", None)
            if t is not None and t.is_alive():
                t.join(20)
                expect(not t.is_alive(), "ticking the loaded tree does not end")
        elif kind == "subtree":
            r = m.get_subtree(GetSubtree.Request(node_id=ids[k % len(ids)] if ids else root), GetSubtree.Response())
        elif kind == "generate":
            r = m.generate_subtree(
                GenerateSubtree.Request(node_ids=ids[: 1 + k % 4]), GenerateSubtree.Response()
            )
        else:
            r = do_edit(m, kind, ids, root, k)
        if not r.success and kind != "stop":
            expect(r.error_message, "%s after loading fails without saying why" % kind)
        shape(m, kind)
        ctx.tag("then_" + kind)


def shape(m, what, cycles=True):
    msg = m.structure_to_msg()
    ids = [n.node_id for n in msg.nodes]
    expect_eq(len(ids), len(set(ids)), "%s: node ids are listed twice" % what)
    seen = set()
    for n in msg.nodes:
        for c in n.child_ids:
            expect(c in ids, "%s: node %s lists a child that isn't in the tree" % (what, n.name))
            expect(c not in seen, "%s: node %s has two parents" % (what, c))
            seen.add(c)
    for w in msg.data_wirings:
        expect(w.source.node_id in ids and w.target.node_id in ids, "%s: a wiring leads out of the tree" % what)
    expect(msg.tick_frequency_hz > 0, "%s: tick frequency %r" % (what, msg.tick_frequency_hz))


class Sleeper:
    def __init__(self, m):
        self.m, self.n = m, 0

    def __call__(self, rate):
        self.n += 1
        if self.n > 20:
            self.m.state = "STOP_REQUESTED"


def manager():
    node = FakeNode()
    m = TreeEditManager(ros_node=node)
    node.on_sleep = Sleeper(m)
    return m


def run_message(case, ctx):
    msg = make_tree(case["tree"])
    refuse = False
    for d in case["damage"]:
        if not msg.nodes:
            break
        r = damage(msg, d)
        if refuse is True:
            pass
        elif r is None or refuse is None:
            refuse = True if r is True else None
        else:
            refuse = r
        ctx.tag(d[0])
    if len(case["damage"]) > 1 and refuse:
        refuse = None  # one damage may undo another
    m = manager()
    r = m.load_tree(LoadTree.Request(tree=copy.deepcopy(msg)), LoadTree.Response())
    if refuse is True:
        expect(not r.success, "a tree with %s was loaded" % case["damage"])
    if refuse is False:
        expect(r.success, "a fine tree (%s) is refused: %s" % (case["damage"], r.error_message[:300]))
    if not r.success:
        expect(r.error_message, "refused without saying why")
        ctx.tag("refused")
    else:
        shape(m, "after loading")
        ctx.tag("loaded")
    follow_up(m, case["after"], ctx)
    ctx.nontrivial(bool(case["damage"]))


# ---------------------------------------------------------------- files
VERSIONS = {
    # version: is it refused
    "0.0.0": True,
    "0.5.2": True,
    "0.99": True,
    "1.0.0a1": True,
    "1.0.0": False,
    "1.2.3": False,
    "2.0.0": False,
    "current": False,
    "99.0.0": False,
    "": True,
    "abc": True,
    "1.x": True,
    "[1]": True,
    "null": True,
    "1.5": False,
    "3": False,
    "0.9": True,
    None: True,
}


def file_text(case, top):
    msg = make_tree(case["tree"])
    d = yaml.safe_load(rosidl_runtime_py.message_to_yaml(msg))
    v = case["version"]
    refuse = VERSIONS[v]
    for how, i, j in case["damage"]:
        r = damage_dict(d, how, i, j)
        if r is None and not refuse:
            refuse = None
        elif r:
            refuse = True
    text = yaml.safe_dump(d, allow_unicode=True, sort_keys=bool(case["sorted"]))
    if v is not None:
        v = bootstrap.package_version() if v == "current" else v
        line = "version: %s\n" % v
        text = line + text if not case["last"] else text + line
    for how, i in case["text"]:
        if how in ("truncate", "tab"):
            refuse = None  # may cut off what would have been refused
        text, r = damage_text(text, how, i)
        if r is None and not refuse:
            refuse = None
        elif r:
            refuse = True
    return text, refuse


def damage_dict(d, how, i, j):
    nodes = d.get("nodes")
    if how == "unknown_field":
        d["surprise"] = 1
        return True
    if how == "drop":
        keys = sorted(k for k in d if k != "nodes")
        d.pop(keys[i % len(keys)])
        return False if keys[i % len(keys)] != "nodes" else True
    if how == "no_nodes":
        d["nodes"] = []
        return True
    if how == "nodes_type":
        d["nodes"] = [None, 5, "abc", {"a": 1}, [1], [None], [[]]][i % 7]
        return True
    if not nodes or not isinstance(nodes, list) or not isinstance(nodes[0], dict):
        return None
    n = nodes[i % len(nodes)]
    if how == "node_field_type":
        keys = sorted(n)
        n[keys[j % len(keys)]] = [None, 5, [1], {"x": 2}, "text", -(2**40)][i % 6]
        return None
    if how == "node_unknown_field":
        n["surprise"] = 2
        return True
    if how == "node_drop":
        keys = sorted(n)
        n.pop(keys[j % len(keys)])
        return None
    if how == "field_type":
        keys = sorted(k for k in d if k != "nodes")
        d[keys[j % len(keys)]] = [None, 5, [1], {"x": 2}, "text", True][i % 6]
        return None
    raise AssertionError(how)


def damage_text(text, how, i):
    if how == "truncate":
        return text[: max(0, len(text) * (i % 10) // 10)], None
    if how == "second_doc":
        return text + "\n---\nname: other\n", True
    if how == "empty_doc_first":
        return "---\n---\n" + text, False
    if how == "only":
        return ["", "\n", "---\n", "5", "[1, 2]", "text", "null", "# nothing\n", "{}", "a: [", "\t", "%", "\x00", "&a [*a]", "date: 2001-99-99", "name: 0x_", "!!timestamp z", "name: !!float y", "name: !!timestamp t", "[1]: 2", "? {}\n: 1"][i % 21], True
    if how == "alias":
        return text + "\nextra: &a [*a]\n", True
    if how == "bomb":
        lines = ["a0: &a0 [x,x]"] + ["a%d: &a%d [*a%d,*a%d]" % (k, k, k - 1, k - 1) for k in range(1, 12)]
        return text + "\n" + "\n".join(lines) + "\n", True
    if how == "tag":
        return text + "\nzz: !!python/object/apply:os.getcwd []\n", True
    if how == "tab":
        return text.replace("\n", "\n\t", 1 + i), None
    if how == "crlf":
        return text.replace("\n", "\r\n"), False
    if how == "deep":
        return text + "\ndeep: " + "[" * 1500 + "]" * 1500 + "\n", True
    if how == "comment":
        return "# a comment\n" + text, False
    raise AssertionError(how)


@st.composite
def file_cases(draw):
    what = draw(st.sampled_from(["version", "dict", "text", "path", "mixed"]))
    case = {
        "tree": draw(tree_specs()),
        "version": "current",
        "damage": [],
        "text": [],
        "sorted": draw(st.booleans()),
        "last": draw(st.booleans()),
        "path": "ok",
        "bytes": None,
        "after": draw(st.lists(st.tuples(st.sampled_from(AFTER), st.integers(0, 7)).map(list), max_size=3)),
    }
    if what in ("version", "mixed"):
        case["version"] = draw(st.sampled_from(sorted(VERSIONS, key=str)))
    if what in ("dict", "mixed"):
        case["damage"] = [
            [
                draw(
                    st.sampled_from(
                        ["unknown_field", "drop", "no_nodes", "nodes_type", "node_field_type", "node_unknown_field", "node_drop", "field_type"]
                    )
                ),
                draw(st.integers(0, 20)),
                draw(st.integers(0, 20)),
            ]
        ]
    if what in ("text", "mixed"):
        case["text"] = [
            [
                draw(
                    st.sampled_from(
                        ["truncate", "second_doc", "empty_doc_first", "only", "only", "alias", "bomb", "tag", "tab", "crlf", "deep", "comment"]
                    )
                ),
                draw(st.integers(0, 20)),
            ]
        ]
    if what == "path":
        case["path"] = draw(st.sampled_from(["missing", "folder", "scheme", "bare", "package", "package_name", "empty", "nul", "binary", "pkg_missing", "pkg_only"] + list(IN_PACKAGE)))
    elif draw(st.integers(0, 3)) == 0:
        case["path"] = draw(st.sampled_from(sorted(IN_PACKAGE)))
    return case


IN_PACKAGE = {"pkg": "tree.yaml", "pkg_sub": "trees/a b/tree.yaml", "pkg_file": "file:/x.yaml"}


def run_file(case, ctx):
    with Scratch() as top, store.packages_in(os.path.join(top, "prefix"), ["vt_pkg"]) as share:
        text, refuse = file_text(case, top)
        path = os.path.join(top, "tree.yaml")
        if case["path"] in IN_PACKAGE:
            path = os.path.join(share["vt_pkg"], IN_PACKAGE[case["path"]])
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        if case["path"] == "binary":
            with open(path, "wb") as f:
                f.write(b"\xff\xfe\x80name: \xc3\x28")
        uri = {
            "ok": "file://" + path,
            "missing": "file://" + path + ".no",
            "folder": "file://" + top,
            "scheme": "http://" + path,
            "bare": path,
            "package": "package://no_such_package/x.yaml",
            "package_name": "package:///x/../y",
            "empty": "",
            "nul": "file://a\0b",
            "binary": "file://" + path,
            "pkg_missing": "package://vt_pkg/none.yaml",
            "pkg_only": "package://vt_pkg",
            "pkg": "package://vt_pkg/tree.yaml",
            "pkg_sub": "package://vt_pkg/trees/../trees/a b/tree.yaml",
            "pkg_file": "package://vt_pkg/file://x.yaml",
        }[case["path"]]
        if case["path"] != "ok" and case["path"] not in IN_PACKAGE:
            refuse = True
        m = manager()
        m.load_tree(LoadTree.Request(tree=make_tree({"kinds": ["Sequence", "Constant"], "parents": [0]})), LoadTree.Response())
        before = full(m.structure_to_msg())
        r = m.load_tree_from_path(LoadTreeFromPath.Request(path=uri), LoadTreeFromPath.Response())
        what = "version %s, damage %s %s, path %s" % (case["version"], case["damage"], case["text"], case["path"])
        if refuse is True:
            expect(not r.success, "a file that must be refused (%s) was loaded" % what)
        if refuse is False:
            expect(r.success, "a fine file (%s) is refused: %s" % (what, r.error_message[:300]))
        if not r.success:
            expect(r.error_message, "%s: refused without saying why" % what)
            ctx.tag("refused")
            if refuse is True:
                expect(
                    full(m.structure_to_msg()) == before,
                    "%s: the file can't be read, but the tree that was loaded before is gone" % what,
                )
        else:
            ctx.tag("loaded")
            if refuse is False and not case["damage"]:
                want = make_tree(case["tree"])
                got = full(m.structure_to_msg())
                expect_eq(
                    {k: (v["class"], v["name"], v["children"]) for k, v in got["nodes"].items()},
                    {n.node_id: (n.node_class, n.name, list(n.child_ids)) for n in want.nodes},
                    "%s: loaded nodes" % what,
                )
            shape(m, "after loading")
        ctx.tag(case["path"])
        ctx.tag("version_%s" % case["version"])
        follow_up(m, case["after"], ctx)
        ctx.nontrivial(bool(case["damage"] or case["text"] or case["path"] != "ok" or case["version"] != "current"))


# ------------------------------------------------------- the migration tool
def run_cli(case, ctx):
    """Old files given to the migration program: brought to this version or left alone."""
    import contextlib
    import io
    import sys

    from ros_bt_py import migrate_tree_files

    with Scratch() as top:
        argv, expected = [], {}
        for k, (v, where) in enumerate(case["files"]):
            refuse = VERSIONS[v]
            d = yaml.safe_load(rosidl_runtime_py.message_to_yaml(make_tree(case["tree"])))
            d["name"] = "tree %d" % k
            if v is not None:
                d = dict({"version": bootstrap.package_version() if v == "current" else yaml.safe_load(v) if v else v}, **d)
            path = os.path.join(top, "%s%d.yaml" % (where, k))
            with open(path, "w") as f:
                f.write(yaml.safe_dump(d, sort_keys=False))
            for n in range(case["taken"]):
                name = os.path.join(top, "%s%d_new%s.yaml" % (where, k, "" if n == 0 else "_%d" % n))
                with open(name, "w") as f:
                    f.write("taken")
            argv.append(path)
            expected[path] = (refuse, d)
        for k, text in enumerate(case.get("others", [])):
            # not tree files at all
            path = os.path.join(top, "other%d.yaml" % k)
            if text == "dir":
                path = os.path.join(top, "folder")
            elif text != "missing":
                with open(path, "wb") as f:
                    f.write(text.encode("latin-1"))
            argv.insert(k * 2, path)
        before = {f: open(os.path.join(top, f), "rb").read() for f in os.listdir(top)}
        if "dir" in case.get("others", []):
            os.mkdir(os.path.join(top, "folder"))
        old = sys.argv
        sys.argv = ["migrate"] + (["--inplace"] if case["inplace"] else []) + argv
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                migrate_tree_files.main()
        finally:
            sys.argv = old
        after = {f: open(os.path.join(top, f), "rb").read() for f in os.listdir(top) if f != "folder"}
        for f in after:
            if f.startswith("other"):
                expect(f in before and after[f] == before[f], "%s is no tree file, but was migrated or changed" % f)
        fine = 0
        for path, (refuse, d) in expected.items():
            base = os.path.basename(path)[: -len(".yaml")]
            new = [f for f in after if f not in before and f.startswith(base + "_new")]
            if refuse:
                expect_eq(new, [], "a file of version %r was migrated" % d.get("version"))
                expect_eq(after[base + ".yaml"], before[base + ".yaml"], "file that can't be migrated")
                continue
            fine += 1
            if case["inplace"]:
                expect_eq(new, [], "new files although --inplace was given")
                got = after[base + ".yaml"]
            else:
                expect_eq(after[base + ".yaml"], before[base + ".yaml"], "file that was migrated to a new one")
                expect_eq(len(new), 1, "new files for %s" % base)
                got = after[new[0]]
            got = yaml.safe_load(got)
            expect_eq(got.pop("version"), bootstrap.package_version(), "version after migration")
            d.pop("version", None)
            expect_eq(got, d, "content after migration")
        for f in before:
            if before[f] == b"taken":
                expect_eq(after[f], b"taken", "%s, which was there before" % f)
        ctx.nontrivial(fine >= 1)
        ctx.tag("inplace" if case["inplace"] else "new file")


@st.composite
def cli_cases(draw):
    ok = [v for v in VERSIONS if v not in ("abc", "1.x", "[1]", "")]
    return {
        "tree": draw(tree_specs()),
        "files": [
            [draw(st.sampled_from(sorted(ok, key=str))), draw(st.sampled_from(["t", "dir.d_", "a b"]))]
            for _ in range(draw(st.integers(1, 4)))
        ],
        "inplace": draw(st.booleans()),
        "taken": draw(st.integers(0, 3)),
        "others": draw(st.sampled_from([[], [], [], ["5"], ["[1]", ""], ["null"], ["a: ["], ["\xff\xfe"], ["missing"], ["dir"], ["date: 2001-99-99"], ["!!timestamp z"], ["text", "missing"]])),
    }
