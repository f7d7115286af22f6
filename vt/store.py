"""Trees in files: the round trip through a file, and the folder they are kept in."""
import contextlib
import copy
import json
import os
import posixpath
import shutil
import tempfile

from hypothesis import strategies as st

from . import bootstrap, edit

bootstrap.boot()

from ros_bt_py.package_manager import PackageManager  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataLocation, TreeStructure  # noqa: E402
from ros_bt_py_interfaces.srv import (  # noqa: E402
    GetFolderStructure,
    GetStorageFolders,
    LoadTree,
    LoadTreeFromPath,
    SaveTree,
)

from .core import expect, expect_eq  # noqa: E402
from .fakeros import FakeNode  # noqa: E402


class Scratch:
    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="vstore.", dir=os.environ.get("VERIF_TMP")))
        return self.dir

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)


@contextlib.contextmanager
def packages_in(prefix, names):
    """Packages of these names, and no others; gives their share folders."""
    old = os.environ.get("AMENT_PREFIX_PATH")
    index = os.path.join(prefix, "share", "ament_index", "resource_index", "packages")
    os.makedirs(index)
    share = {}
    for n in names:
        open(os.path.join(index, n), "w").close()
        share[n] = os.path.join(prefix, "share", n)
        os.makedirs(share[n])
    os.environ["AMENT_PREFIX_PATH"] = prefix
    try:
        yield share
    finally:
        if old is None:
            del os.environ["AMENT_PREFIX_PATH"]
        else:
            os.environ["AMENT_PREFIX_PATH"] = old


TEXT = st.one_of(
    st.sampled_from(
        [
            "", "null", "~", "true", "no", "1.5", "1e3", "0x1", "2024-01-01", "a: b", "- x", "#c", "x #c", "'", '"', "{}", "[a]",
            "&a", "*a", "!t", "%d", "@", "`", " lead", "trail ", "a\nb", "\n", "a\n\n b", "\t", "\\", "\u00e4\u2603", "\U0001f600",
            "\x07", "---", "...", "version: 0.1", "? x", "| x", "> x", "a\r\nb", "\r", "\ufeff", "=", "<<",
        ]
    ),
    # PyYAML itself does not bring back unicode line breaks
    st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\x85\u2028\u2029"), max_size=8),
)


def full(msg):
    d = edit.canonical(msg)
    d["freq"] = msg.tick_frequency_hz
    d["in"] = [(p.node_id, p.data_key) for p in msg.public_inputs]
    d["out"] = [(p.node_id, p.data_key) for p in msg.public_outputs]
    return d


def show(a, b):
    for k in a:
        if a[k] != b.get(k):
            if k == "nodes":
                return edit.diff(a, b)
            return "%s: %s -> %s" % (k, str(a[k])[:300], str(b[k])[:300])
    return "?"


def run_roundtrip(case, ctx, make=TreeEditManager, packages=PackageManager):
    edit_run = edit.Harness()
    for op in case["ops"]:
        edit_run.step(op, _NoCtx())
    msg = copy.deepcopy(edit_run.m.structure_to_msg())
    if not msg.nodes:
        return
    for n, name in zip(msg.nodes, case["names"]):
        n.name = name or n.node_class  # the name is optional
    msg.name = case["name"]
    msg.tick_frequency_hz = case["freq"]
    locs_in = [NodeDataLocation(node_id=n.node_id, data_key=i.key) for n in msg.nodes for i in n.inputs]
    locs_out = [NodeDataLocation(node_id=n.node_id, data_key=o.key) for n in msg.nodes for o in n.outputs]
    msg.public_inputs = [locs_in[i % len(locs_in)] for i in case["public"] if locs_in]
    msg.public_outputs = [locs_out[i % len(locs_out)] for i in case["public"] if locs_out]
    want = full(msg)
    with Scratch() as top:
        pm = packages([top])
        for turn in range(2):
            r = pm.save_tree_to_path(
                SaveTree.Request(
                    storage_path=top, filepath=case["file"], tree=copy.deepcopy(msg), allow_overwrite=True
                ),
                SaveTree.Response(),
            )
            expect(r.success, "saving fails: %s" % r.error_message)
            m = make(ros_node=FakeNode())
            uri = "file://" + r.file_path
            if case["by_path"]:
                lr = m.load_tree_from_path(LoadTreeFromPath.Request(path=uri), LoadTreeFromPath.Response())
            else:
                lr = m.load_tree(LoadTree.Request(tree=TreeStructure(path=uri)), LoadTree.Response())
            expect(lr.success, "loading the saved file fails: %s" % lr.error_message[:500])
            msg = m.structure_to_msg()
            got = full(msg)
            expect(got == want, lambda: "saved and loaded tree differs: " + show(want, got))
            expect_eq(msg.path, uri, "path of the loaded tree")
            by_name = {str(n.node_id): n.name for n in m.nodes.values()}
            expect_eq(by_name, {n.node_id: n.name for n in msg.nodes}, "names of live nodes")
            for n in m.nodes.values():
                expect_eq(
                    [str(c.node_id) for c in n.children], want["nodes"][str(n.node_id)]["children"], "live children"
                )
    ctx.tag("nodes %d" % min(len(want["nodes"]), 10))
    if want["wirings"]:
        ctx.tag("wired")
    ctx.nontrivial(len(want["nodes"]) >= 2)


class _NoCtx:
    def tag(self, *a):
        pass

    nontrivial = tag


@st.composite
def roundtrip_cases(draw):
    case = draw(edit.cases(draw(st.sampled_from(["wire", "topology"])), max_ops=14))
    case["names"] = draw(st.lists(TEXT, min_size=2, max_size=6))
    case["name"] = draw(TEXT)
    case["freq"] = draw(st.sampled_from([10.0, 0.1, 1e-3, 123456.789, 1e22, 30]))
    case["freq"] = float(case["freq"])
    case["public"] = draw(st.lists(st.integers(0, 30), max_size=4))
    case["file"] = draw(st.sampled_from(["t.yaml", "sub/dir/t.yaml", "with space.yaml", "\u00e4.yml", "noext", "a#b?.yaml"]))
    case["by_path"] = draw(st.booleans())
    return case


# ------------------------------------------------------------- the folder
def tree_msg(n, name):
    import uuid

    return TreeStructure(
        name=name,
        tick_frequency_hz=10.0,
        nodes=[
            dict_to_node(uuid.UUID(int=n + 1)),
        ],
    )


def dict_to_node(i):
    msg = edit.node_msg({"k": "Sequence", "n": "s"})
    msg.node_id = str(i)
    msg.max_children = -1
    return msg


def listing(top):
    out = {}
    for d, dirs, files in os.walk(top):
        for f in files:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), top)] = h.read()
        for x in dirs:
            out.setdefault(os.path.relpath(os.path.join(d, x), top) + "/", None)
    return out


STORES = ("up/a/store", "up/a/other")


def run_store(case, ctx, make=TreeEditManager, packages=PackageManager):
    with Scratch() as top:
        for d in STORES + ("up/a/store_evil", "up/a/store/folder"):
            os.makedirs(os.path.join(top, d))
        for f, text in (("up/a/secret.yaml", "s"), ("up/a/store/first.yaml", "f"), ("up/a/store/.hidden", "h")):
            with open(os.path.join(top, f), "w") as h:
                h.write(text)
        pm = packages([os.path.join(top, s) for s in STORES])
        folders = pm.get_storage_folders(GetStorageFolders.Request(), GetStorageFolders.Response()).storage_folders
        expect_eq(sorted(folders), sorted(os.path.join(top, s) for s in STORES), "storage folders")
        saved = refused = 0
        for k, op in enumerate(case["ops"]):
            what = "operation %d %s" % (k, op)
            if op[0] == "list":
                check_listing(pm, top, op, what)
                ctx.tag("list")
                continue
            _, store, path, overwrite, rename = op
            storage = os.path.join(top, store) if store else store
            path = path.replace("<top>", top)
            before = listing(top)
            name = "tree %d" % k
            r = pm.save_tree_to_path(
                SaveTree.Request(
                    storage_path=storage,
                    filepath=path,
                    tree=tree_msg(k, name),
                    allow_overwrite=overwrite,
                    allow_rename=rename,
                ),
                SaveTree.Response(),
            )
            after = listing(top)
            changed = sorted(f for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0) and not f.endswith("/"))
            ok, target = judge(top, before, store, path, overwrite, rename)
            if not ok:
                expect(not r.success, "%s must be refused, but was saved to %s" % (what, r.file_path))
                expect(r.error_message, "%s is refused without saying why" % what)
                expect_eq(changed, [], "%s is refused, but files changed" % what)
                for d in set(after) - set(before):
                    expect(
                        d.startswith(STORES[0] + "/") or d.startswith(STORES[1] + "/"),
                        "%s created the folder %s outside of the storage folders" % (what, d),
                    )
                refused += 1
                ctx.tag("refused " + target)
                continue
            expect(r.success, "%s is refused: %s" % (what, r.error_message))
            expect_eq(len(changed), 1, "%s: files changed (%s)" % (what, changed))
            got = changed[0]
            expect_eq(os.path.abspath(r.file_path), os.path.join(top, got), "%s: reported path" % what)
            if target + "/" in before or target in before and rename:
                expect(got not in before, "%s: replaced %s although it was to be renamed" % (what, got))
                expect_eq(os.path.dirname(got), os.path.dirname(target), "%s: folder of the renamed file" % what)
                expect_eq(os.path.splitext(got)[1], os.path.splitext(target)[1], "%s: extension of the renamed file" % what)
                ctx.tag("renamed")
            else:
                expect_eq(got, target, "%s: file written" % what)
                ctx.tag("overwritten" if got in before else "created")
            m = make(ros_node=FakeNode())
            lr = m.load_tree(LoadTree.Request(tree=TreeStructure(path="file://" + r.file_path)), LoadTree.Response())
            expect(lr.success, "%s: the saved tree can't be loaded: %s" % (what, lr.error_message))
            expect_eq(m.structure_to_msg().name, name, "%s: name of the saved tree" % what)
            saved += 1
        ctx.nontrivial(saved >= 1 and refused >= 1)


def judge(top, before, store, path, overwrite, rename):
    """(must it be saved, where) or (False, why not)"""
    if store not in STORES:
        return False, "storage"
    full = posixpath.normpath(posixpath.join("/", store, path))
    if path.startswith("/"):
        rel = os.path.relpath(posixpath.normpath(path), top)
    else:
        rel = full[1:]
    if rel != store and not rel.startswith(store + "/"):
        return False, "outside"
    if rel == store or rel + "/" in before:
        return False, "folder"
    parts = rel.split("/")
    for i in range(1, len(parts)):
        if "/".join(parts[:i]) in before:
            return False, "file in the way"
    if rel in before and not rename and not overwrite:
        return False, "exists"
    return True, rel


def check_listing(pm, top, op, what):
    _, store, hidden = op
    storage = os.path.join(top, store) if store else store
    r = pm.get_folder_structure(
        GetFolderStructure.Request(storage_folder=storage, show_hidden=hidden), GetFolderStructure.Response()
    )
    if store not in STORES:
        expect(not r.success and r.error_message, "%s: a folder that is no storage folder is listed" % what)
        return
    expect(r.success, "%s: %s" % (what, r.error_message))
    ids = set()

    def walk(d, path, parent):
        expect_eq(d["name"], os.path.basename(path), what + ": name")
        expect_eq(d["parent"], parent, what + ": parent of " + d["name"])
        expect(d["item_id"] not in ids and d["item_id"] != 0, what + ": item id used twice")
        ids.add(d["item_id"])
        if os.path.isdir(path):
            expect_eq(d["type"], "directory", what + ": type of " + d["name"])
            names = [f for f in os.listdir(path) if hidden or not f.startswith(".")]
            expect_eq(sorted(c["name"] for c in d["children"]), sorted(names), what + ": content of " + d["name"])
            for c in d["children"]:
                walk(c, os.path.join(path, c["name"]), d["item_id"])
        else:
            expect_eq(d["type"], "file", what + ": type of " + d["name"])

    walk(json.loads(r.storage_folder_structure), storage, 0)


PART = st.sampled_from(["a.yaml", "b.yaml", "t_2.yaml", "t_9", "folder", "sub", "first.yaml", ".hid.yaml", "x.tar.gz", "\u00e4 b"])
PATHS = st.one_of(
    PART,
    PART,
    st.builds("/".join, st.lists(PART, min_size=2, max_size=3)),
    st.sampled_from(
        [
            "../secret.yaml",
            "../store_evil/x.yaml",
            "../other/x.yaml",
            "../../x.yaml",
            "sub/../../x.yaml",
            "sub/../y.yaml",
            "./z.yaml",
            "a//b.yaml",
            "<top>/up/a/x.yaml",
            "<top>/up/a/store/abs.yaml",
            "<top>/up/a/store_evil/abs.yaml",
            "<top>/up/a/other/abs.yaml",
            "",
            ".",
            "..",
            "first.yaml/under.yaml",
            "folder/",
            "new/",
            "../store/back.yaml",
        ]
    ),
)


@st.composite
def store_cases(draw):
    ops = []
    some = draw(st.lists(PATHS, min_size=1, max_size=3))
    for _ in range(draw(st.integers(3, 9))):
        if draw(st.integers(0, 5)) == 0:
            ops.append(["list", draw(st.sampled_from(STORES + ("up/a", ""))), draw(st.booleans())])
        else:
            ops.append(
                [
                    "save",
                    draw(st.sampled_from(STORES[:1] * 8 + STORES + ("up/a", "", "up/a/store/folder"))),
                    draw(st.one_of(st.sampled_from(some), PATHS)),
                    draw(st.booleans()),
                    draw(st.integers(0, 2)) == 0,
                ]
            )
    return {"ops": ops}
