"""Nodes that read YAML files, on files in a scratch directory."""
import os
import shutil
import tempfile

from . import bootstrap

bootstrap.boot()

import yaml  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from . import compute, nodeio, types  # noqa: E402
from .core import Violation, expect, expect_eq  # noqa: E402
from .model import B, F, I, S, U, X  # noqa: E402

NAMES = ["a.yaml", "b.txt", "sub/c.yaml"]
# what a path leads to: the file's number or None
PATHS = [("file://{d}/pkgs/share/pkg/" + n, k) for k, n in enumerate(NAMES)]
PATHS += [("package://pkg/" + n, k) for k, n in enumerate(NAMES)]
PATHS += [("package://pkg/sub/../a.yaml", 0), ("file://{d}/pkgs/../pkgs/share/pkg//b.txt", 1)]
PATHS += [
    (p, None)
    for p in (
        "file://", "package://", "package:///", "package:///a.yaml", "package://pkg", "package://pkg/", "file://{d}",
        "package://none/a.yaml", "package://p kg/a.yaml", "package://../a.yaml", "package://pkg\x00/a.yaml",
        "file://{d}/a\x00b", "package://pkg/a\x00", "file://{d}/nothing", "file://pkgs/share/pkg/a.yaml",
        "package://pkg/a.yaml/x", "file://{d}/" + "x" * 300, "file:///dev/null", "package://file:///a.yaml", "file://file://{d}/a.yaml",
    )
]
RAW = [
    "", "\n", "# nothing", "---\n---\n", "- 1\n---\n- 2\n", "- a\n b: [", "{", "\t- 1", "!!python/object:os.system {}", "!!python/tuple [1]",
    "- *a", "&a [*a]", "&a {k: *a}", "{[1]: 2}", "{{a: 1}: 2}", "just a text", "3", "null", "- 2001-99-99", "2001-13-01: 1", "- 0x_", "k: 0b_", "0x_: 1",
    "- !!int x", "k: !!float y", "- !!timestamp z", "[" * 1500, "{a: " * 1200, "- " * 1500, "%YAML 9.9\n---\n- 1", "\x07", "- \x01", "- !!binary '*'", "!!set [1]",
]
HEX = ["ff", "2d20ff", "fffe2d00", "c3", "2d20c328", "00", "2d2000"]


def write(path, content):
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.remove(path)
    if content is None:
        return
    if "dir" in content:
        os.makedirs(path)
        return
    if "hex" in content:
        data = bytes.fromhex(content["hex"])
    elif "raw" in content:
        data = content["raw"].encode()
    else:
        v = types.decode(content["v"])
        data = yaml.safe_dump(v, default_flow_style=content.get("flow"), allow_unicode=True, sort_keys=False).encode()
        if yaml.safe_load(data.decode()) != v:
            return write(path, None)
    with open(path, "wb") as f:
        f.write(data)


def run(case, ctx):
    top = tempfile.mkdtemp(prefix="vt-files-")
    old = os.environ.get("AMENT_PREFIX_PATH")
    cwd = os.getcwd()
    try:
        index = os.path.join(top, "pkgs/share/ament_index/resource_index/packages")
        os.makedirs(index)
        open(os.path.join(index, "pkg"), "w").close()
        os.makedirs(os.path.join(top, "pkgs/share/pkg/sub"))
        os.environ["AMENT_PREFIX_PATH"] = os.path.join(top, "pkgs")
        _run(case, ctx, top)
    finally:
        os.chdir(cwd)
        if old is None:
            del os.environ["AMENT_PREFIX_PATH"]
        else:
            os.environ["AMENT_PREFIX_PATH"] = old
        shutil.rmtree(top, ignore_errors=True)


def _run(case, ctx, top):
    cls = case["cls"]
    kind = {"YamlList": list, "YamlDict": dict}[cls]
    desc = nodeio.base()[("ros_bt_py.nodes.file", cls)]
    files = [os.path.join(top, "pkgs/share/pkg", n) for n in NAMES]
    contents = list(case["files"])
    for f, c in zip(files, contents):
        write(f, c)

    def text(k):
        return PATHS[k][0].replace("{d}", top)

    given = [["element_type", {"static": True, "v": case["elem"]}]] if case["elem"] is not None else []
    given.append(["file_path", {"static": case["static"], "v": text(case["path"]) if case["static"] else None}])
    msg, choices = nodeio.make_msg(desc, {"name": "n", "id": 1, "inputs": given})
    r = nodeio.build(msg)
    expect(r.is_ok(), "%s can't be created: %s" % (cls, r))
    node = r.unwrap()
    io = next(o for o in desc.outputs if o.key == "content")
    spec = nodeio.resolve(desc, choices, io.type)
    path = case["path"] if case["static"] else None
    state, result, changed = U, None, False
    keys = ["load_success", "content"] + (["line_count"] if kind is list else [])
    outs = {}
    for i, op in enumerate(case["ops"]):
        what = "%s, step %d (%s)" % (cls, i, op)
        if isinstance(op, list) and op[0] == "write":
            contents[op[1]] = op[2]
            write(files[op[1]], op[2])
            continue
        if isinstance(op, list):
            if not case["static"]:
                expect(node.node_config.inputs["file_path"].set_value(text(op[1])).is_ok(), what + ": path refused")
                if path is None or text(path) != text(op[1]):
                    changed = True
                path = op[1]
            continue
        want, loose = "ok", False
        if op == "s":
            if state not in (U, X):
                continue
            state, result, changed = I, None, True
            if not case["static"]:
                path = None
            outs = dict.fromkeys(keys)
        elif op == "x":
            state = X
        elif state in (U, X, B):
            continue
        elif op == "u":
            state = I
        elif op == "r":
            state, result, changed = I, None, True
            outs = dict.fromkeys(keys)
        elif path is None:
            want, state = "err", B
        else:
            if changed:
                result = None
            changed = False
            if result is None:
                n = PATHS[path][1]
                c = None if n is None else contents[n]
                v = types.decode(c["v"]) if c is not None and "v" in c and os.path.isfile(files[n]) else None
                if c is not None and ("raw" in c or v in ([], {})):
                    # empty ones, and the others that happen to be readable: anything but an exception
                    loose = True
                elif isinstance(v, kind) and not types.accepts(spec, v):
                    loose = True
                elif isinstance(v, kind):
                    result = S
                    outs = {"load_success": True, "content": v, "line_count": len(v)}
                    if kind is dict:
                        del outs["line_count"]
                else:
                    result = F
                    outs["load_success"] = False
                ctx.tag("read")
            else:
                ctx.tag("repeated")
            state = result
        r = {"s": node.setup, "t": node.tick, "u": node.untick, "r": node.reset, "x": node.shutdown}[op]()
        got = "err" if r.is_err() else "ok"
        now = {k: node.node_config.outputs[k].get_value().unwrap_or(None) for k in ("load_error_msg", *outs)}
        if loose:
            ctx.tag("odd")
            if (got, node.state) == ("err", B):
                return
            if (got, node.state) not in (("ok", S), ("ok", F)):
                raise Violation("%s: got %s, %s" % (what, got, node.state))
            state = result = node.state
            expect_eq(now["load_success"], state == S, what + ": load_success")
            if state == S:
                outs = {k: now[k] for k in outs}
                expect(isinstance(now["content"], kind), what + ": content is " + repr(now["content"]))
                if "line_count" in outs:
                    expect_eq(now["line_count"], len(now["content"]), what + ": line_count")
            else:
                outs["load_success"] = False
        else:
            expect_eq((got, node.state), (want, state), what + " with %r" % (None if path is None else text(path)))
        if op == "t" and state in (S, F):
            ctx.nontrivial()
            ctx.tag(state)
            expect_eq(type(now["load_error_msg"]), str, what + ": kind of error message")
            expect_eq(now["load_error_msg"] == "", state == S, what + ": no error message")
        if state == B:
            continue
        for k, x in outs.items():
            if not compute.eq(now[k], x):
                raise Violation("%s: %s is %r, expected %r" % (what, k, now[k], x))


PLAIN = st.one_of(
    st.booleans(), st.integers(-2**63, 2**63 - 1), st.integers(-5, 5), st.floats(-1e6, 1e6), types.TEXT.filter(lambda t: t.isprintable()),
    st.sampled_from(["yes", "null", "~", "1e3", "0o7", "2001-01-01", " a ", "- x", "k: v", "#", "", "a\nb\n", "äöü ∀"]),
)


@st.composite
def content(draw, kind, elem):
    how = draw(st.integers(0, 11))
    if how == 0:
        return None
    if how == 1:
        return {"raw": draw(st.sampled_from(RAW))}
    if how == 2:
        return draw(st.sampled_from([{"dir": 1}] + [{"hex": h} for h in HEX]))
    one = {
        "bool": st.booleans(), "int": st.integers(-2**40, 2**40), "float": st.floats(-1e6, 1e6) | st.integers(-9, 9), "str": PLAIN.filter(lambda x: isinstance(x, str)),
        "list": st.one_of(st.lists(st.integers(0, 9), max_size=3), st.lists(types.TEXT.filter(lambda t: t.isprintable()), max_size=3), st.lists(PLAIN, max_size=2)),
        "dict": st.one_of(st.dictionaries(st.sampled_from("abc"), st.integers(0, 9), max_size=3), st.dictionaries(st.sampled_from("abc"), PLAIN, max_size=3)),
    }[elem] if how > 3 else PLAIN | st.lists(PLAIN, max_size=2)
    li = st.lists(one, min_size=1, max_size=5)
    di = st.dictionaries(st.sampled_from(["a", "b", "key", "1", "ä", " x "]), one, min_size=1, max_size=4)
    v = draw({list: (li, di), dict: (di, li)}[kind][how == 4] if how != 5 else st.sampled_from([[], {}, None, 1, "x", True]))
    if isinstance(v, dict):
        v = {"__d__": [[k, x] for k, x in v.items()]}
    return {"v": encode(v), "flow": draw(st.sampled_from([None, True, False]))}


def encode(v):
    if isinstance(v, dict) and "__d__" not in v:
        return {"__d__": [[k, encode(x)] for k, x in v.items()]}
    if isinstance(v, dict):
        return {"__d__": [[k, encode(x)] for k, x in v["__d__"]]}
    if isinstance(v, list):
        return [encode(x) for x in v]
    return v


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(["YamlList", "YamlDict"]))
    kind = list if cls == "YamlList" else dict
    elem = draw(st.sampled_from(["bool", "int", "float", "str", "str", "list", "dict"]))
    if elem in ("list", "dict"):
        choice = compute.listed(compute.LOOSE[draw(st.sampled_from(["int", "str"]))])
        if elem == "dict":
            choice[0] = ["type_identifier", compute.D.DICT_TYPE]
        choice = {"__d__": choice}
    elif draw(st.booleans()):
        choice = draw(types.generic_value([elem]))
    else:
        choice = {"__d__": compute.LOOSE[elem]}
    good = [k for k, p in enumerate(PATHS) if p[1] is not None]
    paths = st.one_of(st.sampled_from(good), st.sampled_from(good), st.integers(0, len(PATHS) - 1))
    text = content(kind, elem)
    static = draw(st.booleans())
    ops = [] if draw(st.integers(0, 5)) == 0 else ["s"]
    for _ in range(draw(st.integers(1, 10))):
        ops.append(
            draw(
                st.one_of(
                    st.sampled_from(["t", "t", "t", "t", "u", "r", "s", "x"]),
                    paths.map(lambda k: ["path", k]),
                    st.tuples(st.just("write"), st.integers(0, 2), text).map(list),
                )
            )
        )
        if ops[-1] in ("s", "x"):
            ops.append("s")
        if isinstance(ops[-1], list):
            ops.append("t")
    if not static and draw(st.integers(0, 9)):
        out = []
        for op in ops:
            out.append(op)
            if op == "s":
                out.append(["path", draw(paths)])
        ops = out
    return {"cls": cls, "elem": choice, "static": static, "path": draw(paths), "files": [draw(text) for _ in NAMES], "ops": ops}
