"""Edit sequences on a real tree manager next to a model of the tree.

A case is a list of operations.  Nodes are referred to by the order in which they
were created, so that removed nodes keep being referred to as well.
"""
import copy
import json
import uuid

from hypothesis import strategies as st

from . import bootstrap

bootstrap.boot()

from ros_bt_py import data_types as dt  # noqa: E402
from ros_bt_py.logging_manager import LoggingManager  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import (  # noqa: E402
    NodeDataLocation,
    NodeIO,
    NodeStructure,
    Wiring,
)
from ros_bt_py_interfaces.srv import (  # noqa: E402
    AddNode,
    AddNodeAtIndex,
    ChangeTreeName,
    ClearTree,
    GenerateSubtree,
    GetSubtree,
    LoadTree,
    MorphNode,
    MoveNode,
    ReloadTree,
    RemoveNode,
    ReplaceNode,
    SetLogLevel,
    SetOptions,
    WireNodeData,
)

from . import nodes as _nodes  # noqa: E402,F401  (registers Source and IntSink)
from .core import HarnessError, Violation, expect, expect_eq  # noqa: E402
from .fakeros import FakeNode  # noqa: E402
from .props.c04 import reference  # noqa: E402

ZERO = str(uuid.UUID(int=0))
D = dt.NodeDataType


def quiet():
    LoggingManager.set_min_log_level(
        SetLogLevel.Request(min_log_level=100), SetLogLevel.Response()
    )


quiet()

# ------------------------------------------------------------------ types
INT = {"type_identifier": D.INT_TYPE, "min_value": dt.INT_LIMITS["int64"][0], "max_value": dt.INT_LIMITS["int64"][1]}
I64 = {"t": "int", "min": INT["min_value"], "max": INT["max_value"]}
TYPES = {
    # tag: (what is chosen on the node, the resulting type, some values)
    "int": (INT, I64, [0, 7, -3, 2**53 + 1, dt.INT_LIMITS["int64"][1]]),
    "small": (dict(INT, min_value=0, max_value=10), {"t": "int", "min": 0, "max": 10}, [0, 10, 4]),
    "float": (
        {"type_identifier": D.FLOAT_TYPE, "min_value": dt.FLOAT_LIMITS["double"][0], "max_value": dt.FLOAT_LIMITS["double"][1]},
        {"t": "float"},
        [0.0, 0.1, -2.5e300],
    ),
    "str": ({"type_identifier": D.STRING_TYPE, "max_length": 2**53}, {"t": "string", "max": 2**53}, ["", "a", "x: [1]\n'\"", "\u00e4\u2603"]),
    "str3": ({"type_identifier": D.STRING_TYPE, "max_length": 3}, {"t": "string", "max": 3}, ["", "abc"]),
    "bool": ({"type_identifier": D.BOOL_TYPE}, {"t": "bool"}, [True, False]),
    "lint": (
        {"type_identifier": D.LIST_TYPE, "max_length": 5, "strict_length": False, "element_type": INT},
        {"t": "list", "max": 5, "strict": False, "elem": I64},
        [[], [1, 2, 3]],
    ),
    "dstr": (
        {"type_identifier": D.DICT_TYPE, "max_length": 5, "strict_length": False,
         "element_type": {"type_identifier": D.STRING_TYPE, "max_length": 2**53}},
        {"t": "dict", "max": 5, "strict": False, "elem": {"t": "string", "max": 2**53}},
        [{}, {"k": "v", "\u00e9": ""}],
    ),
}
SRC = {
    "i": {"t": "int"},
    "small": {"t": "int", "min": 0, "max": 10},
    "s": {"t": "string"},
    "b": {"t": "bool"},
    "f": {"t": "float"},
    "l": {"t": "list", "elem": {"t": "int"}},
    "d": {"t": "dict", "elem": {"t": "string"}},
}

PKG = "ros_bt_py.nodes."
KINDS = {
    # kind: (module, maximum number of children, static option, generic type input)
    "Sequence": (PKG + "sequence", None),
    "MemorySequence": (PKG + "sequence", None),
    "Fallback": (PKG + "fallback", None),
    "MemoryFallback": (PKG + "fallback", None),
    "Parallel": (PKG + "parallel", None),
    "ParallelFailureTolerance": (PKG + "parallel", None),
    "Inverter": (PKG + "decorators", 1),
    "Retry": (PKG + "decorators", 1),
    "Repeat": (PKG + "decorators", 1),
    "Constant": (PKG + "constant", 0),
    "PassthroughNode": (PKG + "passthrough_node", 0),
    "Compare": (PKG + "compare", 0),
    "RandomInt": (PKG + "random_number", 0),
    "Source": ("vt.nodes", 0),
    "IntSink": ("vt.nodes", 0),
}
OPTIONS = {
    # kind: [(input, where the value is in the description of a node, least value)]
    "Parallel": [("needed_successes", "v", 1)],
    "ParallelFailureTolerance": [("needed_successes", "v", 1), ("tolerate_failures", "w", 0)],
    "Retry": [("num_retries", "v", 0)],
    "Repeat": [("num_repeats", "v", 1)],
    "RandomInt": [("min", "v", None), ("max", "w", None)],
}
TYPED = {
    "Constant": ("constant_type", "constant_value", [], ["constant"]),
    "PassthroughNode": ("passthrough_type", None, ["in"], ["out"]),
    "Compare": ("compare_type", None, ["a", "b"], []),
}
INNER = ("Sequence", "MemorySequence", "Fallback", "MemoryFallback", "Parallel", "ParallelFailureTolerance")
DECO = ("Inverter", "Retry", "Repeat")
LEAF = ("Constant", "PassthroughNode", "Compare", "Source", "IntSink", "RandomInt")


def io(key, container):
    return NodeIO(key=key, type=container.serialize_type(), serialized_value=container.serialize_value())


def must(result, what):
    if result.is_err():
        raise Violation("%s: %s" % (what, result))


def inputs_for(spec):
    """The inputs the editor would send for a node."""
    k = spec["k"]
    out = []
    if k in OPTIONS:
        for key, where, least in OPTIONS[k]:
            c = dt.IntType() if least is None else dt.IntType(allow_dynamic=False, min_value=least)
            must(c.set_value(spec[where]), "option of %s" % k)
            out.append(io(key, c))
    elif k in TYPED:
        type_key, value_key, ins, _ = TYPED[k]
        g = dt.GenericType()
        must(g.set_value(copy.deepcopy(TYPES[spec["t"]][0])), "type of %s" % k)
        out.append(io(type_key, g))
        m = {type_key: g}
        if value_key:
            r = dt.ReferenceType(type_key, allow_dynamic=False)
            must(r.set_type_map(m), "reference")
            must(r.set_value(copy.deepcopy(spec["v"])), "value of %s %s" % (k, spec))
            out.append(io(value_key, r))
        for key in ins:
            if key == "a" or key == "in":
                r = dt.ReferenceType(type_key, is_static=False)
            else:
                r = dt.ReferenceType(type_key, is_static=spec.get("static_b", False))
            must(r.set_type_map(m), "reference")
            if spec.get("static_b") and key == "b":
                must(r.set_value(copy.deepcopy(spec["v"])), "value of b")
            out.append(io(key, r))
    return out


def node_msg(spec, child_ids=()):
    return NodeStructure(
        module=KINDS[spec["k"]][0],
        node_class=spec["k"],
        name=spec["n"],
        inputs=inputs_for(spec),
        child_ids=list(child_ids),
    )


def spoil(msg, how):
    """Make a node description that must be refused."""
    if how == "module":
        msg.module = "ros_bt_py.nodes.no_such_module"
    elif how == "class":
        msg.node_class = "NoSuchNode"
    elif how == "input":
        msg.inputs = list(msg.inputs) + [io("no_such_input", dt.IntType(value=1))]
    elif how == "type":
        # a known input with a type that does not fit
        key = msg.inputs[0].key if msg.inputs else "no_such_input"
        msg.inputs = [io(key, dt.BytesType(value=b"a", is_static=True))] + list(msg.inputs)[1:]
    elif how == "typeid":
        bad = NodeIO(key="x")
        bad.type.type_identifier = 250
        msg.inputs = list(msg.inputs) + [bad]
    elif how == "relative":
        msg.module = ".decorators"
    elif how == "nomodule":
        msg.module = ""
    return msg


SPOILS = ("module", "class", "input", "type", "typeid", "relative", "nomodule")


# ------------------------------------------------------------------ model
class M:
    """One node of the model tree."""

    def __init__(self, handle, spec):
        self.h = handle
        self.spec = copy.deepcopy(spec)
        self.children = []
        self.parent = None

    @property
    def max(self):
        return KINDS[self.spec["k"]][1]

    def outs(self):
        k = self.spec["k"]
        if k == "Source":
            return SRC
        if k == "RandomInt":
            return {"random_number": {"t": "int"}}
        if k in TYPED:
            return {o: TYPES[self.spec["t"]][1] for o in TYPED[k][3]}
        return {}

    def ins(self):
        """key -> (type, is it static)"""
        k = self.spec["k"]
        if k == "IntSink":
            return {"i": ({"t": "int"}, False)}
        if k in OPTIONS:
            return {key: ({"t": "int"}, True) for key, _, _ in OPTIONS[k]}
        if k in TYPED:
            type_key, value_key, ins, _ = TYPED[k]
            d = {type_key: ({"t": "generic", "types": list("x")}, True)}
            t = TYPES[self.spec["t"]][1]
            if value_key:
                d[value_key] = (t, True)
            for key in ins:
                d[key] = (t, bool(self.spec.get("static_b")) and key == "b")
            return d
        return {}

    def static_values(self):
        """key -> value of the static inputs, types as their dictionaries"""
        k = self.spec["k"]
        if k in OPTIONS:
            return {key: self.spec[where] for key, where, _ in OPTIONS[k]}
        if k in TYPED:
            d = {TYPED[k][0]: TYPES[self.spec["t"]][0]}
            if TYPED[k][1]:
                d[TYPED[k][1]] = self.spec["v"]
            if self.spec.get("static_b"):
                d["b"] = self.spec["v"]
            return d
        return {}


class Tree:
    def __init__(self):
        self.nodes = {}
        self.wirings = []
        self.name = None
        self.public = ([], [])  # inputs and outputs of the whole tree, or None: not documented

    def copy(self):
        return copy.deepcopy(self)

    def attach(self, h, parent, idx):
        kids = self.nodes[parent].children
        if idx < 0:
            idx += len(kids) + 1
        kids.insert(idx, h)
        self.nodes[h].parent = parent

    def detach(self, h):
        p = self.nodes[h].parent
        if p is not None:
            self.nodes[p].children.remove(h)
            self.nodes[h].parent = None

    def below(self, h):
        out = []
        todo = list(self.nodes[h].children)
        while todo:
            x = todo.pop()
            out.append(x)
            todo.extend(self.nodes[x].children)
        return set(out)

    def full(self, h):
        n = self.nodes[h]
        return n.max is not None and len(n.children) >= n.max

    def wire_ok(self, w):
        s, sk, t, tk = w
        if s not in self.nodes or t not in self.nodes:
            return False
        so, ti = self.nodes[s].outs(), self.nodes[t].ins()
        if sk not in so or tk not in ti:
            return False
        ttype, static = ti[tk]
        if static:
            return False
        flags = {"dyn": True, "stat": False}
        return reference(dict(ttype, **flags), dict(so[sk], **flags))

    def drop_wirings(self, gone):
        self.wirings = [w for w in self.wirings if w[0] not in gone and w[2] not in gone]

    def roots(self):
        return [h for h, n in self.nodes.items() if n.parent is None]


class Either(Exception):
    """The outcome is not documented: refusing and doing it are both fine."""

    def __init__(self, tree):
        self.tree = tree


# ----------------------------------------------------------- what is compared
def parse(text):
    return json.loads(text) if text else None


def canonical(msg):
    """Everything a structure message says, independent of the order of lists that have none."""
    nodes = {}
    for n in msg.nodes:
        if n.node_id in nodes:
            raise Violation("node %s is listed twice" % n.node_id)
        nodes[n.node_id] = {
            "module": n.module,
            "class": n.node_class,
            "name": n.name,
            "children": list(n.child_ids),
            "max": n.max_children,
            "inputs": {i.key: [repr(i.type), i.serialized_value] for i in n.inputs},
            "outputs": {i.key: repr(i.type) for i in n.outputs},
        }
    return {"name": msg.name, "nodes": nodes, "wirings": sorted(wire_tuple(w) for w in msg.data_wirings)}


def wire_tuple(w):
    return (w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key)


class Harness:
    def __init__(self, publish=True, make=TreeEditManager):
        self.published = []
        self.m = make(
            ros_node=FakeNode(), publish_tree_structure_callback=self._publish if publish else None
        )
        self.tree = Tree()
        self.ids = []  # handle -> id
        self.snapshots = []  # (message, model)
        self.name = None

    def _publish(self, msg):
        self.published = [copy.deepcopy(msg.tree_structures[-1])]

    # -- references
    def ref(self, r):
        """[handle or None, id text].  A number picks among the nodes that are there,
        ["room", n] among those that can take a child, ["leaf", n] among the others,
        ["any", n] among all that ever were."""
        if isinstance(r, str):
            if r == "unknown":
                return None, str(uuid.UUID(int=12345))
            if r == "root":
                return None, ZERO
            return None, r  # malformed
        t = self.tree.nodes
        pool = list(t)
        if isinstance(r, list):
            role, r = r
            if role == "room":
                pool = [h for h in t if t[h].max is None or len(t[h].children) < t[h].max]
            elif role == "leaf":
                pool = [h for h in t if t[h].max == 0]
            elif role == "wired":
                ends = [h for w in self.tree.wirings for h in (w[0], w[2])]
                pool = [h for h in t if ends.count(h) > 1 and t[h].spec["k"] in TYPED] or pool
            elif role == "any":
                pool = list(range(len(self.ids)))
        if not pool:
            return None, str(uuid.UUID(int=54321))
        h = pool[r % len(pool)]
        return h, self.ids[h]

    def possible(self):
        """Every wiring that would be right and isn't there."""
        t = self.tree
        out = []
        for s, sn in t.nodes.items():
            for sk in sn.outs():
                for d, dn in t.nodes.items():
                    for dk in dn.ins():
                        w = (s, sk, d, dk)
                        if t.wire_ok(w) and w not in t.wirings:
                            out.append(w)
        return out

    def alive(self, r):
        h, i = self.ref(r)
        if h is None or h not in self.tree.nodes:
            return None, i
        return h, i

    def wiring(self, w):
        if w[0] == "ok":
            p = self.possible()
            if p:
                s, sk, t, tk = p[w[1] % len(p)]
                return (s, sk, t, tk), Wiring(
                    source=NodeDataLocation(node_id=self.ids[s], data_key=sk),
                    target=NodeDataLocation(node_id=self.ids[t], data_key=tk),
                )
            w = ["unknown", "i", "unknown", "i"]
        s, si = self.alive(w[0])
        t, ti = self.alive(w[2])
        return (
            (s, w[1], t, w[3]),
            Wiring(
                source=NodeDataLocation(node_id=si, data_key=w[1]),
                target=NodeDataLocation(node_id=ti, data_key=w[3]),
            ),
        )

    # -- operations: return (response, expected tree or None if it must be refused, changed)
    def op_add(self, spec, parent, idx, kids=(), bad=None):
        t = self.tree.copy()
        p, pid = self.alive(parent)
        new = len(self.ids)
        ok = bad is None
        if idx is not None and p is not None:
            idx = max(idx, -len(t.nodes[p].children) - 1)
        if parent != "root" and p is None:
            ok = False
        if ok and p is not None and t.full(p):
            ok = False
        refs = [self.alive(k) for k in kids]
        if ok:
            t.nodes[new] = M(new, spec)
            if p is not None:
                t.attach(new, p, -1 if idx is None else idx)
            for c, _ in refs:
                if c is None or t.nodes[c].parent is not None or t.full(new) or c == new:
                    ok = False
                    break
                if p is not None and (c == p or p in t.below(c)):
                    ok = False
                    break
                t.attach(c, new, -1)
        msg = node_msg(spec, [i for _, i in refs])
        if bad:
            spoil(msg, bad)
        if idx is None:
            r = self.m.add_node(AddNode.Request(parent_node_id=pid, node=msg), AddNode.Response())
        else:
            r = self.m.add_node_at_index(
                AddNodeAtIndex.Request(parent_node_id=pid, node=msg, new_child_index=idx),
                AddNodeAtIndex.Response(),
            )
        if r.success and ok:
            expect(r.node_id not in self.ids, "a new node got the id of another one")
            try:
                uuid.UUID(r.node_id)
            except ValueError:
                raise Violation("adding a node reports %r as its id" % r.node_id)
            self.ids.append(r.node_id)
        return r, t if ok else None

    def op_remove(self, ref, with_children):
        h, i = self.alive(ref)
        t = self.tree.copy()
        if h is not None:
            gone = {h} | (t.below(h) if with_children else set())
            t.detach(h)
            for g in gone:
                for c in list(t.nodes[g].children):
                    t.nodes[c].parent = None
            for g in gone:
                del t.nodes[g]
            t.drop_wirings(gone)
        r = self.m.remove_node(
            RemoveNode.Request(node_id=i, remove_children=with_children), RemoveNode.Response()
        )
        return r, t if h is not None else None

    def op_morph(self, ref, spec, bad=None):
        h, i = self.alive(ref)
        t = self.tree.copy()
        ok = h is not None and bad is None
        if ok:
            n = t.nodes[h]
            mx = KINDS[spec["k"]][1]
            ok = mx is None or len(n.children) <= mx
            n.spec = copy.deepcopy(spec)
            t.wirings = [w for w in t.wirings if t.wire_ok(w)]
        msg = node_msg(spec)
        if bad:
            spoil(msg, bad)
        r = self.m.morph_node(MorphNode.Request(node_id=i, new_node=msg), MorphNode.Response())
        return r, t if ok else None

    def op_opts(self, ref, change, name=None, bad=None):
        """change: new values for the kind of node that is there, or nothing; with
        "part" only one of the inputs is given, all others stay what they are"""
        h, i = self.alive(ref)
        t = self.tree.copy()
        inputs = []
        ok = h is not None and bad is None
        if h is not None:
            n = t.nodes[h]
            k = n.spec["k"]
            part = change.get("part") if change else None
            if change and k in TYPED:
                if part is None:
                    if not change.get("same"):
                        n.spec["t"], n.spec["v"] = change["t"], change["v"]
                    n.spec["static_b"] = change["static_b"] and k == "Compare"
                    inputs = inputs_for(n.spec)
                else:
                    old = n.spec["v"]
                    values = TYPES[n.spec["t"]][2]
                    n.spec["v"] = values[change["n"] % len(values)]
                    given = inputs_for(n.spec)
                    given = given[part % len(given)]
                    if given.key not in n.static_values() or TYPED[k][0] == given.key:
                        n.spec["v"] = old
                    inputs = [given]
            elif change and k in OPTIONS:
                fields = [where for _, where, _ in OPTIONS[k]]
                if part is not None:
                    fields = [fields[part % len(fields)]]
                for where in fields:
                    n.spec[where] = change["n" if where == "v" else "m"]
                keys = [key for key, where, _ in OPTIONS[k] if where in fields]
                inputs = [i for i in inputs_for(n.spec) if i.key in keys]
            if name is not None:
                n.spec["n"] = name
            t.wirings = [w for w in t.wirings if t.wire_ok(w)]
        if bad:
            if bad in ("module", "class", "relative", "nomodule"):
                bad = "input"
            inputs = list(spoil(NodeStructure(inputs=inputs), bad).inputs)
        r = self.m.set_options(
            SetOptions.Request(node_id=i, rename_node=name is not None, new_name=name or "", inputs=inputs),
            SetOptions.Response(),
        )
        return r, t if ok else None

    def op_move(self, ref, parent, idx):
        h, i = self.alive(ref)
        p, pid = self.alive(parent)
        t = self.tree.copy()
        ok = h is not None and (p is not None or parent == "root")
        either = False
        if ok and p is None:
            t.detach(h)
        elif ok:
            if p == h or p in t.below(h):
                ok = False
            else:
                same = t.nodes[h].parent == p
                if t.full(p):
                    either, ok = same, same
                if ok:
                    t.detach(h)
                    idx = max(idx, -len(t.nodes[p].children) - 1)
                    t.attach(h, p, idx)
        r = self.m.move_node(
            MoveNode.Request(node_id=i, parent_node_id=pid, new_child_index=idx), MoveNode.Response()
        )
        if either and not r.success:
            ok = False
        return r, t if ok else None

    def op_replace(self, old, new):
        o, oi = self.alive(old)
        n, ni = self.alive(new)
        t = self.tree.copy()
        ok = o is not None and n is not None and o != n and o not in t.below(n)
        if ok:
            moved = [c for c in t.nodes[o].children if c != n]
            mx = t.nodes[n].max
            ok = mx is None or len(t.nodes[n].children) + len(moved) <= mx
        if ok:
            parent = t.nodes[o].parent
            if n in t.below(o):
                t.detach(n)
            for c in moved:
                # a child that led to the new node is still there
                t.detach(c)
                t.attach(c, n, -1)
            if parent is not None:
                t.detach(n)
                at = t.nodes[parent].children.index(o)
                t.detach(o)
                t.attach(n, parent, at)
            del t.nodes[o]
            t.drop_wirings({o})
        r = self.m.replace_node(ReplaceNode.Request(old_node_id=oi, new_node_id=ni), ReplaceNode.Response())
        return r, t if ok else None

    def op_wire(self, ws, ignore):
        t = self.tree.copy()
        ok = True
        msgs = []
        for w in ws:
            tup, msg = self.wiring(w)
            good = None not in (tup[0], tup[2]) and t.wire_ok(tup)
            if good and tup in t.wirings:
                continue  # wiring twice is not documented
            msgs.append(msg)
            if good:
                t.wirings.append(tup)
            else:
                ok = ok and ignore
        r = self.m.wire_data(WireNodeData.Request(wirings=msgs, ignore_failure=ignore), WireNodeData.Response())
        return r, t if ok else None

    def op_unwire(self, picks, others, ignore, at=None):
        """at: where among the wirings that are there those that aren't are named"""
        t = self.tree.copy()
        ok = True
        msgs = []
        for p in picks:
            if not t.wirings:
                break
            w = t.wirings.pop(p % len(t.wirings))
            msgs.append(
                Wiring(
                    source=NodeDataLocation(node_id=self.ids[w[0]], data_key=w[1]),
                    target=NodeDataLocation(node_id=self.ids[w[2]], data_key=w[3]),
                )
            )
        for w in others:
            if isinstance(w, int):
                # one that was named already
                if msgs:
                    msgs.append(copy.deepcopy(msgs[w % len(msgs)]))
                    ok = ok and ignore
                continue
            tup, msg = self.wiring(w)
            if tup in self.tree.wirings:
                continue
            msgs.insert(len(msgs) if at is None else at, msg)
            ok = ok and ignore
        r = self.m.unwire_data(WireNodeData.Request(wirings=msgs, ignore_failure=ignore), WireNodeData.Response())
        return r, t if ok else None

    def op_rename(self, name):
        t = self.tree.copy()
        t.name = name
        r = self.m.change_tree_name(ChangeTreeName.Request(name=name), ChangeTreeName.Response())
        return r, t

    def op_clear(self):
        r = self.m.clear(ClearTree.Request(), ClearTree.Response())
        t = Tree()
        return r, t

    def op_reload(self):
        r = self.m.reload_tree(ReloadTree.Request(), ReloadTree.Response())
        if not self.tree.nodes:
            if r.success:
                return r, self.tree.copy()
            return r, None
        return r, self.tree.copy()

    def op_snapshot(self):
        self.snapshots.append((copy.deepcopy(self.m.structure_to_msg()), self.tree.copy()))
        return None, self.tree.copy()

    def op_load(self, k, public=None):
        """public: the tree also says which of its inputs and outputs are its own"""
        if not self.snapshots:
            return None, self.tree.copy()
        msg, model = self.snapshots[k % len(self.snapshots)]
        if not model.nodes:
            return None, self.tree.copy()
        msg, model = copy.deepcopy(msg), model.copy()
        if public is not None:
            places = [
                sorted((self.ids[h], key) for h, n in model.nodes.items() for key in n.ins()),
                sorted((self.ids[h], key) for h, n in model.nodes.items() for key in n.outs()),
            ]
            model.public = tuple(
                [pool[p % len(pool)] for p in dict.fromkeys(p % len(pool) for p in picks)] if pool else []
                for pool, picks in zip(places, public)
            )
            msg.public_inputs, msg.public_outputs = (
                [NodeDataLocation(node_id=a, data_key=b) for a, b in locs] for locs in model.public
            )
        r = self.m.load_tree(LoadTree.Request(tree=msg), LoadTree.Response())
        return r, model

    def op_subtree(self, ref):
        h, i = self.alive(ref)
        r = self.m.get_subtree(GetSubtree.Request(root_id=i), GetSubtree.Response())
        expect_eq(r.success, h is not None, "get_subtree of node %s" % ref)
        if h is None:
            return None, self.tree.copy()
        inside = {h} | self.tree.below(h)
        self.check_nodes(r.subtree, {x: self.tree.nodes[x] for x in inside}, "get_subtree")
        expect_eq(r.subtree.root_id, self.ids[h], "root of the subtree")
        inner = [w for w in self.tree.wirings if w[0] in inside and w[2] in inside]
        expect_eq(
            sorted(wire_tuple(w) for w in r.subtree.data_wirings),
            sorted((self.ids[a], b, self.ids[c], d) for a, b, c, d in inner),
            "wirings of the subtree",
        )
        for what, locs, want in (
            ("inputs", r.subtree.public_inputs, {(w[2], w[3]) for w in self.tree.wirings if w[2] in inside and w[0] not in inside}),
            ("outputs", r.subtree.public_outputs, {(w[0], w[1]) for w in self.tree.wirings if w[0] in inside and w[2] not in inside}),
        ):
            expect_eq(
                sorted((x.node_id, x.data_key) for x in locs),
                sorted((self.ids[a], b) for a, b in want),
                "public %s of the subtree" % what,
            )
        return None, self.tree.copy()

    def op_generate(self, refs):
        t = self.tree
        if not t.nodes or len(t.roots()) != 1:
            return None, t.copy()
        picked = {h for h, _ in (self.alive(r) for r in refs) if h is not None}
        keep = picked | {t.nodes[h].parent for h in picked} - {None}
        roots = [h for h in keep if t.nodes[h].parent not in keep]
        r = self.m.generate_subtree(
            GenerateSubtree.Request(node_ids=[self.ref(x)[1] for x in refs]), GenerateSubtree.Response()
        )
        expect_eq(r.success, len(roots) <= 1, "generating a subtree of %s (roots %s)" % (sorted(picked), roots))
        if r.success:
            part = {}
            for h in keep:
                n = copy.deepcopy(t.nodes[h])
                n.children = [c for c in n.children if c in keep]
                if n.parent not in keep:
                    n.parent = None
                part[h] = n
            self.check_nodes(r.tree, part, "generate_subtree")
            expect_eq(
                sorted(wire_tuple(w) for w in r.tree.data_wirings),
                sorted((self.ids[a], b, self.ids[c], d) for a, b, c, d in t.wirings if a in keep and c in keep),
                "wirings of the generated subtree",
            )
        return None, t.copy()

    # -- checks
    def check_nodes(self, msg, want, where):
        got = canonical(msg)["nodes"]
        expect_eq(set(got), {self.ids[h] for h in want}, where + ": nodes")
        for h, n in want.items():
            g = got[self.ids[h]]
            w = "%s: node %d (%s)" % (where, h, n.spec["k"])
            expect_eq(g["class"], n.spec["k"], w + " class")
            expect_eq(g["module"], KINDS[n.spec["k"]][0], w + " module")
            expect_eq(g["name"], n.spec["n"], w + " name")
            expect_eq(g["children"], [self.ids[c] for c in n.children], w + " children")
            expect_eq(g["max"], -1 if n.max is None else n.max, w + " maximum of children")
            for m in msg.nodes:
                if m.node_id != self.ids[h]:
                    continue
                vals = {i.key: i for i in m.inputs}
                expect_eq(set(vals), set(n.ins()), w + " inputs")
                expect_eq({o.key for o in m.outputs}, set(n.outs()), w + " outputs")
                for key, value in n.static_values().items():
                    expect_eq(decode_value(vals[key].serialized_value), value, w + " value of " + key)
                for key, (_, static) in n.ins().items():
                    expect_eq(vals[key].type.is_static, static, w + " is static: " + key)

    def check_runtime(self):
        m, t = self.m, self.tree
        live = {str(k): v for k, v in m.nodes.items()}
        expect_eq(set(live), {self.ids[h] for h in t.nodes}, "live nodes")
        for h, n in t.nodes.items():
            node = live[self.ids[h]]
            expect_eq(str(node.node_id), self.ids[h], "id of live node %d" % h)
            expect_eq(
                [str(c.node_id) for c in node.children],
                [self.ids[c] for c in n.children],
                "live children of node %d" % h,
            )
            for c in node.children:
                expect(live[str(c.node_id)] is c, "a child of node %d is not the node registered in the tree" % h)
                expect(c.parent is node, "a child of node %d names another parent" % h)
            expect_eq(node.parent is None, n.parent is None, "node %d has no parent" % h)
            expect_eq(type(node).__name__, n.spec["k"], "class of live node %d" % h)
            expect_eq(node.name, n.spec["n"], "name of live node %d" % h)
            for key, tspec in list(n.outs().items()):
                c = node.node_config.outputs[key].get_runtime_type()
                want = LIVE_TYPE[tspec["t"]]
                expect(isinstance(c, want), "output %s of node %d has type %s" % (key, h, c))
            for key, (tspec, _) in n.ins().items():
                if tspec["t"] in LIVE_TYPE:
                    c = node.node_config.inputs[key].get_runtime_type()
                    expect(isinstance(c, LIVE_TYPE[tspec["t"]]), "input %s of node %d has type %s" % (key, h, c))
            for key, value in n.static_values().items():
                r = node.inputs.get_value(key)
                expect(r.is_ok() and r.unwrap() == value, "live value of %s of node %d is %s, expected %r" % (key, h, r, value))

    def check_links(self):
        """The cheap part of check_runtime."""
        live = {str(k): v for k, v in self.m.nodes.items()}
        expect_eq(set(live), {self.ids[h] for h in self.tree.nodes}, "live nodes")
        for h, n in self.tree.nodes.items():
            node = live[self.ids[h]]
            expect_eq(
                [str(c.node_id) for c in node.children],
                [self.ids[c] for c in n.children],
                "live children of node %d" % h,
            )
            got = None if node.parent is None else str(node.parent.node_id)
            expect_eq(got, None if n.parent is None else self.ids[n.parent], "live parent of node %d" % h)

    def light_step(self, op, ctx):
        name, args = op[0], op[1:]
        self.published = []
        resp, want = getattr(self, "op_" + name)(*args)
        if want is None:
            expect(not resp.success, "%s was not refused" % (op,))
            ctx.tag("refused " + name)
        else:
            expect(resp.success, lambda: "%s was refused: %s" % (op, resp.error_message[:300]))
            ctx.tag(name)
            self.tree = want
        self.check_links()
        for m in self.published:
            self.check_nodes(m, self.tree.nodes, "after %s" % (op,))
        return want is not None

    def step(self, op, ctx):
        name, args = op[0], op[1:]
        before = canonical(self.m.structure_to_msg()) if self.tree is not None else None
        self.published = []
        resp, want = getattr(self, "op_" + name)(*args)
        where = "after %s" % (op,)
        if want is None:
            expect(not resp.success, "%s was not refused" % (op,))
            expect(bool(resp.error_message), "%s was refused without saying why" % (op,))
            ctx.tag("refused " + name)
            after = canonical(self.m.structure_to_msg())
            expect(after == before, lambda: "%s was refused, but changed the tree: %s" % (op, diff(before, after)))
        else:
            if resp is not None:
                expect(resp.success, lambda: "%s was refused: %s" % (op, resp.error_message[:300]))
                ctx.tag(name)
            self.tree = want
            if want.public != ([], []) and name not in ("add", "rename", "wire", "unwire", "reload", "load", "snapshot", "subtree", "generate"):
                want.public = None
        if resp is not None:
            expect(bool(self.published), "%s: the structure was not published" % (op,))
        msg = self.m.structure_to_msg()
        for m in [msg] + self.published:
            self.check_nodes(m, self.tree.nodes, where)
            expect_eq(
                sorted(wire_tuple(w) for w in m.data_wirings),
                sorted((self.ids[a], b, self.ids[c], d) for a, b, c, d in self.tree.wirings),
                where + ": wirings",
            )
            if self.tree.public is not None:
                expect_eq(
                    tuple([(x.node_id, x.data_key) for x in locs] for locs in (m.public_inputs, m.public_outputs)),
                    self.tree.public,
                    where + ": public inputs and outputs",
                )
            if self.tree.name is not None:
                expect_eq(m.name, self.tree.name, where + ": name of the tree")
            roots = self.tree.roots()
            if len(roots) == 1:
                expect_eq(m.root_id, self.ids[roots[0]], where + ": root")
        self.check_runtime()
        return want is not None


LIVE_TYPE = {
    "int": dt.IntType,
    "float": dt.FloatType,
    "string": dt.StringType,
    "bool": dt.BoolType,
    "list": dt.ListType,
    "dict": dt.DictType,
}


def decode_value(text):
    v = parse(text)

    def fix(v):
        if isinstance(v, dict) and "type_identifier" in v:
            d = dict(v)
            conv = {D.INT_TYPE: int, D.FLOAT_TYPE: float}.get(d["type_identifier"])
            for k in ("min_value", "max_value"):
                if k in d and conv:
                    d[k] = conv(d[k])
            if "element_type" in d:
                d["element_type"] = fix(d["element_type"])
            return d
        return v

    return fix(v)


def diff(a, b):
    if a["nodes"].keys() != b["nodes"].keys():
        return "nodes %s -> %s" % (sorted(a["nodes"]), sorted(b["nodes"]))
    for k in a["nodes"]:
        if a["nodes"][k] != b["nodes"][k]:
            return "node %s: %s -> %s" % (k, str(a["nodes"][k])[:400], str(b["nodes"][k])[:400])
    return "%s -> %s" % (a["wirings"], b["wirings"])


def run(case, ctx):
    h = Harness(publish=case.get("publish", True))
    changed = refused = extracts = 0
    step = h.light_step if case.get("mode") == "shape" else h.step
    for op in case["ops"]:
        extracts += op[0] in ("subtree", "generate")
        if step(op, ctx):
            changed += op[0] not in ("snapshot", "subtree", "generate")
        else:
            refused += 1
    if case.get("mode") == "extract":
        # what is below every single node
        for k in range(len(h.tree.nodes)):
            step(["subtree", k], ctx)
    ctx.tag("nodes %d" % min(len(h.tree.nodes), 10))
    if h.tree.wirings:
        ctx.tag("wired")
    if case.get("mode") == "refused":
        ctx.nontrivial(refused >= 2 and changed >= 2)
    elif case.get("mode") == "extract":
        ctx.nontrivial(extracts >= 2 and len(h.tree.nodes) >= 4)
    elif case.get("mode") == "wire":
        ctx.nontrivial(changed >= 3 and bool(h.tree.wirings or refused))
    else:
        ctx.nontrivial(changed >= 4)


# -------------------------------------------------------------- generation
NAMES = st.sampled_from(["a", "b", "c", "", "x y", "d.e", "\u00e4"])


@st.composite
def kind_spec(draw, kinds=None):
    k = draw(st.sampled_from(kinds or (INNER + DECO + LEAF)))
    s = {"k": k, "n": draw(st.sampled_from(["a", "b", "c", "x y", "d.e", "\u00e4"]))}
    if k in OPTIONS:
        s["v"] = draw(st.integers(1, 4))
        s["w"] = draw(st.integers(0, 5))
    if k in TYPED:
        s["t"] = draw(st.sampled_from(sorted(TYPES)))
        s["v"] = draw(st.sampled_from(TYPES[s["t"]][2]))
        if k == "Compare":
            s["static_b"] = draw(st.integers(0, 3)) == 0
    return s


REF = st.integers(0, 30)
KEYS_OUT = ["i", "small", "s", "b", "f", "l", "d", "constant", "out", "random_number", "nothing"]
KEYS_IN = ["i", "in", "a", "b", "constant_type", "num_retries", "nothing"]


class Gen:
    def __init__(self, draw, mode):
        self.draw = draw
        self.mode = mode
        self.n = 0
        self.taken = False

    def chance(self, one_in):
        return self.draw(st.sampled_from([False] * (one_in - 1) + [True]))

    def any_ref(self):
        d = self.draw
        if self.chance(5 if self.mode == "refused" else 16):
            return d(st.sampled_from(["unknown", "", "xyz", "root", ["any", d(REF)]]))
        return d(REF)

    def role(self, role):
        if self.chance(8):
            return self.any_ref()
        return [role, self.draw(REF)]

    def wire(self):
        d = self.draw
        if self.chance(3 if self.mode == "refused" else 5):
            return [
                self.role("leaf"),
                d(st.sampled_from(KEYS_OUT)),
                self.role("leaf"),
                d(st.sampled_from(KEYS_IN)),
            ]
        return ["ok", d(st.integers(0, 400))]

    def op(self):
        d = self.draw
        self.n += 1
        if self.mode == "shape":
            return self.shape_op()
        if self.n <= 6:
            # something to work on
            if self.n == 1:
                return ["add", d(kind_spec(INNER)), "root", None, [], None]
            kinds = (INNER, LEAF, LEAF, INNER + DECO, LEAF)[self.n - 2]
            if self.mode == "extract":
                # with something to wire
                kinds = (INNER, ("Source",), ("Source", "RandomInt"), INNER + DECO, ("IntSink", "PassthroughNode", "Compare"))[self.n - 2]
            return ["add", d(kind_spec(kinds)), ["room", d(REF)], d(st.integers(-2, 2)), [], None]
        c = d(st.sampled_from(WEIGHTS[self.mode]))
        if c == "load" and not self.taken:
            c = "snapshot"
        self.taken = self.taken or c == "snapshot"
        if c == "add":
            kinds = INNER + INNER + DECO + LEAF + LEAF if self.mode != "wire" else INNER + LEAF * 4
            s = d(kind_spec(kinds))
            bad = d(st.sampled_from(SPOILS)) if self.chance(4 if self.mode == "refused" else 16) else None
            parent = "root" if self.chance(6) else self.role("room")
            idx = d(st.one_of(st.none(), st.integers(-3, 5)))
            kids = []
            if self.chance(4):
                kids = d(st.lists(REF, min_size=1, max_size=2))
            return ["add", s, parent, idx, kids, bad]
        if c == "remove":
            return ["remove", self.any_ref(), d(st.booleans())]
        if c == "morph":
            bad = d(st.sampled_from(SPOILS)) if self.chance(4 if self.mode == "refused" else 10) else None
            if self.chance(4):
                return ["morph", self.any_ref(), d(kind_spec()), bad]
            r, kinds = d(st.sampled_from([(self.role("leaf"), LEAF), (self.role("room"), INNER + DECO), (self.any_ref(), INNER)]))
            return ["morph", r, d(kind_spec(kinds)), bad]
        if c == "opts":
            bad = d(st.sampled_from(SPOILS)) if self.chance(4 if self.mode == "refused" else 10) else None
            change = None
            if not self.chance(4):
                t = d(st.sampled_from(sorted(TYPES)))
                change = {"t": t, "v": d(st.sampled_from(TYPES[t][2])), "n": d(st.integers(1, 5)), "m": d(st.integers(0, 6)), "static_b": self.chance(4)}
                if self.chance(3):
                    change["part"] = d(st.integers(0, 5))
                elif self.chance(4):
                    change["same"] = True
            if self.mode == "wire" and d(st.booleans()):
                return ["opts", ["wired", d(REF)], change, d(st.one_of(st.none(), NAMES.filter(bool))), bad]
            r = self.role("leaf") if self.mode == "wire" else self.any_ref()
            return ["opts", r, change, d(st.one_of(st.none(), NAMES.filter(bool))), bad]
        if c == "move":
            return ["move", self.any_ref(), "root" if self.chance(8) else self.role("room"), d(st.integers(-3, 5))]
        if c == "replace":
            return ["replace", self.any_ref(), self.role("room") if d(st.booleans()) else self.any_ref()]
        if c == "wire":
            n = d(st.sampled_from([1, 1, 2, 3] if self.mode != "extract" else [1, 1, 1, 3]))
            return ["wire", [self.wire() for _ in range(n)], self.chance(4)]
        if c == "unwire":
            others = [self.wire() if d(st.booleans()) else d(st.integers(0, 3))] if self.chance(3) else []
            return ["unwire", d(st.lists(REF, min_size=0 if others else 1, max_size=3)), others, self.chance(4), d(st.sampled_from([None, 0, 1]))]
        if c == "rename":
            return ["rename", d(NAMES)]
        if c in ("clear", "reload", "snapshot"):
            return [c]
        if c == "load":
            return ["load", d(st.integers(0, 5))] + (
                [[d(st.lists(REF, max_size=2)), d(st.lists(REF, max_size=2))]] if self.chance(2) else []
            )
        if c == "subtree":
            return ["subtree", self.any_ref()]
        if c == "generate":
            return ["generate", d(st.lists(REF, max_size=4))]
        raise HarnessError(c)


    def shape_op(self):
        """Only links between nodes change, in small trees."""
        d = self.draw
        small = st.integers(0, 6)
        kinds = ("Sequence", "Sequence", "Fallback", "Inverter", "Source")
        if self.n <= 4:
            k = {"k": d(st.sampled_from(kinds[:3])), "n": "n%d" % self.n}
            return ["add", k, "root" if self.n == 1 else d(small), d(st.integers(-2, 2)), [], None]
        c = d(st.sampled_from(_SHAPE))
        if c == "add":
            kids = d(st.lists(small, max_size=2, unique=True))
            k = {"k": d(st.sampled_from(kinds)), "n": "n%d" % self.n}
            return ["add", k, d(st.one_of(st.just("root"), small)), d(st.integers(-2, 2)), kids, None]
        if c == "remove":
            return ["remove", d(small), d(st.booleans())]
        if c == "root":
            return ["move", d(small), "root", 0]
        if c == "move":
            return ["move", d(small), d(small), d(st.integers(-3, 3))]
        return ["replace", d(small), d(small)]


_SHAPE = ("move",) * 9 + ("root",) * 4 + ("add",) * 3 + ("remove",) * 2 + ("replace",) * 3


def _weights(**k):
    return [name for name, n in k.items() for _ in range(n)]


WEIGHTS = {
    "topology": _weights(add=16, remove=6, morph=6, opts=4, move=14, replace=9, wire=6, rename=1, clear=2, reload=2, snapshot=3, load=5, subtree=1, generate=1),
    "refused": _weights(add=7, remove=3, morph=5, opts=5, move=6, replace=5, wire=4, unwire=3, rename=1, reload=1),
    "extract": _weights(add=6, remove=3, move=4, wire=14, opts=2, subtree=9, generate=9, reload=1),
    "wire": _weights(add=7, remove=2, morph=3, opts=4, move=2, replace=2, wire=12, unwire=5, reload=1, snapshot=1, load=1, subtree=2, generate=1),
}


@st.composite
def cases(draw, mode, max_ops=20):
    g = Gen(draw, mode)
    n = draw(st.integers(8, max_ops))
    case = {"mode": mode, "ops": [g.op() for _ in range(n)]}
    if mode == "shape":
        case["publish"] = draw(st.sampled_from([False, False, True]))
    return case
