"""Node classes used by the checks: leaves whose behaviour comes from a script."""
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.data_types import (
    BoolType,
    DictType,
    FloatType,
    IntType,
    ListType,
    StringType,
)
from ros_bt_py_interfaces.msg import UtilityBounds

STATE = {
    "S": BTNodeState.SUCCEEDED,
    "F": BTNodeState.FAILED,
    "R": BTNodeState.RUNNING,
    "I": BTNodeState.IDLE,
    "P": BTNodeState.PAUSED,
    "X": BTNodeState.SHUTDOWN,
}

# name -> Script, filled by the check before a tree is built
SCRIPTS = {}
# order of leaf ticks over the whole tree
TICK_ORDER = []
# called with the name of a leaf while it is ticked
ON_TICK = []
# called while a GateLeaf is constructed
ON_CONSTRUCTION = []


class Script:
    def __init__(
        self, ticks="S", untick="I", reset="I", setup="I", shutdown="X", util=None
    ):
        self.ticks = ticks or "S"
        self.pos = 0
        self.untick = untick
        self.reset = reset
        self.setup = setup
        self.shutdown = shutdown
        self.util = util
        self.log = []

    def next_tick(self):
        c = self.ticks[self.pos % len(self.ticks)]
        self.pos += 1
        return c


def clear():
    SCRIPTS.clear()
    del TICK_ORDER[:]
    del ON_TICK[:]
    del ON_CONSTRUCTION[:]
    STEPS.clear()
    SEEN.clear()
    FEED.clear()
    del PER_INSTANCE[:]


def _result(code):
    if code == "E":
        return Err(BehaviorTreeException("scripted error"))
    if code == "!":
        raise ArithmeticError("scripted exception")
    return Ok(STATE[code])


def utility_msg(util):
    """util: None or [can_execute, lo_s, up_s, lo_f, up_f] with None for no bound."""
    if util is None:
        return UtilityBounds(
            can_execute=True,
            has_lower_bound_success=True,
            has_upper_bound_success=True,
            has_lower_bound_failure=True,
            has_upper_bound_failure=True,
        )
    can, ls, us, lf, uf = util
    return UtilityBounds(
        can_execute=can,
        has_lower_bound_success=ls is not None,
        lower_bound_success=float(ls or 0),
        has_upper_bound_success=us is not None,
        upper_bound_success=float(us or 0),
        has_lower_bound_failure=lf is not None,
        lower_bound_failure=float(lf or 0),
        has_upper_bound_failure=uf is not None,
        upper_bound_failure=float(uf or 0),
    )


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class ScriptLeaf(Leaf):
    """Returns what its script says and records every call it receives."""

    def _script(self):
        return SCRIPTS.setdefault(self.name, Script())

    def _do_setup(self):
        s = self._script()
        s.log.append("s")
        return _result(s.setup)

    def _do_tick(self):
        s = self._script()
        s.log.append("t")
        TICK_ORDER.append(self.name)
        for fn in list(ON_TICK):
            fn(self.name)
        return _result(s.next_tick())

    def _do_untick(self):
        s = self._script()
        s.log.append("u")
        return _result(s.untick)

    def _do_reset(self):
        s = self._script()
        s.log.append("r")
        return _result(s.reset)

    def _do_shutdown(self):
        s = self._script()
        s.log.append("x")
        return _result(s.shutdown)

    def _do_calculate_utility(self):
        s = self._script()
        if s.util == "E":
            return Err(BehaviorTreeException("scripted error"))
        return Ok(utility_msg(s.util))


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class GateLeaf(ScriptLeaf):
    """Lets a check look at the moment a node comes into being."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for fn in list(ON_CONSTRUCTION):
            fn(self.name)


# values a Source/Sink works with: name -> list of produced values / seen values
FEED = {}
SEEN = {}


def _simple(cls):
    def ret(state):
        def f(self):
            return Ok(state)

        return f

    cls._do_setup = ret(BTNodeState.IDLE)
    cls._do_untick = ret(BTNodeState.IDLE)
    cls._do_reset = ret(BTNodeState.IDLE)
    cls._do_shutdown = ret(BTNodeState.SHUTDOWN)
    # the abstract methods are there now
    import abc

    abc.update_abstractmethods(cls)
    return cls


def _io():
    return {
        "i": IntType(allow_static=False),
        "small": IntType(min_value=0, max_value=10, allow_static=False),
        "s": StringType(allow_static=False),
        "b": BoolType(allow_static=False),
        "f": FloatType(allow_static=False),
        "l": ListType(element_type=IntType(), allow_static=False),
        "d": DictType(element_type=StringType(), allow_static=False),
    }


@define_bt_node(NodeConfig(inputs={}, outputs=_io(), max_children=0))
@_simple
class Source(Leaf):
    """Each tick writes the next dict of outputs from FEED[name]."""

    def _do_tick(self):
        feed = FEED.get(self.name) or []
        if feed:
            step = feed.pop(0)
            for key, value in step.items():
                match self.outputs.set_value(key, value):
                    case Err(e):
                        return Err(e)
                    case Ok(_):
                        pass
        return Ok(BTNodeState.SUCCEEDED)


@define_bt_node(
    NodeConfig(
        inputs={"i": IntType(allow_static=False)}, outputs={}, max_children=0
    )
)
@_simple
class IntSink(Leaf):
    def _do_tick(self):
        SEEN.setdefault(self.name, []).append(
            (self.inputs.get_value("i").unwrap(), self.inputs.any_updated("i").unwrap())
        )
        return Ok(BTNodeState.SUCCEEDED)


# name -> list of [result code, {output: value}] for the data leaves; a value
# ["<", key] stands for what was read from that input
STEPS = {}
DATA = {}
# data leaves of the same name keep their own log (set by vt.subtree)
PER_INSTANCE = []


def _data_tick(self):
    steps = STEPS.get(self.name) or [["S", {}]]
    log = self.__dict__.setdefault("vt_seen", []) if PER_INSTANCE else SEEN.setdefault(self.name, [])
    code, writes = steps[len(log) % len(steps)]
    seen = {}
    for key in self.node_config.inputs:
        v = self.inputs.get_value(key).unwrap()
        seen[key] = [v, self.inputs.any_updated(key).unwrap()]
    log.append(seen)
    TICK_ORDER.append(self.name)
    for key, value in writes.items():
        if isinstance(value, list) and value[:1] == ["<"]:
            value = seen[value[1]][0]
        match self.outputs.set_value(key, value):
            case Err(e):
                return Err(e)
            case Ok(_):
                pass
    for value, _ in seen.values():
        if isinstance(value, list):
            value.append(0)  # our own copy
    log[-1] = {k: [v[:-1] if isinstance(v, list) else v, u] for k, (v, u) in seen.items()}
    return _result(code)


def _logged(code, fn):
    def f(self):
        self.vt_calls = self.__dict__.get("vt_calls", "") + code
        return fn(self)

    return f


def _data_class(name, inputs, outputs):
    cls = type(
        name,
        (Leaf,),
        {"__module__": __name__, "__doc__": "Reads inputs, writes outputs.", "_do_tick": _data_tick},
    )
    _simple(cls)
    for hook, code in (("setup", "s"), ("untick", "u"), ("reset", "r"), ("shutdown", "x")):
        setattr(cls, "_do_" + hook, _logged(code, getattr(cls, "_do_" + hook)))
    cls = define_bt_node(NodeConfig(inputs=inputs, outputs=outputs, max_children=0))(cls)
    DATA[name] = cls
    globals()[name] = cls


_data_class("Feeder", {}, _io())
for _key in ("i", "small", "s", "b", "l"):
    _data_class("Relay_" + _key, {"a": _io()[_key]}, {"o": _io()[_key]})
_data_class("Join", {"a": _io()["i"], "b": _io()["s"]}, {"o": _io()["i"], "p": _io()["s"]})
