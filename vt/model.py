"""Reference model of the documented behaviour of control-flow nodes.

Plain Python, written from the documentation of each node; shares no code with
/repo.  Tree specification (JSON-able):
  {"k": kind, "n": name, "c": [children], "p": {parameters}}
leaf parameters: ticks/untick/reset/setup/shutdown strings as in vt.nodes.Script.
"""

U, I, R, S, F, B, P, X = (
    "UNINITIALIZED",
    "IDLE",
    "RUNNING",
    "SUCCEEDED",
    "FAILED",
    "BROKEN",
    "PAUSED",
    "SHUTDOWN",
)
CODE = {"S": S, "F": F, "R": R, "I": I, "P": P, "X": X}


class ModelErr(Exception):
    pass


class Boom(Exception):
    """A node raises instead of returning anything."""


class MNode:
    was_setup = False

    def __init__(self, spec, tree):
        self.spec = spec
        self.name = spec["n"]
        self.p = spec.get("p", {})
        self.tree = tree
        self.state = U
        self.children = [make(c, tree) for c in spec.get("c", [])]
        tree.nodes[self.name] = self
        self.inputs = {}
        self.updated = {}
        self.outputs = {}
        self.out_upd = {}
        self.init()

    def init(self):
        pass

    # -- guards shared by every node
    def _run(self, fn):
        try:
            new = fn()
        except ModelErr:
            self.state = B
            raise
        self.state = new

    def setup(self):
        if self.state not in (U, X):
            raise ModelErr()
        self.was_setup = True
        for k in self.inputs:
            self.inputs[k] = None
            self.updated[k] = True
        self.forget_outputs()
        self._run(self.do_setup)
        if self.state != I:
            raise ModelErr()

    def tick(self):
        if self.state in (U, X, B):
            raise ModelErr()
        for v in self.inputs.values():
            if v is None:
                self.state = B
                raise ModelErr()
        for k in self.out_upd:
            self.out_upd[k] = False
        self._run(self.do_tick)
        for k in self.updated:
            self.updated[k] = False
        if self.state not in (R, S, F):
            raise ModelErr()
        try:
            self.tree.push(self)
        except ModelErr:
            self.state = B
            raise
        return self.state

    def untick(self):
        if self.state in (U, X, B):
            raise ModelErr()
        self._run(self.do_untick)
        if self.state not in (I, P):
            raise ModelErr()
        for k in self.out_upd:
            self.out_upd[k] = False

    def reset(self):
        if self.state in (U, X, B):
            raise ModelErr()
        for k in self.updated:
            self.updated[k] = True
        self.forget_outputs()
        self._run(self.do_reset)
        if self.state != I:
            raise ModelErr()

    def shutdown(self):
        err = False
        if self.state == U:
            self.state = X  # there is nothing to clean up
        if self.state != X:
            try:
                self._run(self.do_shutdown)
            except ModelErr:
                err = True
            if self.state != X:
                err = True
        for c in self.children:
            try:
                c.shutdown()
            except ModelErr:
                err = True
        if err:
            raise ModelErr()

    def forget_outputs(self):
        for k in self.outputs:
            self.outputs[k] = None
            self.out_upd[k] = False

    def set_output(self, key, value):
        if self.outputs[key] != value:
            self.outputs[key] = value
            self.out_upd[key] = True

    # -- defaults
    def do_setup(self):
        for c in self.children:
            c.setup()
        return I

    def do_untick(self):
        for c in self.children:
            c.untick()
        return I

    def do_reset(self):
        for c in self.children:
            c.reset()
        return I

    def do_shutdown(self):
        return X

    def set_input(self, key, value):
        if self.inputs[key] != value:
            self.inputs[key] = value
            self.updated[key] = True

    def leaf_running(self):
        return any(c.state == R for c in self.children)


class Leaf(MNode):
    def init(self):
        self.pos = 0
        self.log = []
        self.ticks = self.p.get("ticks") or "S"

    def _r(self, code):
        if code == "E":
            raise ModelErr()
        if code == "!":
            raise Boom()
        return CODE[code]

    def do_setup(self):
        self.log.append("s")
        return self._r(self.p.get("setup", "I"))

    def do_tick(self):
        self.log.append("t")
        self.tree.tick_order.append(self.name)
        c = self.ticks[self.pos % len(self.ticks)]
        self.pos += 1
        return self._r(c)

    def do_untick(self):
        self.log.append("u")
        return self._r(self.p.get("untick", "I"))

    def do_reset(self):
        self.log.append("r")
        return self._r(self.p.get("reset", "I"))

    def do_shutdown(self):
        self.log.append("x")
        return self._r(self.p.get("shutdown", "X"))


class Ordered(MNode):
    """Sequence and fallback: go on while children return `go`."""

    go = S
    memory = False
    untick_forgets = True

    def init(self):
        self.start = 0

    def do_setup(self):
        self.start = 0
        return super().do_setup()

    def do_tick(self):
        if not self.children:
            return self.go
        if self.state in (S, F):
            self.start = 0
            for c in self.children:
                c.reset()
        begin = self.start if self.memory else 0
        for i in range(begin, len(self.children)):
            st = self.children[i].tick()
            if st == self.go:
                continue
            if st == R:
                self.start = i
                return R
            for c in self.children[i + 1 :]:
                c.untick()
            self.start = 0
            return st
        self.start = 0
        return self.go

    def do_untick(self):
        if self.untick_forgets:
            self.start = 0
        return super().do_untick()

    def do_reset(self):
        self.start = 0
        return super().do_reset()


class Sequence(Ordered):
    pass


class MemorySequence(Ordered):
    memory = True


class Fallback(Ordered):
    go = F


class MemoryFallback(Ordered):
    go = F
    memory = True
    # its documentation names only reset and a final result
    untick_forgets = False


class Parallel(MNode):
    def failures_allowed(self):
        return len(self.children) - self.p["needed"]

    def do_setup(self):
        if len(self.children) < self.p["needed"]:
            raise ModelErr()
        return super().do_setup()

    def do_tick(self):
        if self.state in (S, F):
            for c in self.children:
                c.reset()
        good = bad = 0
        for c in self.children:
            if c.state not in (S, F):
                c.tick()
            good += c.state == S
            bad += c.state == F
        if good >= self.p["needed"]:
            result = S
        elif bad > self.failures_allowed():
            result = F
        else:
            return R
        for c in self.children:
            if c.state not in (S, F):
                c.untick()
        return result


class ParallelFailureTolerance(Parallel):
    def failures_allowed(self):
        return self.p["tolerate"]


class NameSwitch(MNode):
    key = "name"

    def init(self):
        self.inputs = {self.key: None}
        self.updated = {self.key: False}

    def selected(self):
        for c in self.children:
            if c.name == self.inputs[self.key]:
                return c
        return None

    def do_tick(self):
        sel = self.selected()
        if sel is None:
            return F
        if self.state in (S, F):
            for c in self.children:
                c.reset()
        for c in self.children:
            if c is not sel:
                c.untick()
        return sel.tick()


class EnumSwitch(NameSwitch):
    key = "case"

    def selected(self):
        want = self.p["constants"].get(str(self.inputs[self.key]))
        if want is None:
            return None
        for c in self.children:
            if c.name.split(".")[-1] == want:
                return c
        return None


class Decorator(MNode):
    empty = S

    @property
    def child(self):
        return self.children[0] if self.children else None

    def do_tick(self):
        if not self.children:
            return self.empty
        return self.on(self.child.tick())

    def do_untick(self):
        if not self.children:
            return I
        self.child.untick()
        return self.child.state

    def on(self, st):
        return st


class IgnoreFailure(Decorator):
    def on(self, st):
        return S if st == F else st


class IgnoreSuccess(Decorator):
    empty = F

    def on(self, st):
        return F if st == S else st


class IgnoreRunning(Decorator):
    empty = F

    def on(self, st):
        if st == R:
            return S if self.p["running_is_success"] else F
        return st


class Inverter(Decorator):
    def on(self, st):
        return {S: F, F: S}.get(st, st)


class UntilSuccess(Decorator):
    def on(self, st):
        if st == F:
            self.child.reset()
            return R
        return st


class Throttle(Decorator):
    """Asks its child again only once its last result is older than the interval."""

    def init(self):
        self.last = None
        self.result = F

    def do_setup(self):
        self.init()
        return super().do_setup()

    def do_tick(self):
        if self.last is None or self.tree.now - self.last > self.p["ms"]:
            if self.children:
                st = self.child.tick()
                if st == R:
                    return R
                self.result = st
                self.last = self.tree.now
                self.child.reset()
        return self.result


class ThrottleSuccess(Decorator):
    """Once its child succeeded it is not asked again before the interval is over."""

    def init(self):
        self.last = None

    def do_setup(self):
        self.init()
        return super().do_setup()

    def do_tick(self):
        if self.last is None or self.tree.now - self.last > self.p["ms"]:
            if self.children:
                st = self.child.tick()
                if st == S:
                    self.last = self.tree.now
                if st in (S, R):
                    return st
        return F

    def do_reset(self):
        self.last = None
        return super().do_reset()


class Wait(MNode):
    def init(self):
        self.start = None

    def do_setup(self):
        self.start = None
        return I

    def do_tick(self):
        if self.start is None:
            self.start = self.tree.now
        return S if self.tree.now - self.start >= self.p["ms"] else R

    def do_untick(self):
        return P

    def do_reset(self):
        self.start = None
        return I


class GetTimeNow(MNode):
    def init(self):
        self.outputs = {"current_time": None}
        self.out_upd = {"current_time": False}

    def do_tick(self):
        self.set_output("current_time", self.tree.now)
        return S


class Pausing(Decorator):
    def do_untick(self):
        for c in self.children:
            c.untick()
        return P


class RepeatIfFail(Pausing):
    on = UntilSuccess.on


class RepeatUntilFail(Pausing):
    def on(self, st):
        if st == S:
            self.child.reset()
            return R
        return st


class RepeatAlways(Pausing):
    def on(self, st):
        if st != R:
            self.child.reset()
        return R


class Retry(Pausing):
    def init(self):
        self.count = 0

    def do_setup(self):
        self.count = 0
        return super().do_setup()

    def do_reset(self):
        self.count = 0
        return super().do_reset()

    def on(self, st):
        if st == F:
            if self.count < self.p["n"]:
                self.count += 1
                self.child.reset()
                return R
            self.count = 0
        return st


class Repeat(Pausing):
    def init(self):
        self.count = 0

    def do_setup(self):
        self.count = 0
        return super().do_setup()

    def do_reset(self):
        self.count = 0
        return super().do_reset()

    def on(self, st):
        if st == S and self.count < self.p["n"]:
            self.count += 1
            self.child.reset()
            return R
        return st


class RepeatNoAutoReset(Repeat):
    def init(self):
        self.count = 0
        self.inputs = {"reset": None}
        self.updated = {"reset": False}

    def do_tick(self):
        if self.inputs["reset"]:
            self.count = 0
        if not self.children or self.count >= self.p["n"]:
            return S
        return self.on(self.child.tick())

    def do_reset(self):
        if self.count < self.p["n"]:
            for c in self.children:
                c.reset()
        return I


class Optional(Decorator):
    def init(self):
        self.active = False

    def do_setup(self):
        self.active = False
        if self.children:
            u = utility(self.child)
            if u == "E":
                raise ModelErr()
            if u[0]:
                self.active = True
                self.child.setup()
        return I

    def do_tick(self):
        return self.child.tick() if self.active else S

    def do_untick(self):
        if self.active:
            self.child.untick()
            return self.child.state
        return I

    def do_reset(self):
        if self.active:
            self.child.reset()
        return I


class Watch(Decorator):
    def init(self):
        self.inputs = {"watch": None}
        self.updated = {"watch": False}

    def do_tick(self):
        if not self.children:
            return S
        if self.updated["watch"]:
            self.child.untick()
        return self.child.tick()


KINDS = {
    k.__name__: k
    for k in (
        Sequence,
        MemorySequence,
        Fallback,
        MemoryFallback,
        Parallel,
        ParallelFailureTolerance,
        NameSwitch,
        EnumSwitch,
        IgnoreFailure,
        IgnoreSuccess,
        IgnoreRunning,
        Inverter,
        UntilSuccess,
        RepeatIfFail,
        RepeatUntilFail,
        RepeatAlways,
        Retry,
        Repeat,
        RepeatNoAutoReset,
        Optional,
        Watch,
    )
}
KINDS["leaf"] = Leaf
TIMED = {k.__name__: k for k in (Throttle, ThrottleSuccess, Wait, GetTimeNow)}
KINDS.update(TIMED)


def make(spec, tree):
    return KINDS[spec["k"]](spec, tree)


class Tree:
    def __init__(self, spec):
        self.nodes = {}
        self.tick_order = []
        self.now = 0  # milliseconds
        self.root = make(spec, self)

    def push(self, node):
        """Hand on what a node has just produced; see vt.flow."""

    def call(self, name, op, *args):
        """Returns ("ok", state) or ("err", state)."""
        node = self.nodes[name]
        try:
            getattr(node, op)(*args)
        except (ModelErr, Boom):
            return "err", node.state
        return "ok", node.state


# ---------------------------------------------------------------- utility
# A bound is a number, or None when it is not known.
NO = (False, None, None, None, None)
ZERO = (True, 0.0, 0.0, 0.0, 0.0)


def _add(*xs):
    return None if any(x is None for x in xs) else sum(xs)


def _best(fn, xs):
    return None if any(x is None for x in xs) else fn(xs)


def utility(node):
    kind = type(node)
    kids = node.children
    if kind is Leaf:
        u = node.p.get("util")
        if u is None:
            return ZERO
        if u == "E":
            return "E"
        return tuple(u)
    if kind is Optional:
        if not kids:
            return (True, None, None, None, None)
        u = utility(kids[0])
        if u == "E" or u[0]:
            return u
        return (True, None, None, None, None)
    if isinstance(node, Decorator):
        return utility(kids[0]) if kids else ZERO
    if kind is EnumSwitch:
        return ZERO  # says nothing about itself
    us = [utility(c) for c in kids]
    if kind in (Sequence, MemorySequence):
        us = [NO if u == "E" else u for u in us]
        if not us:
            return ZERO
        if not all(u[0] for u in us):
            return NO
        ls = [_add(*[u[3 - 2] for u in us[:i]]) for i in range(len(us) + 1)]
        # cost of the first i children succeeding
        lo = [_add(*(u[1] for u in us[:i])) if i else 0.0 for i in range(len(us) + 1)]
        up = [_add(*(u[2] for u in us[:i])) if i else 0.0 for i in range(len(us) + 1)]
        return (
            True,
            lo[-1],
            up[-1],
            _best(min, [_add(lo[i], u[3]) for i, u in enumerate(us)]),
            _best(max, [_add(up[i], u[4]) for i, u in enumerate(us)]),
        )
    if kind in (Fallback, MemoryFallback, NameSwitch):
        if not us:
            return ZERO
        for u in us:
            if u == "E":
                return "E"
            if not u[0]:
                return NO
        lo = [_add(*(u[3] for u in us[:i])) if i else 0.0 for i in range(len(us) + 1)]
        up = [_add(*(u[4] for u in us[:i])) if i else 0.0 for i in range(len(us) + 1)]
        return (
            True,
            _best(min, [_add(lo[i], u[1]) for i, u in enumerate(us)]),
            _best(max, [_add(up[i], u[2]) for i, u in enumerate(us)]),
            lo[-1],
            up[-1],
        )
    if isinstance(node, Parallel):
        # the results needed for success, and those that make it fail
        need = node.p["needed"]
        fail = 1 + node.failures_allowed()
        if len(kids) < need or "E" in us:
            return "E"
        if not all(u[0] for u in us):
            return NO

        def group(i, n, worst):
            xs = [u[i] for u in us]
            return None if None in xs else sum(sorted(xs, reverse=worst)[:n])

        return (True, group(1, need, False), group(2, need, True), group(3, fail, False), group(4, fail, True))
    raise NotImplementedError(kind)
