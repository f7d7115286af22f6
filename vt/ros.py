"""Nodes that talk to the middleware: services, actions, topics, parameters."""
from . import bootstrap

bootstrap.boot()

from hypothesis import strategies as st  # noqa: E402
from rclpy.qos import QoSDurabilityPolicy, QoSReliabilityPolicy  # noqa: E402
from ros_bt_py.data_types import get_message_field_io_type  # noqa: E402
from ros_bt_py.node import Node  # noqa: E402
from rosidl_runtime_py.utilities import get_action, get_interface, get_message, get_service  # noqa: E402

from . import fakeros, model, nodeio, nodes, types  # noqa: E402
from .compute import OPS, copy, eq, shown  # noqa: E402
from .core import HarnessError, Violation, expect, expect_eq  # noqa: E402

UNKNOWN, SUCCEEDED, CANCELED, ABORTED = 0, 4, 5, 6
MODULES = {"service": ("Service", "WaitForService"), "action": ("Action",), "topic": ("TopicSubscriber", "TopicMemorySubscriber", "TopicPublisher"), "param": ("RosParam",), "message_converters": ("MessageToFields", "FieldsToMessage"), "enum": ("EnumFields",)}
NAMES = ["/a", "/b", "/c"]


def module_of(kind):
    return next("ros_bt_py.ros_nodes." + m for m, ks in MODULES.items() if kind in ks)


def fields(cls):
    return cls.get_fields_and_field_types()


class Middle(model.MNode):
    """What is common: inputs that a case gives, and time in seconds."""

    def init(self):
        self.static = {}
        self.now = 0.0
        self.setup_fails = False

    def describe(self, static, keys, outs):
        for k in keys:
            self.inputs[k] = static.get(k)
            self.updated[k] = False
        for k in outs:
            self.outputs[k] = None
            self.out_upd[k] = False
        self.static = static

    def do_setup(self):
        self.inputs.update(self.static)
        if self.setup_fails:
            raise model.ModelErr()
        self.begin()
        return super().do_setup()

    def begin(self):
        pass

    def changed(self, *keys):
        return any(self.updated[k] for k in keys)

    def put(self, key, value):
        if self.outputs[key] is None or not eq(self.outputs[key], value):
            self.outputs[key] = copy(value)
            self.out_upd[key] = True

    def do_reset(self):
        self.clean()
        return model.I

    def do_shutdown(self):
        self.clean()
        return model.X


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


class Service(Middle):
    def init(self):
        super().init()
        self.calls = []
        self.pending = None

    def begin(self):
        self.pending = None
        self.client = False

    def abandon(self):
        if self.pending is not None and self.pending.answer is None:
            self.pending.cancelled = True
        self.pending = None

    def do_untick(self):
        self.abandon()
        return model.I

    def clean(self):
        self.abandon()
        self.client = False

    def do_tick(self):
        if self.changed("service_name", *self.fields):
            self.abandon()
            send = True
        else:
            send = self.state == model.I
        self.client = True
        if send:
            self.pending = Rec(name=self.inputs["service_name"], request={f: copy(self.inputs[f]) for f in self.fields}, answer=None, cancelled=False, at=self.now)
            self.calls.append(self.pending)
            return model.R
        p = self.pending
        if p is None:
            return self.state
        if p.answer is not None:
            for f, x in p.answer.items():
                self.put(f, x)
            self.pending = None
            return model.S
        if p.cancelled:  # not by the node
            self.pending = None
            return model.F
        if self.now - p.at > self.inputs["wait_for_response_seconds"]:
            self.abandon()
            return model.F
        return model.R


class WaitForService(Middle):
    def begin(self):
        self.since = None
        self.client = False

    def do_untick(self):
        self.since = None
        return model.I

    def clean(self):
        self.since = None
        self.client = False

    def do_tick(self):
        if self.changed("service_name"):
            self.clean()
        self.client = True
        if self.ready is None or self.inputs["service_name"] in self.ready:
            return model.S
        if self.since is None:
            self.since = self.now
        return model.F if self.now - self.since > self.inputs["wait_for_service_seconds"] else model.R


class Action(Middle):
    def init(self):
        super().init()
        self.goals = []
        self.at = "idle"
        self.goal = None

    def begin(self):
        self.at = "idle"
        self.goal = None
        self.newer = False
        self.feedback = None

    def do_untick(self):
        g = self.goal
        if self.at == "sent":
            g.doomed = True
            if g.accepted:
                g.cancels += 1
        elif self.at in ("running", "cancel"):
            g.cancels += 1
        self.at = "idle"
        self.goal = None
        self.feedback = None
        return model.I

    def clean(self):
        self.do_untick()

    def do_tick(self):
        g = self.goal
        if self.changed("action_name", *self.fields):
            self.newer = True
            if self.at == "running":
                self.at = "cancel"
        if self.at == "idle":
            self.goal = Rec(name=self.inputs["action_name"], goal={f: copy(self.inputs[f]) for f in self.fields}, accepted=None, finished=None, cancels=0, stopped=False, doomed=False)
            self.goals.append(self.goal)
            self.newer = False
            self.feedback = None
            self.at = "sent"
            return model.R
        if self.at == "sent":
            if g.accepted is None:
                return model.R
            if not g.accepted:
                self.at = "over"
                return model.R if self.newer else model.F
            if not self.newer:
                self.at = "running"
                self.began = self.now
                return model.R
            self.at = "cancel"
        if self.at == "cancel":
            g.cancels += 1
            self.at = "cancelling"
            return model.R
        if self.at == "running":
            if self.feedback is not None:
                for f, x in self.feedback.items():
                    self.put("feedback." + f, x)
                self.feedback = None
            if g.finished is not None:
                for f, x in g.finished[1].items():
                    self.put("result." + f, x)
                self.at = "over"
                return model.S if g.finished[0] == SUCCEEDED else model.F
            if self.now - self.began > self.inputs["timeout_seconds"]:
                self.at = "cancel"
            return model.R
        if self.at == "cancelling":
            if not g.stopped:
                return model.R
            self.at = "over"
            return model.R if self.newer else model.F
        if not self.newer:
            return self.state
        self.at = "idle"
        return model.R


QOS = ("reliable", "transient_local", "depth")


class Topic(Middle):
    """What nodes on topics share: the one subscription or publisher."""

    def begin(self):
        self.open = None
        self.msg = None

    def clean(self):
        self.open = None
        self.msg = None

    def connect(self):
        if self.changed("topic_name", *QOS):
            self.clean()
        if self.open is None:
            self.open = tuple(self.inputs[k] for k in ("topic_name",) + QOS)

    def do_untick(self):
        return model.I


class TopicSubscriber(Topic):
    def do_tick(self):
        self.connect()
        if self.msg is None:
            return model.R
        self.put("message", self.msg)
        self.msg = None
        return model.S


class TopicMemorySubscriber(Topic):
    def do_tick(self):
        self.connect()
        if self.msg is None:
            return model.R
        if self.now - self.stamp > self.inputs["memory_delay"]:
            return model.F
        self.put("message", self.msg)
        return model.S


class TopicPublisher(Topic):
    def init(self):
        super().init()
        self.sent = []

    def do_tick(self):
        new = self.open is None or self.changed("topic_name", *QOS)
        self.connect()
        if self.changed("message"):
            self.sent.append((self.open[0], copy(self.inputs["message"])))
        elif new:
            # whether a new publisher repeats an old message is not documented
            self.maybe = (self.open[0], copy(self.inputs["message"]))
        return model.S


class RosParam(Middle):
    def clean(self):
        pass

    def do_untick(self):
        return model.I

    def do_tick(self):
        name = self.inputs["param_name"]
        if name not in self.params:
            return model.F
        x = self.params[name]
        if x is None:
            x = self.inputs["default_value"]
        if not types.accepts(self.spec_out, x):
            raise model.ModelErr()
        self.put("param", float(x) if self.spec_out["t"] == "float" else x)
        return model.S


class Converter(Middle):
    def clean(self):
        pass

    def do_untick(self):
        return model.I


class MessageToFields(Converter):
    def do_tick(self):
        for f, x in field_values(self.inputs["in"]).items():
            self.put(f, x)
        return model.S


class FieldsToMessage(Converter):
    def do_tick(self):
        self.put("out", message(self.type, self.inputs))
        return model.S


class EnumFields(Converter):
    def do_tick(self):
        for f, x in constants(self.type).items():
            self.put(f, x)
        return model.S


def constants(cls):
    """Names and values of constants as the generator of messages writes them down."""
    return dict(vars(type(cls))["_%s__constants" % type(cls).__name__])


KINDS = {c.__name__: c for c in (MessageToFields, FieldsToMessage, EnumFields, Service, WaitForService, Action, TopicSubscriber, TopicMemorySubscriber, TopicPublisher, RosParam)}
_make = model.make


def make(spec, tree):
    if spec["k"] in KINDS:
        return KINDS[spec["k"]](spec, tree)
    return _make(spec, tree)


model.make = make


# ------------------------------------------------------------ running a case
def values(d):
    return {k: types.decode(v) for k, v in d.items()}


def message(cls, d):
    m = cls()
    for k, x in d.items():
        setattr(m, k, x)
    return m


def plain(x):
    """A value as an input or output holds it."""
    return x.tolist() if hasattr(x, "tolist") else x


def field_values(m):
    return {f: plain(getattr(m, f)) for f in fields(type(m))}


def prepare(case):
    """The node of a case, and its model."""
    kind = case["kind"]
    fake = fakeros.FakeNode()
    desc = nodeio.base()[(module_of(kind), kind)]
    m = model.Tree({"k": kind, "n": "n"})
    given = {i.key: {"static": False, "v": None} for i in desc.inputs}
    given.update((k, {"static": True, "v": v}) for d in (case["given"], case["static"]) for k, v in d.items() if k in given)
    msg, choices = nodeio.make_msg(desc, {"name": "n", "id": 1, "inputs": list(given.items())})
    r = Node.from_msg(msg, ros_node=fake)
    expect(r.is_ok(), "%s can't be created: %s" % (kind, r))
    node = r.unwrap()
    r = m.root
    extra_in, extra_out = [], []
    if kind == "Service":
        r.type = get_service(case["type"])
        extra_in = r.fields = list(fields(r.type.Request))
        extra_out = list(fields(r.type.Response))
    elif kind == "Action":
        r.type = get_action(case["type"])
        extra_in = r.fields = list(fields(r.type.Goal))
        extra_out = ["result." + f for f in fields(r.type.Result)] + ["feedback." + f for f in fields(r.type.Feedback)]
    elif kind in MODULES["topic"]:
        r.type = get_message(case["type"])
    elif kind in ("MessageToFields", "FieldsToMessage", "EnumFields"):
        r.type = get_interface(case["type"])
        extra = list(constants(r.type) if kind == "EnumFields" else fields(r.type))
        if kind == "FieldsToMessage":
            extra_in = extra
        else:
            extra_out = extra
    elif kind == "RosParam":
        r.spec_out = nodeio.resolve(desc, choices, desc.outputs[0].type)
        r.params = {}
    r.ready = None
    keys = [i.key for i in desc.inputs if not nodeio.is_type(i)] + extra_in
    outs = [o.key for o in desc.outputs] + extra_out
    expect_eq(sorted(node.node_config.outputs), sorted(outs), "outputs of %s with %s" % (kind, case.get("type")))
    expect_eq(sorted(node.node_config.inputs), sorted(keys + [i.key for i in desc.inputs if nodeio.is_type(i)]), "inputs of %s with %s" % (kind, case.get("type")))
    static = {k: types.decode(v) for k, v in case["given"].items() if k in keys}
    for k in keys:
        c = node.node_config.inputs[k]
        if k in case["static"]:
            static[k] = types.decode(case["static"][k])
            if k in extra_in and c.set_value(copy(static[k])).is_err():
                raise Violation("%s: input %s refuses %r" % (kind, k, static[k]))
        elif k in extra_in:
            c.is_static = False
    for k in static:
        if isinstance(static[k], int) and not isinstance(static[k], bool) and k.endswith("seconds"):
            static[k] = float(static[k])
    r.describe(static, keys, outs)
    return fake, node, m


def run(case, ctx, ask=None):
    nodes.clear()
    kind = case["kind"]
    fake, node, mtree = prepare(case)
    m = mtree.root
    seen = set()
    for i, op in enumerate(case["ops"]):
        at = "%s, step %d (%s)" % (kind, i, op)
        if isinstance(op, list):
            world(at, op, fake, node, m, ctx)
            if op[0] == "in":
                continue
        else:
            before = m.state
            m.maybe = None
            want = mtree.call("n", OPS[op])
            r = getattr(node, OPS[op])()
            got = ("err" if r.is_err() else "ok", node.state)
            if got != want:
                raise Violation("%s: got %s, expected %s; was %s with inputs %r (%s)" % (at, got, want, before, m.inputs, r))
            if op == "t":
                seen.add((before, want[1]))
                ctx.tag("%s to %s" % (before, want[1]))
        if ask is not None:
            ask(at, fake, node, m)
        check(at, case, fake, node, m)
        if m.state == model.B and "x" not in case["ops"][i:]:
            break
    ctx.nontrivial(any(s in (model.S, model.F) for _, s in seen) and len(seen) >= 2)


def run_alone(case, ctx):
    """Without access to ROS, or to what it needs, a node can't be set up, but it can be shut down."""
    nodes.clear()
    fake, node, mtree = prepare(case)
    if case["without"] == "type":
        for k in ("service_type", "topic_type", "param_type", "action_type"):
            if k in node.node_config.inputs:
                node.node_config.inputs[k].is_static = False
                node.node_config.inputs[k].reset_value()
    else:
        node = type(node)(name="n", new_inputs=dict(node.node_config.inputs))
    m = mtree.root
    m.setup_fails = True
    for i, op in enumerate(case["ops"]):
        at = "%s without %s, step %d (%s)" % (case["kind"], case["without"], i, op)
        r = getattr(node, OPS[op])()
        if i == 0 and r.is_ok() and case["without"] == "type":
            return  # it notices later
        want = mtree.call("n", OPS[op])
        expect_eq(("err" if r.is_err() else "ok", node.state), want, at)
    ctx.nontrivial()
    ctx.tag(case["kind"] + " without " + case["without"])


@st.composite
def alone_cases(draw):
    kind = draw(st.sampled_from([k for k in sorted(KINDS) if not issubclass(KINDS[k], Converter)]))
    case = draw(cases(kind))
    case["without"] = draw(st.sampled_from(["ROS", "type"]))
    case["ops"] = ["s"] + draw(st.lists(st.sampled_from("sturxx"), max_size=6)) + ["x"]
    return case


def pick(seq, i):
    return seq[i % len(seq)] if seq else None


def world(at, op, fake, node, m, ctx):
    what = op[0]
    if what == "in":
        _, key, text = op
        x = types.decode(text)
        if node.node_config.inputs[key].set_value(copy(x)).is_err():
            raise Violation("%s: input refuses %r" % (at, x))
        if m.inputs[key] is None or not eq(m.inputs[key], x):
            m.inputs[key] = copy(x)
            m.updated[key] = True
    elif what == "wait":
        fake.clock.advance(op[1])
        m.now += op[1]
    elif what == "ready":
        fake.ready_names = m.ready = set(op[1]) if op[1] is not None else None
    elif what == "answer":
        # any request that was not answered, also one that the node gave up
        open_ = [(c, r) for c, r in zip(fake.calls, m.calls) if r.answer is None and c.client.alive]
        if open_:
            call, rec = pick(open_[::-1], op[1])
            rec.answer = {}
            res = message(m.type.Response, values(op[2]))
            rec.answer = field_values(res)
            rec.late = rec.cancelled
            call.future.set_result(res)
            ctx.tag("late answer" if rec.late else "answer")
    elif what == "lost":
        open_ = [(c, r) for c, r in zip(fake.calls, m.calls) if r.answer is None and not r.cancelled]
        if open_:
            call, rec = open_[-1]
            rec.cancelled = True
            call.future.cancel()
    elif what in ("accept", "reject"):
        todo = [(f, g) for f, g in zip(fake.goals, m.goals) if g.accepted is None and f.client.alive]
        if todo:
            f, g = pick(todo[::-1], op[1])
            g.accepted = what == "accept"
            if g.doomed and g.accepted:
                g.cancels += 1
                ctx.tag("accepted late")
            f.accept(g.accepted)
    elif what == "feedback":
        todo = [(f, g) for f, g in zip(fake.goals, m.goals) if g.accepted and g.finished is None and g is m.goal and g.cancels == 0]
        if todo:
            f, g = todo[-1]
            msg = message(m.type.Feedback, values(op[2]))
            m.feedback = field_values(msg)
            if f.feedback is not None:
                f.feedback(Rec(feedback=msg))
            ctx.tag("feedback")
    elif what == "finish":
        todo = [(f, g) for f, g in zip(fake.goals, m.goals) if g.accepted and g.finished is None]
        if todo:
            f, g = pick(todo[::-1], op[1])
            msg = message(m.type.Result, values(op[3]))
            g.finished = (op[2], field_values(msg))
            f.finish(op[2], msg)
            ctx.tag("finished %d" % op[2])
    elif what == "stopped":
        for f, g in zip(fake.goals, m.goals):
            if g.cancels and not g.stopped:
                g.stopped = True
                for fut in f.cancels:
                    fut.set_result(Rec(return_code=0, goals_canceling=[f]))
                if g.finished is None:
                    g.finished = (CANCELED, field_values(m.type.Result()))
                    f.finish(CANCELED, m.type.Result())
    elif what == "msg":
        _, topic, text = op
        x = message(m.type, values(text))
        n = fake.deliver(topic, copy(x))
        if getattr(m, "open", None) is not None and m.open[0] == topic and m.state != model.U:
            m.msg, m.stamp = x, m.now
            expect_eq(n, 1, at + ": subscriptions that get a message")
            ctx.tag("message")
    elif what == "param":
        fake.params[op[1]] = Rec(value=types.decode(op[2]))
        m.params[op[1]] = types.decode(op[2])
    elif what == "undeclare":
        fake.params.pop(op[1], None)
        m.params.pop(op[1], None)
    elif what == "utility":
        if m.spec["k"] != "Service":
            return
        u = node.calculate_utility()
        if u.is_err():
            raise Violation("%s: %s" % (at, u))
        u = u.unwrap()
        if m.state in (model.U, model.X, model.B) or not getattr(m, "client", True):
            return
        name = m.inputs.get("service_name")
        if name is not None and not m.updated["service_name"]:
            expect_eq(u.can_execute, m.ready is None or name in m.ready, at + ": executable")
    else:
        raise HarnessError(op)


def check(at, case, fake, node, m):
    kind = case["kind"]
    now = shown(node)
    if m.state != model.B:
        for k, x in m.outputs.items():
            if not eq(now["outputs"][k], x):
                raise Violation("%s: output %s is %r, expected %r" % (at, k, now["outputs"][k], x))
        if m.state != model.X:
            expect_eq(now["produced"], m.out_upd, at + ": outputs produced")
    if kind == "Service":
        expect_eq([c.client.srv_name for c in fake.calls], [c.name for c in m.calls], at + ": services called")
        for j, (c, r) in enumerate(zip(fake.calls, m.calls)):
            expect(c.client.srv_type is m.type, "%s: call of another type" % at)
            if not eq(field_values(c.request), r.request):
                raise Violation("%s: request %d is %r, expected %r" % (at, j, c.request, r.request))
            if r.answer is None:
                expect_eq(c.future.cancelled(), r.cancelled, "%s: request %d is given up" % (at, j))
    if kind in ("Service", "WaitForService"):
        live = [c.srv_name for c in fake.clis if c.alive]
        expect_eq(len(live), int(m.state not in (model.U,) and getattr(m, "client", False)), at + ": clients")
    if kind == "Action":
        expect_eq([g.client.action_name for g in fake.goals], [g.name for g in m.goals], at + ": actions that got goals")
        for j, (f, g) in enumerate(zip(fake.goals, m.goals)):
            expect(f.client.action_type is m.type, "%s: goal of another type" % at)
            if not eq(field_values(f.goal), g.goal):
                raise Violation("%s: goal %d is %r, expected %r" % (at, j, f.goal, g.goal))
            expect_eq(len(f.cancels), g.cancels, "%s: requests to cancel goal %d" % (at, j))
        live = [c for c in fake.action_clients if c.alive]
        waiting = sum(g.doomed and g.accepted is None for g in m.goals)
        limit = waiting + (0 if m.state == model.X else 1)
        if len(live) > limit:
            raise Violation("%s: %d clients left, of which %d wait to cancel a goal" % (at, len(live), waiting))
        # the promise itself
        for j, g in enumerate(m.goals):
            if g is not m.goal and g.accepted and g.finished is None:
                expect(fake.goals[j].cancels, "%s: goal %d goes on" % (at, j))
    if kind in ("TopicSubscriber", "TopicMemorySubscriber"):
        connected(at, fake.subs, m)
    if kind == "TopicPublisher":
        connected(at, fake.pubs, m)
        sent = fake_sent(fake)
        want = m.sent
        if m.maybe is not None and len(sent) == len(want) + 1:
            m.sent.append(m.maybe)
            m.maybe = None
        if len(sent) != len(want) or not all(a[0] == b[0] and eq(a[1], b[1]) for a, b in zip(sent, want)):
            raise Violation("%s: published %r, expected %r" % (at, sent, want))


def fake_sent(fake):
    return [x for x in fake.sent]


def connected(at, made, m):
    live = [s for s in made if s.alive]
    got = [(s.topic, s.qos.reliability == QoSReliabilityPolicy.RELIABLE, s.qos.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL, s.qos.depth) for s in live]
    want = [m.open] if getattr(m, "open", None) is not None else []
    expect_eq(got, want, at + ": connections (topic, reliable, latched, depth)")
    for s in live:
        expect(s.msg_type is m.type, "%s: connection of another type" % at)


# ------------------------------------------------------------ generating cases
def field_of(draw, cls, full=False):
    return {f: types._field_value(ft) for f, ft in fields(cls).items()}


def some(draw, cls):
    return {f: draw(g) for f, g in field_of(draw, cls).items()}


def seconds():
    return st.sampled_from([0.5, 1.0, 2.0, 10.0, 0.0])


ENUMS = [
    "vt_interfaces/msg/Enums",
    "vt_interfaces/msg/MixedEnums",
    "vt_interfaces/msg/StrEnums",
    "vt_interfaces/msg/Prims",
    "rcl_interfaces/msg/ParameterType",
    "rcl_interfaces/msg/ParameterDescriptor",
    "action_msgs/msg/GoalStatus",
    "ros_bt_py_interfaces/msg/NodeState",
    "ros_bt_py_interfaces/msg/NodeDataType",
]


@st.composite
def cases(draw, kind):
    given = {}
    dyn = {}
    static = {}
    case = {"kind": kind, "given": given, "static": static}
    T = None

    def maybe_static(key, gen):
        if draw(st.integers(0, 3)) == 0:
            static[key] = draw(gen)
        else:
            dyn[key] = gen

    if kind in ("Service", "WaitForService"):
        case["type"] = draw(st.sampled_from(types.SERVICES))
        T = get_service(case["type"])
        given["service_type"] = {"__type__": case["type"]}
        given["wait_for_response_seconds" if kind == "Service" else "wait_for_service_seconds"] = draw(seconds())
        maybe_static("service_name", st.sampled_from(NAMES))
        req = T.Request if kind == "Service" else None
    elif kind == "Action":
        case["type"] = draw(st.sampled_from(types.ACTIONS))
        T = get_action(case["type"])
        given["action_type"] = {"__type__": case["type"]}
        given["timeout_seconds"] = draw(seconds())
        maybe_static("action_name", st.sampled_from(NAMES))
        req = T.Goal
    elif kind in ("MessageToFields", "FieldsToMessage", "EnumFields"):
        pool = types.MESSAGES + types.ARRAY_MESSAGES
        case["type"] = draw(st.sampled_from(ENUMS if kind == "EnumFields" else pool))
        T = get_interface(case["type"])
        given[{"M": "input_type", "F": "output_type", "E": "ros_message_type"}[kind[0]]] = {"__type__": case["type"]}
        if kind == "MessageToFields":
            maybe_static("in", types._msg_value(case["type"]))
        req = T if kind == "FieldsToMessage" else None
    elif kind == "RosParam":
        desc = nodeio.base()[(module_of(kind), kind)]
        io = next(i for i in desc.inputs if i.key == "param_type")
        from .compute import choice

        given["param_type"] = draw(choice(nodeio.generic_names(io)))
        choices = {"param_type": nodeio.choice_of(io, given["param_type"])}
        spec = nodeio.resolve(desc, choices, desc.outputs[0].type)
        val = types.value(spec) or st.nothing()
        maybe_static("param_name", st.sampled_from(["p", "q", ""]))
        maybe_static("default_value", val)
        req = None
    else:
        case["type"] = draw(st.sampled_from(types.MESSAGES + types.ARRAY_MESSAGES))
        T = get_message(case["type"])
        given["topic_type"] = {"__type__": case["type"]}
        maybe_static("topic_name", st.sampled_from(NAMES))
        for k in QOS[:2]:
            maybe_static(k, st.booleans())
        maybe_static("depth", st.integers(1, 10))
        if kind == "TopicMemorySubscriber":
            given["memory_delay"] = draw(seconds())
        body = st.builds(lambda: None).flatmap(lambda _: types._msg_value(case["type"]))
        if kind == "TopicPublisher":
            maybe_static("message", body)
        req = None
    if req is not None:
        for f, gen in field_of(draw, req).items():
            maybe_static(f, gen)
    ops = ["s"]

    def fill(p=40):
        for k in sorted(dyn):
            if draw(st.integers(0, p)):
                ops.append(["in", k, draw(dyn[k])])

    fill()
    if kind == "WaitForService" or draw(st.booleans()):
        ops.append(["ready", draw(st.sampled_from([None, [], ["/a"], ["/b", "/c"]]))])
    for _ in range(draw(st.integers(2, 22))):
        c = draw(st.integers(0, 39))
        if c < 16:
            ops.append("t")
        elif c < 19 and dyn:
            k = draw(st.sampled_from(sorted(dyn)))
            ops.append(["in", k, draw(dyn[k])])
        elif c < 21:
            limits = [given[k] for k in given if k.endswith("_seconds") or k == "memory_delay"]
            near = [x + y for x in limits for y in (-0.25, 0.25) if x + y > 0]
            ops.append(["wait", draw(st.sampled_from([0.5, 1.0, 2.0, 10.0] + near * 2))])
            if draw(st.booleans()):
                ops.append("t")
        elif c == 21:
            ops.append("u")
        elif c == 22:
            ops.append(draw(st.sampled_from("ru")))
        elif c == 23 and draw(st.integers(0, 2)) == 0:
            ops += ["x", "s"]
            fill(60)
        elif c == 24 and kind in ("Service", "WaitForService"):
            ops.append(["utility"])
        elif kind == "Service":
            if c == 39 and draw(st.integers(0, 3)) == 0:
                ops.append(["lost"])
            else:
                ops.append(["answer", draw(st.sampled_from([0, 0, 0, 1, 2])), some(draw, T.Response)])
                if draw(st.booleans()):
                    ops.append("t")
        elif kind == "WaitForService":
            ops.append(["ready", draw(st.sampled_from([None, [], ["/a"], ["/b", "/c"]]))])
        elif kind == "Action" and draw(st.booleans()):
            # what usually happens, perhaps not to the end
            story = [["accept", 0], "t"]
            for _ in range(draw(st.integers(0, 2))):
                story += [["feedback", 0, some(draw, T.Feedback)], "t"]
            end = draw(st.integers(0, 5))
            if end < 3:
                story += [["finish", 0, draw(st.sampled_from([SUCCEEDED, SUCCEEDED, SUCCEEDED, CANCELED, ABORTED, UNKNOWN])), some(draw, T.Result)], "t"]
            elif end == 3:
                story += [["wait", given["timeout_seconds"] + draw(st.sampled_from([-0.25, 0.0, 0.25]))], "t", "t", ["stopped", 0], "t"]
            else:
                k = draw(st.sampled_from(sorted(dyn) or [None]))
                story += [["in", k, draw(dyn[k])], "t", ["stopped", 0], "t", "t", "t"] if k else ["t"]
            cut = draw(st.integers(1, 2 * len(story)))
            ops += story[:cut]
        elif kind == "Action":
            what = draw(st.sampled_from(["accept"] * 8 + ["reject", "feedback", "feedback", "feedback", "finish", "finish", "finish", "stopped", "stopped", "stopped"]))
            if what == "feedback":
                ops.append([what, 0, some(draw, T.Feedback)])
            elif what == "finish":
                ops.append([what, draw(st.sampled_from([0, 0, 0, 1])), draw(st.sampled_from([SUCCEEDED, SUCCEEDED, SUCCEEDED, CANCELED, ABORTED, UNKNOWN])), some(draw, T.Result)])
            else:
                ops.append([what, draw(st.sampled_from([0, 0, 0, 1]))])
            if draw(st.booleans()):
                ops.append("t")
        elif kind == "RosParam":
            if draw(st.integers(0, 6)) == 0:
                ops.append(["undeclare", draw(st.sampled_from(["p", "q", ""]))])
            else:
                v = draw(st.one_of(val, val, val, st.none(), st.sampled_from([True, 5, 0.5, "x", [1], {"__bytes__": "00"}])))
                ops.append(["param", draw(st.sampled_from(["p", "q", ""])), v])
        elif kind in ("TopicSubscriber", "TopicMemorySubscriber"):
            name = static.get("topic_name", next((op[2] for op in ops[::-1] if op[:2] == ["in", "topic_name"]), NAMES[0]))
            ops.append(["msg", draw(st.sampled_from([name] * 4 + NAMES)), some(draw, T)])
            if draw(st.booleans()):
                ops.append("t")
        else:
            ops.append("t")
    if draw(st.booleans()):
        ops.append("x")
    case["ops"] = ops
    return case


# ------------------------------------------------------------ fields of messages
def spec_of_field(ft):
    """The values that a field of a message can have."""
    if ft.endswith("]"):
        inner, n = ft[:-1].rsplit("[", 1)
        return {"t": "list", "elem": spec_of_field(inner), "max": int(n), "strict": True}
    if ft.startswith("sequence<"):
        inner = ft[len("sequence<") : -1]
        head, sep, tail = inner.rpartition(", ")
        if sep:
            return {"t": "list", "elem": spec_of_field(head), "max": int(tail)}
        return {"t": "list", "elem": spec_of_field(inner)}
    if "/" in ft:
        return {"t": "msg", "type": types.full_name(ft)}
    base, sep, bound = ft.partition("<")
    if base in ("string", "wstring"):
        return {"t": "string", "max": int(bound[:-1]) if sep else None}
    if ft == "boolean":
        return {"t": "bool"}
    if ft == "octet":
        return {"t": "bytes"}
    if ft in types.INT_LIMITS:
        lo, hi = types.INT_LIMITS[ft]
        return {"t": "int", "min": lo, "max": hi}
    if ft == "float":
        return {"t": "float", "min": -3.4028235e38, "max": 3.4028235e38}
    return {"t": "float"}


def odd_package():
    """A package whose name looks like a basic type."""
    import sys
    import types as modules

    if "string_int32_interfaces" not in sys.modules:
        top, msg = modules.ModuleType("string_int32_interfaces"), modules.ModuleType("string_int32_interfaces.msg")
        top.__path__ = []
        msg.Float = get_interface("vt_interfaces/msg/Nested")
        top.msg = msg
        sys.modules.update({"string_int32_interfaces": top, "string_int32_interfaces.msg": msg})


def run_field(case, ctx):
    odd_package()
    ft = case["field"]
    spec = spec_of_field(ft)
    r = get_message_field_io_type(ft)
    expect(r.is_ok(), "no type for a field of type %s: %s" % (ft, r))
    taken = 0
    for v in case["legal"]:
        x = types.decode(v)
        c = get_message_field_io_type(ft).unwrap()
        if not types.try_set(c, x):
            raise Violation("a field of type %s refuses %r" % (ft, x))
        got = c.get_value().unwrap()
        expect(eq(got, x), lambda: "a field of type %s holds %r instead of %r" % (ft, got, x))
        taken += 1
    for v in case["probes"]:
        x = types.decode(v)
        want = types.accepts(spec, x)
        got = types.try_set(get_message_field_io_type(ft).unwrap(), x)
        expect_eq(got, want, "a field of type %s takes %r" % (ft, x))
        taken += not want
    ctx.nontrivial(taken >= 2)
    ctx.tag(spec["t"])


@st.composite
def field_cases(draw):
    base = st.sampled_from(sorted(types.INT_LIMITS) + ["boolean", "octet", "float", "double", "string", "wstring"])
    n = st.integers(1, 4)
    text = st.builds(lambda b, k: "%s<%d>" % (b, k), st.sampled_from(["string", "wstring"]), n)
    msg = st.sampled_from([m.replace("/msg/", "/") for m in types.MESSAGES] + ["string_int32_interfaces/Float"] * 5)
    one = st.one_of(base, base, text, msg)
    what = draw(st.integers(0, 4))
    ft = draw(one)
    if what == 1:
        ft = "sequence<%s>" % ft
    elif what == 2:
        ft = "sequence<%s, %d>" % (ft, draw(n))
    elif what == 3:
        ft = "%s[%d]" % (ft, draw(n))
    odd_package()
    gen = types._field_value(ft)
    legal = draw(st.lists(gen, min_size=1, max_size=3))
    spec = spec_of_field(ft)
    edges = []
    for f in sorted(types.INT_LIMITS):
        lo, hi = types.INT_LIMITS[f]
        edges += [lo, hi, lo - 1, hi + 1]
    pool = st.sampled_from(nodeio.PROBES + edges + ["a" * k for k in range(6)] + [1e39, -1e39])
    inner = draw(st.lists(pool, min_size=2, max_size=6))
    probes = list(inner)
    if spec["t"] == "list":
        good = types._field_value(ft[:-1].rsplit("[", 1)[0] if ft.endswith("]") else ft[9:-1].partition(", ")[0])
        for k in range(6):
            probes.append(draw(st.lists(good, min_size=k, max_size=k)))
        probes += [[x] for x in inner]
    return {"field": ft, "legal": legal, "probes": probes}


def run_roundtrip(case, ctx):
    """A message taken apart and put together again is the same message."""
    T = get_interface(case["type"])
    made = []
    for kind, key in (("MessageToFields", "input_type"), ("FieldsToMessage", "output_type")):
        desc = nodeio.base()[(module_of(kind), kind)]
        given = {i.key: {"static": False, "v": None} for i in desc.inputs}
        given[key] = {"static": True, "v": {"__type__": case["type"]}}
        msg, _ = nodeio.make_msg(desc, {"name": kind, "id": 1, "inputs": list(given.items())})
        made.append(Node.from_msg(msg, ros_node=fakeros.FakeNode()).unwrap())
    a, b = made
    for f in fields(T):
        b.node_config.inputs[f].is_static = False
    for n in made:
        expect(n.setup().is_ok(), "set-up failed")
    for v in case["values"]:
        x = types.decode(v)
        expect(a.node_config.inputs["in"].set_value(copy(x)).is_ok(), "%r refused" % x)
        r = a.tick()
        expect(r.is_ok() and a.state == model.S, lambda: "%r can't be taken apart: %s" % (x, r))
        for f in fields(T):
            r = a.node_config.outputs[f].get_value().and_then(b.node_config.inputs[f].set_value)
            expect(r.is_ok(), lambda: "field %s of %r: %s" % (f, x, r))
        r = b.tick()
        expect(r.is_ok() and b.state == model.S, lambda: "%r can't be put together: %s" % (x, r))
        got = b.node_config.outputs["out"].get_value().unwrap()
        if not types.same(got, x):
            raise Violation("%r became %r" % (x, got))
        expect(eq(a.node_config.inputs["in"].get_value().unwrap(), x), "the input changed")
        ctx.nontrivial(x != T())


@st.composite
def roundtrip_cases(draw):
    name = draw(st.sampled_from(types.MESSAGES + types.ARRAY_MESSAGES))
    return {"type": name, "values": draw(st.lists(types._msg_value(name), min_size=1, max_size=3))}
