"""A ROS node stand-in: a clock we move, and middleware objects that record calls.

It is an instance of rclpy.node.Node (the code checks types) but never touches
the middleware.
"""
import copy
import types

from . import bootstrap

bootstrap.boot()

import rclpy.action.client  # noqa: E402
import rclpy.client  # noqa: E402
import rclpy.logging  # noqa: E402
import rclpy.node  # noqa: E402
import rclpy.task  # noqa: E402
from rclpy.clock import ClockType  # noqa: E402
from rclpy.time import Time  # noqa: E402
from action_msgs.msg import GoalStatus  # noqa: E402


class FakeClock:
    def __init__(self, nanoseconds=1_000_000_000_000):
        self.ns = nanoseconds
        self.clock_type = ClockType.ROS_TIME

    def now(self):
        return Time(nanoseconds=self.ns, clock_type=ClockType.ROS_TIME)

    def advance(self, seconds):
        self.ns += int(round(seconds * 1e9))


class FakeRate:
    def __init__(self, node, frequency):
        self.node = node
        self.frequency = frequency

    def sleep(self):
        if self.node.on_sleep is not None:
            self.node.on_sleep(self)


class FakeSub:
    def __init__(self, msg_type, topic, callback, qos):
        self.msg_type, self.topic, self.callback, self.qos = msg_type, topic, callback, qos
        self.alive = True


class FakePub:
    def __init__(self, msg_type, topic, qos, node=None):
        self.msg_type, self.topic, self.qos, self.node = msg_type, topic, qos, node
        self.alive = True
        self.sent = []

    def publish(self, msg):
        if not self.alive:
            raise RuntimeError("destroyed")
        if not isinstance(msg, self.msg_type):
            raise TypeError()
        self.sent.append(msg)
        if self.node is not None:
            self.node.sent.append((self.topic, copy.deepcopy(msg)))


class FakeFuture(rclpy.task.Future):
    def __del__(self):
        pass

    def __init__(self):
        self._done = False
        self._cancelled = False
        self._result = None
        self._exc = None
        self.callbacks = []

    def done(self):
        return self._done

    def cancelled(self):
        return self._cancelled

    def cancel(self):
        if not self._done:
            self._cancelled = True
            self._run()

    def result(self):
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self):
        return self._exc

    def set_result(self, value):
        self._cancelled = False
        self._result = value
        self._done = True
        self._run()

    def add_done_callback(self, cb):
        self.callbacks.append(cb)
        if self._done or self._cancelled:
            self._run()

    def _run(self):
        todo, self.callbacks = self.callbacks, []
        for cb in todo:
            cb(self)


class FakeClient(rclpy.client.Client):
    def __del__(self):
        pass

    def __init__(self, node, srv_type, name):
        self.node, self.srv_type, self.srv_name = node, srv_type, name
        self.alive = True
        self.ready = True
        self.calls = []

    def call_async(self, request):
        if not isinstance(request, self.srv_type.Request):
            raise TypeError()
        if not self.alive:
            raise RuntimeError("destroyed")
        fut = FakeFuture()
        self.calls.append((request, fut))
        self.node.calls.append(Call(self, request, fut))
        return fut

    def remove_pending_request(self, fut):
        fut.cancel()

    def service_is_ready(self):
        if not self.alive:
            raise RuntimeError("destroyed")
        names = self.node.ready_names
        return self.ready and self.node.services_ready and (names is None or self.srv_name in names)

    def wait_for_service(self, timeout_sec=None):
        return self.service_is_ready()

    def destroy(self):
        self.alive = False


class Call:
    def __init__(self, client, request, future):
        self.client, self.request, self.future = client, copy.deepcopy(request), future
        self.answered = False


class GoalHandle:
    """What a client gets for a goal that it has sent."""

    def __init__(self, goal, accepted):
        self.goal = goal
        self.accepted = accepted
        self.status = GoalStatus.STATUS_UNKNOWN
        self.goal_id = object()

    def cancel_goal_async(self):
        if not self.goal.client.alive:
            raise RuntimeError("destroyed")
        fut = FakeFuture()
        self.goal.cancels.append(fut)
        return fut

    def get_result_async(self):
        if not self.goal.client.alive:
            raise RuntimeError("destroyed")
        fut = FakeFuture()
        self.goal.results.append(fut)
        if self.goal.finished is not None:
            self.goal.resolve()
        return fut


class Goal:
    def __init__(self, client, goal, feedback, future):
        self.client, self.goal, self.feedback, self.request = client, copy.deepcopy(goal), feedback, future
        self.handle = None
        self.accepted = None
        self.cancels = []
        self.results = []
        self.finished = None

    def accept(self, yes):
        self.accepted = yes
        self.handle = GoalHandle(self, yes)
        self.request.set_result(self.handle)

    def finish(self, status, result):
        self.finished = status
        self.handle.status = status
        self.result = result
        self.resolve()

    def resolve(self):
        for fut in self.results:
            fut.set_result(types.SimpleNamespace(status=self.finished, result=self.result))


class FakeActionClient(rclpy.action.client.ActionClient):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __del__(self):
        pass

    def __init__(self, node, action_type, action_name, **k):
        self.node, self.action_type, self.action_name = node, action_type, action_name
        self.alive = True
        node.action_clients.append(self)

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        if not isinstance(goal, self.action_type.Goal):
            raise TypeError()
        if not self.alive:
            raise RuntimeError("destroyed")
        fut = FakeFuture()
        self.node.goals.append(Goal(self, goal, feedback_callback, fut))
        return fut

    def server_is_ready(self):
        if not self.alive:
            raise RuntimeError("destroyed")
        names = self.node.ready_names
        return names is None or self.action_name in names

    def wait_for_server(self, timeout_sec=None):
        return self.server_is_ready()

    def destroy(self):
        self.alive = False


class FakeNode(rclpy.node.Node):
    def __init__(self):  # no super().__init__: nothing real is created
        self.clock = FakeClock()
        self.on_sleep = None
        self.subs, self.pubs, self.clis = [], [], []
        self.services_ready = True
        self.params = {}
        self.topics = []
        self.service_list = []
        self.rates = []
        self.endpoints = []
        self.calls = []
        self.sent = []
        self.goals = []
        self.action_clients = []
        self.ready_names = None

    def __repr__(self):
        return "FakeNode"

    # -- what Node.__del__ and friends might look at
    def destroy_node(self):
        pass

    def get_name(self):
        return "fake"

    def get_namespace(self):
        return "/"

    def get_logger(self):
        return rclpy.logging.get_logger("fake")

    def get_clock(self):
        return self.clock

    def create_rate(self, frequency, *a, **k):
        if frequency <= 0:
            raise ValueError("frequency must be > 0")
        r = FakeRate(self, frequency)
        self.rates.append(r)
        return r

    def create_timer(self, period, callback, *a, **k):
        return None

    def create_subscription(self, msg_type, topic, callback, qos_profile=10, **k):
        s = FakeSub(msg_type, topic, callback, qos_profile)
        self.subs.append(s)
        return s

    def destroy_subscription(self, sub):
        sub.alive = False
        return True

    def create_publisher(self, msg_type, topic, qos_profile=10, **k):
        p = FakePub(msg_type, topic, qos_profile, self)
        self.pubs.append(p)
        return p

    def destroy_publisher(self, pub):
        pub.alive = False
        return True

    def create_client(self, srv_type, name, **k):
        c = FakeClient(self, srv_type, name)
        self.clis.append(c)
        return c

    def destroy_client(self, client):
        client.alive = False
        return True

    # -- parameters
    def has_parameter(self, name):
        return name in self.params

    def get_parameter(self, name):
        return self.params[name]

    def get_topic_names_and_types(self, no_demangle=False):
        return list(self.topics)

    def get_service_names_and_types(self):
        return list(self.service_list)

    def resolve_topic_name(self, topic, *, only_expand=False):
        return topic if topic.startswith("/") else "/" + topic

    def get_publishers_info_by_topic(self, topic_name, no_mangle=False):
        return [e for t, e in self.endpoints if t == topic_name]

    def deliver(self, topic, msg):
        """Hand a message to every live subscription of the topic."""
        n = 0
        for s in list(self.subs):
            if s.alive and s.topic == topic:
                s.callback(msg)
                n += 1
        return n
