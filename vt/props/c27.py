"""Topics and parameters."""
from ..core import Check
from .. import ros

RULE = "a case is a node with a type, inputs and a history of messages or parameters, waiting, new inputs, ticks, interruptions, resets and shutdowns; non-trivial if a tick succeeded or failed"
ASSUMPTIONS = ["the middleware is a stand-in that delivers a message to the subscriptions of its topic"]
CHECKS = [
    Check("subscriber", lambda: ros.cases("TopicSubscriber"), ros.run, 3000, 60000),
    Check("memory", lambda: ros.cases("TopicMemorySubscriber"), ros.run, 3000, 60000),
    Check("publisher", lambda: ros.cases("TopicPublisher"), ros.run, 3000, 60000),
    Check("parameter", lambda: ros.cases("RosParam"), ros.run, 3000, 60000),
]
