"""Actions."""
from ..core import Check
from .. import ros

RULE = "a case is a node with an action type, inputs and a history of what the server does, waiting, new inputs, ticks, interruptions, resets and shutdowns; non-trivial if a tick succeeded or failed"
ASSUMPTIONS = ["the middleware is a stand-in that delivers what a server answers to clients that were not destroyed"]
CHECKS = [Check("action", lambda: ros.cases("Action"), ros.run, 8000, 160000)]
