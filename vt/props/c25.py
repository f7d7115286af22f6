"""Services."""
from ..core import Check
from .. import ros

RULE = "a case is a node with a service type, inputs and a history of answers, waiting, new inputs, ticks, interruptions, resets and shutdowns; non-trivial if a tick succeeded or failed"
ASSUMPTIONS = ["the middleware is a stand-in that delivers an answer for a request of a client that was not destroyed"]
CHECKS = [
    Check("service", lambda: ros.cases("Service"), ros.run, 6000, 120000),
    Check("wait", lambda: ros.cases("WaitForService"), ros.run, 3000, 60000),
    Check("alone", ros.alone_cases, ros.run_alone, 300, 4000),
]
