"""Values travel along wirings."""
from .. import flow
from ..core import Check

RULE = "a case is a wired tree and a history of operations; non-trivial if the tree was ticked at least twice and a wired input of a ticked node had a value"
ASSUMPTIONS = ["the nodes that produce and read values are ours and scripted; wirings, data types, nodes' life cycle and managers are real"]
CHECKS = [
    Check("wirings", lambda: flow.cases(), flow.run, 3000, 100000),
    Check("managed", lambda: flow.managed_cases(), flow.run_managed, 800, 30000),
]
