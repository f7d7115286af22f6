"""Messages that describe nodes."""
from .. import nodeio, same
from ..core import Check

RULE = "a case is a node class, a name, an id and values for its inputs, and damages of its message; non-trivial if inputs were given; or a tree, a copy of it and changes of either, non-trivial if it has several nodes"
ASSUMPTIONS = []
CHECKS = [
    Check("nodes", lambda: nodeio.round_cases(), nodeio.run_round, 3000, 100000),
    Check("same", lambda: same.cases(), same.run, 500, 15000),
]
