"""Utility bounds."""
from .. import utility
from ..core import Check

RULE = (
    "bounds: a case is a tree with leaves of generated bounds; non-trivial if at least two kinds of nodes in it have bounds. "
    "cost: the same with an outcome for every leaf; non-trivial if at least two leaves were executed and the result is bounded. "
    "topic: a case is a subscriber and publishers; non-trivial if there are at least two. "
    "servers: a history of a node for a service or action; non-trivial if a server was there and not there. "
    "subtree: a tree in the file of a subtree; non-trivial if it has three nodes and can be executed"
)
ASSUMPTIONS = ["leaves have scripted bounds and results"]

CHECKS = [
    Check("bounds", lambda: utility.bounds_cases(), utility.run_bounds, 3500, 80000),
    Check("cost", lambda: utility.cost_cases(), utility.run_cost, 2500, 60000),
    Check("topic", lambda: utility.topic_cases(), utility.run_topic, 800, 15000),
    Check("servers", lambda: utility.server_cases(), utility.run_servers, 1500, 30000),
    Check("subtree", lambda: utility.subtree_cases(), utility.run_subtree, 1200, 25000),
]
