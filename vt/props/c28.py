"""The node as a whole."""
from .. import edit, execution, flow, server, store, subedit, subtree
from ..core import Check

RULE = "a case is a history of requests to a node; non-trivial as for the managers behind them (four edits, two commands with two ticks, data that arrived, a saved tree, a default tree that was ticked twice)"
ASSUMPTIONS = ["the middleware is a stand-in that records services, topics and timers; the node on top of it is real and started as in its main function"]
CHECKS = [
    Check("edits", lambda: edit.cases("topology", 12), server.run_edits, 300, 6000),
    Check("commands", lambda: execution.cases("control"), server.run_execution, 300, 6000),
    Check("data", lambda: flow.managed_cases(), server.run_data, 300, 6000),
    Check("subtrees", lambda: subtree.cases(), server.run_subtrees, 200, 4000),
    Check("subtree-edits", lambda: subedit.cases(), server.run_subtree_edits, 100, 3000),
    Check("files", lambda: store.roundtrip_cases(), server.run_files, 100, 2000),
    Check("store", lambda: store.store_cases(), server.run_store, 100, 2000),
    Check("start", lambda: server.start_cases(), server.run_start, 400, 8000),
]
