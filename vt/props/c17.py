"""Edits that must be refused, mixed with ones that must not."""
from .. import edit
from ..core import Check

RULE = "a case is one sequence of up to 20 edits; non-trivial if at least two operations were refused and two carried out"
ASSUMPTIONS = [
    "the ROS node is a stand-in; the tree manager, its nodes and its messages are real",
    "wiring the same pair twice, moving a node within a full parent and indices beyond either end are not documented and not judged",
]
CHECKS = [
    Check("edits", lambda: edit.cases("refused"), edit.run, 1500, 60000),
    Check("shape", lambda: edit.cases("shape", 18), edit.run, 1500, 40000),
]
