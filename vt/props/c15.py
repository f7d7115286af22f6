"""Wiring edits, and every other edit on a wired tree."""
from .. import edit
from ..core import Check

RULE = "a case is one sequence of up to 20 edits; non-trivial if at least three operations were carried out and a wiring is left or an operation was refused"
ASSUMPTIONS = [
    "the ROS node is a stand-in; the tree manager, its nodes and its messages are real",
    "wiring the same pair twice, moving a node within a full parent and indices beyond either end are not documented and not judged",
]
CHECKS = [Check("edits", lambda: edit.cases("wire"), edit.run, 1500, 60000)]
