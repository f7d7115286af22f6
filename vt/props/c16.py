"""Edits of the tree's shape."""
from .. import edit, extra
from ..core import Check

RULE = "a case is one sequence of up to 20 edits; non-trivial if at least four operations were carried out; 'shape' only changes links, in small trees"
ASSUMPTIONS = [
    "the ROS node is a stand-in; the tree manager, its nodes and its messages are real",
    "wiring the same pair twice, moving a node within a full parent and indices beyond either end are not documented and not judged",
]
CHECKS = [
    Check("edits", lambda: edit.cases("topology"), edit.run, 1500, 60000),
    Check("shape", lambda: edit.cases("shape", 18), edit.run, 3000, 120000),
    Check("extra", lambda: extra.cases(), extra.run, 800, 20000),
]
