"""Subtrees taken out of edited, wired trees."""
from .. import edit
from ..core import Check

RULE = "a case is one sequence of up to 20 edits and extractions; non-trivial if a tree of at least four nodes was asked for a subtree twice"
ASSUMPTIONS = ["the ROS node is a stand-in; the tree manager, its nodes and its messages are real"]
CHECKS = [Check("extract", lambda: edit.cases("extract"), edit.run, 1500, 60000)]
