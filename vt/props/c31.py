"""Diagnostics of nodes and log messages."""
from .. import reports
from ..core import Check

RULE = "a case is a tree, maybe with a subtree, and a history of commands while diagnostics, log level and messages change; non-trivial if four calls of leaves were reported or two messages logged"
ASSUMPTIONS = ["the ROS node and its log are stand-ins; everything above them is real"]
CHECKS = [Check("reports", reports.cases, reports.run, 800, 15000)]
