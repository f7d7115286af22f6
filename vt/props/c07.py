"""Node life cycle."""
from .. import lifecycle
from ..core import Check

RULE = "a case is a tree whose leaves' hooks answer anything, and calls to any of its nodes; non-trivial if at least two calls succeeded and at least four kinds of outcome were seen"
ASSUMPTIONS = []
CHECKS = [Check("calls", lambda: lifecycle.cases(), lifecycle.run, 4000, 100000)]
