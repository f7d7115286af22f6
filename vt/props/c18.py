"""Edits while a tree executes."""
from .. import execution
from ..core import Check

RULE = "a case is one tree with a schedule of commands, ticks and edits; non-trivial if an edit was attempted while the tree was executing (races: if execution started next to an edit in progress)"
ASSUMPTIONS = [
    "the ROS node is a stand-in; the tick thread is real and is parked between ticks by its rate object",
    "a race is decided by the tree state seen while a node is being constructed for the edit",
]
CHECKS = [
    Check("schedules", lambda: execution.cases("edits"), execution.run_edits, 1500, 30000),
    Check("races", execution.race_cases, execution.run_race, 240, 6000),
]
