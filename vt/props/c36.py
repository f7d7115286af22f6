"""Execution commands against a model of the tree state."""
from .. import execution
from ..core import Check

RULE = "a case is one tree with a schedule of commands and ticks; non-trivial if at least two commands had an effect and two leaves were ticked"
ASSUMPTIONS = [
    "the ROS node is a stand-in; the tick thread is real and is parked between ticks by its rate object",
    "what a tree without nodes answers, and stopping a tree that does not run, are not documented and not judged beyond the state",
    "races: the end of a tick is placed at the points where the command reads or writes the state of the manager; finer interleavings are left to chance",
]
CHECKS = [
    Check("commands", lambda: execution.cases("control"), execution.run, 2000, 40000),
    Check("races", execution.command_race_cases, execution.run_command_race, 300, 8000),
]
