"""Nodes that depend on time against the reference model."""
from ..control import DECORATORS, ORDERED, TIMED, run_program, timed_program
from ..core import Check

RULE = (
    "a case is one tree with a history of operations and passing time; non-trivial if the "
    "root returned at least two different results"
)
ASSUMPTIONS = ["the clock of the ROS node is replaced by one that the check moves"]

CHECKS = [
    Check("direct", lambda: timed_program(TIMED[:2], TIMED, errors=False), run_program, 2500, 60000),
    Check("errors", lambda: timed_program(TIMED[:2], TIMED), run_program, 1500, 40000),
    Check("waiting", lambda: timed_program(("Wait", "GetTimeNow"), errors=False), run_program, 500, 10000),
    Check("nested", lambda: timed_program(TIMED[:2] + ORDERED + DECORATORS[:5], TIMED * 3 + ORDERED + DECORATORS[:5], depth=3), run_program, 2500, 60000),
]
