"""Decorators against the reference model."""
from ..control import DECORATORS, ORDERED, program, run_program
from ..core import Check

RULE = (
    "a case is one tree with an operation history; non-trivial if at least two leaf "
    "ticks happened and the root returned at least two different results"
)
ASSUMPTIONS = ["leaves are scripted; every other node in the tree is the real one"]

CHECKS = [
    Check("direct", lambda: program(DECORATORS, errors=False), run_program, 4000, 50000),
    Check("errors", lambda: program(DECORATORS), run_program, 3000, 40000),
    Check("optional", lambda: program(("Optional",), ("Optional", "Sequence", "Fallback", "Parallel", "Inverter"), depth=3, utils=True), run_program, 1000, 20000),
    Check(
        "nested",
        lambda: program(DECORATORS + ("Sequence",), DECORATORS + ORDERED, depth=3),
        run_program,
        2000,
        40000,
    ),
]
