"""Name and enum switches against the reference model."""
from ..control import ORDERED, PARALLELS, program, run_program
from ..core import Check

RULE = (
    "a case is one tree with an operation history; non-trivial if at least two leaf "
    "ticks happened and the root returned at least two different results"
)
ASSUMPTIONS = ["leaves are scripted; every other node in the tree is the real one"]
KINDS = ("NameSwitch", "EnumSwitch")

CHECKS = [
    Check("direct", lambda: program(KINDS, errors=False), run_program, 3000, 40000),
    Check("errors", lambda: program(KINDS), run_program, 2000, 30000),
    Check(
        "nested",
        lambda: program(
            KINDS + ("Sequence", "Fallback"), KINDS + ORDERED + PARALLELS, depth=3
        ),
        run_program,
        1500,
        30000,
    ),
]
