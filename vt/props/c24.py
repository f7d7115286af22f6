"""Comparison, arithmetic, conversion, constants and random numbers."""
from .. import compute
from ..core import Check

RULE = "a case is a node with chosen types and values, and a history of new values, ticks, interruptions, resets and shutdowns; non-trivial if a tick succeeded or failed"
ASSUMPTIONS = ["The size of numbers is limited so that powers, shifts and factorials can be calculated in reasonable time."]
CHECKS = [
    Check("compare", lambda: compute.cases(["Compare", "CompareNewOnly", "ALessThanB"]), compute.run, 2000, 40000),
    Check("pass", lambda: compute.cases(["Constant", "PassthroughNode", "IOInput", "IOOutput"]), compute.run, 1500, 20000),
    Check("numbers", lambda: compute.cases(["Operation", "UnaryOperation"]), compute.run, 4000, 100000),
    Check("convert", lambda: compute.cases(["Convert"]), compute.run, 2000, 40000),
    Check("random", lambda: compute.random_cases(), compute.run_random, 100, 3000),
]
