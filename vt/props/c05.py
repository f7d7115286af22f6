"""Chosen types."""
from .. import nodeio
from ..core import Check

RULE = "a case is a node class with two sets of chosen types and input values; non-trivial if types were chosen and inputs or outputs follow from them"
ASSUMPTIONS = []
CHECKS = [
    Check("types", lambda: nodeio.type_cases(), nodeio.run_types, 2500, 80000),
    Check("configs", lambda: nodeio.config_cases(), nodeio.run_configs, 2500, 80000),
]
