"""Saving and loading a tree gives the same tree."""
from .. import store
from ..core import Check

RULE = "a case is a tree built by edits, saved to a file and loaded again twice; non-trivial if it has at least two nodes"
ASSUMPTIONS = [
    "rosidl_runtime_py is not installed here: message_to_yaml and set_message_fields are stand-ins with the same behaviour",
]
CHECKS = [Check("roundtrip", store.roundtrip_cases, store.run_roundtrip, 600, 20000)]
