"""Damaged, hostile and old tree files and messages."""
from .. import loading
from ..core import Check

RULE = "a case is one tree file or message with at most two kinds of damage, loaded and then edited or run; non-trivial if there is damage, another version or another path"
ASSUMPTIONS = [
    "rosidl_runtime_py is not installed here: message_to_yaml and set_message_fields are stand-ins with the same behaviour",
    "invalid input values in a message are not judged: shipped trees rely on them being ignored",
]
CHECKS = [
    Check("messages", loading.message_cases, loading.run_message, 1200, 40000, cpu_limit=20),
    Check("files", loading.file_cases, loading.run_file, 1200, 40000, cpu_limit=20),
    Check("migration", loading.cli_cases, loading.run_cli, 250, 6000),
]
