"""Nodes that read YAML files."""
from .. import files
from ..core import Check

RULE = "a case is a node with a chosen element type, files of lists, dictionaries and damaged texts, and a history of ticks, new paths and changed files; non-trivial if a tick succeeded or failed"
ASSUMPTIONS = []
CHECKS = [Check("files", files.cases, files.run, 4000, 120000)]
