"""Nodes on lists, dictionaries, messages and texts."""
from .. import compute
from ..core import Check

RULE = "a case is a node with chosen types, values and child, and a history of new values, ticks, interruptions, resets and shutdowns; non-trivial if a tick succeeded or failed. formatter: a text with fields and values for them; non-trivial if there is a result"
ASSUMPTIONS = []
LISTS = ["ListLength", "InsertInList", "IsInList", "AppendListItem", "GetListItem"]
DICTS = ["SetDictItem", "GetDictItem", "GetMultipleDictItems"]
CHECKS = [
    Check("lists", lambda: compute.cases(LISTS), compute.run, 3000, 60000),
    Check("iterate", lambda: compute.cases(["IterateList"]), compute.run, 1500, 30000),
    Check("dicts", lambda: compute.cases(DICTS), compute.run, 2000, 40000),
    Check("messages", lambda: compute.cases(["GetAttr", "SetAttr"]), compute.run, 2000, 40000),
    Check("texts", lambda: compute.cases(["StringConcatenation", "FormatString", "FormatStringList", "GetFileExtension"]), compute.run, 3000, 60000, corpus=[{"example": "FormatString"}, {"example": "FormatStringList"}]),
    Check("formatter", lambda: compute.formatter_cases(), compute.run_formatter, 1500, 30000),
]
