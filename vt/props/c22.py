"""Subtrees are equivalent to their tree."""
from .. import subedit, subtree
from ..core import Check

RULE = "a case is a tree with subtree nodes whose trees are read from files and a history of operations; non-trivial if it was ticked at least twice and in a subtree a node was ticked and a value passed an input or output node"
ASSUMPTIONS = ["the nodes that produce and read values are ours and scripted; subtree nodes, input and output nodes, files, wirings and managers are real"]
CHECKS = [
    Check("nodes", lambda: subtree.cases(), subtree.run, 1000, 50000),
    Check("managed", lambda: subtree.cases(), subtree.run_managed, 400, 20000),
    Check("edited", lambda: subedit.cases(), subedit.run, 160, 5000),
]
