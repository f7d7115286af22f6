"""What clients are told about node classes, interfaces, packages and channels."""
from .. import capabilities
from ..core import Check

RULE = "a case is a set of node modules and requests for them, a set of folders with packages and interfaces, or the channels of a ROS graph; non-trivial if classes of such a module, two packages and interfaces, or a channel were judged"
ASSUMPTIONS = []
CHECKS = [
    Check("nodes", capabilities.node_cases, capabilities.run_nodes, 300, 5000),
    Check("index", capabilities.index_cases, capabilities.run_index, 800, 12000),
    Check("channels", capabilities.channel_cases, capabilities.run_channels, 300, 4000),
]
