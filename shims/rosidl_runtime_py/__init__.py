"""Stand-in for the rosidl_runtime_py package (not installed in this sandbox).

Follows the public behaviour of the upstream package for the functions
ros_bt_py uses; see DESIGN.md ("Stand-ins").
"""
from .convert import message_to_ordereddict, message_to_yaml
from .set_message import set_message_fields
from .get_interfaces import (
    get_interface_packages,
    get_message_interfaces,
    get_service_interfaces,
    get_action_interfaces,
)
from . import utilities

__all__ = [
    "message_to_ordereddict",
    "message_to_yaml",
    "set_message_fields",
    "get_interface_packages",
    "get_message_interfaces",
    "get_service_interfaces",
    "get_action_interfaces",
    "utilities",
]
