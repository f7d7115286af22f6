"""Process environment for every check: import paths, stand-ins, quiet logging.

Nothing here looks at how the code under test is written; it only makes
/repo's current working tree importable in this sandbox.
"""
import importlib.metadata
import os
import re
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_done = False


def package_version():
    """What importlib.metadata would report for an installed ros_bt_py."""
    with open(os.path.join(REPO, "ros_bt_py", "package.xml")) as f:
        return re.search(r"<version>([^<]*)</version>", f.read()).group(1)


def _install_metadata():
    orig = importlib.metadata.version
    cache = {}

    def version(name):
        if name == "ros_bt_py":
            if "v" not in cache:
                cache["v"] = package_version()
            return cache["v"]
        return orig(name)

    importlib.metadata.version = version


def _install_parameters():
    """ros_bt_py.parameters is generated at build time by a missing package."""
    mod = types.ModuleType("ros_bt_py.parameters")

    class _Params:
        pass

    class tree_node_parameters:
        Params = _Params

        class ParamListener:
            def __init__(self, node):
                self.node = node

            def get_params(self):
                return _Params()

    mod.tree_node_parameters = tree_node_parameters
    sys.modules["ros_bt_py.parameters"] = mod


def _patch_actions():
    """Action clients talk to the middleware when they are made, stand-ins do not."""
    import rclpy.action
    import rclpy.action.client

    real = rclpy.action.client.ActionClient

    class ActionClient(real):
        def __new__(cls, node, *args, **kwargs):
            from . import fakeros

            if isinstance(node, fakeros.FakeNode):
                return object.__new__(fakeros.FakeActionClient)
            return super().__new__(cls)

    rclpy.action.client.ActionClient = rclpy.action.ActionClient = ActionClient


def boot():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    for p in (os.path.join(VERIF, "shims"), os.path.join(REPO, "ros_bt_py")):
        if p not in sys.path:
            sys.path.insert(0, p)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    _install_metadata()
    _patch_actions()
    import ros_bt_py  # noqa: F401

    assert os.path.abspath(ros_bt_py.__file__).startswith(
        os.path.abspath(REPO) + os.sep
    ), ros_bt_py.__file__
    _install_parameters()
    # Logging: rclpy's default logger writes to stderr, which we do not need.
    import rclpy.logging

    try:
        rclpy.logging.set_logger_level("", rclpy.logging.LoggingSeverity.FATAL)
    except Exception:
        pass
