import ament_index_python


def get_interface_packages():
    return ament_index_python.get_resources("rosidl_interfaces")


def _interfaces(package, prefix, suffixes):
    try:
        content, _ = ament_index_python.get_resource("rosidl_interfaces", package)
    except LookupError:
        return []
    return sorted(
        {
            n.rsplit(".", 1)[0]
            for n in content.splitlines()
            if n.startswith(prefix) and n.endswith(suffixes)
        }
    )


def _get(package_names, prefix, suffixes):
    if not package_names:
        package_names = list(get_interface_packages())
    out = {}
    for name in package_names:
        found = _interfaces(name, prefix, suffixes)
        if found:
            out[name] = found
    return out


def get_message_interfaces(package_names=None):
    return _get(package_names, "msg/", (".idl", ".msg"))


def get_service_interfaces(package_names=None):
    return _get(package_names, "srv/", (".idl", ".srv"))


def get_action_interfaces(package_names=None):
    return _get(package_names, "action/", (".idl", ".action"))
