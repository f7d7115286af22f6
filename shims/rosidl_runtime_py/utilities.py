import importlib


def is_message(value):
    return hasattr(value, "get_fields_and_field_types")


def is_service(value):
    return hasattr(value, "Request") and hasattr(value, "Response")


def is_action(value):
    return (
        hasattr(value, "Goal") and hasattr(value, "Result") and hasattr(value, "Feedback")
    )


def get_interface(identifier):
    parts = identifier.split("/")
    if len(parts) < 2 or not all(parts):
        raise ValueError(
            "Invalid interface name '%s'. Expected at least two parts separated by '/'"
            % (identifier,)
        )
    if len(parts) == 2:
        parts = [parts[0], "msg", parts[1]]
    module = importlib.import_module(".".join(parts[:-1]))
    return getattr(module, parts[-1])


def get_message(identifier):
    interface = get_interface(identifier)
    if not is_message(interface):
        raise ValueError(
            "Expected the full name of a message, got '{}'".format(identifier)
        )
    return interface


def get_service(identifier):
    interface = get_interface(identifier)
    if not is_service(interface):
        raise ValueError(
            "Expected the full name of a service, got '{}'".format(identifier)
        )
    return interface


def get_action(identifier):
    interface = get_interface(identifier)
    if not is_action(interface):
        raise ValueError(
            "Expected the full name of an action, got '{}'".format(identifier)
        )
    return interface
