import array
import importlib

import numpy as np
from rosidl_parser.definition import AbstractNestedType, NamespacedType


def set_message_fields(msg, values):
    timestamp_fields = []

    def internal(msg, values):
        try:
            items = values.items()
        except AttributeError:
            raise TypeError(
                "Value '%s' is expected to be a dictionary but is a %s"
                % (values, type(values).__name__)
            )
        slot_types = dict(zip([s[1:] for s in msg.__slots__], msg.SLOT_TYPES))
        for field_name, field_value in items:
            field = getattr(msg, field_name)
            field_type = type(field)
            if field_type is array.array:
                value = field_type(field.typecode, field_value)
            elif field_type is np.ndarray:
                value = np.array(field_value, dtype=field.dtype)
            elif type(field_value) is field_type:
                value = field_value
            else:
                try:
                    value = field_type(field_value)
                except TypeError:
                    value = field_type()
                    internal(value, field_value)
            rosidl_type = slot_types[field_name]
            if isinstance(rosidl_type, AbstractNestedType) and isinstance(
                rosidl_type.value_type, NamespacedType
            ):
                module = importlib.import_module(
                    ".".join(rosidl_type.value_type.namespaces)
                )
                elem_type = getattr(module, rosidl_type.value_type.name)
                for n in range(len(value)):
                    submsg = elem_type()
                    internal(submsg, value[n])
                    value[n] = submsg
            setattr(msg, field_name, value)

    internal(msg, values)
    return timestamp_fields
