import array
import sys
from collections import OrderedDict

import numpy
import yaml


def _represent_ordereddict(dumper, data):
    items = []
    for k, v in data.items():
        items.append((dumper.represent_data(k), dumper.represent_data(v)))
    return yaml.nodes.MappingNode("tag:yaml.org,2002:map", items)


_registered = False


def message_to_yaml(msg, *, flow_style=False):
    global _registered
    if not _registered:
        yaml.add_representer(OrderedDict, _represent_ordereddict)
        _registered = True
    return yaml.dump(
        message_to_ordereddict(msg),
        allow_unicode=True,
        width=sys.maxsize,
        default_flow_style=flow_style,
    )


def message_to_ordereddict(msg):
    d = OrderedDict()
    for field_name, _field_type in zip(msg.__slots__, msg.SLOT_TYPES):
        value = getattr(msg, field_name, None)
        d[field_name[1:]] = _convert_value(value)
    return d


def _convert_value(value):
    if isinstance(value, bytes):
        value = "".join([chr(c) for c in value])
    elif isinstance(value, str):
        pass
    elif isinstance(value, (list, tuple, array.array, numpy.ndarray)):
        typename = tuple if isinstance(value, tuple) else list
        value = typename([_convert_value(v) for v in value])
    elif isinstance(value, dict):
        value = OrderedDict(
            (_convert_value(k), _convert_value(v)) for k, v in value.items()
        )
    elif isinstance(value, numpy.number):
        value = value.item()
    elif not isinstance(value, (bool, float, int)):
        value = message_to_ordereddict(value)
    return value
