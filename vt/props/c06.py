"""Fields of messages."""
from ..core import Check
from .. import ros

RULE = "a case is a field type with values within and outside of it, or a message type with messages; non-trivial if two values were judged, a message differs from an empty one, or a tick succeeded"
ASSUMPTIONS = []
CHECKS = [
    Check("field", ros.field_cases, ros.run_field, 4000, 80000),
    Check("roundtrip", ros.roundtrip_cases, ros.run_roundtrip, 1500, 30000),
    Check("apart", lambda: ros.cases("MessageToFields"), ros.run, 2000, 40000),
    Check("together", lambda: ros.cases("FieldsToMessage"), ros.run, 2000, 40000),
    Check("constants", lambda: ros.cases("EnumFields"), ros.run, 1000, 10000),
]
