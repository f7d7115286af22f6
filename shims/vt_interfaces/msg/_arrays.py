# generated from rosidl_generator_py/resource/_idl.py.em
# with input from vt_interfaces:msg/Arrays.idl
# generated code does not contain a copyright notice

# This is being done at the module level and not on the instance level to avoid looking
# for the same variable multiple times on each instance. This variable is not supposed to
# change during runtime so it makes sense to only look for it once.
from os import getenv

ros_python_check_fields = getenv('ROS_PYTHON_CHECK_FIELDS', default='')


# Import statements for member types

# Member 'unb_int'
# Member 'bnd_int'
# Member 'unb_float'
# Member 'unb_u8'
import array  # noqa: E402, I100

import builtins  # noqa: E402, I100

import math  # noqa: E402, I100

# Member 'fix_int'
# Member 'fix_float'
import numpy  # noqa: E402, I100

import rosidl_parser.definition  # noqa: E402, I100


class Metaclass_Arrays(type):
    """Metaclass of message 'Arrays'."""

    _CREATE_ROS_MESSAGE = None
    _CONVERT_FROM_PY = None
    _CONVERT_TO_PY = None
    _DESTROY_ROS_MESSAGE = None
    _TYPE_SUPPORT = None

    __constants = {
    }

    @classmethod
    def __import_type_support__(cls):
        try:
            from rosidl_generator_py import import_type_support
            module = import_type_support('vt_interfaces')
        except ImportError:
            import logging
            import traceback
            logger = logging.getLogger(
                'vt_interfaces.msg.Arrays')
            logger.debug(
                'Failed to import needed modules for type support:\n' +
                traceback.format_exc())
        else:
            cls._CREATE_ROS_MESSAGE = module.create_ros_message_msg__msg__arrays
            cls._CONVERT_FROM_PY = module.convert_from_py_msg__msg__arrays
            cls._CONVERT_TO_PY = module.convert_to_py_msg__msg__arrays
            cls._TYPE_SUPPORT = module.type_support_msg__msg__arrays
            cls._DESTROY_ROS_MESSAGE = module.destroy_ros_message_msg__msg__arrays

            from vt_interfaces.msg import Nested
            if Nested.__class__._TYPE_SUPPORT is None:
                Nested.__class__.__import_type_support__()

            from vt_interfaces.msg import Prims
            if Prims.__class__._TYPE_SUPPORT is None:
                Prims.__class__.__import_type_support__()

    @classmethod
    def __prepare__(cls, name, bases, **kwargs):
        # list constant names here so that they appear in the help text of
        # the message class under "Data and other attributes defined here:"
        # as well as populate each message instance
        return {
        }


class Arrays(metaclass=Metaclass_Arrays):
    """Message class 'Arrays'."""

    __slots__ = [
        '_unb_int',
        '_fix_int',
        '_bnd_int',
        '_unb_float',
        '_fix_float',
        '_unb_str',
        '_fix_str',
        '_bnd_str',
        '_unb_bool',
        '_fix_bool',
        '_unb_msg',
        '_fix_msg',
        '_bnd_msg',
        '_unb_u8',
        '_check_fields',
    ]

    _fields_and_field_types = {
        'unb_int': 'sequence<int32>',
        'fix_int': 'int32[3]',
        'bnd_int': 'sequence<int32, 4>',
        'unb_float': 'sequence<double>',
        'fix_float': 'double[2]',
        'unb_str': 'sequence<string>',
        'fix_str': 'string[2]',
        'bnd_str': 'sequence<string<4>, 3>',
        'unb_bool': 'sequence<boolean>',
        'fix_bool': 'boolean[2]',
        'unb_msg': 'sequence<vt_interfaces/Prims>',
        'fix_msg': 'vt_interfaces/Nested[2]',
        'bnd_msg': 'sequence<vt_interfaces/Prims, 2>',
        'unb_u8': 'sequence<uint8>',
    }

    # This attribute is used to store an rosidl_parser.definition variable
    # related to the data type of each of the components the message.
    SLOT_TYPES = (
        rosidl_parser.definition.UnboundedSequence(rosidl_parser.definition.BasicType('int32')),  # noqa: E501
        rosidl_parser.definition.Array(rosidl_parser.definition.BasicType('int32'), 3),  # noqa: E501
        rosidl_parser.definition.BoundedSequence(rosidl_parser.definition.BasicType('int32'), 4),  # noqa: E501
        rosidl_parser.definition.UnboundedSequence(rosidl_parser.definition.BasicType('double')),  # noqa: E501
        rosidl_parser.definition.Array(rosidl_parser.definition.BasicType('double'), 2),  # noqa: E501
        rosidl_parser.definition.UnboundedSequence(rosidl_parser.definition.UnboundedString()),  # noqa: E501
        rosidl_parser.definition.Array(rosidl_parser.definition.UnboundedString(), 2),  # noqa: E501
        rosidl_parser.definition.BoundedSequence(rosidl_parser.definition.BoundedString(4), 3),  # noqa: E501
        rosidl_parser.definition.UnboundedSequence(rosidl_parser.definition.BasicType('boolean')),  # noqa: E501
        rosidl_parser.definition.Array(rosidl_parser.definition.BasicType('boolean'), 2),  # noqa: E501
        rosidl_parser.definition.UnboundedSequence(rosidl_parser.definition.NamespacedType(['vt_interfaces', 'msg'], 'Prims')),  # noqa: E501
        rosidl_parser.definition.Array(rosidl_parser.definition.NamespacedType(['vt_interfaces', 'msg'], 'Nested'), 2),  # noqa: E501
        rosidl_parser.definition.BoundedSequence(rosidl_parser.definition.NamespacedType(['vt_interfaces', 'msg'], 'Prims'), 2),  # noqa: E501
        rosidl_parser.definition.UnboundedSequence(rosidl_parser.definition.BasicType('uint8')),  # noqa: E501
    )

    def __init__(self, **kwargs):
        if 'check_fields' in kwargs:
            self._check_fields = kwargs['check_fields']
        else:
            self._check_fields = ros_python_check_fields == '1'
        if self._check_fields:
            assert all('_' + key in self.__slots__ for key in kwargs.keys()), \
                'Invalid arguments passed to constructor: %s' % \
                ', '.join(sorted(k for k in kwargs.keys() if '_' + k not in self.__slots__))
        self.unb_int = array.array('i', kwargs.get('unb_int', []))
        if 'fix_int' not in kwargs:
            self.fix_int = numpy.zeros(3, dtype=numpy.int32)
        else:
            self.fix_int = kwargs.get('fix_int')
        self.bnd_int = array.array('i', kwargs.get('bnd_int', []))
        self.unb_float = array.array('d', kwargs.get('unb_float', []))
        if 'fix_float' not in kwargs:
            self.fix_float = numpy.zeros(2, dtype=numpy.float64)
        else:
            self.fix_float = kwargs.get('fix_float')
        self.unb_str = kwargs.get('unb_str', [])
        self.fix_str = kwargs.get(
            'fix_str',
            [str() for x in range(2)]
        )
        self.bnd_str = kwargs.get('bnd_str', [])
        self.unb_bool = kwargs.get('unb_bool', [])
        self.fix_bool = kwargs.get(
            'fix_bool',
            [bool() for x in range(2)]
        )
        self.unb_msg = kwargs.get('unb_msg', [])
        from vt_interfaces.msg import Nested
        self.fix_msg = kwargs.get(
            'fix_msg',
            [Nested() for x in range(2)]
        )
        self.bnd_msg = kwargs.get('bnd_msg', [])
        self.unb_u8 = array.array('B', kwargs.get('unb_u8', []))

    def __repr__(self):
        typename = self.__class__.__module__.split('.')
        typename.pop()
        typename.append(self.__class__.__name__)
        args = []
        for s, t in zip(self.get_fields_and_field_types().keys(), self.SLOT_TYPES):
            field = getattr(self, s)
            fieldstr = repr(field)
            # We use Python array type for fields that can be directly stored
            # in them, and "normal" sequences for everything else.  If it is
            # a type that we store in an array, strip off the 'array' portion.
            if (
                isinstance(t, rosidl_parser.definition.AbstractSequence) and
                isinstance(t.value_type, rosidl_parser.definition.BasicType) and
                t.value_type.typename in ['float', 'double', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
            ):
                if len(field) == 0:
                    fieldstr = '[]'
                else:
                    if self._check_fields:
                        assert fieldstr.startswith('array(')
                    prefix = "array('X', "
                    suffix = ')'
                    fieldstr = fieldstr[len(prefix):-len(suffix)]
            args.append(s + '=' + fieldstr)
        return '%s(%s)' % ('.'.join(typename), ', '.join(args))

    def __eq__(self, other):
        if not isinstance(other, self.__class__):
            return False
        if self.unb_int != other.unb_int:
            return False
        if any(self.fix_int != other.fix_int):
            return False
        if self.bnd_int != other.bnd_int:
            return False
        if self.unb_float != other.unb_float:
            return False
        if any(self.fix_float != other.fix_float):
            return False
        if self.unb_str != other.unb_str:
            return False
        if self.fix_str != other.fix_str:
            return False
        if self.bnd_str != other.bnd_str:
            return False
        if self.unb_bool != other.unb_bool:
            return False
        if self.fix_bool != other.fix_bool:
            return False
        if self.unb_msg != other.unb_msg:
            return False
        if self.fix_msg != other.fix_msg:
            return False
        if self.bnd_msg != other.bnd_msg:
            return False
        if self.unb_u8 != other.unb_u8:
            return False
        return True

    @classmethod
    def get_fields_and_field_types(cls):
        from copy import copy
        return copy(cls._fields_and_field_types)

    @builtins.property
    def unb_int(self):
        """Message field 'unb_int'."""
        return self._unb_int

    @unb_int.setter
    def unb_int(self, value):
        if self._check_fields:
            if isinstance(value, array.array):
                assert value.typecode == 'i', \
                    "The 'unb_int' array.array() must have the type code of 'i'"
                self._unb_int = value
                return
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(isinstance(v, int) for v in value) and
                 all(val >= -2147483648 and val < 2147483648 for val in value)), \
                "The 'unb_int' field must be a set or sequence and each value of type 'int' and each integer in [-2147483648, 2147483647]"
        self._unb_int = array.array('i', value)

    @builtins.property
    def fix_int(self):
        """Message field 'fix_int'."""
        return self._fix_int

    @fix_int.setter
    def fix_int(self, value):
        if self._check_fields:
            if isinstance(value, numpy.ndarray):
                assert value.dtype == numpy.int32, \
                    "The 'fix_int' numpy.ndarray() must have the dtype of 'numpy.int32'"
                assert value.size == 3, \
                    "The 'fix_int' numpy.ndarray() must have a size of 3"
                self._fix_int = value
                return
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) == 3 and
                 all(isinstance(v, int) for v in value) and
                 all(val >= -2147483648 and val < 2147483648 for val in value)), \
                "The 'fix_int' field must be a set or sequence with length 3 and each value of type 'int' and each integer in [-2147483648, 2147483647]"
        self._fix_int = numpy.array(value, dtype=numpy.int32)

    @builtins.property
    def bnd_int(self):
        """Message field 'bnd_int'."""
        return self._bnd_int

    @bnd_int.setter
    def bnd_int(self, value):
        if self._check_fields:
            if isinstance(value, array.array):
                assert value.typecode == 'i', \
                    "The 'bnd_int' array.array() must have the type code of 'i'"
                assert len(value) <= 4, \
                    "The 'bnd_int' array.array() must have a size <= 4"
                self._bnd_int = value
                return
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) <= 4 and
                 all(isinstance(v, int) for v in value) and
                 all(val >= -2147483648 and val < 2147483648 for val in value)), \
                "The 'bnd_int' field must be a set or sequence with length <= 4 and each value of type 'int' and each integer in [-2147483648, 2147483647]"
        self._bnd_int = array.array('i', value)

    @builtins.property
    def unb_float(self):
        """Message field 'unb_float'."""
        return self._unb_float

    @unb_float.setter
    def unb_float(self, value):
        if self._check_fields:
            if isinstance(value, array.array):
                assert value.typecode == 'd', \
                    "The 'unb_float' array.array() must have the type code of 'd'"
                self._unb_float = value
                return
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(isinstance(v, float) for v in value) and
                 all(not (val < -1.7976931348623157e+308 or val > 1.7976931348623157e+308) or math.isinf(val) for val in value)), \
                "The 'unb_float' field must be a set or sequence and each value of type 'float' and each double in [-179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184124858368.000000, 179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184124858368.000000]"
        self._unb_float = array.array('d', value)

    @builtins.property
    def fix_float(self):
        """Message field 'fix_float'."""
        return self._fix_float

    @fix_float.setter
    def fix_float(self, value):
        if self._check_fields:
            if isinstance(value, numpy.ndarray):
                assert value.dtype == numpy.float64, \
                    "The 'fix_float' numpy.ndarray() must have the dtype of 'numpy.float64'"
                assert value.size == 2, \
                    "The 'fix_float' numpy.ndarray() must have a size of 2"
                self._fix_float = value
                return
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) == 2 and
                 all(isinstance(v, float) for v in value) and
                 all(not (val < -1.7976931348623157e+308 or val > 1.7976931348623157e+308) or math.isinf(val) for val in value)), \
                "The 'fix_float' field must be a set or sequence with length 2 and each value of type 'float' and each double in [-179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184124858368.000000, 179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184124858368.000000]"
        self._fix_float = numpy.array(value, dtype=numpy.float64)

    @builtins.property
    def unb_str(self):
        """Message field 'unb_str'."""
        return self._unb_str

    @unb_str.setter
    def unb_str(self, value):
        if self._check_fields:
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(isinstance(v, str) for v in value) and
                 True), \
                "The 'unb_str' field must be a set or sequence and each value of type 'str'"
        self._unb_str = value

    @builtins.property
    def fix_str(self):
        """Message field 'fix_str'."""
        return self._fix_str

    @fix_str.setter
    def fix_str(self, value):
        if self._check_fields:
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) == 2 and
                 all(isinstance(v, str) for v in value) and
                 True), \
                "The 'fix_str' field must be a set or sequence with length 2 and each value of type 'str'"
        self._fix_str = value

    @builtins.property
    def bnd_str(self):
        """Message field 'bnd_str'."""
        return self._bnd_str

    @bnd_str.setter
    def bnd_str(self, value):
        if self._check_fields:
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(len(val) <= 4 for val in value) and
                 len(value) <= 3 and
                 all(isinstance(v, str) for v in value) and
                 True), \
                "The 'bnd_str' field must be a set or sequence with length <= 3 and each string value not longer than 4 and each value of type 'str'"
        self._bnd_str = value

    @builtins.property
    def unb_bool(self):
        """Message field 'unb_bool'."""
        return self._unb_bool

    @unb_bool.setter
    def unb_bool(self, value):
        if self._check_fields:
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(isinstance(v, bool) for v in value) and
                 True), \
                "The 'unb_bool' field must be a set or sequence and each value of type 'bool'"
        self._unb_bool = value

    @builtins.property
    def fix_bool(self):
        """Message field 'fix_bool'."""
        return self._fix_bool

    @fix_bool.setter
    def fix_bool(self, value):
        if self._check_fields:
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) == 2 and
                 all(isinstance(v, bool) for v in value) and
                 True), \
                "The 'fix_bool' field must be a set or sequence with length 2 and each value of type 'bool'"
        self._fix_bool = value

    @builtins.property
    def unb_msg(self):
        """Message field 'unb_msg'."""
        return self._unb_msg

    @unb_msg.setter
    def unb_msg(self, value):
        if self._check_fields:
            from vt_interfaces.msg import Prims
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(isinstance(v, Prims) for v in value) and
                 True), \
                "The 'unb_msg' field must be a set or sequence and each value of type 'Prims'"
        self._unb_msg = value

    @builtins.property
    def fix_msg(self):
        """Message field 'fix_msg'."""
        return self._fix_msg

    @fix_msg.setter
    def fix_msg(self, value):
        if self._check_fields:
            from vt_interfaces.msg import Nested
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) == 2 and
                 all(isinstance(v, Nested) for v in value) and
                 True), \
                "The 'fix_msg' field must be a set or sequence with length 2 and each value of type 'Nested'"
        self._fix_msg = value

    @builtins.property
    def bnd_msg(self):
        """Message field 'bnd_msg'."""
        return self._bnd_msg

    @bnd_msg.setter
    def bnd_msg(self, value):
        if self._check_fields:
            from vt_interfaces.msg import Prims
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 len(value) <= 2 and
                 all(isinstance(v, Prims) for v in value) and
                 True), \
                "The 'bnd_msg' field must be a set or sequence with length <= 2 and each value of type 'Prims'"
        self._bnd_msg = value

    @builtins.property
    def unb_u8(self):
        """Message field 'unb_u8'."""
        return self._unb_u8

    @unb_u8.setter
    def unb_u8(self, value):
        if self._check_fields:
            if isinstance(value, array.array):
                assert value.typecode == 'B', \
                    "The 'unb_u8' array.array() must have the type code of 'B'"
                self._unb_u8 = value
                return
            from collections.abc import Sequence
            from collections.abc import Set
            from collections import UserList
            from collections import UserString
            assert \
                ((isinstance(value, Sequence) or
                  isinstance(value, Set) or
                  isinstance(value, UserList)) and
                 not isinstance(value, str) and
                 not isinstance(value, UserString) and
                 all(isinstance(v, int) for v in value) and
                 all(val >= 0 and val < 256 for val in value)), \
                "The 'unb_u8' field must be a set or sequence and each value of type 'int' and each unsigned integer in [0, 255]"
        self._unb_u8 = array.array('B', value)
