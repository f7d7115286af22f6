# generated from rosidl_generator_py/resource/_idl.py.em
# with input from vt_interfaces:msg/Prims.idl
# generated code does not contain a copyright notice

# This is being done at the module level and not on the instance level to avoid looking
# for the same variable multiple times on each instance. This variable is not supposed to
# change during runtime so it makes sense to only look for it once.
from os import getenv

ros_python_check_fields = getenv('ROS_PYTHON_CHECK_FIELDS', default='')


# Import statements for member types

import builtins  # noqa: E402, I100

import math  # noqa: E402, I100

import rosidl_parser.definition  # noqa: E402, I100


class Metaclass_Prims(type):
    """Metaclass of message 'Prims'."""

    _CREATE_ROS_MESSAGE = None
    _CONVERT_FROM_PY = None
    _CONVERT_TO_PY = None
    _DESTROY_ROS_MESSAGE = None
    _TYPE_SUPPORT = None

    __constants = {
    }

    @classmethod
    def __import_type_support__(cls):
        try:
            from rosidl_generator_py import import_type_support
            module = import_type_support('vt_interfaces')
        except ImportError:
            import logging
            import traceback
            logger = logging.getLogger(
                'vt_interfaces.msg.Prims')
            logger.debug(
                'Failed to import needed modules for type support:\n' +
                traceback.format_exc())
        else:
            cls._CREATE_ROS_MESSAGE = module.create_ros_message_msg__msg__prims
            cls._CONVERT_FROM_PY = module.convert_from_py_msg__msg__prims
            cls._CONVERT_TO_PY = module.convert_to_py_msg__msg__prims
            cls._TYPE_SUPPORT = module.type_support_msg__msg__prims
            cls._DESTROY_ROS_MESSAGE = module.destroy_ros_message_msg__msg__prims

    @classmethod
    def __prepare__(cls, name, bases, **kwargs):
        # list constant names here so that they appear in the help text of
        # the message class under "Data and other attributes defined here:"
        # as well as populate each message instance
        return {
        }


class Prims(metaclass=Metaclass_Prims):
    """Message class 'Prims'."""

    __slots__ = [
        '_b',
        '_i8',
        '_u8',
        '_i16',
        '_u16',
        '_i32',
        '_u32',
        '_i64',
        '_u64',
        '_f32',
        '_f64',
        '_s',
        '_s5',
        '_check_fields',
    ]

    _fields_and_field_types = {
        'b': 'boolean',
        'i8': 'int8',
        'u8': 'uint8',
        'i16': 'int16',
        'u16': 'uint16',
        'i32': 'int32',
        'u32': 'uint32',
        'i64': 'int64',
        'u64': 'uint64',
        'f32': 'float',
        'f64': 'double',
        's': 'string',
        's5': 'string<5>',
    }

    # This attribute is used to store an rosidl_parser.definition variable
    # related to the data type of each of the components the message.
    SLOT_TYPES = (
        rosidl_parser.definition.BasicType('boolean'),  # noqa: E501
        rosidl_parser.definition.BasicType('int8'),  # noqa: E501
        rosidl_parser.definition.BasicType('uint8'),  # noqa: E501
        rosidl_parser.definition.BasicType('int16'),  # noqa: E501
        rosidl_parser.definition.BasicType('uint16'),  # noqa: E501
        rosidl_parser.definition.BasicType('int32'),  # noqa: E501
        rosidl_parser.definition.BasicType('uint32'),  # noqa: E501
        rosidl_parser.definition.BasicType('int64'),  # noqa: E501
        rosidl_parser.definition.BasicType('uint64'),  # noqa: E501
        rosidl_parser.definition.BasicType('float'),  # noqa: E501
        rosidl_parser.definition.BasicType('double'),  # noqa: E501
        rosidl_parser.definition.UnboundedString(),  # noqa: E501
        rosidl_parser.definition.BoundedString(5),  # noqa: E501
    )

    def __init__(self, **kwargs):
        if 'check_fields' in kwargs:
            self._check_fields = kwargs['check_fields']
        else:
            self._check_fields = ros_python_check_fields == '1'
        if self._check_fields:
            assert all('_' + key in self.__slots__ for key in kwargs.keys()), \
                'Invalid arguments passed to constructor: %s' % \
                ', '.join(sorted(k for k in kwargs.keys() if '_' + k not in self.__slots__))
        self.b = kwargs.get('b', bool())
        self.i8 = kwargs.get('i8', int())
        self.u8 = kwargs.get('u8', int())
        self.i16 = kwargs.get('i16', int())
        self.u16 = kwargs.get('u16', int())
        self.i32 = kwargs.get('i32', int())
        self.u32 = kwargs.get('u32', int())
        self.i64 = kwargs.get('i64', int())
        self.u64 = kwargs.get('u64', int())
        self.f32 = kwargs.get('f32', float())
        self.f64 = kwargs.get('f64', float())
        self.s = kwargs.get('s', str())
        self.s5 = kwargs.get('s5', str())

    def __repr__(self):
        typename = self.__class__.__module__.split('.')
        typename.pop()
        typename.append(self.__class__.__name__)
        args = []
        for s, t in zip(self.get_fields_and_field_types().keys(), self.SLOT_TYPES):
            field = getattr(self, s)
            fieldstr = repr(field)
            # We use Python array type for fields that can be directly stored
            # in them, and "normal" sequences for everything else.  If it is
            # a type that we store in an array, strip off the 'array' portion.
            if (
                isinstance(t, rosidl_parser.definition.AbstractSequence) and
                isinstance(t.value_type, rosidl_parser.definition.BasicType) and
                t.value_type.typename in ['float', 'double', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
            ):
                if len(field) == 0:
                    fieldstr = '[]'
                else:
                    if self._check_fields:
                        assert fieldstr.startswith('array(')
                    prefix = "array('X', "
                    suffix = ')'
                    fieldstr = fieldstr[len(prefix):-len(suffix)]
            args.append(s + '=' + fieldstr)
        return '%s(%s)' % ('.'.join(typename), ', '.join(args))

    def __eq__(self, other):
        if not isinstance(other, self.__class__):
            return False
        if self.b != other.b:
            return False
        if self.i8 != other.i8:
            return False
        if self.u8 != other.u8:
            return False
        if self.i16 != other.i16:
            return False
        if self.u16 != other.u16:
            return False
        if self.i32 != other.i32:
            return False
        if self.u32 != other.u32:
            return False
        if self.i64 != other.i64:
            return False
        if self.u64 != other.u64:
            return False
        if self.f32 != other.f32:
            return False
        if self.f64 != other.f64:
            return False
        if self.s != other.s:
            return False
        if self.s5 != other.s5:
            return False
        return True

    @classmethod
    def get_fields_and_field_types(cls):
        from copy import copy
        return copy(cls._fields_and_field_types)

    @builtins.property
    def b(self):
        """Message field 'b'."""
        return self._b

    @b.setter
    def b(self, value):
        if self._check_fields:
            assert \
                isinstance(value, bool), \
                "The 'b' field must be of type 'bool'"
        self._b = value

    @builtins.property
    def i8(self):
        """Message field 'i8'."""
        return self._i8

    @i8.setter
    def i8(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'i8' field must be of type 'int'"
            assert value >= -128 and value < 128, \
                "The 'i8' field must be an integer in [-128, 127]"
        self._i8 = value

    @builtins.property
    def u8(self):
        """Message field 'u8'."""
        return self._u8

    @u8.setter
    def u8(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'u8' field must be of type 'int'"
            assert value >= 0 and value < 256, \
                "The 'u8' field must be an unsigned integer in [0, 255]"
        self._u8 = value

    @builtins.property
    def i16(self):
        """Message field 'i16'."""
        return self._i16

    @i16.setter
    def i16(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'i16' field must be of type 'int'"
            assert value >= -32768 and value < 32768, \
                "The 'i16' field must be an integer in [-32768, 32767]"
        self._i16 = value

    @builtins.property
    def u16(self):
        """Message field 'u16'."""
        return self._u16

    @u16.setter
    def u16(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'u16' field must be of type 'int'"
            assert value >= 0 and value < 65536, \
                "The 'u16' field must be an unsigned integer in [0, 65535]"
        self._u16 = value

    @builtins.property
    def i32(self):
        """Message field 'i32'."""
        return self._i32

    @i32.setter
    def i32(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'i32' field must be of type 'int'"
            assert value >= -2147483648 and value < 2147483648, \
                "The 'i32' field must be an integer in [-2147483648, 2147483647]"
        self._i32 = value

    @builtins.property
    def u32(self):
        """Message field 'u32'."""
        return self._u32

    @u32.setter
    def u32(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'u32' field must be of type 'int'"
            assert value >= 0 and value < 4294967296, \
                "The 'u32' field must be an unsigned integer in [0, 4294967295]"
        self._u32 = value

    @builtins.property
    def i64(self):
        """Message field 'i64'."""
        return self._i64

    @i64.setter
    def i64(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'i64' field must be of type 'int'"
            assert value >= -9223372036854775808 and value < 9223372036854775808, \
                "The 'i64' field must be an integer in [-9223372036854775808, 9223372036854775807]"
        self._i64 = value

    @builtins.property
    def u64(self):
        """Message field 'u64'."""
        return self._u64

    @u64.setter
    def u64(self, value):
        if self._check_fields:
            assert \
                isinstance(value, int), \
                "The 'u64' field must be of type 'int'"
            assert value >= 0 and value < 18446744073709551616, \
                "The 'u64' field must be an unsigned integer in [0, 18446744073709551615]"
        self._u64 = value

    @builtins.property
    def f32(self):
        """Message field 'f32'."""
        return self._f32

    @f32.setter
    def f32(self, value):
        if self._check_fields:
            assert \
                isinstance(value, float), \
                "The 'f32' field must be of type 'float'"
            assert not (value < -3.402823466e+38 or value > 3.402823466e+38) or math.isinf(value), \
                "The 'f32' field must be a float in [-3.402823466e+38, 3.402823466e+38]"
        self._f32 = value

    @builtins.property
    def f64(self):
        """Message field 'f64'."""
        return self._f64

    @f64.setter
    def f64(self, value):
        if self._check_fields:
            assert \
                isinstance(value, float), \
                "The 'f64' field must be of type 'float'"
            assert not (value < -1.7976931348623157e+308 or value > 1.7976931348623157e+308) or math.isinf(value), \
                "The 'f64' field must be a double in [-1.7976931348623157e+308, 1.7976931348623157e+308]"
        self._f64 = value

    @builtins.property
    def s(self):
        """Message field 's'."""
        return self._s

    @s.setter
    def s(self, value):
        if self._check_fields:
            assert \
                isinstance(value, str), \
                "The 's' field must be of type 'str'"
        self._s = value

    @builtins.property
    def s5(self):
        """Message field 's5'."""
        return self._s5

    @s5.setter
    def s5(self, value):
        if self._check_fields:
            from collections import UserString
            assert \
                (isinstance(value, (str, UserString)) and
                 len(value) <= 5), \
                "The 's5' field must be string value " \
                'not longer than 5'
        self._s5 = value
