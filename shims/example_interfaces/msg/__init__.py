from example_interfaces.msg._bool import Bool  # noqa: F401
from example_interfaces.msg._byte import Byte  # noqa: F401
from example_interfaces.msg._byte_multi_array import ByteMultiArray  # noqa: F401
from example_interfaces.msg._char import Char  # noqa: F401
from example_interfaces.msg._empty import Empty  # noqa: F401
from example_interfaces.msg._float32 import Float32  # noqa: F401
from example_interfaces.msg._float64 import Float64  # noqa: F401
from example_interfaces.msg._float64_multi_array import Float64MultiArray  # noqa: F401
from example_interfaces.msg._int16 import Int16  # noqa: F401
from example_interfaces.msg._int32 import Int32  # noqa: F401
from example_interfaces.msg._int32_multi_array import Int32MultiArray  # noqa: F401
from example_interfaces.msg._int64 import Int64  # noqa: F401
from example_interfaces.msg._int8 import Int8  # noqa: F401
from example_interfaces.msg._multi_array_dimension import MultiArrayDimension  # noqa: F401
from example_interfaces.msg._multi_array_layout import MultiArrayLayout  # noqa: F401
from example_interfaces.msg._string import String  # noqa: F401
from example_interfaces.msg._u_int16 import UInt16  # noqa: F401
from example_interfaces.msg._u_int32 import UInt32  # noqa: F401
from example_interfaces.msg._u_int64 import UInt64  # noqa: F401
from example_interfaces.msg._u_int8 import UInt8  # noqa: F401
from example_interfaces.msg._u_int8_multi_array import UInt8MultiArray  # noqa: F401
from example_interfaces.msg._w_string import WString  # noqa: F401
