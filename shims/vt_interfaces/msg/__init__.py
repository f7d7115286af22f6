from vt_interfaces.msg._arrays import Arrays  # noqa: F401
from vt_interfaces.msg._enums import Enums  # noqa: F401
from vt_interfaces.msg._mixed_enums import MixedEnums  # noqa: F401
from vt_interfaces.msg._nested import Nested  # noqa: F401
from vt_interfaces.msg._prims import Prims  # noqa: F401
from vt_interfaces.msg._str_enums import StrEnums  # noqa: F401
