from vt_interfaces.srv._calc import Calc  # noqa: F401
from vt_interfaces.srv._calc import Calc_Event  # noqa: F401
from vt_interfaces.srv._calc import Calc_Request  # noqa: F401
from vt_interfaces.srv._calc import Calc_Response  # noqa: F401
