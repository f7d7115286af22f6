from vt_interfaces.action._work import Work  # noqa: F401
from vt_interfaces.action._work import Work_GetResult_Event  # noqa: F401
from vt_interfaces.action._work import Work_GetResult_Request  # noqa: F401
from vt_interfaces.action._work import Work_GetResult_Response  # noqa: F401
from vt_interfaces.action._work import Work_SendGoal_Event  # noqa: F401
from vt_interfaces.action._work import Work_SendGoal_Request  # noqa: F401
from vt_interfaces.action._work import Work_SendGoal_Response  # noqa: F401
