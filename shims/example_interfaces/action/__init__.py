from example_interfaces.action._fibonacci import Fibonacci  # noqa: F401
from example_interfaces.action._fibonacci import Fibonacci_GetResult_Event  # noqa: F401
from example_interfaces.action._fibonacci import Fibonacci_GetResult_Request  # noqa: F401
from example_interfaces.action._fibonacci import Fibonacci_GetResult_Response  # noqa: F401
from example_interfaces.action._fibonacci import Fibonacci_SendGoal_Event  # noqa: F401
from example_interfaces.action._fibonacci import Fibonacci_SendGoal_Request  # noqa: F401
from example_interfaces.action._fibonacci import Fibonacci_SendGoal_Response  # noqa: F401
