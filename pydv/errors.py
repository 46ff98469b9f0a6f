class OutOfReach(Exception):
    """The engine cannot express this construct (never a verdict about the code)."""

class PathEnd(BaseException):
    """The current symbolic path is infeasible or complete."""

class Skip(BaseException):
    """Concrete mode: the sampled input does not satisfy the precondition."""
