class Unsupported(Exception):
    """The construct is outside the verified subset: the obligation stays undecided."""


class Infeasible(Exception):
    """The current path is unreachable."""
