"""A package with an attribute that has the name of one of its modules."""
from . import part as _part  # noqa: F401


class part:
    class Thing:
        pass

    @staticmethod
    def work():
        return "attribute"
