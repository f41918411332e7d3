"""A module hidden by an attribute of its package."""


class Thing:
    class Inner:
        pass


def work():
    return "module"
