"""Functions and classes with particular names."""


class Twin:
    class HA:
        """Has the name of a class elsewhere."""


class HA:
    """The same."""


def lambda_(x):
    return x


def make_lambda(x):
    return x


def _hidden(x):
    return x


def function(x):
    return x


def None_(x):
    return x


def λ(x):
    return x
