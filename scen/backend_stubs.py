"""JSON backends that log their calls and fail as told."""

LOG = []
PLAN = {}


class OtherError(Exception):
    pass


class Stop(BaseException):
    pass


def dumps(name, args, kwargs):
    LOG.append((name, "dumps", args, kwargs))
    k = PLAN["ask"](name, "dumps")
    if k == "fail":
        raise PLAN["errors"][name]("dumps " + name)
    if k == "other":
        raise OtherError("dumps " + name)
    return "text of " + name


def loads(name, args, kwargs):
    LOG.append((name, "loads", args, kwargs))
    k = PLAN["ask"](name, "loads")
    if k == "fail":
        raise PLAN["errors"][name]("loads " + name)
    if k == "other":
        raise OtherError("loads " + name)
    return ["value of " + name]
