import backend_stubs


class Error(Exception):
    pass


def dumps(*args, **kwargs):
    return backend_stubs.dumps("vpb1", args, kwargs)


def loads(*args, **kwargs):
    return backend_stubs.loads("vpb1", args, kwargs)
