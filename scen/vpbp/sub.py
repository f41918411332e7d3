import backend_stubs


class Error(Exception):
    pass


def dumps(*args, **kwargs):
    return backend_stubs.dumps("vpbp.sub", args, kwargs)


def loads(*args, **kwargs):
    return backend_stubs.loads("vpbp.sub", args, kwargs)
