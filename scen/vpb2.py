import backend_stubs


class Error(Exception):
    pass


def to_text(*args, **kwargs):
    return backend_stubs.dumps("vpb2", args, kwargs)


def from_text(*args, **kwargs):
    return backend_stubs.loads("vpb2", args, kwargs)
