"""What contract files import; the same under the verifier and natively."""
REGISTRY = []


def contract(prop, title, covers=(), **opts):
    """Registers a contract class: build(S) -> args, code(*args), spec(*args) and,
    optionally, ensures(result, *args) -> bool or list of (name, bool)."""

    def deco(cls):
        cls.prop, cls.title, cls.covers, cls.opts = prop, title, list(covers), opts
        cls.ident = "%s/%s" % (prop, title)
        REGISTRY.append(cls)
        return cls

    return deco


def runtime(prop, title, covers=(), **opts):
    """Registers a concrete check gen(rng) -> None or a description of what failed,
    run against the real libraries (bounded)."""

    def deco(fn):
        fn.prop, fn.title, fn.covers, fn.opts = prop, title, list(covers), opts
        fn.ident = "%s/%s" % (prop, title)
        RUNTIME.append(fn)
        return fn

    return deco


RUNTIME = []


def opaque(name, *args):
    """An uninterpreted function of ints and opaque values; natively a record of the call."""
    return "%s(%s)" % (name, ", ".join(map(str, args)))


class Reject(Exception):
    """The input drawn does not meet the precondition."""
