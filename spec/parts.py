"""A validator applied to parts of a member's value (the places the core schema puts it at).
Each function here makes the validator of the whole value out of the validator of the part;
the symbolic executor runs them like any other code."""


class Changed(Exception):
    """the validator of a part returned another value"""


def same(fn, x):
    y = fn(x)
    if y is not x and y != x:
        raise Changed("a validator changes a part of the value")


def informed(fn, info):
    def check(value):
        return fn(value, info)
    return check


def nonnull(fn):
    def check(value):
        if value is None:
            return value
        return fn(value)
    return check


def items(fn):
    def check(value):
        for x in value:
            same(fn, x)
        return value
    return check


def keys(fn):
    def check(value):
        for k in value:
            same(fn, k)
        return value
    return check


def values(fn):
    def check(value):
        for k in value:
            same(fn, value[k])
        return value
    return check


def only(kind):
    def of(fn):
        def check(value):
            if isinstance(value, kind):
                return fn(value)
            return value
        return check
    return of


KINDS = {"int": int, "float": float, "bool": bool, "str": str, "list": list, "map": dict}
GROUP = {"int": 0, "float": 0, "bool": 0, "enum": 1, "str": 1, "url": 1, "email": 1, "list": 2, "map": 3, "model": 3}


def choice(T, others):
    """None when another alternative might take what the validator refuses"""
    if T[0] not in KINDS or any(o[0] == "any" or GROUP.get(o[0]) == GROUP[T[0]] for o in others):
        return None
    return only(KINDS[T[0]])


def at(fn, where):
    """the validator of the whole value, or None"""
    for step in reversed(where):
        wrap = choice(*step[1:]) if isinstance(step, tuple) else {"nonnull": nonnull, "items": items, "keys": keys,
                                                                 "values": values}[step]
        if wrap is None:
            return None
        fn = wrap(fn)
    return fn
