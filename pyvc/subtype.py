"""Equivalence of declared types: structural, with z3 deciding the constraints."""
import z3


def _alts(T):
    return [b for a in T[1] for b in _alts(a)] if T[0] == "union" else [T]


def _int(c, x):
    fs = []
    for k, v in c.items():
        if k == "ge":
            fs.append(x >= v)
        elif k == "gt":
            fs.append(x > v)
        elif k == "le":
            fs.append(x <= v)
        elif k == "lt":
            fs.append(x < v)
        elif k == "multiple_of":
            fs.append(x % v == 0)
        else:
            return None
    return z3.And(fs)


def _len(c, x):
    fs = [x >= 0]
    for k, v in c.items():
        if k == "max_length":
            fs.append(x <= v)
        elif k == "min_length":
            fs.append(x >= v)
        else:
            return None
    return z3.And(fs)


def _equiv(p, q):
    if p is None or q is None:
        return False
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(p != q)
    return s.check() == z3.unsat


def same1(a, b):
    """two non-union types"""
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "int":
        x = z3.Int("x")
        return _equiv(_int(a[1], x), _int(b[1], x))
    if k == "float":
        x = z3.Real("x")
        return _equiv(_int(a[1], x), _int(b[1], x))
    if k == "str":
        x = z3.Int("n")
        return _equiv(_len(a[1], x), _len(b[1], x))
    if k == "list":
        x = z3.Int("n")
        return equivalent(a[1], b[1]) is None and _equiv(_len(a[2] if len(a) > 2 else {}, x), _len(b[2] if len(b) > 2 else {}, x))
    if k == "map":
        return equivalent(a[1], b[1]) is None and equivalent(a[2], b[2]) is None
    if k == "enum":
        return sorted(map(repr, a[1])) == sorted(map(repr, b[1]))
    return a == b


def _norm(T):
    out = []
    for a in _alts(T):
        if not any(same1(a, b) for b in out):
            out.append(a)
    if any(a[0] == "any" for a in out):
        out = [a for a in out if a[0] != "none"]        # Any keeps null as it is
    enums = [a for a in out if a[0] == "enum"]
    if len(enums) > 1:
        vals = []
        for e in enums:
            vals += [v for v in e[1] if repr(v) not in map(repr, vals)]
        out = [a for a in out if a[0] != "enum"] + [["enum", vals]]
    return out


def equivalent(a, b):
    """None, or what differs"""
    x, y = _norm(a), _norm(b)
    for p in x:
        if not any(same1(p, q) for q in y):
            return f"also admits {p}"
    for q in y:
        if not any(same1(p, q) for p in x):
            return f"does not admit {q}"
    return None
