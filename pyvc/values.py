"""Symbolic values of the executor."""
from .errors import Unsupported


class SymValue:
    __slots__ = ()

    def __bool__(self):
        raise Unsupported("native truth test on a symbolic value")

    def __eq__(self, o):
        raise Unsupported("native comparison of a symbolic value")

    __hash__ = None

    def __iter__(self):
        raise Unsupported("native iteration of a symbolic value")

    def __str__(self):
        return repr(self)

    def __repr__(self):
        return f"<{type(self).__name__} {self.key()[1:]}>"


def _c(name, *fields):
    def __init__(self, *a):
        for f, x in zip(fields, a):
            object.__setattr__(self, f, x)
    ns = {"__slots__": fields, "__init__": __init__}
    return type(name, (SymValue,), ns)


class Sym(SymValue):
    """a Val term of known type"""
    __slots__ = ("t", "T")

    def __init__(self, t, T):
        self.t, self.T = t, T

    def key(self):
        return ("Sym", self.t.get_id())


class SymInt(SymValue):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("int", self.t.get_id())


class SymStr(SymValue):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("str", self.t.get_id())


class SymBool(SymValue):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def key(self):
        return ("bool", self.f.key())


class SymObj(SymValue):
    """an instance of model class `c` denoted by an Obj term"""
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t, self.c = t, c

    def key(self):
        return ("obj", self.t.get_id(), self.c)


class SymList(SymValue):
    __slots__ = ("t", "T")

    def __init__(self, t, T):
        self.t, self.T = t, T

    def key(self):
        return ("list", self.t.get_id())


class SymDict(SymValue):
    __slots__ = ("t", "T")          # T: type of the values

    def __init__(self, t, T):
        self.t, self.T = t, T

    def key(self):
        return ("dict", self.t.get_id())


class SymView(SymValue):
    """keys/values/items view of a SymDict, or enumerate(...) of a symbolic list"""
    __slots__ = ("kind", "base", "start")

    def __init__(self, kind, base, start=0):
        self.kind, self.base, self.start = kind, base, start

    def key(self):
        return ("view", self.kind, self.base.key(), self.start)


class SymType(SymValue):
    """type(x) of a symbolic value whose class is not concrete"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("type", self.t.get_id())


class SymId(SymValue):
    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of

    def key(self):
        return ("id", vkey(self.of))


class Opaque(SymValue):
    """a value about which nothing is known (only passed around)"""
    __slots__ = ("what", "n", "t")

    def __init__(self, what, n=0, t=None):
        self.what, self.n, self.t = what, n, t       # t: its term, when it has one

    def key(self):
        return ("opaque", self.what, self.n)


class GhostVal(SymValue):
    """base of the values an obligation introduces through its hooks"""
    __slots__ = ()


class HRef(SymValue):
    """an object allocated during execution; contents live in the store"""
    __slots__ = ("kind", "oid", "c")

    def __init__(self, kind, oid, c=None):
        self.kind, self.oid, self.c = kind, oid, c

    def key(self):
        return ("ref", self.kind, self.oid)


class Func(SymValue):
    """a function object created during execution (closure)"""
    __slots__ = ("node", "frame", "defaults", "kwdefaults", "name")

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name

    def key(self):
        return ("func", id(self.node), self.frame.fid)


class Bound(SymValue):
    __slots__ = ("self_", "fn", "owner")

    def __init__(self, self_, fn, owner=None):
        self.self_, self.fn, self.owner = self_, fn, owner

    def key(self):
        return ("bound", vkey(self.self_), vkey(self.fn))


class StrMethod(SymValue):
    """bound method of a builtin-typed (str/list/dict/set...) value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def key(self):
        return ("meth", vkey(self.obj), self.name)


class ExcVal(SymValue):
    __slots__ = ("c", "args")

    def __init__(self, c, args=None):
        self.c, self.args = c, args

    def key(self):
        return ("exc", self.c)


class Seg(SymValue):
    """list segment: for every element v of coll with cond F, the given items"""
    __slots__ = ("coll", "v", "f", "items")

    def __init__(self, coll, v, f, items):
        self.coll, self.v, self.f, self.items = coll, v, f, items

    def key(self):
        return ("seg", self.coll.key(), self.v.get_id(), self.f.key(), tuple(vkey(x) for x in self.items))


class Poison(SymValue):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def key(self):
        return ("poison",)


class Run(Poison):
    """list segment: the characters of a text, one by one (any number); only join can read it"""
    __slots__ = ("rope",)

    def __init__(self, rope):
        self.why, self.rope = "container read that holds the characters of an unknown text", rope

    def key(self):
        return ("run", self.rope.key())


class Super(SymValue):
    __slots__ = ("owner", "obj")

    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj

    def key(self):
        return ("super", self.owner, vkey(self.obj))


class SymMatch(SymValue):
    """a successful re.Match"""
    __slots__ = ("t", "pattern")

    def __init__(self, t, pattern):
        self.t, self.pattern = t, pattern

    def key(self):
        return ("match", self.t.get_id())


class SymSplit(SymValue):
    """s.split(sep) of a symbolic string"""
    __slots__ = ("t", "sep", "maxsplit")

    def __init__(self, t, sep, maxsplit=-1):
        self.t, self.sep, self.maxsplit = t, sep, maxsplit

    def key(self):
        return ("split", self.t.get_id(), self.sep, self.maxsplit)


def vkey(v):
    if isinstance(v, SymValue):
        return v.key()
    if isinstance(v, tuple):
        return ("t",) + tuple(vkey(x) for x in v)
    if isinstance(v, (int, str, float, bool, type(None), bytes)):
        return ("c", type(v).__name__, v)
    return ("py", id(v))


def is_sym(v):
    if isinstance(v, SymValue):
        return True
    if isinstance(v, tuple):
        return any(is_sym(x) for x in v)
    return False
