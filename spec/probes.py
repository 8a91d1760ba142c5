"""Systematic values for a declared type: members of every alternative, their
boundaries, and near misses."""
import copy

from spec import gen, oracle
from spec.oracle import TABLE

_G = gen.Gen(7)
JUNK = [None, True, 0, 5, -1, 1.5, "", "x", [], {}, ["x"], [5], [{}], {"a": 1}, {"a": {}}, {"$ref": "#/a"}, {"$ref": 5},
        {"$ref": None}, {"ref": "#/a"}, [{"$ref": "#/a"}], {"a": {"$ref": "#/a"}}, [[]], [None], {"a": None}]


def alts(T):
    return [b for a in T[1] for b in alts(a)] if T[0] == "union" else [T]


def full(c, depth=2, seen=()):
    """an object of the class with as many members present as the rules allow"""
    e = TABLE[c]
    if "root" in e:
        return {"k1": rich(e["root"][2], depth - 1, seen)} if depth > 0 else {}
    out = {}
    if depth <= 0 or c in seen:
        return _G.least(c)
    for n, f in e["fields"].items():
        if processor(f):
            continue
        out[f["alias"]] = rich(f["type"], depth - 1, seen + (c,))
    if c == "AsyncAPI3":
        out["asyncapi"] = "3.0.0"
    if c == "Channel":
        out["address"] = "a/{b}"
    if c == "CorrelationID":
        out["location"] = "$message.header#/a"
    for _ in range(60):
        try:
            if oracle.accepts(c, out)[0]:
                return out
        except oracle.Undefined:
            return out
        _G.shape_rules(c, out)
    # leave out optional members until the rules hold
    for n, f in e["fields"].items():
        if not f["required"]:
            o2 = {k: v for k, v in out.items() if k != f["alias"]}
            if oracle.accepts(c, o2)[0]:
                return o2
            out = o2
    return _G.least(c)


def processor(f):
    return any(a[0] == "list" and a[1][0] == "subclass" for a in alts(f["type"]))


def rich(T, depth, seen=()):
    for a in alts(T):
        if a[0] == "none" or a == ["model", "Reference"] and len(alts(T)) > 2:
            continue
        return rich1(a, depth, seen)
    return None


def rich1(a, depth, seen):
    k = a[0]
    if k == "model":
        return full(a[1], depth, seen)
    if k == "list":
        return [rich(a[1], depth - 1, seen)] if a[1] != ["none"] else []
    if k == "map":
        return {"key": rich(a[2], depth - 1, seen)}
    return {"str": "text", "any": {"type": "string"}, "int": 7, "float": 2.5, "bool": True, "url": oracle.GOOD_URLS[1],
            "email": "a.b@example.com"}.get(k) if k != "enum" else a[1][-1]


def good(T, depth=2):
    """values of T (usually)"""
    for a in alts(T):
        k = a[0]
        if k == "none":
            yield None
        elif k == "any":
            yield from [None, True, 3, 1.5, "s", [1, {"a": None}], {"a": {"b": [None]}}]
        elif k == "bool":
            yield from (True, False)
        elif k == "int":
            for v in bounds(a[1]):
                yield v
            yield from (0, 1, -1, 10 ** 6, -10 ** 12, 2 ** 40)
        elif k == "float":
            yield from (0.0, 1.5, -2.25, 3)
        elif k == "str":
            yield from ("", "s", "é\n", "x y", "5", "true")
            for b in ("max_length", "min_length"):
                if b in a[1]:
                    yield from ("s" * (a[1][b] + d) for d in (-1, 0, 1) if a[1][b] + d >= 0)
            yield "s" * 3000
        elif k == "email":
            yield from ("a@example.com", "john.doe+x@a-b.co")
        elif k == "url":
            yield from oracle.GOOD_URLS + oracle.OTHER_URLS
        elif k == "enum":
            yield from a[1]
        elif k == "model":
            yield copy.deepcopy(_G.least(a[1]))
            yield full(a[1])
            yield full(a[1], 1)
            if depth > 0:
                yield from inner(a[1])
        elif k == "list":
            yield []
            if depth > 0:
                vs = list(good(a[1], depth - 1))[:12]
                yield from ([v] for v in vs)
                yield vs
        elif k == "map":
            yield {}
            if depth > 0:
                vs = list(good(a[2], depth - 1))[:12]
                yield from ({"key": v} for v in vs)
                yield {f"k{i}": v for i, v in enumerate(vs)}


def inner(c):
    e = TABLE[c]
    if "root" in e:
        yield {"a": _G.least_value(e["root"][2])}
        return
    for n, f in e["fields"].items():
        if processor(f):
            continue
        yield {**_G.least(c), f["alias"]: rich(f["type"], 1)}


def bounds(c):
    for k in ("ge", "gt", "le", "lt"):
        if k in c:
            yield from (c[k] - 1, c[k], c[k] + 1)


def near(T, depth=2):
    """values that are usually not of type T"""
    yield from JUNK
    for a in alts(T):
        k = a[0]
        if k == "int":
            yield from ["abc", "1a"]
        elif k == "enum":
            for v in a[1]:
                if isinstance(v, str):
                    yield from (v + "x", v[:-1], v.upper(), v.capitalize(), v.replace("-", "_"), v.replace("_", "-"), " " + v)
                elif isinstance(v, int):
                    yield from (v + 1, v - 1, v * 10, str(v) + "x")
        elif k == "url":
            yield from oracle.BAD_URLS + oracle.OTHER_URLS
        elif k == "email":
            yield from ["a@b", "a..b@c.de", "@c.de", "a@c.de\n", "a b@c.de"]
        elif k == "model":
            c = a[1]
            yield {**_G.least(c), "zzz": 1}
            yield {**_G.least(c), "$ref": "#/a"}
            yield {"$ref": "#/a", "x-a": 1}
            if depth > 0 and "root" not in TABLE[c]:
                for n, f in TABLE[c]["fields"].items():
                    if f["required"]:
                        yield {k: v for k, v in _G.least(c).items() if k != f["alias"]}
        elif k == "list" and depth > 0:
            for v in list(near(a[1], depth - 1)):
                yield [v]
            for v in list(near(a[1], 0))[:8]:
                yield [_G.least_value(a[1]), v]
        elif k == "map" and depth > 0:
            for v in list(near(a[2], depth - 1)):
                yield {"key": v}


def alternatives_of_other_classes():
    return [{"$ref": "#/a"}]


def field_cases(c, f, name):
    """raw objects of class c that exercise one member"""
    base = _G.least(c)
    fullobj = full(c)
    for v in list(good(f["type"])) + list(near(f["type"])):
        yield {**base, f["alias"]: v}
    for v in list(good(f["type"]))[:6]:
        yield {**fullobj, f["alias"]: v}
    yield {k: v for k, v in fullobj.items() if k != f["alias"]}
    yield {k: v for k, v in base.items() if k != f["alias"]}


def least_items(T, n):
    v = _G.least_value(T)
    return [copy.deepcopy(v) for _ in range(n)]


def large(T, n=300):
    """many items, long texts; some with one bad item at an end"""
    for a in alts(T):
        k = a[0]
        if k == "str" and "max_length" not in a[1]:
            yield "s" * 20011
        elif k == "list" and a[1] != ["none"]:
            many = least_items(a[1], n)
            yield many
            for bad in ([5], None):
                if a[1] != ["any"]:
                    yield many + [bad]
                    yield [bad] + many
        elif k == "map":
            many = {f"k{i}": v for i, v in enumerate(least_items(a[2], n))}
            yield many
            if a[2] != ["any"]:
                yield {**many, "last": [5]}
        elif k == "any":
            yield ["s"] * n
            yield {f"k{i}": None for i in range(n)}
            yield "s" * 20011


def large_cases(c, n=300):
    e = TABLE[c]
    if "root" in e:
        for v in large(["map", ["str", {}], e["root"][2]], n):
            yield v
        return
    base = _G.least(c)
    for f in e["fields"].values():
        if not processor(f):
            for v in large(f["type"], n):
                yield {**base, f["alias"]: v}
    if e["extra"] in ("x", "allow"):
        yield {**base, **{f"x-k{i}": None for i in range(n)}}
        yield {**base, "x-k": ["s"] * n}


TEXTS = ["\n\na\n\n", "  a  ", "//a//", "aa", "AbA", "%2520", "&amp;amp;", "\\\\n\\n", "\ufeff\ufeffa\u200b\u200b", "\u0130", "e\u0301\u0301\u00e9", "\'\'a\'\'", '""a""',
         "#/#/a", "a..b", "a  b", "a\r\n\r\nb", "0x10", "1e5", "01", "-0", "true", "None", "\x00\x00", "\u2028\u2028", "<a><a>"]


def texts(c, words=()):
    """objects whose free texts are all one of the texts above"""
    e = TABLE[c]
    if "root" in e:
        return
    base = full(c)
    slots = [(f["alias"], k) for f in e["fields"].values() if not processor(f)
             for a in alts(f["type"]) for k in [0 if a == ["str", {}] else 1 if a == ["list", ["str", {}]] else None] if k is not None]
    if e["extra"] in ("x", "allow"):
        slots.append(("x-text", 0))
    if not slots:
        return
    for w in TEXTS + [w + w for w in words]:
        yield {**base, **{n: [w, w] if k else w for n, k in slots}}
