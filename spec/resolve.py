"""What a reference denotes, read off an object graph with the contract table."""
from spec.oracle import TABLE, Undefined

EXTERNAL = ("http://", "https://")


def step(o, part):
    """(True, value) or (False, None): one path segment"""
    c = type(o).__name__
    if isinstance(o, dict):
        v = o.get(part)
        return (v is not None), v
    e = TABLE.get(c)
    if e is None or type(o).__module__.split(".")[0] != "asyncapi3":
        return False, None
    if "root" in e:
        return (part in o.root), o.root.get(part)
    for n, f in e["fields"].items():
        if part in (n, f["alias"]):
            v = getattr(o, n)
            return (v is not None), v
    return False, None


def segments(ref):
    """the segments of a local reference; [] for an empty pointer"""
    if ref in ("#", "#/"):
        return []
    if not ref.startswith("#/"):
        raise Undefined("relative pointer")
    parts = ref[2:].split("/")
    if "" in parts:
        raise Undefined("empty segment")
    if "~" in ref or "%" in ref:
        raise Undefined("escapes")
    return parts


def resolve(doc, ref, seen=None):
    """("external",), ("error", why) or ("ok", object)"""
    seen = set() if seen is None else set(seen)
    while True:
        if ref in seen:
            return "error", "cycle"
        seen.add(ref)
        if ref.startswith(EXTERNAL):
            return ("external",)
        if not ref.startswith("#"):
            return "error", "format"
        ps = segments(ref)
        if not ps:
            return "error", "empty"
        o = doc
        for p in ps:
            ok, o = step(o, p)
            if not ok:
                return "error", f"no {p!r}"
        if type(o).__name__ != "Reference":
            return "ok", o
        ref = o.ref
