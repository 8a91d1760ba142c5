"""Where References may stand in a document, documents with references at chosen
places, and the contract's verdict on a document's references.  Everything is
read off the contract table; the code under verification is never consulted."""
import copy

from spec import gen, oracle
from spec import resolve as R
from spec.oracle import TABLE, Undefined

REF = ["model", "Reference"]
ONLY = {("Operation", "channel"): "Channel", ("Operation", "messages"): "Message", ("Channel", "servers"): "Server",
        ("OperationReply", "channel"): "Channel", ("OperationReply", "messages"): "Message"}


def alts(T):
    return [b for a in T[1] for b in alts(a)] if T[0] == "union" else [T]


class Loc:
    """a place of the document: tokens are (class, member), '{}' or '[]'"""

    def __init__(self, tokens, alternatives):
        self.tokens = tokens
        self.owner = next(t for t in reversed(tokens) if not isinstance(t, str))
        self.kinds = [a[1] for a in alternatives if a[0] == "model" and a != REF]
        self.others = [a for a in alternatives if a[0] not in ("model", "none")]
        if not self.kinds and not self.others:
            self.kinds = [ONLY[self.owner]]
        self.name = ".".join(t if isinstance(t, str) else t[1] for t in tokens if isinstance(t, str) or t[1] != "root")
        self.stars = sum(t == "{}" for t in tokens)
        self.lists = sum(t == "[]" for t in tokens)

    def __repr__(self):
        return self.name


def _locations():
    out = []

    def walk(T, path, stack):
        A = alts(T)
        if REF in A:
            out.append(Loc(path, A))
        for a in A:
            if a[0] == "list":
                walk(a[1], path + ["[]"], stack)
            elif a[0] == "map":
                walk(a[2], path + ["{}"], stack)
            elif a[0] == "model" and a != REF:
                c = a[1]
                if c in stack:
                    raise AssertionError(f"recursive class {c}")
                e = TABLE[c]
                if "root" in e:
                    walk(e["root"], path + [(c, "root")], stack + [c])
                    continue
                for n, f in e["fields"].items():
                    if f["omit"] != "always":
                        walk(f["type"], path + [(c, n)], stack + [c])
    walk(["model", "AsyncAPI3"], [], [])
    return out


LOCS = _locations()
BY_NAME = {}
for _l in LOCS:
    BY_NAME.setdefault(_l.name, _l)


# -------------------------------------------------------------------- documents
def least(c):
    if c == "Operation":
        return {"action": "send", "channel": {"$ref": "https://example.com/x"}}
    return gen.Gen(3).least(c)


def place(doc, loc, keys, idxs, value):
    keys, idxs = list(keys), list(idxs)
    cur = doc
    n = len(loc.tokens)
    for i, t in enumerate(loc.tokens):
        last = i == n - 1
        nxt = None if last else loc.tokens[i + 1]
        if not isinstance(t, str) and t[1] == "root":
            continue
        new = value if last else [] if nxt == "[]" else {} if nxt == "{}" else least(nxt[0])
        if t == "[]":
            j = idxs.pop(0)
            while len(cur) <= j:
                cur.append({"$ref": "https://example.com/x"} if last else copy.deepcopy(new))
            if last:
                cur[j] = value
            cur = cur[j]
        else:
            k = keys.pop(0) if t == "{}" else TABLE[t[0]]["fields"][t[1]]["alias"]
            if not isinstance(t, str) and t == ("Channel", "parameters"):
                cur["address"] = "a/{b}"
            if last or k not in cur or cur[k] is None or not isinstance(cur[k], type(new)) or \
                    (isinstance(cur[k], dict) and "$ref" in cur[k]):
                cur[k] = new
            cur = cur[k]
    return doc


TARGET_MAPS = {}          # kind -> component member
for _n, _f in TABLE["Components"]["fields"].items():
    for _a in alts(_f["type"]):
        if _a[0] == "model" and "root" in TABLE.get(_a[1], {}):
            for _b in alts(TABLE[_a[1]]["root"][2]):
                if _b[0] == "model" and _b != REF:
                    TARGET_MAPS.setdefault(_b[1], _f["alias"])


def base(full=True):
    """a document with a target of every kind and no references"""
    doc = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1", "license": {"name": "l"}, "contact": {"name": "c"}}}
    if full:
        comp = doc["components"] = {}
        for kind, member in TARGET_MAPS.items():
            comp.setdefault(member, {})["T-" + kind] = least(kind)
        doc["servers"] = {"T-Server": least("Server")}
        doc["channels"] = {"T-Channel": {"messages": {"T-Message": {}}}}
        doc["operations"] = {"T-Operation": least("Operation")}
    return doc


def target(kind):
    return f"#/components/{TARGET_MAPS[kind]}/T-{kind}"


KINDS = [k for k in TARGET_MAPS]
ROOT_TARGETS = {"Server": "#/servers/T-Server", "Channel": "#/channels/T-Channel",
                "Message": "#/channels/T-Channel/messages/T-Message", "Operation": "#/operations/T-Operation"}
OTHER_TARGETS = ["#/info", "#/info/license", "#/components", "#/components/schemas", "#/components/tags", "#/channels", "#/servers",
                 "#/operations", "#/info/title", "#/channels/T-Channel/messages", "#/components/externalDocs/T-ExternalDocumentation/url",
                 "#/components/operations", "#/components/securitySchemes/T-SecurityScheme/type"]
BAD_TARGETS = ["#/components/schemas/zzz", "#/zzz", "#/info/zzz", "#/info/title/zzz", "other.yaml#/a", "", "#", "#/", "a",
               "#/components/parameters/zzz"]


# ---------------------------------------------------------------------- verdict
def references(T, v, owner=None, path=""):
    """(reference, alternatives of its place, owner) of every Reference located in a declared member"""
    c = type(v).__name__
    mine = type(v).__module__.split(".")[0] == "asyncapi3"
    if mine and c == "Reference":
        yield v, alts(T), owner, path
    elif mine and c in TABLE:
        e = TABLE[c]
        if "root" in e:
            yield from references(e["root"], v.root, (c, "root"), path)
            return
        for n, f in e["fields"].items():
            if f["omit"] != "always":
                yield from references(f["type"], getattr(v, n), (c, n), path + "." + n)
    elif isinstance(v, list):
        for a in alts(T):
            if a[0] == "list":
                for i, x in enumerate(v):
                    yield from references(a[1], x, owner, f"{path}[{i}]")
    elif isinstance(v, dict):
        for a in alts(T):
            if a[0] == "map":
                for k, x in v.items():
                    yield from references(a[2], x, owner, f"{path}[{k!r}]")


def kinds_at(A, owner):
    ks = [a[1] for a in A if a[0] == "model" and a != REF]
    other = [a for a in A if a[0] not in ("model", "none")]
    if not ks and not other:
        ks = [ONLY[owner]] if owner in ONLY else None
    return ks, other


def good(doc, ref, A, owner):
    """whether one reference is admissible at its place"""
    r = R.resolve(doc, ref.ref)
    if r[0] == "external":
        return True
    if r[0] == "error":
        return False
    ks, other = kinds_at(A, owner)
    if ks is None:
        raise Undefined("no kind for a reference-only place")
    o = r[1]
    c = type(o).__name__
    if type(o).__module__.split(".")[0] == "asyncapi3" and c in TABLE:
        return c in ks
    if other:
        raise Undefined("a plain value where plain values are admitted inline")
    return False


def verdict(doc):
    """(True, None) or (False, why); Undefined when the contract has no opinion"""
    undef = None
    for ref, A, owner, path in references(["model", "AsyncAPI3"], doc):
        try:
            if not good(doc, ref, A, owner):
                return False, f"{path} -> {ref.ref!r}"
        except Undefined as u:
            undef = u
    if undef:
        raise undef
    return True, None


def go(doc, loc, keys, idxs, stop=0):
    """the object at (or `stop` steps above) a place"""
    keys, idxs = list(keys), list(idxs)
    x = doc
    for t in loc.tokens[:len(loc.tokens) - stop]:
        if t == "{}":
            x = x[keys.pop(0)]
        elif t == "[]":
            x = x[idxs.pop(0)]
        else:
            x = getattr(x, t[1])
    return x
