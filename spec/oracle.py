"""What the specification says about raw data: an executable reading of the
contract table (shape.json) and of the rules.  It never looks at the code under
verification."""
import json
import os
import re

from spec import rules

TABLE = json.load(open(os.path.join(os.path.dirname(__file__), "shape.json")))

GOOD_URLS = ["https://example.com/", "https://example.com/docs?q=1#frag", "http://a.b.example.org:8080/x",
             "https://api.example.com/v1/%20", "https://example.com/a/", "https://example.com/a//", "https://example.com/?q=",
             "https://example.com/A/B/?b/#c/", "https://user:pw@example.com/a", "https://example.com/a?b=c&d=e%2F", "http://localhost/",
             "https://[::1]/a", "https://example.com/a;b=1/c,d.", "https://example.com/" + "a" * 1900]
OTHER_URLS = ["ftp://example.com/file", "urn:example:thing", "mailto:joe@example.com"]
BAD_URLS = ["not a url", "", "//example.com", "example.com/path", "http://"]


def is_url(s, c):
    if s in GOOD_URLS:
        return True
    if s in OTHER_URLS:
        return not c.get("allowed_schemes")
    if s in BAD_URLS:
        return False
    raise Undefined(f"url {s!r}")


class Undefined(Exception):
    """the oracle has no opinion (the generator avoids such data)"""


class Reject(Exception):
    def __init__(self, loc, why):
        super().__init__(f"{'.'.join(map(str, loc))}: {why}")
        self.loc, self.why = loc, why


class View:
    """an accepted object, as the rules see it"""

    def __init__(self, cname, attrs, extra, raw=None):
        self.__dict__["$c"] = cname
        self.__dict__["$raw"] = raw
        self.__dict__.update(attrs)
        self.__dict__["model_extra"] = extra

    def __repr__(self):
        return f"<{self.__dict__['$c']}>"


def parse(T, raw, loc=()):
    """the value the data denotes, or Reject"""
    k = T[0]
    if k == "union":
        errs = []
        alts = T[1]
        # a lone $ref is a Reference wherever one may stand in
        if isinstance(raw, dict) and set(raw) == {"$ref"} and isinstance(raw["$ref"], str) and \
                ["model", "Reference"] in alts:
            return parse(["model", "Reference"], raw, loc)
        for a in alts:
            try:
                return parse(a, raw, loc)
            except Reject as e:
                errs.append(e)
        raise Reject(loc, "no alternative: " + "; ".join(str(e) for e in errs)[:200])
    if k == "any":
        return raw
    if k == "none":
        if raw is not None:
            raise Reject(loc, "null expected")
        return None
    if k == "enum":
        for v in T[1]:
            if type(v) is type(raw) and v == raw:
                return raw
        if isinstance(raw, (bool, float)) and any(not isinstance(v, str) and v == raw for v in T[1]):
            raise Undefined("coercion to a listed number")
        raise Reject(loc, "not one of the listed values")
    if k == "bool":
        if isinstance(raw, bool):
            return raw
        if isinstance(raw, (int, float)) or (isinstance(raw, str) and raw.lower() in
                                             ("true", "false", "yes", "no", "on", "off", "t", "f", "y", "n", "0", "1")):
            raise Undefined("coercion to bool")
        raise Reject(loc, "boolean expected")
    if k in ("int", "float"):
        if isinstance(raw, bool) or (isinstance(raw, str) and re.fullmatch(r"\s*[+-]?[\d_.eE+-]+\s*", raw)) \
                or (k == "int" and isinstance(raw, float)) \
                or (k == "float" and isinstance(raw, str) and raw.strip().lower().lstrip("+-") in ("inf", "nan", "infinity")):
            raise Undefined("coercion to number")
        if not isinstance(raw, (int, float)):
            raise Reject(loc, "number expected")
        c = T[1]
        for key, ok in (("ge", lambda a, b: a >= b), ("gt", lambda a, b: a > b), ("le", lambda a, b: a <= b),
                        ("lt", lambda a, b: a < b)):
            if key in c and not ok(raw, c[key]):
                raise Reject(loc, f"{key} {c[key]}")
        return float(raw) if k == "float" else raw
    if k == "str":
        if not isinstance(raw, str):
            raise Reject(loc, "string expected")
        c = T[1]
        if "max_length" in c and len(raw) > c["max_length"]:
            raise Reject(loc, "too long")
        if "min_length" in c and len(raw) < c["min_length"]:
            raise Reject(loc, "too short")
        return raw
    if k == "email":
        if not isinstance(raw, str):
            raise Reject(loc, "string expected")
        if not rules.email(raw):
            raise Reject(loc, "not an email address")
        return raw
    if k == "url":
        if not isinstance(raw, str):
            raise Reject(loc, "string expected")
        if not is_url(raw, T[1]):
            raise Reject(loc, "not a URL")
        return raw
    if k == "list":
        if not isinstance(raw, list):
            raise Reject(loc, "array expected")
        c = T[2] if len(T) > 2 else {}
        if "min_length" in c and len(raw) < c["min_length"] or "max_length" in c and len(raw) > c["max_length"]:
            raise Reject(loc, "array length")
        return [parse(T[1], x, loc + (i,)) for i, x in enumerate(raw)]
    if k == "map":
        if not isinstance(raw, dict):
            raise Reject(loc, "object expected")
        return {kk: parse(T[2], v, loc + (kk,)) for kk, v in raw.items()}
    if k == "model":
        return parse_model(T[1], raw, loc)
    if k == "subclass":
        raise Undefined("processor class")
    raise Undefined(k)


def members(cname):
    return TABLE[cname]["fields"]


def split_members(cname, raw, loc):
    """{field name: value}, extra members"""
    e = TABLE[cname]
    by = {}
    for n, f in e["fields"].items():
        by[f["alias"]] = n
    names = {n: n for n in e["fields"]}
    got, extra = {}, {}
    for k, v in raw.items():
        n = by.get(k) or names.get(k)
        if n is None:
            extra[k] = v
        elif n in got:
            raise Undefined("member given twice")
        else:
            got[n] = v
    return got, extra


def parse_model(cname, raw, loc=()):
    e = TABLE[cname]
    if not isinstance(raw, dict):
        raise Reject(loc, "object expected")
    if "root" in e:
        root = parse(e["root"], raw, loc)
        v = View(cname, {"root": root}, None, raw)
        if not rules.patterned(v):
            raise Reject(loc, "patterned key")
        return v
    got, extra = split_members(cname, raw, loc)
    if extra and e["extra"] == "forbid":
        raise Reject(loc, f"undeclared member {sorted(extra)[0]!r}")
    attrs, undef = {}, None
    for n, f in e["fields"].items():
        if n in got:
            try:
                attrs[n] = parse(f["type"], got[n], loc + (f["alias"],))
            except Undefined as u:
                undef = u
        elif f["required"]:
            raise Reject(loc + (f["alias"],), "required member is missing")
        else:
            attrs[n] = f["default"]
    if undef:
        raise undef
    v = View(cname, attrs, extra, raw)
    if e["extra"] == "x" and not rules.extensions(v):
        raise Reject(loc, "extension name")
    r = rules.RULES.get(cname)
    if r is not None and not r(v):
        raise Reject(loc, "rule of " + cname)
    return v


def accepts(cname, raw):
    """(True, None) or (False, reason); raises Undefined"""
    try:
        parse_model(cname, raw)
        return True, None
    except Reject as r:
        return False, str(r)


# ------------------------------------------------------------- serialization
def dump(v):
    """the serialized form of a parsed value"""
    if isinstance(v, View):
        c = v.__dict__["$c"]
        e = TABLE[c]
        if "root" in e:
            return {k: dump(x) for k, x in v.root.items()}
        out = {}
        for n, f in e["fields"].items():
            x = getattr(v, n)
            if f["omit"] == "always" or (f["omit"] == "null" and x is None):
                continue
            out[f["ser"]] = dump(x)
        for k, x in (v.model_extra or {}).items():
            out[k] = dump(x)
        return out
    if isinstance(v, list):
        return [dump(x) for x in v]
    if isinstance(v, dict):
        return {k: dump(x) for k, x in v.items()}
    return v


def null_default(v):
    """some member with a non-null default is explicitly null (C17's exception)"""
    if isinstance(v, View):
        e = TABLE[v.__dict__["$c"]]
        if "root" in e:
            return any(null_default(x) for x in v.root.values())
        for n, f in e["fields"].items():
            x = getattr(v, n)
            if x is None and not f["required"] and f["default"] is not None:
                return True
            if null_default(x):
                return True
        return False
    if isinstance(v, list):
        return any(null_default(x) for x in v)
    if isinstance(v, dict):
        return any(null_default(x) for x in v.values())
    return False


def same(a, b):
    """equality of JSON values that keeps 1, 1.0 and true apart"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
        return a == b
    return type(a) is type(b) and a == b
