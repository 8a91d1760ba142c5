"""Serialization contracts shared by C16 and C17."""
import json

from props.common import *
from spec import probes

OVERRIDES = ("model_dump", "model_dump_json", "__iter__", "dict", "json", "copy", "model_validate", "model_validate_json",
             "model_construct", "__pydantic_serializer__", "__pydantic_validator__", "__get_pydantic_core_schema__",
             "model_post_init", "__new__", "__init__")


def own_serializers(s, seen=None):
    """serializer functions of the package anywhere in a class's core schema"""
    seen = set() if seen is None else seen
    if isinstance(s, dict):
        if id(s) in seen:
            return
        seen.add(id(s))
        z = s.get("serialization")
        if isinstance(z, dict):
            f = z.get("function")
            if f is not None and getattr(f, "__module__", "").startswith("asyncapi3"):
                yield getattr(f, "__qualname__", repr(f))
            elif z.get("type") not in (None, "function-plain", "function-wrap", "to-string", "model", "nullable",
                                       "include-exclude-dict", "include-exclude-sequence") and f is None:
                yield f"serializer {z.get('type')}"
            elif z.get("type") == "to-string" and s.get("type") != "url" and s.get("type") != "function-wrap":
                yield "to-string"
        for k, v in s.items():
            if k not in ("cls", "function", "metadata", "default"):
                yield from own_serializers(v, seen)
    elif isinstance(s, (list, tuple)):
        for x in s:
            yield from own_serializers(x, seen)


def overrides(c):
    """methods of serialization and construction redefined by the package"""
    out = []
    for b in L(c).__mro__:
        if b.__module__.startswith("asyncapi3"):
            out += [f"{b.__name__}.{n}" for n in OVERRIDES if n in b.__dict__ and not n.startswith("__pydantic")
                    and not (n == "__iter__" and L(c).__pydantic_root_model__)]
    return out


def plain(c):
    """no part of the package interferes with how pydantic-core serializes the class"""
    bad = list(own_serializers(L(c).__pydantic_core_schema__)) + overrides(c)
    cfg = sh.shape(L(c)).config
    bad += [f"{k}={cfg[k]!r}" for k in ("ser_json_timedelta", "ser_json_bytes", "ser_json_inf_nan", "ser_json_temporal")
            if cfg.get(k)]
    if cfg.get("serialize_by_alias") is not True:
        bad.append("does not serialize by alias")
    return bad


def null_predicate(fn, name):
    """fn(v) is true exactly when v is None, for every v"""
    def body(I, ob):
        e = I.enc
        e.json_data = True
        v = Sym(z3.Const("v!", e.Val), ["any"])
        r = I.truth(I.call(fn, [v], {}))
        isnone = I.decide(I.same_f(v, None))
        C.reached(I, "null" if isnone else "value")
        if r != isnone:
            C.mismatch(I, "omits a value" if r else "keeps null")
    return C.prove(name, body, need=("null", "value"), budget=20.0)


def field_obligation(c, n, want):
    name = f"{c}.{n}: serialized as specified"

    def thunk():
        f = sh.shape(L(c)).fields.get(n)
        if f is None:
            return static_obligation(name, False, "no such member")
        bad = []
        if f["ser_alias"] != want["ser"]:
            bad.append(f"written as {f['ser_alias']!r}")
        if f["exclude"] != (want["omit"] == "always"):
            bad.append("always omitted" if f["exclude"] else "not omitted")
        if bad:
            return static_obligation(name, False, "; ".join(bad))
        if want["omit"] == "null":
            if f["exclude_if"] is None:
                return static_obligation(name, False, "null is written")
            return null_predicate(f["exclude_if"], name)
        if f["exclude_if"] is not None:
            return static_obligation(name, False, "omitted conditionally")
        return static_obligation(name, True)
    return (name, thunk, lambda w: [])


def same_obj(a, b):
    """deep equality of accepted values: classes, members, order-insensitive maps"""
    from pydantic import BaseModel
    if isinstance(a, BaseModel) or isinstance(b, BaseModel):
        if type(a) is not type(b):
            return f"{type(a).__name__} / {type(b).__name__}"
        da = {**a.__dict__, **(a.model_extra or {})}
        db = {**b.__dict__, **(b.model_extra or {})}
        if "extra_validators" in da and type(a).__name__ == "AsyncAPI3":
            for d in (da, db):
                d.pop("extra_validators", None), d.pop("extra_converters", None)
        if list(da) != list(db) and set(da) != set(db):
            return f"members {sorted(map(str, set(da) ^ set(db)))}"
        for k in da:
            r = same_obj(da[k], db[k])
            if r:
                return f"{k}: {r}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"keys {sorted(map(str, set(a) ^ set(b)))}"
        for k in a:
            r = same_obj(a[k], b[k])
            if r:
                return f"{k}: {r}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "length"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same_obj(x, y)
            if r:
                return f"[{i}]: {r}"
        return None
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and
                                       not isinstance(a, bool) and not isinstance(b, bool)):
        return f"{a!r} / {b!r}"
    return None if a == b else f"{a!r} / {b!r}"


def jsonable(x):
    """URL objects and the like as their text"""
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return str(x) if isinstance(x, str) else x
    return str(x)


def differ(got, want, path=""):
    """first difference of serialized data (a URL may gain a trailing slash)"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return f"member {path}{k} is missing"
        for k in got:
            if k not in want:
                return f"member {path}{k} = {got[k]!r} should not be there"
        for k in want:
            r = differ(got[k], want[k], f"{path}{k}.")
            if r:
                return r
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return f"{path}: {len(got)} items instead of {len(want)}"
        for i, (x, y) in enumerate(zip(got, want)):
            r = differ(x, y, f"{path}{i}.")
            if r:
                return r
        return None
    if isinstance(want, str) and isinstance(got, str):
        return None if got == want or "://" in want and got == want + "/" else f"{path}: {got!r} instead of {want!r}"
    if isinstance(want, bool) != isinstance(got, bool) or want != got:
        return f"{path}: {got!r} instead of {want!r}"
    return None


def ambiguous(v):
    """some Schema carries an undeclared member that by itself makes it look like a Reference
    or a Multi Format Schema (the library may then choose another class)"""
    if isinstance(v, oracle.View):
        c = v.__dict__["$c"]
        x = v.__dict__.get("model_extra") or {}
        if c == "Schema" and ("$ref" in x or "schema" in x or "ref" in x):
            return True
        if c == "MultiFormatSchema" and x:
            return True
        for n, f in TABLE[c].get("fields", {}).items():
            y = getattr(v, n)
            # a JSON map may stand in for a Schema: its nulls are then data
            if isinstance(y, oracle.View) and any(a[0] == "map" for a in probes.alts(f["type"])) and \
                    not oracle.same(oracle.dump(y), y.__dict__["$raw"]):
                return True
        return any(ambiguous(y) for k, y in v.__dict__.items() if k not in ("$c", "$raw"))
    if isinstance(v, dict):
        return any(ambiguous(y) for y in v.values())
    if isinstance(v, list):
        return any(ambiguous(y) for y in v)
    return False


def cases(tier):
    """every class, every member, every value of the probe set"""
    for c in classes():
        e = TABLE[c]
        yield {"class": c, "raw": gen.Gen(1).least(c)}
        yield {"class": c, "raw": probes.full(c)}
        yield {"class": c, "raw": probes.full(c, 4)}
        for raw in probes.large_cases(c):
            yield {"class": c, "raw": raw}
        for raw in probes.texts(c, mined()[:40]):
            yield {"class": c, "raw": raw}
        if "root" in e:
            T = e["root"][2]
            for v in probes.good(T):
                yield {"class": c, "raw": {"key": v, "root": v}}
            continue
        f_ = probes.full(c)
        by = {f["alias"]: n for n, f in e["fields"].items()}
        yield {"class": c, "raw": {by.get(k, k): v for k, v in f_.items()}}
        for n, f in e["fields"].items():
            if probes.processor(f):
                continue
            for v in list(probes.good(f["type"])) + [None]:
                yield {"class": c, "raw": {**gen.Gen(1).least(c), f["alias"]: v}}
            for v in list(probes.good(f["type"]))[:5]:
                yield {"class": c, "raw": {**f_, f["alias"]: v}}
            yield {"class": c, "raw": {k: v for k, v in f_.items() if k != f["alias"]}}
        if e["extra"] in ("x", "allow"):
            for v in (None, 0, "", [], {}, False, {"a": None}, [None], {"x-a": None, "root": {}}, {"$ref": "#/a"}, 1.5):
                yield {"class": c, "raw": {**gen.Gen(1).least(c), "x-ext": v}}
                yield {"class": c, "raw": {**f_, "x-a.b_c-d": v, "x-B": 1}}
            for n, f in e["fields"].items():
                yield {"class": c, "raw": {**gen.Gen(1).least(c), "x-" + n: 5, "x-" + f["alias"]: 6}}
    for depth in (5, 6):
        yield {"class": "AsyncAPI3", "raw": probes.full("AsyncAPI3", depth)}


def with_processors(o, lists):
    """the document with processor lists assigned"""
    if o is not None and lists:
        from asyncapi3.validators import TagsRefValidator
        for n in lists:
            setattr(o, n, [TagsRefValidator])
    return o


def random_raw(seed):
    r = random.Random(seed)
    g = gen.Gen(seed)
    cs = list(classes())
    while True:
        c = r.choice(cs) if r.random() < 0.7 else "AsyncAPI3"
        raw = g.model(c, r.choice([1, 2, 3, 4]))
        if r.random() < 0.3:
            g.perturb(c, raw, 1)
        yield {"class": c, "raw": raw}
