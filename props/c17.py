"""C17: parsing a serialized object gives the same object."""
from props.serial import *
from props import c19

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("lemma over the contracts of parsing (C08) and serialization (C16), one obligation per class and member: the name it is "
             "written under is read back into the same member, what is omitted is restored by its default, and the alternatives of "
             "its type cannot take each other's data; failing objects are found by replay on the real code")
NOTE = ("Proved for all members of all classes except the choice between the alternatives Schema, Multi Format Schema and JSON map, "
        "which pydantic-core makes by counting members: there bounded, with three known findings. Trusts pydantic-core and the "
        "idempotence of its URL and number formats.")
RULE = "raw data of an accepted object and its class; non-trivial when it has members"
BOUNDED = "the choice between Schema, Multi Format Schema and a JSON map at the locations that admit several of them"
TRUSTED = ["pydantic-core: parsing its own serialized scalars and URLs yields equal values"]
ASSUMPTIONS = ["numbers are finite", "processor lists are not part of the comparison (C14: they are never serialized)"]


def disjoint(c, a, b):
    """no serialized value of alternative a is accepted as alternative b (for JSON kinds and
    Reference against the other object types)"""
    ka, kb = jkinds(a), jkinds(b)
    if not ka & kb:
        return True
    if ka & kb == {"object"} and a[0] == b[0] == "model":
        for x, y in ((a[1], b[1]), (b[1], a[1])):
            ex, ey = TABLE[x], TABLE[y]
            if "root" in ex or "root" in ey:
                return False
            # some member y requires (and always writes) that x refuses
            for n, f in ey["fields"].items():
                if f["required"] and ex["extra"] != "allow" and not any(
                        f["ser"] in (m, g["alias"]) for m, g in ex["fields"].items()) and \
                        not (ex["extra"] == "x" and f["ser"].startswith("x-")):
                    return True
    return False


def jkinds(a):
    k = a[0]
    return {"none": {"null"}, "bool": {"bool"}, "int": {"number"}, "float": {"number"}, "str": {"string"}, "url": {"string"},
            "email": {"string"}, "list": {"array"}, "map": {"object"}, "model": {"object"}}.get(k) or \
        ({"null": 1, "bool": 1, "number": 1, "string": 1, "array": 1, "object": 1}.keys() & set() if k == "subclass" else
         {"string"} if k == "enum" and all(isinstance(v, str) for v in a[1]) else
         {"number"} if k == "enum" else {"null", "bool", "number", "string", "array", "object"})


def member_obligation(c, n, want):
    name = f"{c}.{n}: written and read back"

    def thunk():
        f = sh.shape(L(c)).fields.get(n)
        if f is None:
            return static_obligation(name, False, "no such member")
        bad = []
        others = {m: g for m, g in sh.shape(L(c)).fields.items() if m != n}
        if f["exclude"]:
            return static_obligation(name, probes.processor(want), "never written")
        if f["ser_alias"] not in (f["alias"], n):
            bad.append(f"written as {f['ser_alias']!r}, read as {f['alias']!r}")
        for m, g in others.items():
            if f["ser_alias"] in (m, g["alias"], g["ser_alias"]):
                bad.append(f"collides with {m}")
        ob = None
        if f["exclude_if"] is not None:
            ob = null_predicate(f["exclude_if"], name)
            nullable = any(a == ["none"] for a in probes.alts(f["type"]))
            if f["required"] and nullable:
                bad.append("a null of a required member is omitted")
        alts = [a for a in probes.alts(f["type"])]
        for i, a in enumerate(alts):
            for b in alts[i + 1:]:
                if not disjoint(c, a, b) and not bounded(a, b):
                    bad.append(f"alternatives {a[:2]} and {b[:2]} take each other's data")
        for m, fn, _ in f["validators"]:
            if getattr(fn, "__qualname__", "").find("EmailStr") < 0 and m != "after":
                bad.append("converting validator")
        st = static_obligation(name, not bad, "; ".join(bad))
        if ob is None or bad:
            return st
        return ob
    return (name, thunk, lambda w: [])


def bounded(a, b):
    """the alternatives whose choice is only checked on concrete objects"""
    s = {x[1] if x[0] == "model" else x[0] for x in (a, b)}
    return len(s) == 2 and s <= {"Schema", "MultiFormatSchema", "map", "Reference"} and bool(s & {"Schema", "MultiFormatSchema", "map"}) \
        or s <= {"int", "float"} or s <= {"any", "none"}


def edges(x, t):
    """the data with t added at the ends of its texts"""
    if isinstance(x, str):
        return t * 2 + x + t * 2
    if isinstance(x, dict):
        return {k: edges(v, t) for k, v in x.items()}
    if isinstance(x, list):
        return [edges(v, t) for v in x]
    return x


def obligations(tier):
    for c in classes():
        def thunk(c=c):
            bad = plain(c)
            s = sh.shape(L(c))
            if s.nonafter or s.inner_wrappers or s.custom_init:
                bad.append("validators that see the raw data")
            if not s.root_model and not (s.config.get("validate_by_alias") is not False):
                bad.append("does not read aliases")
            return static_obligation(f"{c}: read and written by pydantic-core alone", not bad, f"{bad}")
        yield (f"{c}: read and written by pydantic-core alone", thunk)
        if c != "AsyncAPI3":
            n, thunk, _ = c19.frame(c)
            yield (n, thunk, lambda w, c=c: [{"class": c, "raw": x} for x in [w] + [edges(w, t) for t in "\n /a"] + list(probes.texts(c))[:8]])
        for n, f in TABLE[c].get("fields", {}).items():
            yield member_obligation(c, n, f)


def explicit_null(o):
    """some member with a non-null default is null"""
    from pydantic import BaseModel
    if isinstance(o, BaseModel):
        for n, f in type(o).model_fields.items():
            v = getattr(o, n)
            if v is None and not f.is_required() and f.get_default(call_default_factory=True) is not None:
                return True
            if explicit_null(v):
                return True
        return any(explicit_null(v) for v in (o.model_extra or {}).values())
    if isinstance(o, dict):
        return any(explicit_null(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(explicit_null(v) for v in o)
    return False


def unstable(o):
    """a Schema with an undeclared member $ref or schema, or an empty one where a JSON map may
    stand: the listed findings (known_findings.json) are of these kinds"""
    from pydantic import BaseModel
    if isinstance(o, BaseModel):
        c, x = type(o).__name__, o.model_extra or {}
        if c == "Schema" and ("$ref" in x or "ref" in x or "schema" in x):
            return True
        for n, f in TABLE.get(c, {}).get("fields", {}).items():
            v = getattr(o, n, None)
            if type(v).__name__ == "Schema" and any(a[0] == "map" for a in probes.alts(f["type"])) and not v.model_dump():
                return True
        return any(unstable(v) for v in o.__dict__.values())
    if isinstance(o, dict):
        return any(unstable(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(unstable(v) for v in o)
    return False


def replay(case):
    c = case["class"]
    if c not in sh.load():
        return SKIP
    o = with_processors(build(L(c), case["raw"]), case.get("processors"))
    if o is None or explicit_null(o) or not case.get("known") and unstable(o):
        return SKIP
    from pydantic import ValidationError
    cls = L(c)
    data = o.model_dump()
    js = o.model_dump_json()
    for what, again in (("data", lambda: cls.model_validate(data)), ("JSON data", lambda: cls.model_validate(o.model_dump(mode="json"))),
                        ("JSON", lambda: cls.model_validate_json(js))):
        try:
            p = again()
        except ValidationError as ex:
            return f"{c}: parsing its serialized {what} fails: {ex.errors()[0]['loc']} {ex.errors()[0]['msg']} in {js}"[:500]
        r = same_obj(o, p)
        if r:
            return f"{c}: parsing its serialized {what} gives another object: {r}; {js}"[:500]
        if case.get("processors") is None and not (o == p):
            return f"{c}: parsing its serialized {what} gives an unequal object; {js}"[:500]
        d2, j2 = p.model_dump(), p.model_dump_json()
        if not oracle.same(jsonable(d2), jsonable(data)) or j2 != js:
            return f"{c}: serializing the parsed {what} again differs: {j2} / {js}"[:500]
    return None


def nontrivial(case):
    return bool(case["raw"])


KNOWN = [
    {"class": "KafkaMessageBindings", "raw": {"key": {"discriminator": None}}, "known": True},
    {"class": "Message", "raw": {"payload": {"$ref": "#/a", "discriminator": None}}, "known": True},
    {"class": "Message", "raw": {"payload": {"schema": {}, "discriminator": None, "deprecated": None}}, "known": True},
]


def fixed_cases(tier):
    yield from KNOWN
    yield from cases(tier)
    for ps in (["extra_validators"], ["extra_converters"]):
        yield {"class": "AsyncAPI3", "raw": gen.Gen(1).least("AsyncAPI3"), "processors": ps}


def random_cases(seed, tier):
    yield from random_raw(seed)
