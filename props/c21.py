"""C21: a lone $ref is a Reference wherever one may stand in."""
import random

from props.common import *

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("contracts on the Reference class (accepts every lone $ref unchanged, needs its member) and on every class that shares a "
             "union with it (its validators refuse an object with an undeclared $ref member), executed symbolically; one obligation "
             "per location on the union pydantic-core executes; reported only with an object that parses differently")
NOTE = ("Every location of the document model that admits a Reference, from the contract table: the alternatives of the union in the "
        "core schema, and for each alternative class that it refuses a lone $ref (or, for the open Schema object, that it has no member "
        "of that name, so that pydantic-core's smart union prefers the Reference). Trusts pyvc, z3 and pydantic-core's union rule.")
RULE = "a class, a member, the position of a value in it and the value; non-trivial when the value is a mapping"
BOUNDED = "the smart-union choice between Schema and Reference is pydantic-core's; it is cross-checked at every location"
TRUSTED = ["pydantic-core: a smart union takes an alternative that validates, preferring the one with more of its declared members given, independently of the text of the strings in it (probed once per location)"]
REFT = ["model", "Reference"]


def alts(T):
    return [b for a in T[1] for b in alts(a)] if T[0] == "union" else [T]


def positions(T, path=()):
    """(container path, alternatives there) wherever a Reference may stand"""
    A = alts(T)
    if REFT in A:
        yield path, A
    for a in A:
        if a[0] == "list":
            yield from positions(a[1], path + ("[]",))
        elif a[0] == "map":
            yield from positions(a[2], path + ("{}",))


def members_of(c):
    """(field name, type) of the contract table"""
    e = TABLE[c]
    return [("root", e["root"])] if "root" in e else [(n, f["type"]) for n, f in e["fields"].items()]


def locations():
    for c in classes():
        for n, T in members_of(c):
            for path, A in positions(T):
                yield c, n, path, A


# -------------------------------------------------------------- core schema
def schema_at(c, n):
    s = sh.shape(L(c))
    if n == "root":
        return (s, s.rootschema) if s.root_model else (s, None)
    return (s, s.fields[n]["schema"]) if n in s.fields else (s, None)


def unions_at(S, s, path, fns=()):
    """(union or reference schema, functions around it) at a container path"""
    s = S._unwrap(s)
    t = s["type"]
    if t == "union":
        chs = [c[0] if isinstance(c, tuple) else c for c in s["choices"]]
        if not path and any(S.type(c)[0] == REFT for c in chs):
            yield s, fns
        for c in chs:
            # the other alternatives may hold the position deeper down
            if S.type(c)[0][0] != "model":
                yield from unions_at(S, c, path, fns)
    elif t in ("nullable", "default", "lax-or-strict"):
        yield from unions_at(S, s["lax_schema" if t == "lax-or-strict" else "schema"], path, fns)
    elif t == "list" and path and path[0] == "[]":
        yield from unions_at(S, s["items_schema"], path[1:], fns)
    elif t == "dict" and path and path[0] == "{}":
        yield from unions_at(S, s["values_schema"], path[1:], fns)
    elif S.type(s)[0] == REFT:
        if not path:
            yield s, fns
    elif t.startswith("function-") and "schema" in s and S.type(s)[0][0] != "model":
        yield from unions_at(S, s["schema"], path, fns + ((t[9:], s["function"]["function"]),))


def location_obligation(c, n, path, A):
    name = f"{c}.{n}{''.join(path)}: a lone $ref parses to a Reference"

    def thunk():
        S, s = schema_at(c, n)
        if s is None:
            return static_obligation(name, False, "no such member")
        found = list(unions_at(S, s, path))
        if not found:
            return static_obligation(name, False, "no Reference alternative there")
        # a choice nested in another alternative is met when that alternative is chosen
        bad = []
        only = all(a == REFT or a == ["none"] for a in A)
        for u, fns in found:
            if only and u["type"] == "union":
                bad += [f"admits an inline {T[1] if T[0] == 'model' else T}" for ch in u["choices"]
                        if (T := S.type(ch[0] if isinstance(ch, tuple) else ch)[0]) not in (REFT, ["none"])]
            for mode, fn in fns:
                if mode != "after":
                    bad.append(f"{mode}-validator {getattr(fn, '__qualname__', fn)}")
                elif not keeps_references(fn):
                    bad.append(f"{getattr(fn, '__qualname__', fn)} may change a Reference")
            if u["type"] == "union":
                if u.get("mode") not in (None, "smart"):
                    bad.append(f"union mode {u.get('mode')}")
                for ch in u["choices"]:
                    ch = ch[0] if isinstance(ch, tuple) else ch
                    T = S.type(ch)[0]
                    why = refuses(T)
                    if why:
                        bad.append(why)
        if not bad:
            why = probe(c, n, path)
            bad += [why] if why else []
        return static_obligation(name, not bad, "; ".join(bad))
    return (name, thunk, lambda w: [])


def refuses(T):
    """None if a value of type T cannot be a lone {'$ref': string} (or loses against the Reference)"""
    k = T[0]
    if T == REFT or k in ("none", "bool", "int", "float", "str", "enum", "list", "email", "url"):
        return None
    if k == "map":
        return None             # may take it: decided by the union rule, see probe
    if k == "union":
        bad = [w for a in T[1] if (w := refuses(a))]
        return bad[0] if bad else None
    if k == "model":
        e = sh.shape(L(T[1]))
        if e.root_model:
            return f"{T[1]} is a map"
        if any("$ref" in (f["alias"], n) for n, f in e.fields.items()):
            return f"{T[1]} has a member $ref"
        return None             # its own obligation: "{class}: refuses a lone $ref"
    return f"alternative {T}"


def probe(c, n, path):
    """pydantic-core's choice does not depend on the text of the reference (a plain, unconstrained string): one
    execution of its union decides it for all"""
    for key in ("k", "root"):
        r = replay({"class": c, "member": n, "path": list(path), "value": {"$ref": "#/components/x/y"}, "key": key})
        if r is not None:
            return r


def keeps_references(fn):
    """an after-validator returns every Reference it is given"""
    def body(I, ob):
        o = SymObj(z3.Const("ref!", I.enc.Obj), L("Reference"))
        try:
            r = C.call_field_validator(I, fn, o)
        except PyRaise:
            C.mismatch(I, "raises")
            return
        except Write as w:
            ob.fail("undecided", w.what)
            return
        C.must(I, I.same_f(r, o), "returns something else")
    return C.prove("keeps", body, budget=20.0).status == "proved"


def refusal_obligation(c):
    """no object of the class has an undeclared member $ref, unless the class is open"""
    name = f"{c}: refuses a lone $ref"

    def thunk():
        s = sh.shape(L(c))
        extra = s.config.get("extra_fields_behavior", "ignore")
        if s.nonafter or s.inner_wrappers or s.custom_init:
            return static_obligation(name, False, "validators of a mode other than 'after'")
        if s.root_model:
            # a root model is not an alternative of any union with a Reference
            return static_obligation(name, False, "a map")
        if any("$ref" in (f["alias"], n) for n, f in s.fields.items()):
            return static_obligation(name, False, "declares $ref")
        if extra == "forbid":
            return static_obligation(name, True)
        if TABLE[c]["extra"] == "any":
            # accepts it, with none of its declared members given
            return static_obligation(name, extra == "allow", f"extra={extra}")
        if extra != "allow":
            return static_obligation(name, False, f"extra={extra}")

        def body(I, ob):
            e = I.enc
            t = z3.Const(f"{c}!", e.Obj)
            T = ["map", ["str", {}], ["any"]]
            d = e.attr(L(c), "$extra", T)(t)
            I.assume(fm.lit(e.typed(d, T)))
            I.assume(fm.lit(e.has(e.V.ov(d), C.Concretiser(I, None).zkey("$ref"))))
            if c == "AsyncAPI3":
                raise C.Unsupported("document")
            try:
                bad = C.run_class(I, L(c), SymObj(t, L(c)))
            except Write as w:
                ob.fail("undecided", w.what)
                return
            C.reached(I, "reject" if bad else "accept")
            if bad is None or not issubclass(bad, C.REJECT):
                C.mismatch(I, "accepts it" if bad is None else f"raises {bad.__name__}",
                           lambda I, m: {**C.Concretiser(I, m).obj(t, L(c)), "$ref": "#/a"})
        return C.prove(name, body, need=("reject",), budget=40.0)
    return (name, thunk, lambda w: [{"alone": c, "raw": w}])


def reference_obligations():
    name, thunk, conv = class_obligation("Reference", [always], "accepts every lone $ref", need=("accept",))
    yield (name, thunk, lambda w: [{"class": c, "member": n, "path": list(p), "value": w} for c, n, p, A in list(locations())[:40]])

    def shape():
        s = sh.shape(L("Reference"))
        f = s.fields.get("ref")
        bad = []
        if f is None or list(s.fields) != ["ref"]:
            bad.append(f"members {list(s.fields)}")
        else:
            if f["alias"] != "$ref" or not f["required"] or f["type"] != ["str", {}]:
                bad.append(f"$ref: {f['alias']} required={f['required']} {f['type']}")
            if any(m != "after" for m, _, _ in f["validators"]):
                bad.append("pre-processing of $ref")
        if s.config.get("extra_fields_behavior") != "forbid":
            bad.append("admits further members")
        if s.config.get("str_strip_whitespace") or s.config.get("str_to_lower") or s.config.get("from_attributes"):
            bad.append("changes strings")
        if s.nonafter or s.inner_wrappers or s.custom_init:
            bad.append("pre-processing")
        return static_obligation("Reference: exactly one required string member", not bad, "; ".join(bad), witnesses=[{}])

    def named(w):
        for k in names_read("Reference"):
            for c, n, path, A in locations():
                if k not in ("ref", "$ref"):
                    yield {"class": c, "member": n, "path": list(path), "value": {k: "#/a"}}
    yield ("Reference: exactly one required string member", shape, named)


def always(o):
    return True


def obligations(tier):
    yield from reference_obligations()
    others = set()
    for c, n, path, A in locations():
        yield location_obligation(c, n, path, A)
        others |= {a[1] for a in A if a[0] == "model" and a != REFT}
    for c in sorted(others):
        yield refusal_obligation(c)


# ------------------------------------------------------------------ concrete
def wrap(path, v, key="k"):
    for p in reversed(path):
        v = [v] if p == "[]" else {key: v}
    return v


def embed(c, n, path, v, key="k", many=0):
    """a raw object of class c with v at the position, or None if a rule stands in the way"""
    x = wrap(path, v, key)
    if many:
        y = x[0] if path[0] == "[]" else x[key]
        x = [y] * many if path[0] == "[]" else {**{f"k{i}": y for i in range(many)}, key: y}
    if n == "root":
        return x
    raw = gen.Gen(3).least(c)
    raw[TABLE[c]["fields"][n]["alias"]] = x
    if c == "SolaceDestination":
        raw["destinationType"] = "queue"
    return raw


def at(o, n, path, key="k"):
    x = getattr(o, n)
    for p in path:
        x = x[-1] if p == "[]" else x[key]
    return x


def replay(case):
    from pydantic import ValidationError
    if "alone" in case:
        c = case["alone"]
        got = verdict(L(c), case["raw"])
        if TABLE[c]["extra"] == "any" or got is not True:
            return None
        return f"{c} accepts {case['raw']!r}, an object with a member $ref"
    c, n, path, v = case["class"], case["member"], tuple(case["path"]), case["value"]
    key = case.get("key", "k")
    loc = next((l for l in locations() if (l[0], l[1], l[2]) == (c, n, path)), None)
    if loc is None or c not in sh.load():
        return SKIP
    A = loc[3]
    raw = embed(c, n, path, v, key, case.get("many"))
    lone = isinstance(v, dict) and len(v) == 1 and isinstance(v.get("$ref"), str)
    by_name = isinstance(v, dict) and len(v) == 1 and isinstance(v.get("ref"), str)
    where = f"{c}.{n}{''.join(path)}"
    Ref = L("Reference")
    for how in ("python", "json", "instance"):
        try:
            if how == "json":
                o = L(c).model_validate_json(json.dumps(raw))
            elif how == "python":
                o = L(c).model_validate(copy.deepcopy(raw))
            elif lone:
                o = L(c).model_validate(embed(c, n, path, Ref(ref=v["$ref"]), key, case.get("many")))
            else:
                continue
            x = at(o, n, path, key)
        except ValidationError:
            if lone:
                return f"{where}: {v!r} is rejected ({how})"
            continue
        except Exception as ex:      # noqa: BLE001
            return f"{where}: {v!r}: {type(ex).__name__} {ex}"
        if lone:
            if type(x) is not Ref:
                return f"{where}: {v!r} parses to {type(x).__name__}, not to a Reference ({how})"
            if x.ref != v["$ref"]:
                return f"{where}: {v!r} parses to the reference {x.ref!r}"
            continue
        if type(x) is Ref and isinstance(v, dict) and "$ref" not in v and "ref" not in v:
            return f"{where}: {v!r} has no $ref but parses to a Reference"
        if all(a == REFT or a == ["none"] for a in A) and isinstance(v, dict) and not by_name:
            return f"{where}: only a Reference may stand there, but {v!r} is accepted as {type(x).__name__}"
    return None


import json

REFS = ["#/components/schemas/a", "", "#", "x", "https://e.com/a.yaml#/b", "http://[", "  ", "\n", "é\u0000", "$ref", "ref", "#/a/~0",
        "null", "0", "true", "{}", "a" * 3000]


def inline(A):
    for a in A:
        if a[0] == "model" and a != REFT:
            yield gen.Gen(5).least(a[1])
            yield gen.Gen(7).model(a[1], 2)


def values(A):
    for s in REFS:
        yield {"$ref": s}
    yield from ({}, {"ref": "#/a"}, {"$ref": 5}, {"$ref": None}, {"$ref": ["a"]}, {"$Ref": "#/a"}, {"$ref ": "#/a"}, {"href": "#/a"},
                {"$id": "#/a"}, {"x-ref": "#/a"}, {"$schema": "#/a"}, {"name": "a"}, {"id": "#/a"}, {"ref_": "a"}, {"_ref": "a"})
    yield {"$ref": "#/a", "x-a": 1}
    yield {"$ref": "#/a", "description": "d"}
    yield from inline(A)
    if all(a == REFT or a == ["none"] for a in A):
        for c in classes():
            if "root" not in TABLE[c] and c != "Reference":
                yield gen.Gen(5).least(c)
                yield gen.Gen(9).model(c, 2)


def nontrivial(case):
    return "alone" in case or isinstance(case["value"], dict)


def fixed_cases(tier):
    for c, n, path, A in locations():
        for v in values(A):
            yield {"class": c, "member": n, "path": list(path), "value": v}
        for k in ("root", "$ref", "ref", "a"):
            if "{}" in path and not (n == "root" and k == "$ref"):
                yield {"class": c, "member": n, "path": list(path), "value": {"$ref": "#/b"}, "key": k}
    for c, n, path, A in locations():
        if path:
            for v in [{"$ref": "#/a"}] + list(inline(A))[:1]:
                for m in (12, 200):
                    yield {"class": c, "member": n, "path": list(path), "value": v, "many": m}
    for c in classes():
        if "root" not in TABLE[c] and c != "Reference" and not any("$ref" == f["alias"] for f in TABLE[c]["fields"].values()):
            yield {"alone": c, "raw": {"$ref": "#/a"}}
            yield {"alone": c, "raw": {**gen.Gen(1).least(c), "$ref": "#/a"}}


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    locs = list(locations())
    while True:
        c, n, path, A = r.choice(locs)
        m = r.random()
        if m < 0.5:
            x = r.random()
            v = {"$ref": r.choice(REFS) if x < 0.2 else mined_string(r) if x < 0.7 else random_string(r, NASTY + ["#", "/", "a"])}
        else:
            o = [a for a in A if a[0] == "model" and a != REFT]
            v = g.model(r.choice(o)[1], 2) if o else g.model(r.choice(["Channel", "Message", "Server", "Tag"]), 2)
        yield {"class": c, "member": n, "path": list(path), "value": v}
