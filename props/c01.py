"""C01: undeclared members."""
import json
import random

from props.common import *

LEVEL = "proof"
NOTE = ('Every class: the model validator chain is executed symbolically on all instances and proved to accept iff the rule; undeclared-member handling read from the generated core schema. Trusts pyvc, z3 and pydantic-core.')
RULE = ("a class, a minimal valid object of it and a set of undeclared member names; non-trivial when at least one "
        "undeclared member is present")
BOUNDED = "none: the concrete cases only cross-check the proofs"
TRUSTED = ["pydantic-core: extra='forbid' rejects, extra='allow' stores undeclared members unchanged"]


def both(c):
    r = rules.RULES.get(c)
    if c == "AsyncAPI3":
        r = None            # its rule concerns one field; see C06
    return ([r] if r else [])


def no_members(o):
    return o.model_extra is None or len(o.model_extra) == 0


def obligations(tier):
    for c in classes():
        kind = TABLE[c]["extra"]
        if "root" in TABLE[c]:
            continue

        def schema(c=c, kind=kind):
            s = sh.shape(L(c))
            got = s.config.get("extra_fields_behavior", "ignore")
            inner = s._unwrap(s.model["schema"])
            while inner["type"].startswith("function-"):
                inner = s._unwrap(inner["schema"])
            typed = inner.get("extras_schema") or inner.get("extras_keys_schema")
            want = "forbid" if kind == "forbid" else "allow"
            ok = got == want and not typed and not s.nonafter and not s.inner_wrappers and not s.custom_init
            base = gen.Gen(1).least(c)
            return static_obligation(
                f"{c}: core schema {want}s undeclared members", ok,
                f"extra={got}, typed={bool(typed)}, wrappers={s.nonafter + s.inner_wrappers}, custom_init={s.custom_init}",
                [{"class": c, "raw": base, "extra": {k: v}} for k, v in
                 (("x-a", 1), ("zzz", 1), ("x-a b", None), ("x-a", {"b": [1]}), ("zzz", {"b": [1]}))])
        yield (f"{c}: core schema", schema, lambda w: [w])
        if kind == "forbid":
            continue

        def split(w, c=c):
            base = {k: v for k, v in w.items() if k in {f["alias"] for f in TABLE[c]["fields"].values()}}
            extra = {k: v for k, v in w.items() if k not in base}
            return [{"class": c, "raw": base, "extra": extra}, {"class": c, "raw": gen.Gen(1).least(c), "extra": extra}]
        rule = [rules.extensions] if kind == "x" else []
        name, thunk, _ = class_obligation(
            c, rule + both(c), "accepted iff every undeclared name is an extension name (and its rule)"
            if kind == "x" else "undeclared names never decide", pre=pre_document if c == "AsyncAPI3" else None,
            need=("accept", "reject") if rule or both(c) else ("accept",), budget=60.0)
        yield (name, thunk, split)


def pre_document(I, o):
    """AsyncAPI3: version and processor lists are the business of C06 and C14"""
    e = I.enc
    for n in ("extra_converters", "extra_validators"):
        f = sh.shape(o.c).fields.get(n)
        if f is not None:
            t = e.attr(o.c, n, f["type"])(o.t)
            I.assume(fm.lit(e.V.is_none(t)))
    # a version that is always accepted
    f = sh.shape(o.c).fields["asyncapi"]
    I.assume(fm.lit(e.attr(o.c, "asyncapi", f["type"])(o.t) == e.val("3.0.0")))


def replay(case):
    c, raw, extra = case["class"], case["raw"], case.get("extra", {})
    cls = L(c)
    decl = set()
    for n, f in TABLE[c]["fields"].items():
        decl |= {n, f["alias"]}
    extra = {k: v for k, v in extra.items() if k not in decl}
    base = {k: v for k, v in raw.items() if k in decl}
    if not extra or verdict(cls, base) is not True:
        return SKIP
    kind = TABLE[c]["extra"]
    want = kind == "any" or (kind == "x" and all(rules.EXTENSION.fullmatch(k) for k in extra))
    full = {**base, **extra}
    got = verdict(cls, full)
    if got is not want:
        how = {True: "accepts", False: "rejects"}.get(got, f"raises {got} for")
        return f"{c} {how} undeclared members {list(extra)!r} (expected {'acceptance' if want else 'rejection'})"
    got2 = verdict(cls, full, True)
    if got2 is not want:
        return f"{c}(**...) disagrees with model_validate for members {list(extra)!r}"
    if want:
        o = build(cls, full)
        kept = dict(o.model_extra or {})
        if not oracle.same(kept, extra):
            return f"{c} changes undeclared members: given {extra!r}, kept {kept!r}"
        d = o.model_dump(mode="json", by_alias=True)
        for k, v in extra.items():
            if k not in d or not oracle.same(d[k], v):
                return f"{c} does not serialize undeclared member {k!r} unchanged: {d.get(k)!r} for {v!r}"
    return None


def nontrivial(case):
    return bool(case.get("extra"))


VALUES = [None, 1, True, "s", 1.5, [1, {"a": None}], {"$ref": "#/x"}, {"a": {"b": []}}, "", [], {}, "1", 10 ** 20]


def fixed_cases(tier):
    for c in classes():
        if "root" in TABLE[c]:
            continue
        base = gen.Gen(1).least(c)
        for i, k in enumerate(gen.X_GOOD + gen.X_BAD):
            yield {"class": c, "raw": base, "extra": {k: VALUES[i % len(VALUES)]}}
        for v in VALUES:
            yield {"class": c, "raw": base, "extra": {"x-v": v}}
        yield {"class": c, "raw": base, "extra": {"x-a": 1, "x-b": None}}
        yield {"class": c, "raw": base, "extra": {"x-a": 1, "b": None}}
        yield {"class": c, "raw": base, "extra": {"b": 1, "x-a": None}}
    for c in classes():
        if "root" in TABLE[c]:
            continue
        base = gen.Gen(1).least(c)
        for n in (40, 1500):
            many = {f"x-k{i}": i for i in range(n)}
            yield {"class": c, "raw": base, "extra": many}
            for bad in ("b", "x-a b"):
                yield {"class": c, "raw": base, "extra": {**many, bad: 1}}
                yield {"class": c, "raw": base, "extra": {bad: 1, **many}}
        for k in ("x-" + "k" * 9000, "x-" + "k" * 9000 + " ", "k" * 9000, "x-" * 3000 + "\n", "x-" + "a.b_c-" * 1500):
            yield {"class": c, "raw": base, "extra": {k: 1}}
            yield {"class": c, "raw": base, "extra": {"x-a": 1, k: 1}}
        yield {"class": c, "raw": base, "extra": {"x-a": list(range(3000)), "x-b": "s" * 30000}}
    every = [chr(i) for i in range(0, 0x250)] + NASTY
    for c in ("Info", "Tag", "Components"):
        for ch in every:
            yield {"class": c, "raw": gen.Gen(1).least(c), "extra": {"x-" + ch: 1}}
            yield {"class": c, "raw": gen.Gen(1).least(c), "extra": {"x-a" + ch: 1}}
            yield {"class": c, "raw": gen.Gen(1).least(c), "extra": {ch + "x-a": 1}}


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    cs = [c for c in classes() if "root" not in TABLE[c]]
    while True:
        c = r.choice(cs)
        raw = g.model(c, 1) if r.random() < 0.6 else g.least(c)
        extra = {}
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            m = r.random()
            if m < 0.35:
                k = r.choice(gen.X_GOOD)
            elif m < 0.5:
                k = r.choice(gen.X_BAD)
            elif m < 0.8:
                k = "x-" + random_string(r, NASTY if r.random() < 0.5 else "ab1._-é")
            else:
                k = random_string(r, NASTY)
            extra[k] = r.choice(VALUES)
        yield {"class": c, "raw": raw, "extra": extra}
