"""C02: keys of patterned objects."""
import random

from props.common import *

LEVEL = "proof"
NOTE = ('Every patterned class: proved for all key sets (any size, any Unicode strings). Trusts pyvc, z3/lang solver, pydantic-core.')
RULE = ("a patterned class and a list of (key, minimal valid value) entries; non-trivial when there is at least one "
        "entry; distinct by content")
BOUNDED = "none: the concrete cases only cross-check the proofs"
SHRINK = ("keys",)


def root_classes():
    return [c for c in classes() if "root" in TABLE[c]]


def obligations(tier):
    for c in root_classes():
        name, thunk, _ = class_obligation(c, rules.patterned, "accepted iff every key is a patterned key")
        yield (name, thunk, lambda w, c=c: [{"class": c, "keys": list(w)}])

        def schema(c=c):
            s = sh.shape(L(c))
            return static_obligation(f"{c}: is a map with string keys and no other pre-processing",
                                     s.root_model and s.root[0] == "map" and s.root[1] == ["str", {}]
                                     and not s.nonafter and not s.custom_init, str(s.root)[:200])
        yield (f"{c}: core schema", schema)
    yield validator_obligation()


def validator_obligation():
    """validate_patterned_key(s): returns None iff s is a patterned key, else ValueError"""
    def fn():
        import asyncapi3.models.helpers as h
        return h.validate_patterned_key

    def rule(s):
        return rules.KEY.fullmatch(s) is not None
    return string_function_obligation("helpers.validate_patterned_key: accepts iff patterned", fn, rule,
                                      conv=lambda w: [{"class": "Servers", "keys": [w]}], keeps=False)


def replay(case):
    c = case["class"]
    cls = L(c)
    g = gen.Gen(5)
    T = TABLE[c]["root"][2]
    v = g.least_value(T)
    if v is None:
        v = g.value(T, 0)
    if verdict(cls, {"a": v}) is not True or verdict(cls, {}) is not True:
        if verdict(cls, {}) is not True:
            return f"{c} rejects the empty map"
        return SKIP
    keys = list(dict.fromkeys(case["keys"]))
    want = all(rules.KEY.fullmatch(k) for k in keys)
    refs = set(case.get("refs", ()))       # positions whose value is a Reference
    raw = {k: {"$ref": "#/a"} if i in refs else v for i, k in enumerate(keys)}
    if refs and verdict(cls, {"a": {"$ref": "#/a"}}) is not True:
        return SKIP
    got = verdict(cls, raw)
    if got is not want:
        how = {True: "accepts", False: "rejects"}.get(got, f"raises {got} for")
        return f"{c} {how} the keys {keys!r} (expected {'acceptance' if want else 'rejection'})"
    if not keys:
        return None
    # the same map inside the objects that hold it
    for owner, member in holders(c):
        base = g.least(owner)
        if member == "parameters" and owner == "Channel":
            base["address"] = "{p}"
        got = verdict(L(owner), {**base, member: raw})
        if got is not want:
            how = {True: "accepts", False: "rejects"}.get(got, f"raises {got} for")
            return f"{owner}.{member} {how} the keys {keys!r} (expected {'acceptance' if want else 'rejection'})"
    if want:
        o = build(cls, raw)
        if list(o) != keys:
            return f"{c} iterates {list(o)!r} for the keys {keys!r}"
    return None


_h = {}


def holders(c):
    """(class, member) that holds a patterned map of class c"""
    if not _h:
        for o in classes():
            for n, f in TABLE[o].get("fields", {}).items():
                for a in (f["type"][1] if f["type"][0] == "union" else [f["type"]]):
                    if a[0] == "model" and "root" in TABLE.get(a[1], {}):
                        _h.setdefault(a[1], []).append((o, f["alias"]))
    return _h.get(c, [])


def nontrivial(case):
    return bool(case["keys"])


def fixed_cases(tier):
    for c in root_classes():
        yield {"class": c, "keys": []}
        for k in gen.BAD_KEYS + gen.KEYS:
            yield {"class": c, "keys": [k]}
        for k in gen.BAD_KEYS[:6]:
            yield {"class": c, "keys": ["a", k]}
            yield {"class": c, "keys": [k, "a", "b"]}
            yield {"class": c, "keys": ["a", k, "b"]}
            yield {"class": c, "keys": ["a", "b", "c", "d", k]}
        for k in gen.BAD_KEYS[:4]:
            for refs in ([0], [1], [0, 1, 2], [2]):
                yield {"class": c, "keys": ["a", k, "b"], "refs": refs}
                yield {"class": c, "keys": [k], "refs": refs}
        for n in (40, 1500):
            many = [f"k{i}" for i in range(n)]
            yield {"class": c, "keys": many}
            for k in ("a b", "\u00e9"):
                yield {"class": c, "keys": many + [k]}
                yield {"class": c, "keys": [k] + many}
                yield {"class": c, "keys": many[:n // 2] + [k] + many[n // 2:]}
        for k in ("k" * 9000, "a-b_c" * 1500, "k" * 9000 + " ", " " + "k" * 9000, "a.b_c-" * 1500, "a.b_c-" * 1500 + "/"):
            yield {"class": c, "keys": [k]}
            yield {"class": c, "keys": ["a", k, "b"]}
    for i in range(0, 0x250):
        for k in (chr(i), "a" + chr(i), chr(i) + "a"):
            yield {"class": "Servers", "keys": [k]}
            yield {"class": "Schemas", "keys": [k]}
    for ch in NASTY:
        yield {"class": "Messages", "keys": ["a" + ch + "b"]}


def random_cases(seed, tier):
    r = random.Random(seed)
    cs = root_classes()
    good = "abzABZ019_-"
    while True:
        keys = []
        for _ in range(r.choice([1, 1, 2, 3, 5, 9])):
            m = r.random()
            if m < 0.6:
                keys.append(random_string(r, good, 12) or "a")
            elif m < 0.8:
                keys.append(random_string(r, good + r.choice(NASTY), 6) or "k")
            elif m < 0.9:
                keys.append(r.choice(gen.KEYS))
            else:
                keys.append(r.choice(gen.BAD_KEYS))
        if r.random() < 0.5:
            keys = [k for k in keys if rules.KEY.fullmatch(k)] or ["a"]
        case = {"class": r.choice(cs), "keys": keys}
        if r.random() < 0.4:
            case["refs"] = [i for i in range(len(keys)) if r.random() < 0.5]
        yield case
