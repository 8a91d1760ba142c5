"""C10: the unified references validator."""
import random

from props.common import *
from spec import history
from spec import refdocs as D

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("contracts on the recursive validator: one step per class (149 classes, maps, lists, scalars), the expected kind at "
             "each of the places a reference may stand at (path, pattern table and type test executed symbolically for all keys "
             "and indices), the entry; discharged by pyvc and z3 on the real code, failing inputs replayed")
NOTE = ("Proved for all documents, keys and indices, modulo resolve_reference's contract (C09): every step, all 354 places, for "
        "keys of maps with arbitrary keys (server variables) too. Trusts pyvc, z3.")
RULE = "a document with references at chosen places; non-trivial when at least one of them is local"
BOUNDED = "none: concrete documents only cross-check the proofs"
TRUSTED = ["re, fnmatch and str methods on path texts: their documented semantics as regular languages"]
ASSUMPTIONS = ["values of type Any and extensions hold JSON data, no Reference objects", "a document is a tree (no object contains itself), "
               "nested less deep than the interpreter's recursion limit",
               "resolve_reference behaves as its contract says (C09)"]
SHRINK = ("places",)


def obligations(tier):
    from props import unified as U
    if not U.present():
        yield ("REC", U.missing, None)
        return
    yield ("entry", U.entry, lambda w: [])
    for n in U.step_names():
        ob = U.step(n)[1]
        yield (ob.name, lambda ob=ob: ob, lambda w: [])
    for loc in D.LOCS:
        u = U.Location(loc)
        yield (u.name, u.run, lambda w, loc=loc: witnesses(loc, w))


def witnesses(loc, kind):
    keys, idxs = ["k"] * loc.stars, [0] * loc.lists
    ts = [D.target(kind)] if kind in D.TARGET_MAPS else []
    if kind in D.ROOT_TARGETS:
        ts.append(D.ROOT_TARGETS[kind])
    if kind is None:
        ts = ["http://a.b/c", "#/components/schemas/zzz"]
    return [one(loc, keys, idxs, t) for t in ts or D.OTHER_TARGETS]


# ------------------------------------------------------------------- replay
def build_doc(case):
    doc = D.base()
    for name, keys, idxs, ref in case["places"]:
        loc = D.BY_NAME[name]
        D.place(doc, loc, keys, idxs, {"$ref": ref})
    o = build(L("AsyncAPI3"), doc)
    if o is None:
        return None
    for (a, ka, ia), (b, kb, ib) in case.get("share", []):
        # the second place holds the very object of the first (put there in place)
        x = D.go(o, D.BY_NAME[a], ka, ia)
        loc = D.BY_NAME[b]
        h = D.go(o, loc, kb, ib, 1)
        t = loc.tokens[-1]
        if t == "[]":
            h[ib[-1]] = x
        elif t == "{}":
            h[kb[-1]] = x
        else:
            h.__dict__[t[1]] = x
    if case.get("words"):
        spice(o, case["words"], case.get("values"))
    return o


def replay(case):
    from asyncapi3.validators import UnifiedReferencesValidator
    try:
        doc = build_doc(case)
    except (KeyError, IndexError, ValueError, TypeError):
        return SKIP
    if doc is None:
        return SKIP
    try:
        want, why = D.verdict(doc)
    except oracle.Undefined:
        return SKIP
    history.used_before(doc, good(), UnifiedReferencesValidator())
    v = UnifiedReferencesValidator()
    try:
        r = v(doc)
        got = True
    except ValueError as ex:
        got, text = False, str(ex)
    except Exception as ex:      # noqa: BLE001
        return f"the unified validator raises {type(ex).__name__}: {ex}; references: {case['places']}"[:500]
    if got and r is not doc:
        return "the unified validator returns another object"
    if got is want:
        return None
    if want:
        return f"references {case['places']} are all well-typed but the document is rejected: {text}"[:500]
    return f"the document is accepted although the reference at {why} is dangling or of the wrong kind; references: {case['places']}"[:500]


_good = []


def good():
    if not _good:
        _good.append(build(L("AsyncAPI3"), D.base()))
    return _good[0]


def nontrivial(case):
    return any(p[3].startswith("#") for p in case["places"])


LISTS = [loc.name for loc in D.LOCS if loc.tokens[-1] == "[]"]
KEYS = ["reply", "root", "messages", "channel", "channels", "0", "traits", "x_bindings", "message_bindings", "bindings", "servers",
        "tags", "security", "external_docs", "payload", "headers", "-", "a_b", "address", "schemas", "operations", "components",
        "parameters", "key", "query", "correlation_id", "spec", "variables", "message_traits", "operation_traits", "reply_addresses",
        "T-Schema", "__root__", "kafka"]
RAW_KEYS = [".root.", "a.b", '"', "\\", "[0]", "", "\\.", 'a".root."b', "*", "**", "a\\", "é\n", ".", "..", '".', '."', "\\\"", "\\\\",
            "[1", "1]", "[12]", "a.root", "root", "].", "x.messages", "a/b", "a.root.b", '"root"', ".channel", "a.\"channel", " "]


def right(loc):
    return [D.target(k) for k in loc.kinds if k in D.TARGET_MAPS]


def wrong(loc, n, r):
    ks = [D.target(k) for k in D.KINDS if k not in loc.kinds]
    return r.sample(ks, min(n, len(ks)))


def raw_star(loc):
    """positions of '{}' in plain maps (any key)"""
    out, i = [], 0
    for j, t in enumerate(loc.tokens):
        if t == "{}":
            if loc.tokens[j - 1][1] != "root":
                out.append(i)
            i += 1
    return out


def one(loc, keys, idxs, ref):
    return {"places": [[loc.name, list(keys), list(idxs), ref]]}


def fixed_cases(tier):
    r = random.Random(3)
    every = [D.target(k) for k in D.KINDS] + D.OTHER_TARGETS + list(D.ROOT_TARGETS.values()) + D.BAD_TARGETS + ["http://e.com/a#/b"]
    for loc in D.LOCS:
        keys, idxs = ["k"] * loc.stars, [0] * loc.lists
        for t in every:
            yield one(loc, keys, idxs, t)
        for t in right(loc) + wrong(loc, 2, r):
            for i in range(loc.stars):
                for k in KEYS:
                    yield one(loc, keys[:i] + [k] + keys[i + 1:], idxs, t)
            if loc.stars > 1:
                for k in KEYS:
                    yield one(loc, [k] * loc.stars, idxs, t)
            for i in raw_star(loc):
                for k in RAW_KEYS:
                    yield one(loc, keys[:i] + [k] + keys[i + 1:], idxs, t)
            for n in (1, 2, 11):
                if loc.lists:
                    yield one(loc, keys, [n] * loc.lists, t)
        # many references of one document, and one among them that does not resolve
        for t in right(loc)[:1]:
            for n in (30, 220, 1100):
                i = D.LOCS.index(loc)
                if not loc.stars and not loc.lists or n == 220 and i % 8 or n > 1000 and i % 20:
                    continue
                for bad in (n - 1, None) if n < 1000 else (n - 1,):
                    yield {"places": [[loc.name, [f"k{j}" if loc.stars else "k"] + ["k"] * (loc.stars - 1) if loc.stars else [],
                                       idxs if loc.stars else [j] + idxs[1:], D.BAD_TARGETS[0] if j == bad else t]
                                      for j in range(n)]}
            # the same in one list
            if loc.tokens[-1] == "[]":
                for n in (30, 1100):
                    if n > 1000 and LISTS.index(loc.name) % 6:
                        continue
                    yield {"places": [[loc.name, keys, idxs[1:] + [j], D.BAD_TARGETS[0] if j == n - 1 else t] for j in range(n)]}
        # extension members of names the code knows, in every object
        for vs in (([True], ["a"]) if D.LOCS.index(loc) % 4 == 0 else ([True],)):
            yield {**one(loc, keys, idxs, D.BAD_TARGETS[0]), "words": key_words(), "values": vs}
        # a chain of references to the target, and one that returns to itself
        for t in right(loc)[:1]:
            m = t.split("/")[2]
            via = D.BY_NAME[f"components.{field_of(m)}.{{}}"]
            yield {"places": [[loc.name, keys, idxs, f"#/components/{m}/via"], [via.name, ["via"], [], t]]}
            yield {"places": [[loc.name, keys, idxs, f"#/components/{m}/via"], [via.name, ["via"], [], f"#/components/{m}/via"]]}
            yield {"places": [[loc.name, keys, idxs, f"#/components/{m}/via"], [via.name, ["via"], [], f"#/components/{m}/zz"]]}
            yield {"places": [[loc.name, keys, idxs, f"#/components/{m}/via"], [via.name, ["via"], [], "http://a.b/c"]]}
    # the same reference in members of one object, and in two entries of one list or map
    for a in D.LOCS:
        for b in D.LOCS:
            if a is not b and (a.tokens[:-1] == b.tokens[:-1] or len(a.tokens) == len(b.tokens) and len(a.tokens) > 2 and
                               a.tokens[:-2] == b.tokens[:-2] and a.tokens[-1] == b.tokens[-1]):
                for t in [D.BAD_TARGETS[0]] + wrong(a, 1, r):
                    yield {"places": [[x.name, ["k"] * x.stars, [0] * x.lists, t] for x in (a, b)]}
        for t in [D.BAD_TARGETS[0]] + wrong(a, 1, r) + right(a)[:1]:
            for i in range(a.stars):
                yield {"places": [[a.name, ["k"] * i + [k] + ["k"] * (a.stars - i - 1), [0] * a.lists, t] for k in ("k", "k2")]}
            for i in range(a.lists):
                yield {"places": [[a.name, ["k"] * a.stars, [0] * i + [k] + [0] * (a.lists - i - 1), t] for k in (0, 1)]}
    # the same reference string at two places
    locs = D.LOCS
    for n in range(6000):
        a, b = r.choice(locs), r.choice(locs)
        t = r.choice((right(a) or right(b) or D.BAD_TARGETS) if r.random() < 0.8 else every)
        yield {"places": [[a.name, ["k"] * a.stars, [0] * a.lists, t], [b.name, ["k2"] * b.stars, [0] * b.lists, t]]}
        if n % 3 == 0:
            ka, kb = ["k"] * a.stars, ["k2"] * b.stars
            pb = [b.name, kb, [0] * b.lists, r.choice(right(b) or ["http://a.b/c"])]
            yield {"places": [[a.name, ka, [0] * a.lists, t], pb],
                   "share": [[[a.name, ka, [0] * a.lists], [b.name, kb, [0] * b.lists]]]}


def field_of(member):
    return next(n for n, f in TABLE["Components"]["fields"].items() if f["alias"] == member)


def random_cases(seed, tier):
    r = random.Random(seed)
    every = [D.target(k) for k in D.KINDS] + D.OTHER_TARGETS + list(D.ROOT_TARGETS.values()) + D.BAD_TARGETS + ["http://e.com/a#/b"]
    while True:
        n = r.choice([1, 1, 2, 3, 5, 10])
        bad = r.random() < 0.5
        at = r.randrange(n)
        places = []
        for i in range(n):
            loc = r.choice(D.LOCS)
            raws = raw_star(loc)
            keys = []
            for j in range(loc.stars):
                if j in raws and r.random() < 0.6:
                    keys.append(r.choice(RAW_KEYS) if r.random() < 0.5 else random_string(r, NASTY + ["root", ".", "\\", "\""]))
                else:
                    keys.append(r.choice(KEYS) if r.random() < 0.5 else mined_string(r, True) if r.random() < 0.5 else
                                r.choice("abc"))
            idxs = [r.choice([0, 0, 1, 2, 13]) for _ in range(loc.lists)]
            t = right(loc) or ["http://a.b/c"]
            if bad and i == at:
                t = every if r.random() < 0.4 else wrong(loc, 30, r)
            elif places and r.random() < 0.2:
                same = [p[3] for p in places if p[3] in t]
                t = same or t
            places.append([loc.name, keys, idxs, r.choice(t)])
        yield {"places": places}
