"""Shared by C04, C05 and C07: acceptance of a class against its rule."""
import itertools
import random

from props.common import *


def obligations_for(names, budget=60.0):
    hooks = None
    for c in names:
        def thunk(c=c):
            r = [rules.RULES[c]]
            if TABLE[c]["extra"] == "x":
                r = [rules.extensions] + r
            s = sh.shape(L(c))
            h = C.extension_contract() if TABLE[c]["extra"] == "x" else None
            return C.class_contract(L(c), r, f"{c}: accepted iff its rule holds", hooks=h, budget=budget)
        yield (f"{c}: accepted iff its rule holds", thunk, lambda w, c=c: [{"class": c, "raw": clean(c, w)}])

        def schema(c=c):
            s = sh.shape(L(c))
            return static_obligation(f"{c}: no pre-processing of the members",
                                     not s.nonafter and not s.inner_wrappers and not s.custom_init,
                                     f"{s.nonafter} {s.inner_wrappers}")
        yield (f"{c}: no pre-processing of the members", schema)


def clean(c, w):
    """a witness without undeclared members (those are C01's business)"""
    decl = {f["alias"] for f in TABLE[c]["fields"].values()}
    return {k: v for k, v in w.items() if k in decl}


def replay(case):
    c, raw = case["class"], case["raw"]
    if not isinstance(raw, dict):
        return SKIP
    r = differential(c, raw)
    if r is not None:
        return r
    got = verdict(L(c), raw)
    ctor = verdict(L(c), raw, True)
    if got is not ctor:
        return f"{c}(**data) and {c}.model_validate(data) disagree on {raw!r}"
    return None


def combos(c, domains, limit=None):
    """all combinations of the member values in `domains` ({member: [values]}); ABSENT leaves a member out"""
    ks = list(domains)
    for vs in itertools.product(*(domains[k] for k in ks)):
        yield {"class": c, "raw": {k: v for k, v in zip(ks, vs) if v is not ABSENT}}


class _Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()


def random_for(names, seed):
    g = gen.Gen(seed)
    r = random.Random(seed)
    while True:
        c = r.choice(names)
        raw = g.model(c, 2) if r.random() < 0.7 else g.rough(c, 2)
        for _ in range(r.choice([0, 1, 1, 2])):
            g.perturb_object(c, raw)
        if TABLE[c]["extra"] == "x":
            raw = clean_names(c, raw)
        yield {"class": c, "raw": raw}


def clean_names(c, raw):
    decl = set(TABLE[c]["fields"]) | {f["alias"] for f in TABLE[c]["fields"].values()}
    return {k: v for k, v in raw.items() if k in decl}
