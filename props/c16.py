"""C16: serialization."""
from props.serial import *

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("one contract per member: written under its specification name and omitted exactly when null (the omission predicate is "
             "symbolically executed on an arbitrary value), nothing of the package interferes with the serializer; a mismatch is "
             "reported only with an object whose serialized form differs from the contract's")
NOTE = ("For all classes and members: name, omission predicate and absence of custom serializers, proved on the core schema "
        "pydantic-core executes. Trusts pydantic-core's execution of its schema, cross-checked on objects of every class.")
RULE = "raw data of an accepted object and its class; non-trivial when it has members"
BOUNDED = "options of model_dump other than mode are outside the property; concrete objects cross-check the proofs"
TRUSTED = ["pydantic-core: serializes model fields under serialization_alias, skips those whose exclude_if holds, keeps extras"]


def obligations(tier):
    for c in classes():
        def thunk(c=c):
            bad = plain(c)
            return static_obligation(f"{c}: serialized by pydantic-core alone", not bad, f"{bad}")
        yield (f"{c}: serialized by pydantic-core alone", thunk)
        for n, f in TABLE[c].get("fields", {}).items():
            yield field_obligation(c, n, f)


def replay(case):
    c, raw = case["class"], case["raw"]
    if c not in sh.load():
        return SKIP
    try:
        v = oracle.parse_model(c, raw)
    except (oracle.Reject, oracle.Undefined):
        return SKIP
    o = with_processors(build(L(c), raw), case.get("processors"))
    if o is None or ambiguous(v):
        return SKIP
    want = oracle.dump(v)
    for what, got in (("model_dump()", jsonable(o.model_dump())), ("model_dump(mode='json')", o.model_dump(mode="json")),
                      ("model_dump_json()", json.loads(o.model_dump_json()))):
        r = differ(got, want)
        if r:
            return f"{c}.{what}: {r}"[:400]
    return None


def nontrivial(case):
    return bool(case["raw"])


def fixed_cases(tier):
    yield from cases(tier)
    for ps in (["extra_validators"], ["extra_converters"], ["extra_converters", "extra_validators"]):
        yield {"class": "AsyncAPI3", "raw": gen.Gen(1).least("AsyncAPI3"), "processors": ps}
    for raw in ({}, {"extra_validators": []}, {"extra_converters": []}, {"extra_validators": None}):
        yield {"class": "AsyncAPI3", "raw": {**gen.Gen(1).least("AsyncAPI3"), **raw}}


def random_cases(seed, tier):
    yield from random_raw(seed)
