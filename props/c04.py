"""C04: security schemes."""
from props.rulebase import *

LEVEL = "proof"
NOTE = ('Proved for all member combinations of SecurityScheme and the OAuth classes it depends on. Trusts pyvc, z3, pydantic-core.')
RULE = "a security scheme object; non-trivial when at least two of the dependent members are present"
BOUNDED = "none: the concrete cases only cross-check the proof"
NAMES = ["SecurityScheme"]
TYPES = next(a for f in [TABLE["SecurityScheme"]["fields"]["type_"]["type"]] for a in
             (f[1] if f[0] == "union" else [f]) if a[0] == "enum")[1]


def obligations(tier):
    yield from obligations_for(NAMES, 150.0)


def nontrivial(case):
    return len(set(case["raw"]) - {"type", "description"}) >= 2


def fixed_cases(tier):
    U = oracle.GOOD_URLS[0]
    yield from combos("SecurityScheme", {
        "type": TYPES, "in": [ABSENT, None, "user", "password", "query", "header", "cookie"],
        "name": [ABSENT, "n", ""], "scheme": [ABSENT, "bearer", "basic", "", "Bearer"],
        "bearerFormat": [ABSENT, None, "", "JWT"], "flows": [ABSENT, {}],
        "openIdConnectUrl": [ABSENT, U], "scopes": [ABSENT, None, [], ["a"]]})
    long, many = "n" * 20011, [f"s{i}" for i in range(400)]
    yield from combos("SecurityScheme", {
        "type": TYPES, "in": [ABSENT, "user", "query"], "name": [ABSENT, long], "scheme": [ABSENT, long, "bearer"],
        "bearerFormat": [ABSENT, long], "flows": [ABSENT, {}], "openIdConnectUrl": [ABSENT, U], "scopes": [ABSENT, many],
        "description": [ABSENT, long]})


def random_cases(seed, tier):
    yield from random_for(NAMES, seed)
