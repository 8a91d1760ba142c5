"""C05: OAuth flows."""
from props.rulebase import *

LEVEL = "proof"
NOTE = ('Proved for all combinations of flows. Trusts pyvc, z3, pydantic-core.')
RULE = "an OAuth Flows object; non-trivial when at least one flow is present"
BOUNDED = "none: the concrete cases only cross-check the proof"
NAMES = ["OAuthFlows"]


def obligations(tier):
    yield from obligations_for(NAMES)


def nontrivial(case):
    return bool(case["raw"])


def fixed_cases(tier):
    U = oracle.GOOD_URLS[0]
    flows = [ABSENT, {}, {"authorizationUrl": U}, {"tokenUrl": U}, {"authorizationUrl": U, "tokenUrl": U},
             {"refreshUrl": U}, {"availableScopes": {}}]
    keys = ("implicit", "password", "clientCredentials", "authorizationCode")
    yield from combos("OAuthFlows", {k: flows for k in keys})
    many = {f"s{i}": "d" * 50 for i in range(400)}
    far = U
    yield from combos("OAuthFlows", {k: [ABSENT, {"authorizationUrl": far, "availableScopes": many},
                                         {"tokenUrl": far, "availableScopes": many},
                                         {"authorizationUrl": far, "tokenUrl": far, "availableScopes": many}] for k in keys})
    rich = [{"authorizationUrl": U, "tokenUrl": U, "refreshUrl": U, "availableScopes": {"a": "b"}},
            {"authorizationUrl": U, "tokenUrl": None, "availableScopes": {"a": ""}}, None,
            {"authorizationUrl": None, "tokenUrl": U}]
    yield from combos("OAuthFlows", {k: rich for k in keys})


def random_cases(seed, tier):
    yield from random_for(NAMES, seed)
