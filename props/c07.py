"""C07: protocol bindings."""
from props.rulebase import *

LEVEL = "proof"
NOTE = ('Proved for all integers and all member combinations of the nine binding classes. Trusts pyvc, z3, pydantic-core.')
RULE = "a binding object of one of the classes with cross-field rules; non-trivial when at least one member is given"
BOUNDED = "none: the concrete cases only cross-check the proofs"
NAMES = ["AMQPChannelBindings", "AMQPOperationBindings", "SolaceDestination", "SolaceOperationBindings",
         "IBMMQServerBindings", "IBMMQChannelBindings", "IBMMQMessageBindings", "KafkaServerBindings",
         "KafkaChannelBindings"]
TRUSTED = ["pydantic-core: ge/gt/le/lt constraints of integer fields"]


def obligations(tier):
    yield from obligations_for(NAMES)


def nontrivial(case):
    return bool(case["raw"])


def around(*ns):
    out = [ABSENT, None]
    for n in ns:
        out += [n - 1, n, n + 1]
    return sorted({x for x in out if isinstance(x, int)}) + [ABSENT, None, 10 ** 12, -10 ** 12, 2 ** 31, 2 ** 63, -(2 ** 63)]


def fixed_cases(tier):
    q, e = {"name": "q"}, {"name": "e"}
    yield from combos("AMQPChannelBindings", {"is": [ABSENT, "queue", "routingKey"],
                                              "queue": [ABSENT, None, {}, q, {"durable": False}],
                                              "exchange": [ABSENT, None, {}, e, {"type": "topic"}],
                                              "bindingVersion": [ABSENT, "0.3.0"]})
    yield from combos("AMQPOperationBindings", {"expiration": around(0, 1, 1000), "ack": [ABSENT, True],
                                                "cc": [ABSENT, ["a"]]})
    yield from combos("SolaceDestination", {"destinationType": [ABSENT, "queue", "topic"],
                                            "queue": [ABSENT, None, {}, {"name": "q"}],
                                            "topic": [ABSENT, None, {}, {"topicSubscriptions": ["a"]}],
                                            "deliveryMode": [ABSENT, "direct", "persistent"]})
    sch = [{}, {"type": "integer"}, {"$ref": "#/components/schemas/a"}]
    yield from combos("SolaceOperationBindings", {"priority": around(0, 255, 256, 100) + sch,
                                                  "timeToLive": [ABSENT, 0, 5000] + sch[:1]})
    yield from combos("IBMMQServerBindings", {"heartBeatInterval": around(0, 999999, 300),
                                              "groupId": [ABSENT, "g"], "multiEndpointServer": [ABSENT, True]})
    yield from combos("IBMMQChannelBindings", {"destinationType": [ABSENT, "queue", "topic"],
                                               "queue": [ABSENT, None, {"objectName": "q"}],
                                               "topic": [ABSENT, None, {}, {"string": "t"}],
                                               "maxMsgLength": around(0, 104857600, 5)})
    yield from combos("IBMMQMessageBindings", {"type": [ABSENT, "string", "jms", "binary"],
                                               "headers": [ABSENT, None, "", "h"], "expiry": around(0, 1, 99),
                                               "description": [ABSENT, "d"]})
    yield from combos("KafkaServerBindings", {"schemaRegistryUrl": [ABSENT, None, "", "u"],
                                              "schemaRegistryVendor": [ABSENT, None, "", "v"]})
    yield from combos("KafkaChannelBindings", {"partitions": around(0, 1, 20), "replicas": around(0, 1, 3),
                                               "topic": [ABSENT, "t"]})


def random_cases(seed, tier):
    yield from random_for(NAMES, seed)
