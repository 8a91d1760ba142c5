"""C06: version, channel address, message example, correlation id, contact email."""
import random

from props.rulebase import *
from props import rulebase

LEVEL = "proof"
NOTE = ('Proved for all strings (regular-language equivalence) and all member combinations. Trusts pyvc, z3/lang solver, pydantic-core.')
RULE = "one of the five objects with one or two relevant members; non-trivial when the string members are non-empty"
BOUNDED = "none: the concrete cases only cross-check the proofs"
ASSUMPTIONS = ["integers are unbounded: CPython's int() raises ValueError on numerals of more than 4300 digits, so a version "
               "whose major number is 3 behind thousands of zeros is rejected, which the contract does not model"]
NAMES = ["Channel", "MessageExample", "CorrelationID"]
SHRINK = ("raw", "s")


def obligations(tier):
    yield from obligations_for(NAMES)

    def version():
        return L("AsyncAPI3"), "asyncapi"

    def field_fn(cls, field):
        vs = sh.shape(cls).fields[field]["validators"]
        if len(vs) != 1 or vs[0][0] != "after" or vs[0][2]:
            raise C.Unsupported("validators of " + field)
        return vs[0][1]
    yield string_function_obligation("AsyncAPI3.asyncapi: validator accepts iff version rule",
                                     lambda: field_fn(L("AsyncAPI3"), "asyncapi"), rules.version,
                                     conv=lambda w: [{"version": w}])

    def email_fn():
        fs = sh.shape(L("Contact")).emails
        if len(fs) != 1:
            raise C.Unsupported("validators of email")
        return fs[0]
    yield string_function_obligation("Contact.email: validator accepts iff email rule", email_fn, rules.email,
                                     conv=lambda w: [{"email": w}])

    def doc_schema():
        s = sh.shape(L("AsyncAPI3"))
        return static_obligation("AsyncAPI3: no other validator than the version's and the processors'",
                                 not s.nonafter and not s.inner_wrappers and not s.custom_init
                                 and [n for n, f in s.fields.items() if f["validators"]] == ["asyncapi"]
                                 and s.fields["asyncapi"]["type"] == ["str", {}], str(s.wrappers))
    yield ("AsyncAPI3: core schema", doc_schema)

    def mail_schema():
        f = sh.shape(L("Contact")).fields["email"]
        return static_obligation("Contact.email: is a string with the email validator",
                                 f["type"] == ["union", [["email"], ["none"]]] and not f["validators"], str(f["type"]))
    yield ("Contact: core schema", mail_schema)


def replay(case):
    if "version" in case or "email" in case:
        if "version" in case:
            s = case["version"]
            c, raw, want = "AsyncAPI3", {"asyncapi": s, "info": {"title": "t", "version": "1"}}, rules.version(s)
        else:
            s = case["email"]
            c, raw, want = "Contact", {"email": s}, rules.email(s)
        try:
            s.encode()
        except UnicodeEncodeError:
            return SKIP
        got = verdict(L(c), raw)
        if got is want:
            if want:
                o = build(L(c), raw)
                v = o.asyncapi if c == "AsyncAPI3" else o.email
                if str(v) != s:
                    return f"{c} changes {s!r} to {str(v)!r}"
            return None
        how = {True: "accepts", False: "rejects"}.get(got, f"raises {got} for")
        return f"{c} {how} {list(raw)[0]} {s!r} (expected {'acceptance' if want else 'rejection'})"
    return rulebase.replay(case)


def nontrivial(case):
    return bool(case.get("version") or case.get("email") or case.get("raw"))


VERSIONS = ["3.0.0", "3.0.0-rc1", "3.10.22", "03.0.0", "3.0", "3", "3.0.0.0", "3.0.0-", "3.0.0-a b", "3.0.0\n",
            "3.0.0-x\n", "2.6.0", "30.0.0", "13.0.0", "4.0.0", "3.a.0", "v3.0.0", " 3.0.0", "3.0.0 ", "3.٣.0", "٣.0.0",
            "3.0.0-é", "3.0.0-a.b-c_d", "3..0", "3.0.", "-3.0.0", "3.0.0+x", "", "003.00.000", "3.0.0--", "3.0.0-.",
            "3,0,0", "0.0.3", "33.0.0", "3.0.-1", "3.0.0-\x00", "²3.0.0", "3.0.²"]
EMAILS = ["a@example.com", "a.b+c@d-e.fg", "a..b@c.de", "a@b..cd", "a@b.c", "a@b.cd\n", "@b.cd", "a@.cd", "a@-.cd",
          "a@b.c1", "a@b.cde.fg", "a b@c.de", "a@b@c.de", "é@c.de", "a@é.de", "a@c.éé", "", "a", "a@b", ".@..co",
          "a.@b.cc", ".a@b.cc", "%@a.bc", "+@a.bc", "_@a.bc", "-@a.bc", "a@b_c.de", "a@b.d_e", "a@b.c\nd", "..a@b.cd",
          "a@b.cd..", "a@b.cd.", "a@b...cd", "A@B.CD", "a!b@c.de", "a@b.ſs", "a@b.KK", "\na@b.cd", "a@[1.2.3.4]"]
ADDR = [ABSENT, None, "", "a", "{", "}", "{}", "{a}", "a{b}c", "}{", "{{}", "{\n}", "a/{}/b", "{a", "a}", "{}}", "{{a}}",
        "x/{}/{b}", "{{{", "{ }"]


def fixed_cases(tier):
    for s in VERSIONS:
        yield {"version": s}
    for s in EMAILS:
        yield {"email": s}
    for n in (300, 6000):
        for tail in ("", "\n", " ", "!", "\u00e9"):
            for s in ("3.0.0-" + "a.b-_" * (n // 5), "3.0." + "0" * n, "3." + "1" * n + ".0", "3.0.0" + "-" * n):
                yield {"version": s + tail}
            for s in ("a" * n + "@b.cd", "a@" + "b" * n + ".cd", "a@b." + "c" * n, "a" + ".+" * n + "@b.cd", "a@" + "b." * n + "cd"):
                yield {"email": s + tail}
            yield {"class": "CorrelationID", "raw": {"location": "$message.header#/" + "a/" * n + tail}}
            yield {"class": "CorrelationID", "raw": {"location": " " * n + "$message.header#/" + tail}}
        for a in ("a/" * n, "a/" * n + "{b}", "{b}" + "a/" * n, "{" + "b" * n + "}", "{" * n, "}" * n + "{", "{a}" * n + "{"):
            for ps in (ABSENT, {"b": {}}, {}):
                yield from combos("Channel", {"address": [a], "parameters": [ps]})
    many = {f"k{i}": i for i in range(500)}
    yield from combos("MessageExample", {"headers": [ABSENT, None, many], "payload": [ABSENT, None, many, list(range(500)), "s" * 20011]})
    yield from combos("Channel", {"address": ["a", "{k1}"], "parameters": [{k: {} for k in many}]})
    yield from combos("Channel", {"address": ADDR, "parameters": [ABSENT, None, {}, {"b": {}}, {"b": {}, "c": {}},
                                                                  {"b": {"$ref": "#/x"}}], "title": [ABSENT, "t"]})
    anyv = [ABSENT, None, {}, {"a": 1}, [], "", 0, False]
    hdr = [ABSENT, None, {}, {"a": 1}]
    yield from combos("MessageExample", {"headers": hdr, "payload": anyv, "name": [ABSENT, "n"], "summary": [ABSENT, "s"]})
    for s in ["$message.", "$message.header#/a", "$message", "$messageXheader#/a", "message.header", " $message.x",
              "$message.payload#/b", "", "$Message.header", "$$message.x", "x$message.x", "$message.\n", "\n$message.a",
              "$message#/a", "$message/header"]:
        for d in (ABSENT, "d"):
            yield from combos("CorrelationID", {"location": [s], "description": [d]})
    for i in range(0, 0x250):
        ch = chr(i)
        yield {"version": "3.0." + ch}
        yield {"version": "3.0.0-" + ch}
        yield {"version": ch + ".0.0"}
        yield {"version": "3" + ch + "0.0"}
        yield {"email": f"{ch}@b.cd"}
        yield {"email": f"a@{ch}.cd"}
        yield {"email": f"a@b.c{ch}"}
        yield {"email": f"a@b.cd{ch}"}


def random_cases(seed, tier):
    r = random.Random(seed)
    it = random_for(NAMES, seed)
    va, ea = "33330012.-a" + "\n٣é_ ", "ab@@.._-%+9Z" + "\né "
    while True:
        m = r.random()
        if m < 0.3:
            s = r.choice(VERSIONS) if r.random() < 0.5 else random_string(r, va, 9)
            yield {"version": mutate(r, s, va)}
        elif m < 0.6:
            s = r.choice(EMAILS) if r.random() < 0.5 else random_string(r, ea, 10)
            yield {"email": mutate(r, s, ea)}
        elif m < 0.7:
            yield {"class": "CorrelationID", "raw": {"location": mutate(r, r.choice(["$message.header#/a", "$message."]),
                                                                        "$mesag.# \n")}}
        elif m < 0.85:
            yield {"class": "Channel", "raw": {"address": random_string(r, "{}a/\n", 8), "parameters": r.choice([{}, {"a": {}}])}}
        else:
            yield next(it)


def mutate(r, s, alphabet):
    s = list(s)
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.randrange(3)
        i = r.randint(0, len(s))
        if k == 0:
            s.insert(i, r.choice(alphabet))
        elif s:
            i = min(i, len(s) - 1)
            if k == 1:
                del s[i]
            else:
                s[i] = r.choice(alphabet)
    return "".join(s)
