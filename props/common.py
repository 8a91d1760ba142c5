"""Helpers shared by the property modules."""
import copy
import random

from pyvc import contract as C
from pyvc import formula as fm
from pyvc import shape as sh
from pyvc.check import SKIP
from pyvc.interp import PyRaise, Write
from pyvc.values import *
from spec import gen, oracle, rules
from spec.oracle import TABLE

import z3


def L(name=None):
    d = sh.load()
    return d if name is None else d[name]


def classes():
    """every concrete model class of the tree under check that the contract table lists"""
    return [c for c in TABLE if c in sh.load()]


def verdict(cls, raw, by_constructor=False):
    """True accepted, False rejected with a validation error, or the name of another exception"""
    from pydantic import ValidationError
    try:
        if by_constructor:
            cls(**copy.deepcopy(raw))
        else:
            cls.model_validate(copy.deepcopy(raw))
        return True
    except ValidationError:
        return False
    except Exception as ex:
        return type(ex).__name__


def build(cls, raw):
    """the instance, or None if rejected"""
    from pydantic import ValidationError
    try:
        return cls.model_validate(copy.deepcopy(raw))
    except ValidationError:
        return None


def differential(cname, raw):
    """acceptance of raw as cname, real code against the contract"""
    try:
        want, why = oracle.accepts(cname, raw)
    except oracle.Undefined:
        return SKIP
    got = verdict(L(cname), raw)
    if got is want:
        return None
    if want:
        return f"{cname} rejects ({got if got is not False else 'validation error'}) data the contract accepts: {raw!r}"
    if got is True:
        return f"{cname} accepts data the contract rejects ({why}): {raw!r}"
    return f"{cname} raises {got} instead of a validation error: {raw!r}"


def static_obligation(name, ok, detail="", witnesses=(), status="undecided", functions=()):
    """an obligation decided by inspecting the generated core schema"""
    ob = C.Obligation(name)
    ob.kind = "schema"
    ob.paths = 1
    ob.reach = {"schema": 1}
    ob.functions = {f: 1 for f in functions}
    if not ok:
        ob.fail(status, detail)
        ob.witnesses = list(witnesses)
    return ob


def names_read(cname):
    """every member name the code reads for the class, whether the table knows it or not"""
    out = {}

    def walk(a):
        if isinstance(a, str):
            out[a] = 1
        elif isinstance(a, (list, tuple)):
            for x in a:
                walk(x)
    if cname in sh.load():
        for n, f in sh.shape(L(cname)).fields.items():
            out[n] = 1
            walk(f["alias"])
            walk(f["ser_alias"])
    return list(out)


def class_obligation(cname, rule, what, hooks=None, budget=40.0, pre=None, need=("accept", "reject")):
    """(name, thunk, witness -> cases)"""
    name = f"{cname}: {what}"

    def thunk():
        if cname not in sh.load():
            ob = C.Obligation(name)
            ob.fail("undecided", f"no class {cname}")
            return ob
        return C.class_contract(L(cname), rule, name, hooks=hooks, budget=budget, pre=pre, need=need)
    return (name, thunk, lambda w: [{"class": cname, "raw": w}])


def string_function_obligation(name, get_fn, rule, budget=60.0, conv=None, keeps=True):
    """get_fn()(s) returns s if rule(s), raises ValueError otherwise; for every string s"""
    def thunk():
        fn = get_fn()

        def body(I, ob):
            s = SymStr(z3.Const("s!", z3.StringSort()))
            conc = lambda I, m: C.Concretiser(I, m).string(s.t)
            try:
                r = I.call(fn, [s], {})
                bad = None
            except PyRaise as ex:
                bad = ex.exc.c
            if bad is not None and not issubclass(bad, ValueError):
                C.mismatch(I, f"raises {bad.__name__}", conc)
                return
            if bad is None and keeps:
                C.must(I, I.eq_f(r, s), "returns a different value", conc)
            C.reached(I, "accept" if bad is None else "reject")
            want = I.truth(I.call(rule, [s], {}))
            if want != (bad is None):
                C.mismatch(I, "accepts what the rule rejects" if bad is None else "rejects what the rule accepts", conc)
        return C.prove(name, body, need=("accept", "reject"), budget=budget)
    return (name, thunk, conv or (lambda w: [{"s": w}]))


def random_string(r, alphabet, n=8):
    return "".join(r.choice(alphabet) for _ in range(r.randint(0, n)))


NASTY = ["\n", "\r", " ", "\t", "\u2028", "\x00", "é", "ß", "٣", "０", "Ａ", "ａ", "ı", "ſ", "K", "_", "-", ".", ":", "/",
         "$", "{", "}", "@", "%", "+", "~", "'", '"', "\\", "x", "X", "a", "z", "A", "Z", "0", "9", "[", "]", "*", "?",
         "^", "`", ",", "|", "\u200b", "\ufeff", "😀", "ª", "²", "½"]


_mined = None


def mined():
    """string constants in the package's function bodies: words for the generators (never an oracle)"""
    global _mined
    if _mined is None:
        import sys
        import types
        out = {}

        def code(co, doc):
            for i, k in enumerate(co.co_consts):
                if isinstance(k, str) and k and len(k) <= 60 and k != doc:
                    out[k] = 1
                elif isinstance(k, (tuple, frozenset)):
                    out.update({x: 1 for x in k if isinstance(x, str) and x and len(x) <= 60})
                elif isinstance(k, types.CodeType):
                    code(k, None)

        def fn(f):
            f = getattr(f, "wrapped", f)
            f = getattr(f, "__func__", f)
            f = getattr(f, "fget", f)
            if isinstance(f, types.FunctionType) and (f.__module__ or "").startswith("asyncapi3"):
                code(f.__code__, f.__doc__)
        L()
        for name, m in sorted(sys.modules.items()):
            if not name.startswith("asyncapi3") or m is None:
                continue
            for a, v in list(vars(m).items()):
                if a.startswith("__"):
                    continue
                if isinstance(v, str) and 0 < len(v) <= 60:
                    out[v] = 1
                fn(v)
                if isinstance(v, type) and v.__module__ == name:
                    for w in list(vars(v).values()):
                        fn(w)
        _mined = sorted(w for w in out if " " not in w.strip() and "\n" not in w) or ["a"]
    return _mined


def mined_string(r, key=False):
    """a string near the constants the code knows"""
    w = r.choice(mined())
    m = r.randrange(6)
    if m == 0:
        w = w + r.choice(["a", "-1", "/x", ".json", "."])
    elif m == 1:
        w = r.choice(["a", "x-", "#/", "/", "."]) + w
    elif m == 2:
        w = w + r.choice(mined())
    elif m == 3:
        w = "#/components/" + w + "/" + r.choice(mined())
    if key:
        import re
        w = re.sub(r"[^A-Za-z0-9_-]", r.choice(["", "_", "-"]), w) or "k"
    return w


def key_words():
    import re
    return [w for w in mined() if re.fullmatch(r"[A-Za-z0-9._-]+", w)] or ["a"]


def spice(o, words, values=None, seen=None):
    """extension members of the given names, and the given words as free texts, in every object of the document"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        for v in list(o.values()):
            spice(v, words, values, seen)
    elif isinstance(o, (list, tuple)):
        for v in o:
            spice(v, words, values, seen)
    elif type(o).__name__ in TABLE and hasattr(o, "__pydantic_extra__"):
        e = {"fields": {}, **TABLE[type(o).__name__]}
        for v in list(o.__dict__.values()):
            spice(v, words, values, seen)
        if e["extra"] == "x" and o.__pydantic_extra__ is not None:
            for i, w in enumerate(words):
                o.__pydantic_extra__[w if w.startswith("x-") else "x-" + w] = \
                    values[i % len(values)] if values else [w, True, [w], {w: w}, None][i % 5]
        for n in ("title", "description", "summary", "name", "host", "pathname", "protocol", "content_type", "default_content_type"):
            if n in e["fields"]:
                T = e["fields"][n]["type"]
                if ["str", {}] in (T[1] if T[0] == "union" else [T]):
                    o.__dict__[n] = words[len(n) % len(words)]
