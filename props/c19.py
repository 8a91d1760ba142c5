"""C19: nested instances are revalidated wherever they are embedded."""
import random
import types

from props import c03, c18
from props.c21 import alts
from props.common import *

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("contracts per class: every model node of its core schema revalidates instances (read off the schema pydantic-core executes), "
             "its validators change nothing and return the instance they were given (symbolic execution on all instances), assignment "
             "and item assignment store pydantic's result; reported only with an embedding that misbehaves on the real code")
NOTE = ("For all classes and all their members. Trusts pyvc, z3 and that pydantic-core, when told to revalidate, validates the instance's "
        "members as it validates a mapping and stores them in a new instance; cross-checked with mutated instances at every location.")
RULE = ("a class, an instance of it, in-place mutations of its containers, a place that admits it and a way of putting it there; "
        "non-trivial when the instance was mutated")
BOUNDED = "none for the proved obligations; the concrete embeddings cross-check the trusted pydantic-core step"
TRUSTED = ["pydantic-core: revalidate_instances='always' validates the members of an instance again and builds a new instance",
           "pydantic BaseModel.__setattr__ with validate_assignment stores the validated value"]
ASSUMPTIONS = ["free-form members (type Any) hold data that has no type to be validated against",
               "model_fields_set, pydantic's own bookkeeping, is not a member of an object (pydantic shares that set with the copy)"]
SHRINK = ("raw", "muts")


def nodes(S):
    """every node of a class's core schema (nested models included), with definitions resolved"""
    seen = set()
    todo = [S.cls.__pydantic_core_schema__]
    while todo:
        s = todo.pop()
        if isinstance(s, dict):
            if id(s) in seen:
                continue
            seen.add(id(s))
            if isinstance(s.get("type"), str):
                yield s
            todo += [v for k, v in s.items() if k not in ("cls", "metadata", "default", "function", "serialization")]
        elif isinstance(s, (list, tuple)):
            todo += list(s)


def revalidates(c):
    name = f"{c}: every instance inside it is validated again"

    def thunk():
        bad = {}
        for s in nodes(sh.shape(L(c))):
            t = s["type"]
            if t == "model":
                n = s["cls"].__name__
                got = s.get("config", {}).get("revalidate_instances", s.get("revalidate_instances"))
                if got != "always" or s.get("revalidate_instances", "always") != "always":
                    bad[f"{n}: revalidate_instances={got}"] = 1
                if s.get("custom_init"):
                    bad[f"{n}: constructor of its own"] = 1
                if s.get("frozen"):
                    bad[f"{n}: frozen"] = 1
            elif t in ("is-instance", "function-plain"):
                bad[t] = 1
            elif t in ("function-before", "function-wrap"):
                f = s["function"]["function"]
                if (getattr(f, "__module__", "") or "").startswith("asyncapi3"):
                    bad[f"{t} {getattr(f, '__qualname__', f)}"] = 1
            elif t == "custom-error":
                bad[t] = 1
        for n in ("__get_pydantic_core_schema__", "model_validate", "__new__", "model_post_init", "__init__", "__copy__",
                  "__deepcopy__", "model_construct"):
            for b in L(c).__mro__:
                if n in b.__dict__ and (b.__module__ or "").startswith("asyncapi3"):
                    bad[f"{b.__name__}.{n}"] = 1
        return static_obligation(name, not bad, "; ".join(list(bad)[:6]))
    return (name, thunk, lambda w: [])


def frame(c):
    """validating an instance leaves it, and whatever it shares with the original, as it is"""
    name = f"{c}: its validators change nothing and return the instance"

    def thunk():
        cls = L(c)

        def body(I, ob):
            o = SymObj(z3.Const(f"{c}!", I.enc.Obj), cls)
            try:
                bad = C.run_class(I, cls, o)
            except Write as w:
                C.mismatch(I, w.what, lambda I, m: C.Concretiser(I, m).obj(o.t, cls))
                return
            C.reached(I, "reject" if bad else "accept")
        return C.prove(name, body, need=("accept",), budget=40.0)
    return (name, thunk, lambda w: [{"class": c, "raw": w, "muts": [], "at": list(a), "how": h}
                                    for a in places(c)[:4] for h in HOWS])


def obligations(tier):
    for c in classes():
        yield revalidates(c)
        if c != "AsyncAPI3" and places(c):
            yield frame(c)
        fn = next((k.__dict__["__setattr__"] for k in L(c).__mro__ if "__setattr__" in k.__dict__), None)
        if isinstance(fn, types.FunctionType) and (fn.__module__ or "").startswith("asyncapi3"):
            n, thunk, conv = c18.setattr_obligation(c, fn)
            yield (f"{c}.__setattr__: stores what pydantic's validated assignment stores", thunk, conv)
    for job in c03.obligations(tier):
        if "__setitem__" in job[0]:
            yield (job[0], job[1], lambda w, j=job: [{"map": x} for x in j[2](w)] if len(j) > 2 else [])


# ------------------------------------------------------------------ locations
_places = None


def places(x):
    """(class, member, container path) of every place that admits an instance of class x"""
    global _places
    if _places is None:
        _places = {}

        def walk(c, n, T, path):
            for a in alts(T):
                if a[0] == "model":
                    _places.setdefault(a[1], []).append((c, n, path))
                elif a[0] == "list":
                    walk(c, n, a[1], path + ("[]",))
                elif a[0] == "map":
                    walk(c, n, a[2], path + ("{}",))
        for c in classes():
            e = TABLE[c]
            for n, T in ([("root", e["root"])] if "root" in e else [(n, f["type"]) for n, f in e["fields"].items()]):
                walk(c, n, T, ())
    return _places.get(x, [])


HOWS = ("validate", "ctor", "assign", "list", "item", "nested")


def raw_of(x):
    """the content of an instance as data, members by their specification names"""
    from pydantic import BaseModel
    if isinstance(x, BaseModel):
        c = type(x).__name__
        e = TABLE[c]
        if "root" in e:
            return raw_of(x.root)
        out = {e["fields"][n]["alias"]: raw_of(v) for n, v in x.__dict__.items() if n in e["fields"]}
        out.update({k: raw_of(v) for k, v in (x.model_extra or {}).items()})
        return out
    if isinstance(x, dict):
        return {k: raw_of(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [raw_of(v) for v in x]
    if type(x).__module__.startswith("pydantic"):
        return str(x)
    return x


def containers(x, path=()):
    """(path, container) of every list and map reachable from an instance through declared members"""
    from pydantic import BaseModel
    if isinstance(x, BaseModel):
        if x.model_extra is not None:
            yield path + ("$extra",), x.model_extra
        for n, v in x.__dict__.items():
            yield from containers(v, path + (n,))
    elif isinstance(x, dict):
        yield path, x
        for k, v in x.items():
            yield from containers(v, path + (k,))
    elif isinstance(x, list):
        yield path, x
        for i, v in enumerate(x):
            yield from containers(v, path + (i,))


def go(x, path):
    from pydantic import BaseModel
    for s in path:
        if isinstance(x, BaseModel):
            x = x.model_extra if s == "$extra" else x.__dict__[s]
        else:
            x = x[s]
    return x


def mutate(o, muts):
    for path, op, *args in muts:
        x = go(o, path)
        args = [copy.deepcopy(a) for a in args]
        if op == "append":
            x.append(args[0])
        elif op == "set":
            x[args[0]] = args[1]
        elif op == "del":
            del x[args[0]]


def least_holder(c, n, path, v):
    """keyword data of an object of class c with v at the place"""
    for p in reversed(path):
        v = [v] if p == "[]" else {"k": v}
    if n == "root":
        return v
    raw = gen.Gen(3).least(c)
    al = TABLE[c]["fields"][n]["alias"]
    x = type(v).__name__
    if c == "SecurityScheme" and n == "flows":
        raw["type"] = "oauth2"
    if c == "Channel" and n == "parameters":
        raw["address"] = "a/{b}"
    if c == "SolaceDestination":
        raw = {"destinationType": "topic" if n == "topic" else "queue", **({} if n != "bindings" else {})}
    if c == "AMQPChannelBindings":
        raw = {"is": "routingKey"} if n == "exchange" else {"is": "queue"}
    if c == "IBMMQChannelBindings" and n == "topic":
        raw = {}
    raw[al] = v
    return raw


def place_at(o, n, path):
    x = getattr(o, n)
    for p in path:
        x = x[0] if p == "[]" else x["k"]
    return x


def embed(x, at, how):
    """(the object embedding x, where x's copy is) or None when this way does not exist"""
    c, n, path = at[0], at[1], tuple(at[2])
    raw = least_holder(c, n, path, x)
    cls = L(c)
    if how == "validate":
        o = cls.model_validate(raw)
    elif how == "ctor":
        o = cls(**raw) if n != "root" else cls(raw)
    elif how == "nested":
        # inside the raw data of a further object
        up = [a for a in places(c) if a[0] != c][:1]
        if not up:
            return None
        uc, un, upath = up[0]
        h = L(uc).model_validate(least_holder(uc, un, upath, raw))
        o = place_at(h, un, upath)
        if type(o) is not cls:
            return None
    elif how == "assign":
        base = build_base(c, n, path, x)
        if base is None:
            return None
        v = raw if n == "root" else raw[TABLE[c]["fields"][n]["alias"]]
        setattr(base, n, v)
        o = base
    elif how == "list":
        if "[]" not in path:
            return None
        r2 = least_holder(c, n, path[:-1], [x, x]) if path[-1] == "[]" else None
        if r2 is None:
            return None
        o = cls.model_validate(r2)
        y = getattr(o, n)
        for p in path[:-1]:
            y = y[0] if p == "[]" else y["k"]
        if y[0] is y[1] or y[1] is x:
            raise Shared()
    elif how == "item":
        if n != "root" or path != ("{}",):
            return None
        o = cls({})
        o["k"] = x
    return o


class Shared(Exception):
    pass


def build_base(c, n, path, x):
    """an accepted object of class c whose member n can be assigned"""
    raw = least_holder(c, n, path, raw_of(x))
    try:
        if not oracle.accepts(c, raw)[0]:
            good = least_holder(c, n, path, gen.Gen(11).least(type(x).__name__))
            if not oracle.accepts(c, good)[0]:
                return None
            raw = good
    except oracle.Undefined:
        return None
    return build(L(c), raw)


def replay(case):
    from pydantic import ValidationError
    if "map" in case:
        return c03.replay(case["map"])
    c, at, how = case["class"], case["at"], case["how"]
    if c not in sh.load() or at[0] not in sh.load() or tuple([at[0], at[1], tuple(at[2])]) not in places(c):
        return SKIP
    x = build(L(c), case["raw"])
    if x is None:
        return SKIP
    try:
        mutate(x, case["muts"])
    except (KeyError, IndexError, AttributeError, TypeError):
        return SKIP
    content = raw_of(x)
    try:
        ok, why = oracle.accepts(c, content)
        if ok:
            ok2, why2 = oracle.accepts(at[0], least_holder(at[0], at[1], tuple(at[2]), content))
            if not ok2:
                return SKIP
        json.dumps(content)
    except (oracle.Undefined, TypeError):
        return SKIP
    what = f"{c} {case['raw']!r} after {case['muts']!r} put into {at[0]}.{at[1]}{''.join(at[2])} ({how})"
    before = raw_of(x)
    try:
        o = embed(x, at, how)
        exc = None
    except Shared:
        return what + ": two places share one object"
    except ValidationError as ex:
        exc = ex
    except Exception as ex:      # noqa: BLE001
        return what + f": {type(ex).__name__}: {ex}"[:200]
    if exc is None and o is None:
        return SKIP
    if not oracle.same(before, raw_of(x)):
        return what + ": the embedding changes the original"
    if not ok:
        return None if exc is not None else what + f": accepted although its content is invalid ({why})"
    if exc is not None:
        return what + f": rejected although its content is valid: {exc}"[:400]
    y = place_at(o, at[1], tuple(at[2]))
    if type(y) is not type(x):
        return what + f": becomes a {type(y).__name__}"
    if y is x or y.__dict__ is x.__dict__ or (x.model_extra is not None and y.model_extra is x.model_extra):
        return what + ": the embedded object is the original one"
    if sh.shape(L(c)).root_model and y.root is x.root:
        return what + ": the embedded map is the original's"
    fresh = build(L(c), content)
    if fresh is not None and not oracle.same(raw_of(y), raw_of(fresh)):
        return what + f": becomes {raw_of(y)!r}"
    return assignments_stay_out(x, y, c, what)


def assignments_stay_out(x, y, c, what):
    """assign to every member of the original: the copy keeps its own"""
    g = gen.Gen(5)
    before = {k: id(v) for k, v in y.__dict__.items()}, None if y.model_extra is None else dict(y.model_extra), raw_of(y)
    e = TABLE[c]
    if "root" in e:
        ops = [lambda: x.__setitem__("zz", c03.ITEM(c)), lambda: [x.__delitem__(k) for k in list(x)],
               lambda: setattr(x, "root", {"q": c03.ITEM(c)})]
    else:
        ops = []
        for n, f in e["fields"].items():
            for v in (g.value(f["type"], 1), None):
                ops.append(lambda n=n, v=v: setattr(x, n, v))
        ops.append(lambda: setattr(x, "x-new", 1))
    for op in ops:
        try:
            op()
        except Exception:        # noqa: BLE001
            continue
        if before[0] != {k: id(v) for k, v in y.__dict__.items()} or before[1] != y.model_extra or \
                not oracle.same(before[2], raw_of(y)):
            return what + ": an assignment to the original changes the embedded copy"
    return None


import json


# ---------------------------------------------------------------------- cases
def mutations(o, c, g, r):
    """in-place changes of one container of an instance"""
    cs = list(containers(o))
    for path, x in cs:
        if isinstance(x, list):
            for v in (5, {"zzz": 1}, None, "x", {"$ref": 5}):
                yield [list(path), "append", v]
            if x:
                yield [list(path), "set", 0, 7]
                yield [list(path), "del", 0]
        else:
            for k in ("a b", "", "a\n", "ok", "x-ok", "x-a b"):
                yield [list(path), "set", k, {"$ref": "#/a"}]
            yield [list(path), "set", "k2", 5]
            yield [list(path), "set", "k2", {"zzz": 1}]
            if x:
                yield [list(path), "set", next(iter(x)), 5]
                yield [list(path), "del", next(iter(x))]


def nontrivial(case):
    return bool(case.get("muts"))


def plain_raws(c):
    g = gen.Gen(21)
    yield g.least(c)
    for p in (0.4, 1.0):
        yield g.model(c, 2, p=p)


def fixed_cases(tier):
    r = random.Random(7)
    for c in classes():
        ps = places(c)
        if not ps:
            continue
        for raw in plain_raws(c):
            o = build(L(c), raw)
            if o is None:
                continue
            ms = [None] + list(mutations(o, c, None, r))
            r.shuffle(ms)
            ms = [None] + ms[:(14 if tier == "quick" else 60)]
            for at in ps:
                for m in ms if at == ps[0] or tier != "quick" else ms[:5]:
                    for how in HOWS:
                        yield {"class": c, "raw": raw, "muts": [m] if m else [], "at": list(at), "how": how}


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    cs = [c for c in classes() if places(c)]
    while True:
        c = r.choice(cs)
        raw = g.model(c, 2)
        o = build(L(c), raw)
        if o is None:
            continue
        ms = list(mutations(o, c, g, r))
        muts = r.sample(ms, min(len(ms), r.choice([0, 1, 1, 1, 2])))
        yield {"class": c, "raw": raw, "muts": muts, "at": list(r.choice(places(c))), "how": r.choice(HOWS)}
