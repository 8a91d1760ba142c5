"""C18: rejected assignments change nothing, accepted ones obey the rules."""
import random
import types

from props import c03
from props.common import *
from spec import probes

LEVEL = "proof"
REPLAY_ONLY = True
NOTE = ("Proved for every class: __setattr__ restores the whole instance state (fields, extension members, fields set) "
        "whenever pydantic's assignment raises after any partial change, delegates exactly once and undoes nothing otherwise; "
        "__setitem__ by C03's contract. That pydantic's validated assignment accepts what construction accepts is trusted "
        "(core schema: validate_assignment) and cross-checked on concrete assignments.")
RULE = "an instance and a history of assignments to it; non-trivial when at least one assignment is accepted and one rejected"
BOUNDED = "agreement of validated assignment with construction: concrete assignments to every field of every class"
TRUSTED = ["pydantic BaseModel.__setattr__ with validate_assignment: validates as construction does, or raises"]
SHRINK = ("ops", "raw")
COMPS = {"__dict__": "fields", "model_extra": "extra", "__pydantic_extra__": "extra",
         "model_fields_set": "set", "__pydantic_fields_set__": "set"}


class Snap(GhostVal):
    """(a copy of) one component of the instance state; version None: the live object"""
    __slots__ = ("comp", "version")

    def __init__(self, comp, version):
        self.comp, self.version = comp, version

    def key(self):
        return ("snap", self.comp, self.version)


def ver(I, comp):
    v = I.store[("g", comp, 0)]
    if isinstance(v, Poison):
        raise C.Unsupported("instance state inside a loop")
    return v


def now(I, s):
    return ver(I, s.comp) if s.version is None else s.version


class State:
    def __init__(self, cls):
        self.cls = cls
        self.extensible = sh.shape(cls).config.get("extra_fields_behavior") == "allow"

    def hooks(self):
        from pydantic import BaseModel
        h = {"raw_attr": self.raw_attr, "dict_copy": self.copy, "set_attr": self.set_attr, "method": self.method,
             ("super", "__setattr__"): lambda I, obj, args, kw: self.assign(I, [obj] + list(args), kw)}
        h[BaseModel.__setattr__] = self.assign
        return h

    def raw_attr(self, I, o, name):
        c = COMPS[name]
        if c == "extra" and not self.extensible:
            return None
        if o.t.eq(self.o.t):
            return Snap(c, None)
        raise C.Unsupported("state of another object")

    def copy(self, I, s):
        if not isinstance(s, Snap):
            raise C.Unsupported("copy")
        return Snap(s.comp, now(I, s))

    def method(self, I, o, name, args, kw):
        if not isinstance(o, Snap):
            return NotImplemented
        if name == "copy" and not args:
            return self.copy(I, o)
        if o.version is None and name == "clear":
            I.store[("g", o.comp, 0)] = "empty"
            return None
        if o.version is None and name == "update" and len(args) == 1:
            a = I.force(args[0])
            if isinstance(a, Snap) and a.comp == o.comp and ver(I, o.comp) == "empty":
                I.store[("g", o.comp, 0)] = now(I, a)
                return None
        raise C.Unsupported(f"{name} of the instance state")

    def set_attr(self, I, o, name, v):
        if not isinstance(o, SymObj) or not o.t.eq(self.o.t) or name not in COMPS:
            raise Write(f"attribute {name}")
        v = I.force(v)
        if isinstance(v, Snap) and v.comp == COMPS[name]:
            I.store[("g", v.comp, 0)] = now(I, v)
            return None
        if v is None and COMPS[name] == "extra" and not self.extensible:
            return None
        raise C.Unsupported(f"assignment of {v!r} to {name}")

    def assign(self, I, args, kw):
        """pydantic's assignment: succeeds, or raises after any partial change"""
        if kw or len(args) != 3 or not isinstance(args[0], SymObj) or not args[0].t.eq(self.o.t):
            raise C.Unsupported("assignment call")
        n = ver(I, "calls")
        I.store[("g", "calls", 0)] = n + 1
        same = fm.conj(I.eq_f(args[1], self.name), I.same_f(args[2], self.value))
        C.must(I, same, "assigns another name or value than it was given")
        k = I.choose([fm.lit(z3.Int("outcome!") == 0), fm.lit(z3.Int("outcome!") == 1),
                      fm.lit(z3.Int("outcome!") == 2), fm.lit(z3.Int("outcome!") > 2),
                      fm.lit(z3.Int("outcome!") < 0)])
        for c in ("fields", "extra", "set"):
            I.store[("g", c, 0)] = "new" if k == 0 else "partial"
        if k:
            import pydantic_core
            I.raise_((None, pydantic_core.ValidationError, ValueError, RuntimeError, TypeError)[k])
        return None


def setattr_obligation(cname, fn):
    name = f"{cname}.__setattr__: a rejected assignment leaves the instance as it was"

    def thunk():
        cls = L(cname)
        st = State(cls)

        def body(I, ob):
            for c in ("fields", "extra", "set"):
                I.store[("g", c, 0)] = "old"
            I.store[("g", "calls", 0)] = 0
            st.o = SymObj(z3.Const("self!", I.enc.Obj), cls)
            st.name = SymStr(z3.Const("name!", z3.StringSort()))
            st.value = Sym(z3.Const("value!", I.enc.Val), ["any"])
            try:
                I.call(Bound(st.o, fn, cls), [st.name, st.value], {})
                raised = None
            except PyRaise as ex:
                raised = ex.exc.c
            except Write as w:
                ob.fail("undecided", w.what)
                return
            C.reached(I, "raise" if raised else "return")
            if ver(I, "calls") != 1:
                C.mismatch(I, f"pydantic's assignment runs {ver(I, 'calls')} times")
            comps = ("fields", "extra", "set") if st.extensible else ("fields", "set")
            for c in comps:
                got = ver(I, c)
                if raised and got != "old":
                    C.mismatch(I, f"rejected, but the {c} component is {got}")
                if not raised and got != "new":
                    C.mismatch(I, f"accepted, but the {c} component is {got}")
        return C.prove(name, body, need=("raise", "return"), hooks=st.hooks())
    return (name, thunk, lambda w: [])


def obligations(tier):
    for cname in classes():
        cls = L(cname)
        fn = next((c.__dict__["__setattr__"] for c in cls.__mro__ if "__setattr__" in c.__dict__), None)
        if not isinstance(fn, types.FunctionType) or not (fn.__module__ or "").startswith("asyncapi3"):
            n = f"{cname}.__setattr__: a rejected assignment leaves the instance as it was"
            s = sh.shape(cls)
            # without validators that run after pydantic has stored the value nothing can be left behind
            yield (n, lambda n=n, s=s: static_obligation(n, not s.after, "pydantic's own assignment, with after-validators"))
        else:
            yield setattr_obligation(cname, fn)

        def schema(cls=cls, cname=cname):
            s = sh.shape(cls)
            bad = []
            if cls.model_config.get("validate_assignment") is not True:
                bad.append("validate_assignment is off")
            if cls.model_config.get("frozen"):
                bad.append("frozen")
            if any(getattr(f, "frozen", None) for f in cls.model_fields.values()):
                bad.append("frozen field")
            if s.nonafter or s.inner_wrappers or s.custom_init:
                bad.append("validators of another mode")
            return static_obligation(f"{cname}: assignments are validated", not bad, "; ".join(bad))
        yield (f"{cname}: assignments are validated", schema)
    for job in c03.obligations(tier):
        if "__setitem__" in job[0]:
            yield (job[0], job[1], lambda w, j=job: [{"map": x} for x in j[2](w)] if len(j) > 2 else [])


# ----------------------------------------------------------------------- replay
def snapshot(o):
    d = dict(o.__dict__)
    x = None if o.model_extra is None else dict(o.model_extra)
    return d, x, set(o.model_fields_set), dump_any(o)


def dump_any(o):
    try:
        return o.model_dump(mode="python")
    except Exception as ex:      # noqa: BLE001
        return repr(ex)


def same_state(a, b):
    return (list(a[0]) == list(b[0]) and all(a[0][k] is b[0][k] for k in a[0]) and
            (a[1] is None) == (b[1] is None) and
            (a[1] is None or list(a[1]) == list(b[1]) and all(a[1][k] is b[1][k] for k in a[1])) and
            a[2] == b[2] and a[3] == b[3])


def replay(case):
    if "map" in case:
        return c03.replay(case["map"])
    if "processor" in case:
        return replay_processor(case)
    c, raw = case["class"], copy.deepcopy(case["raw"])
    try:
        if not oracle.accepts(c, raw)[0]:
            return SKIP
    except oracle.Undefined:
        return SKIP
    o = build(L(c), raw)
    if o is None:
        return SKIP
    e = TABLE[c]
    if "root" not in e:
        try:
            got, extra = oracle.split_members(c, raw, ())
        except oracle.Undefined:
            return SKIP
        raw = {e["fields"][n]["alias"]: v for n, v in got.items()}
        raw.update(extra)
    nacc = nrej = 0
    for n, (name, val, how) in enumerate(case["ops"]):
        new = dict(raw) if isinstance(raw, dict) else raw
        if "root" in e:
            if name != "root":
                return SKIP
            new = val
        elif name in e["fields"]:
            new[e["fields"][name]["alias"]] = val
        else:
            if not name.startswith("x-") or how == "inst":
                return SKIP
            new[name] = val
        try:
            ok, why = oracle.accepts(c, new)
        except oracle.Undefined:
            return SKIP
        what = f"{c} {raw!r}: assigning {val!r} to {name}"
        arg = copy.deepcopy(val)
        if how == "inst":
            other = build(L(c), new) if ok else None
            if other is None:
                h = holder(c, name, val)
                if h is None:
                    continue
                arg = h
            else:
                arg = getattr(other, name)
        before = snapshot(o)
        try:
            setattr(o, name, arg)
            exc = None
        except Exception as ex:      # noqa: BLE001
            exc = ex
        if exc is not None:
            nrej += 1
            if ok:
                return what + f" is rejected although construction accepts the content: {exc!r}"[:300]
            if not isinstance(exc, ValueError):
                return what + f" raises {exc!r}"[:300]
            if not same_state(before, snapshot(o)):
                return what + " is rejected but changes the object"
        else:
            nacc += 1
            if not ok:
                return what + f" is accepted although construction rejects the content ({why})"
            want = build(L(c), new)
            if want is not None and dump_any(o) != dump_any(want):
                return what + f" gives {dump_any(o)!r} instead of {dump_any(want)!r}"
            raw = new
    case["_mix"] = bool(nacc and nrej)
    return None


def holder(c, name, val):
    """the value as a model instance, built on its own"""
    f = TABLE[c]["fields"].get(name)
    if f is None or not isinstance(val, dict):
        return None
    for a in (f["type"][1] if f["type"][0] == "union" else [f["type"]]):
        if a[0] == "model":
            x = build(L(a[1]), val)
            if x is not None:
                return x
    return None


class Switch:
    exc = None
    n = 0


class Raiser:
    def __call__(self, doc):
        Switch.n += 1
        if Switch.exc is not None:
            raise Switch.exc
        return doc


def replay_processor(case):
    A = L("AsyncAPI3")
    import asyncapi3.validators as vs
    Switch.exc, Switch.n = None, 0
    try:
        A2 = processor_class(case["processor"])
        o = A.model_validate({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, case["processor"]: [A2],
                              **case.get("raw", {})})
        for name, val in case["ops"]:
            Switch.exc = {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError,
                          "TypeError": TypeError, "AssertionError": AssertionError}[case["exc"]]("no")
            before = snapshot(o)
            try:
                setattr(o, name, copy.deepcopy(val))
                return f"an assignment to {name} is accepted although a processor raises {case['exc']}"
            except Exception:      # noqa: BLE001
                pass
            if not same_state(before, snapshot(o)):
                return f"an assignment to {name} that a processor rejects with {case['exc']} changes the document"
    finally:
        Switch.exc = None
    return None


_pc = {}


def processor_class(kind):
    if kind not in _pc:
        f = sh.shape(L("AsyncAPI3")).fields[kind]
        T = f["type"]
        T = next(a for a in (T[1] if T[0] == "union" else [T]) if a[0] == "list")[1]
        base = base_of(kind)
        _pc[kind] = type("Raiser_" + kind, (Raiser, base), {"__call__": Raiser.__call__})
    return _pc[kind]


def base_of(kind):
    import inspect
    import asyncapi3
    for m in ("asyncapi3.protocols", "asyncapi3.validators.protocols", "asyncapi3.models.protocols"):
        try:
            mod = __import__(m, fromlist=["x"])
        except ImportError:
            continue
        for n, c in vars(mod).items():
            if inspect.isclass(c) and ("Validator" if "valid" in kind else "Convert") in n:
                return c
    return object


def nontrivial(case):
    return "map" in case or len(case.get("ops", [])) > 0


def values_for(g, f):
    T = f["type"]
    out = [None, 5, "x", [], {}, True, {"$ref": "#/a"}, {"$ref": 5}, {"zzz": 1}, -1]
    for _ in range(3):
        out.append(g.value(T, 2))
        out.append(g.near(T))
        out.append(g.wrong(T))
    return out


def fixed_cases(tier):
    g = gen.Gen(3)
    for c in classes():
        e = TABLE[c]
        if "root" in e:
            for raw in ({}, {"a": c03.ITEM(c)}, g.model(c, 1)):
                for v in ({}, {"b": c03.ITEM(c)}, {"a b": c03.ITEM(c)}, {"a": 5}, 5, None, [], {"a": c03.ITEM(c), "": c03.ITEM(c)},
                          *({**{f"k{i}": c03.ITEM(c) for i in range(400)}, **more} for more in ({}, {"a b": c03.ITEM(c)}, {"z": 5}))):
                    yield {"class": c, "raw": raw, "ops": [["root", v, "raw"]]}
            continue
        raws = [g.least(c)] + [g.model(c, 2, p=p) for p in (0.5, 1.0)]
        for raw in raws:
            for n, f in e["fields"].items():
                if n.startswith("extra_"):
                    continue
                for v in values_for(g, f) + (list(probes.large(f["type"])) if raw is raws[0] else []):
                    yield {"class": c, "raw": raw, "ops": [[n, v, "raw"]]}
                    if isinstance(v, (dict, list)):
                        yield {"class": c, "raw": raw, "ops": [[n, v, "inst"]]}
            for n in ["x-a", "x-b c", "x-", "x-a\n"]:
                yield {"class": c, "raw": raw, "ops": [[n, 1, "raw"]]}
    for x in c03.fixed_cases(tier):
        if any(op[0] in ("set", "setobj") for op in x["ops"]):
            yield {"map": x}
    for kind in ("extra_validators", "extra_converters"):
        for exc in ("ValueError", "RuntimeError", "KeyError", "TypeError", "AssertionError"):
            yield {"processor": kind, "exc": exc, "ops": [["id", "urn:example:x"], ["default_content_type", "text/plain"],
                                                          ["channels", {"a": {}}], ["x-foo", 1], ["id", None],
                                                          ["info", {"title": "z", "version": "2"}]]}


def random_cases(seed, tier):
    g = gen.Gen(seed)
    r = random.Random(seed)
    cs = [c for c in classes()]
    ruled = [c for c in rules.RULES if c in TABLE]
    maps = c03.random_cases(seed, tier)
    while True:
        if r.random() < 0.1:
            x = next(maps)
            yield {"map": x}
            continue
        c = r.choice(ruled if r.random() < 0.5 else cs)
        e = TABLE[c]
        raw = g.model(c, r.choice([1, 2]))
        ops = []
        for _ in range(r.randint(1, 6)):
            if "root" in e:
                v = g.model(c, 1)
                if r.random() < 0.4:
                    g.perturb_object(c, v)
                ops.append(["root", v, "raw"])
                continue
            names = [n for n in e["fields"] if not n.startswith("extra_")]
            if not names:
                break
            n = r.choice(names)
            T = e["fields"][n]["type"]
            k = r.random()
            v = g.value(T, 1) if k < 0.5 else g.near(T) if k < 0.7 else None if k < 0.8 else g.wrong(T)
            ops.append([n, v, r.choice(["raw", "raw", "inst"])])
            if e["extra"] == "x" and r.random() < 0.1:
                ops.append([r.choice(gen.X_GOOD + ["x-", "x-a b", "x-a\n"]), g.any(1), "raw"])
        yield {"class": c, "raw": raw, "ops": ops}
