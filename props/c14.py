"""C14: converters, then validators, each once, in order, on a fresh instance."""
import itertools
import random

from props.common import *

LEVEL = "proof"
REPLAY_ONLY = True
NOTE = ("Proved for all documents and all list lengths: the after-validators of the document class produce exactly the trace "
        "converters-then-validators, one fresh instance and one call per entry, and let the first error out. That pydantic runs "
        "the after-validators on creation and on every validated assignment is trusted and cross-checked.")
RULE = "a document with recording processors, created or assigned to; non-trivial when at least one processor is listed"
BOUNDED = "that pydantic runs the after-validators on each route (constructor, validate, JSON, assignment): concrete documents"
TRUSTED = ["pydantic-core: after-validators of a model run once per validation and per validated assignment"]
ASSUMPTIONS = ["a processor called on the document does not itself assign to the document"]
SHRINK = ("conv", "val", "ops")
LISTS = ("extra_converters", "extra_validators")


class Inst(GhostVal):
    """an instance of a processor class"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("inst", self.t.get_id())


class Event(GhostVal):
    __slots__ = ("what", "t")

    def __init__(self, what, t):
        self.what, self.t = what, t

    def key(self):
        return ("event", self.what, self.t.get_id())


RAISED = ("g", "raised", 0)


class Trace:
    def hooks(self):
        h = C.extension_contract()
        h["call_symbolic"] = self.call
        return h

    def start(self, I, o):
        self.o = o
        self.log = I.alloc("list", ())
        I.store[("g", "log", 0)] = self.log
        I.store[RAISED] = False

    def add(self, I, ev):
        I.setcontent(self.log, I.store[("h", self.log.oid)] + (ev,))

    def flag(self, I):
        v = I.store[RAISED]
        if not isinstance(v, bool):
            raise C.Unsupported("error state")
        return v

    def call(self, I, f, args, kw):
        if self.flag(I):
            C.mismatch(I, "a processor runs after an error")
        if isinstance(f, Opaque) and f.what == "subclass":
            if args or kw:
                raise C.Unsupported("processor class called with arguments")
            self.add(I, Event("new", f.t))
            return Inst(f.t)
        if isinstance(f, Inst):
            if kw or len(args) != 1:
                raise C.Unsupported("processor called with other arguments")
            C.must(I, I.same_f(args[0], self.o), "a processor is given something else than the document")
            self.add(I, Event("call", f.t))
            n = I.enc.uf("outcome", I.enc.Val, z3.IntSort())(f.t)
            k = I.choose([fm.lit(n == 0), fm.lit(n == 1), fm.lit(z3.Or(n < 0, n > 1))])
            if k:
                I.store[RAISED] = True
                I.raise_((None, ValueError, RuntimeError)[k])
            return Sym(I.fresh("result", I.enc.Val), ["any"])
        raise C.Unsupported("call")

    def expected(self, I, name, got):
        """consume the part of the trace that belongs to the list"""
        e = I.enc
        v = I.obj_attr(self.o, name)
        x = I.force(v)
        if x is None:
            return 0
        if not isinstance(x, SymList):
            raise C.Unsupported(name)
        if got and isinstance(got[0], Seg) and got[0].coll.kind == "list" and got[0].coll.t.eq(x.t):
            s = got[0]
            C.must(I, fm.forall(s.coll, s.v, s.f), f"some entries of {name} are skipped")
            ev = list(s.items)
            ok = len(ev) == 2 and all(isinstance(q, Event) for q in ev) and [q.what for q in ev] == ["new", "call"] and \
                all(q.t.eq(e.lat(x.t, s.v)) for q in ev)
            if not ok:
                C.mismatch(I, f"entries of {name} are processed as {ev}")
            return 1
        C.must(I, fm.lit(e.llen(x.t) == 0), f"{name} is not run")
        return 0


def obligations(tier):
    def trace():
        cls = L("AsyncAPI3")
        tr = Trace()

        def body(I, ob):
            o = SymObj(z3.Const("doc!", I.enc.Obj), cls)
            tr.start(I, o)
            try:
                bad = C.run_class(I, cls, o)
            except Write as w:
                ob.fail("undecided", w.what)
                return
            if bad is not None:
                if tr.flag(I):
                    C.reached(I, "processor error")
                return
            C.reached(I, "accept")
            if tr.flag(I):
                return C.mismatch(I, "accepts although a processor raised")
            got = list(I.store[("h", tr.log.oid)])
            for n in LISTS:
                k = tr.expected(I, n, got)
                got = got[k:]
            if got:
                C.mismatch(I, f"further events: {got}")
        return C.prove("AsyncAPI3: trace of the processors", body, need=("accept", "processor error"), hooks=tr.hooks(),
                       budget=60.0)
    yield ("AsyncAPI3: trace of the processors", trace, lambda w: [])

    def order():
        """while converters run, no validator has run (and vice versa: an error stops the rest)"""
        cls = L("AsyncAPI3")
        tr = Trace()

        def body(I, ob):
            o = SymObj(z3.Const("doc!", I.enc.Obj), cls)
            tr.start(I, o)
            # the error comes from a converter: nothing of the validators may be in the trace
            x = I.force(I.obj_attr(o, "extra_validators"))
            try:
                bad = C.run_class(I, cls, o)
            except Write as w:
                ob.fail("undecided", w.what)
                return
            if bad is None or not tr.flag(I):
                return
            C.reached(I, "processor error")
            c = I.force(I.obj_attr(o, "extra_converters"))
            if not isinstance(c, SymList):
                return
            i = I.fresh("i", z3.IntSort())
            bads = fm.exists(fm.Coll(I.enc, "list", c.t, None), i,
                             fm.neg(fm.lit(I.enc.uf("outcome", I.enc.Val, z3.IntSort())(I.enc.lat(c.t, i)) == 0)))
            if not I.decide(bads):
                return
            C.reached(I, "converter error")
            for s in I.store[("h", tr.log.oid)]:
                if isinstance(s, Seg) and isinstance(x, SymList) and s.coll.t.eq(x.t):
                    C.mismatch(I, "validators run although a converter raised")
        return C.prove("AsyncAPI3: a failing converter keeps the validators from running", body,
                       need=("processor error", "converter error"), hooks=tr.hooks(), budget=60.0)
    yield ("AsyncAPI3: a failing converter keeps the validators from running", order, lambda w: [])

    def schema():
        s = sh.shape(L("AsyncAPI3"))
        bad = [n for n in LISTS if n not in s.fields or not s.fields[n]["exclude"]]
        if s.nonafter or s.inner_wrappers or s.custom_init:
            bad.append("validators of another mode")
        return static_obligation("AsyncAPI3: processor lists are excluded from serialization", not bad, str(bad))
    yield ("AsyncAPI3: processor lists are excluded from serialization", schema)

    def calls():
        """creation and assignment reach the validators through pydantic alone"""
        from pydantic import BaseModel
        cls = L("AsyncAPI3")
        bad = [n for n in ("model_validate", "model_validate_json", "__init__", "__new__", "model_post_init",
                           "model_construct") if getattr(cls, n, None) is not None and
               getattr(getattr(cls, n), "__func__", getattr(cls, n)) is not
               getattr(getattr(BaseModel, n), "__func__", getattr(BaseModel, n))]
        bad += [] if cls.model_config.get("validate_assignment") else ["validate_assignment"]
        return static_obligation("AsyncAPI3: uses pydantic's own constructors", not bad, str(bad))
    yield ("AsyncAPI3: uses pydantic's own constructors", calls)


# ----------------------------------------------------------------------- replay
class Rec:
    log = []
    fail = None


def proc(name):
    def __init__(self):
        Rec.log.append(("new", name, self, None))

    def __call__(self, doc):
        Rec.log.append(("call", name, self, doc))
        if Rec.fail and Rec.fail[0] == name:
            raise ERR[Rec.fail[1]](name)
        return OTHER if name in ("B", "W") else doc
    return type("P_" + name, (), {"__init__": __init__, "__call__": __call__})


ERR = {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "AssertionError": AssertionError,
       "TypeError": TypeError, "StopIteration": StopIteration, "LookupError": LookupError, "OSError": OSError}
OTHER = object()
NAMES = "ABCDEVWXYZ"
PROCS = {n: proc(n) for n in "ABCDEVWXYZ"}


def run(f):
    Rec.log = []
    try:
        return f(), None
    except Exception as ex:      # noqa: BLE001
        return None, ex


def check_trace(what, conv, val, doc, exc):
    names = list(conv or []) + list(val or [])
    fail = Rec.fail
    stop = None
    if fail and fail[0] in names:
        stop = names.index(fail[0])
        names = names[:stop + 1]
    want = [(k, n) for n in names for k in ("new", "call")]
    got = [(k, n) for k, n, _, _ in Rec.log]
    if got != want:
        return f"{what}: the trace is {got} instead of {want}"
    if (exc is not None) != (stop is not None):
        return f"{what}: {'raises ' + repr(exc) if exc else 'is accepted although a processor raised'}"[:300]
    insts = [i for k, _, i, _ in Rec.log if k == "new"]
    called = [i for k, _, i, _ in Rec.log if k == "call"]
    if len({id(i) for i in insts}) != len(insts) or any(a is not b for a, b in zip(insts, called)):
        return f"{what}: instances are not fresh"
    args = [d for k, _, _, d in Rec.log if k == "call"]
    if any(not isinstance(d, L("AsyncAPI3")) or d is not args[0] for d in args):
        return f"{what}: called with different documents"
    if doc is not None and args and args[0] is not doc:
        return f"{what}: called with another object than the document"
    return None


def replay(case):
    A = L("AsyncAPI3")
    conv, val, how = case["conv"], case["val"], case["how"]
    Rec.fail = case.get("fail")
    kw = {}
    if case.get("sub"):
        A = subclass(A, conv, val)
    for n, l in (("extra_converters", conv), ("extra_validators", val)) if not case.get("sub") else ():
        if l is not None or case.get("explicit"):
            kw[n] = None if l is None else [PROCS[x] for x in l]
    base = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, **case.get("raw", {})}
    late = Rec.fail if how == "assign" else None
    if late:
        Rec.fail = None
    if how == "ctor":
        f = lambda: A(**copy.deepcopy(base), **kw)
    elif how == "builder":
        f = lambda: A.as_builder(**{"extra_validators": [], **kw})
        kw.setdefault("extra_converters", [])
    else:
        f = lambda: A.model_validate({**copy.deepcopy(base), **kw})
    if how == "instance":
        inner, exc = run(f)
        if exc is not None:
            return SKIP
        f = lambda: A.model_validate(inner)
    doc, exc = run(f)
    r = check_trace(f"creation ({how}) with converters {conv} and validators {val}, failing {Rec.fail}", conv, val, doc, exc)
    if r or doc is None:
        return r
    for mode in ("python", "json"):
        d = doc.model_dump(mode=mode)
        d2 = doc.model_dump(mode=mode, by_alias=True, exclude_none=False, exclude_unset=False)
        if any(k in x for x in (d, d2) for k in LISTS + ("extraConverters", "extraValidators")):
            return f"the serialized document contains the processor lists: {sorted(d)}"
    if any(k in doc.model_dump_json() for k in LISTS):
        return "the serialized document contains the processor lists"
    for name, v in case.get("ops", []):
        Rec.fail = late
        if name in LISTS:
            if name == LISTS[0]:
                conv2, val2 = v, val
            else:
                conv2, val2 = conv, v
            arg = None if v is None else [PROCS[x] for x in v]
        else:
            conv2, val2, arg = conv, val, copy.deepcopy(v)
        _, exc = run(lambda: setattr(doc, name, arg))
        r = check_trace(f"assignment to {name} with converters {conv2} and validators {val2}, failing {Rec.fail}", conv2, val2,
                        doc, exc)
        if r:
            return r
        if exc is None:
            conv, val = conv2, val2
    return None


def subclass(A, conv, val):
    """a document class whose processors are the defaults of its members"""
    from typing import Any
    from pydantic import Field, create_model
    return create_model("Mine", __base__=A, **{
        n: (Any, Field(default=None if l is None else [PROCS[x] for x in l], exclude=True))
        for n, l in (("extra_converters", conv), ("extra_validators", val))})


def nontrivial(case):
    return bool(case["conv"] or case["val"])


OPS = [["id", "urn:x:y"], ["default_content_type", "a/b"], ["info", {"title": "z", "version": "2"}], ["channels", {"a": {}}],
       ["servers", None], ["x-foo", 1], ["asyncapi", "3.1.0"], ["components", {}], ["operations", {}]]


def fixed_cases(tier):
    lists = [None, [], ["A"], ["A", "B"], ["C", "B", "A"], ["A", "B", "C", "D", "E"], ["A", "A"], ["A", "B", "A"]]
    vlists = [None, [], ["V"], ["V", "W"], ["Z", "Y", "X", "W", "V"], ["W", "V"], ["W", "W"], ["V", "W", "W", "V"]]
    for how in ("ctor", "validate", "builder", "assign", "instance"):
        for c, v in itertools.product(lists, vlists):
            yield {"how": how, "conv": c, "val": v, "ops": OPS}
            yield {"how": how, "conv": c, "val": v, "explicit": True, "ops": OPS[:2]}
            for f in (c or []) + (v or []):
                for e in ERR:
                    yield {"how": how, "conv": c, "val": v, "fail": [f, e], "ops": OPS if how == "assign" else []}
        for op in ([LISTS[0], ["A"]], [LISTS[1], ["V"]], [LISTS[0], None], [LISTS[1], []], [LISTS[1], ["X", "V", "Y"]]):
            yield {"how": how, "conv": ["B"], "val": ["W"], "ops": [op, OPS[0], op, OPS[3]]}
        # the lists as defaults of a class derived from the document class
        if how in ("ctor", "validate", "instance"):
            for c, v in itertools.product(lists, vlists):
                yield {"how": how, "conv": c, "val": v, "ops": OPS, "sub": True}
                yield {"how": how, "conv": c, "val": v, "ops": OPS[:2], "sub": True, "raw": {"x-a": 1, "id": "urn:a:b"}}
        for n in (30, 400):
            cs, vs = [NAMES[i % 5] for i in range(n)], [NAMES[5 + i % 5] for i in range(n)]
            yield {"how": how, "conv": cs, "val": vs, "ops": OPS[:3]}
            yield {"how": how, "conv": cs, "val": ["V", "W"], "ops": OPS[:1]}
            yield {"how": how, "conv": ["A"] + ["B"] * n + ["C"], "val": ["V"] + ["W"] * n + ["X"], "ops": OPS[:1]}
            for f in ("C", "X"):
                yield {"how": how, "conv": ["A"] + ["B"] * n + ["C"], "val": ["V"] + ["W"] * n + ["X"], "fail": [f, "ValueError"],
                       "ops": OPS[:1]}
    # lists may mix: the same class may be a converter and a validator
    yield {"how": "validate", "conv": ["A"], "val": ["A"], "ops": []}


def random_cases(seed, tier):
    r = random.Random(seed)
    while True:
        c = r.sample("ABCDE", r.randint(0, 5)) if r.random() < 0.9 else None
        v = r.sample("VWXYZ", r.randint(0, 5)) if r.random() < 0.9 else None
        if c and r.random() < 0.3:
            c = c + r.choices(c, k=r.randint(1, 3))
        if v and r.random() < 0.3:
            v = v + r.choices(v, k=r.randint(1, 3))
        case = {"how": r.choice(["ctor", "validate", "builder", "assign", "instance"]), "conv": c, "val": v,
                "ops": [r.choice(OPS) for _ in range(r.randint(0, 4))]}
        if r.random() < 0.4 and (c or v):
            case["fail"] = [r.choice((c or []) + (v or [])), r.choice(list(ERR))]
        if case["how"] in ("ctor", "validate", "instance") and r.random() < 0.2:
            case["sub"] = True
        yield case
