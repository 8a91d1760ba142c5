"""The unified references validator under contract (C10, frame: C20).

REC is validate_references_recursive.  Its contract, for a value v standing at a
location l of the document (path = the path of l):
    REC raises ValueError  iff  a Reference at or below v is bad for its place;
    otherwise it returns; the sets it is given are as before on return.
Obligations (each on the real code, every nested REC call by this contract):
  step(c)      for every class c, mappings, lists, scalars: REC on an arbitrary
               value raises iff REC raises on one of the children that may hold
               References; the path given to a child extends the path by a word
               fixed by the member (or "[i]", or the quoted key);
  location(l)  for every location l a Reference may stand at: REC on an arbitrary
               Reference with the path of l (composed from the words of the steps;
               keys and indices arbitrary) raises iff the reference does not
               resolve to one of the kinds of l;
  entry        the validator calls REC once, on the document, and follows it.
"""
import inspect
import os
import typing

from asyncapi3 import validators as V
from asyncapi3.validators import utils
from props.common import *
from pyvc import rope
from pyvc.rope import Atom, Rope
from spec import refdocs as D

KEY = Atom("KEY", "[A-Za-z0-9_-]")
IDX = Atom("IDX", "[0-9]", "0|[1-9][0-9]*")
PATH = Atom("PATH", rope.ANY)
ADDED = ("g", "visited", 0)
SEEN = ("g", "validated", 0)
SCALARS = ["str", "int", "float", "bool", "url", "none"]


def rec():
    return getattr(V.UnifiedReferencesValidator, "validate_references_recursive", None)


def bind(fn, args, kw):
    b = inspect.signature(fn).bind(*args, **kw)
    b.apply_defaults()
    return b.arguments


def can_ref(T, seen=()):
    """may a value of this type contain a Reference (by the contract table)?"""
    k = T[0]
    if k == "union":
        return any(can_ref(x, seen) for x in T[1])
    if k == "list":
        return can_ref(T[1], seen)
    if k == "map":
        return can_ref(T[2], seen)
    if k != "model":
        return False
    c = T[1]
    if c == "Reference":
        return True
    if c in seen:
        return False
    e = TABLE[c]
    if "root" in e:
        return can_ref(e["root"], seen + (c,))
    return any(can_ref(f["type"], seen + (c,)) for f in e["fields"].values() if f["omit"] != "always")


class GSet(GhostVal):
    """a set of unknown contents handed in by the caller"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def key(self):
        return ("set", self.what)


def gset_hooks(me):
    """contract of the two sets: `visited` holds the ids of the containers the value stands in
    (a document is a tree: never the value itself); `validated` is arbitrary"""
    def contains(I, x, c):
        x = I.force(x)
        if c.what == "visited":
            if not isinstance(x, SymId):
                raise C.Unsupported("membership")
            if any(vkey(x) == vkey(y) for y in I.store[ADDED]):
                return fm.T
            if vkey(x.of) == vkey(me(I)):
                return fm.BOT
            raise C.Unsupported("membership of another object")
        if not isinstance(x, SymStr):
            raise C.Unsupported("membership")
        old = fm.lit(I.enc.uf("validated", z3.StringSort(), z3.BoolSort())(x.t))
        return fm.disj(old, *[I.eq_f(x, y) for y in I.store[SEEN]])

    def method(I, o, name, args, kw):
        if not isinstance(o, GSet):
            return NotImplemented
        k = ADDED if o.what == "visited" else SEEN
        if name == "add" and len(args) == 1:
            x = I.force(args[0])
            if all(vkey(x) != vkey(y) for y in I.store[k]):
                I.store[k] = I.store[k] + (x,)
            return None
        if name in ("discard", "remove") and len(args) == 1 and k == ADDED:
            x = I.force(args[0])
            if not isinstance(x, SymId) or vkey(x.of) != vkey(me(I)):
                raise C.Unsupported("removes another object")
            if name == "remove" and all(vkey(x) != vkey(y) for y in I.store[k]):
                I.raise_(KeyError)
            I.store[k] = tuple(y for y in I.store[k] if vkey(y) != vkey(x))
            return None
        raise C.Unsupported(f"set.{name}")
    return {"contains": contains, "method": method}


def stateless(I, v, base):
    if any(k[0] == "a" and k[1] == v.oid and base.get(k) is not x for k, x in I.store.items()):
        raise C.Unsupported("the validator keeps state")


# ---------------------------------------------------------------------- steps
class Step:
    """REC on an arbitrary value of one class or kind; frame: only that nothing is written"""

    def __init__(self, what, frame=False):
        self.what, self.frame = what, frame       # class name, or "list", "map", "keymap", or a scalar kind
        self.pieces = {}                          # member (or "[]", "{}") -> path parts appended
        self.words = {}

    def value(self, I):
        e = I.enc
        t = z3.Const("val!", e.Obj)
        w = self.what
        if w == "list":
            return SymList(t, ["any"])
        if w in ("map", "keymap"):
            d = SymDict(t, ["any"])
            if w == "keymap":
                k = I.fresh("k", z3.StringSort())
                I.assume(fm.forall(fm.Coll(e, "dict", t, None), k, fm.lit(e.mem(k, rope.lang_of(I, KEY.pattern)))))
            return d
        if w == "str":
            return SymStr(z3.Const("vals!", z3.StringSort()))
        if w == "int":
            return SymInt(z3.Int("vali!"))
        if w == "bool":
            return SymBool(fm.lit(z3.Bool("valb!")))
        if w == "none":
            return None
        if w == "url":
            from pydantic import AnyUrl
            return Opaque("url", 1, z3.Const("valu!", e.Val))
        if w == "float":
            return Opaque("float", 1, z3.Const("valf!", e.Val))
        return SymObj(t, L(w))

    def members(self):
        """member -> type, of the children the contract is about"""
        e = TABLE[self.what]
        if "root" in e:
            return {"root": e["root"]}
        return {n: f["type"] for n, f in e["fields"].items() if f["omit"] != "always"}

    def child(self, I, x):
        """which member a nested call is about"""
        xt = I.val_term(x)
        if xt is None:
            raise C.Unsupported(f"nested call on {x!r}")
        if isinstance(self.obj, SymObj):
            for n, t in self.terms.items():
                if t.eq(xt) or self.subterm(t, xt):
                    return n
            raise C.Unsupported("nested call on something that is not a member")
        c = xt
        if z3.is_app(c) and c.num_args() == 2 and c.arg(0).eq(self.obj.t):
            return "[]" if self.what == "list" else "{}"
        raise C.Unsupported("nested call on something that is not an entry")

    @staticmethod
    def subterm(t, x):
        """x is t unwrapped to one of its alternatives"""
        return z3.is_app(x) and x.num_args() == 1 and x.arg(0).num_args() == 1 and x.arg(0).arg(0).eq(t)

    def ok(self, I, n, t):
        f = I.enc.uf("ok_" + n, I.enc.Val, z3.BoolSort())
        return fm.lit(f(t))

    def path(self, I, p):
        if not isinstance(p, Rope) or p.parts[:1] != (PATH,):
            raise C.Unsupported("the path of a child does not extend the path")
        return p.parts[1:]

    def nested(self, I, fn, args, kw):
        if fn is not rec():
            return NotImplemented
        if not I.begun:
            I.begun = True
            return NotImplemented
        a = bind(fn, args, kw)
        x = a["obj"]
        C.must(I, I.same_f(a["spec"], self.spec), "checks a child against another document")
        if a["self"] is not None and not (isinstance(a["self"], HRef) and a["self"].oid == self.v.oid):
            raise C.Unsupported("another validator")
        vis = a.get("visited_objects")
        if vis is None:
            pass
        elif isinstance(vis, GSet) and vis.what == "visited":
            extra = I.store[ADDED]
            if any(not isinstance(y, SymId) or vkey(y.of) != vkey(self.obj) for y in extra):
                raise C.Unsupported("objects other than the containers of a value are marked as visited")
        elif isinstance(vis, HRef) and vis.kind == "set":
            if any(not isinstance(y, SymId) or vkey(y.of) != vkey(self.obj) for y in I.content(vis)):
                raise C.Unsupported("objects other than the containers of a value are marked as visited")
        else:
            raise C.Unsupported("visited_objects")
        n = self.child(I, x)
        piece = self.path(I, a["current_path"])
        old = self.pieces.setdefault(n, piece)
        if old != piece:
            raise C.Unsupported(f"two paths for {n}")
        if isinstance(self.obj, SymObj) and not (n in self.kids and can_ref(self.kids[n])):
            return None
        if isinstance(self.obj, SymObj):
            t = self.terms[n]
        else:
            t = I.val_term(x)
        if not I.decide(self.ok(I, n, t)):
            I.raise_(ValueError)
        return None

    def atom(self, I, s):
        """languages of the unknown words in paths"""
        d = s.t.decl() if z3.is_app(s.t) else None
        if d is not None and d.name().startswith("str_of_int"):
            if I.prover.check(fm.lit(s.t.arg(0) < 0)) == "unsat":
                return IDX
            return None
        if I.prover.check(fm.neg(fm.lit(I.enc.mem(s.t, rope.lang_of(I, KEY.pattern))))) == "unsat":
            return KEY
        return None

    def run(self):
        name = f"REC step: {self.what}" + (" writes nothing" if self.frame else "")
        if self.what in TABLE and self.what not in sh.load():
            ob = C.Obligation(name)
            ob.fail("undecided", f"no class {self.what}")
            return ob
        can = self.what in ("list", "map", "keymap") or self.what in TABLE and any(map(can_ref, self.members().values()))

        def body(I, ob):
            e = I.enc
            e.json_data = True
            I.store[ADDED] = ()
            I.store[SEEN] = ()
            I.begun = False
            self.spec = SymObj(z3.Const("doc!", e.Obj), L("AsyncAPI3"))
            self.obj = o = self.value(I)
            self.v = I.call(V.UnifiedReferencesValidator, [], {})
            if isinstance(o, SymObj):
                self.kids = self.members()
                self.terms = {}
                for n in sh.shape(o.c).fields if not sh.shape(o.c).root_model else ["root"]:
                    T = sh.shape(o.c).fields[n]["type"] if not sh.shape(o.c).root_model else sh.shape(o.c).root
                    self.terms[n] = e.attr(o.c, n, T)(o.t)
            base = dict(I.store)
            try:
                I.call(Bound(self.v, rec(), V.UnifiedReferencesValidator), [],
                       {"spec": self.spec, "obj": o, "current_path": Rope((PATH,)), "validated_refs": GSet("validated"),
                        "visited_objects": GSet("visited")})
                bad = None
            except PyRaise as ex:
                bad = ex.exc.c
            stateless(I, self.v, base)
            if bad is None:
                if I.store[ADDED] and not self.frame:
                    raise C.Unsupported("an object stays marked as visited")
                C.reached(I, "accept")
            else:
                if not issubclass(bad, ValueError):
                    return C.mismatch(I, f"raises {bad.__name__}")
                C.reached(I, "reject")
            if self.frame:
                return
            I.in_spec = True
            if isinstance(o, SymObj):
                fs = []
                for n, T in self.kids.items():
                    if can_ref(T):
                        t = self.terms[n]
                        fs.append(fm.disj(fm.lit(e.V.is_none(t)), self.ok(I, n, t)))
                want = fm.conj(*fs)
            elif self.what == "list":
                i = I.fresh("i", z3.IntSort())
                want = fm.forall(fm.Coll(e, "list", o.t, None), i, self.ok(I, "[]", e.lat(o.t, i)))
            elif self.what in ("map", "keymap"):
                k = I.fresh("k", z3.StringSort())
                want = fm.forall(fm.Coll(e, "dict", o.t, None), k, self.ok(I, "{}", e.get(o.t, k)))
            else:
                want = fm.T
            if bad is None:
                C.must(I, want, "accepts a value with a bad reference in it")
            else:
                C.must(I, fm.neg(want), "rejects a value without a bad reference in it")
        h = {"call": self.nested, "rope_atom": self.atom}
        h.update(gset_hooks(lambda I: self.obj))
        return C.prove(name, body, need=("accept", "reject") if can and not self.frame else ("accept",), budget=60.0,
                       hooks=h)


_steps = {}


def step(what):
    if what not in _steps:
        s = Step(what)
        _steps[what] = (s, s.run())
    return _steps[what]


def step_names():
    return [c for c in TABLE if c != "Reference"] + ["list", "map", "keymap"] + SCALARS


# ------------------------------------------------ functions of texts, evaluated once
_pure, _busy = {}, set()


def frozen(I, v):
    """a key for an immutable value (or a list of such, by contents), or None"""
    if v is None or isinstance(v, (str, int, type, Rope)) or type(v).__module__ in ("types", "typing") and not callable(v):
        return vkey(v)
    if isinstance(v, tuple):
        ks = [frozen(I, x) for x in v]
        return None if None in ks else ("tuple", *ks)
    if isinstance(v, HRef) and v.kind == "list":
        ks = [frozen(I, x) for x in I.content(v)]
        return None if None in ks else ("list", *ks)
    if isinstance(v, HRef) and v.kind == "obj" and not any(k[0] == "a" and k[1] == v.oid and k[2] != "$cls" for k in I.store):
        return ("obj", I.store[("a", v.oid, "$cls")])
    return None


def pure(I, fn, args, kw):
    """a call whose outcome depends on texts only and that changes nothing is evaluated once"""
    if not (fn.__module__ or "").startswith("asyncapi3"):
        return NotImplemented
    ks = [frozen(I, I.force(a)) for a in args] + [(n, frozen(I, I.force(a))) for n, a in kw.items()]
    if any(k is None or isinstance(k, tuple) and k[-1] is None for k in ks):
        return NotImplemented
    key = (fn, *ks)
    if key in _busy:
        return NotImplemented
    if key in _pure:
        I.trail.nexp += 1        # replays of a path number their explorations alike
    else:
        seen, I.functions = I.functions, {}
        fresh = I.enc.fresh_n
        _busy.add(key)
        try:
            base = dict(I.store)
            outs = I.explore(lambda: I.call_function(fn, list(args), dict(kw)))
            r = None
            if len(outs) == 1 and outs[0].kind == "normal" and fm.is_true(outs[0].f):
                o = outs[0]
                d, gone = I.diff(o, base)
                v = o.value
                mine = isinstance(v, HRef) and v.kind == "list" and ("h", v.oid) not in base
                if not gone and all(mine and k == ("h", v.oid) for k in d):
                    if mine:
                        c = o.store[("h", v.oid)]
                        if all(not isinstance(x, HRef) and frozen(I, x) is not None for x in c):
                            r = ("list", c, dict(I.functions))
                    elif not isinstance(v, HRef) and frozen(I, v) is not None:
                        r = ("value", v, dict(I.functions))
            _pure[key] = r
        finally:
            _busy.discard(key)
            I.enc.fresh_n = fresh
            new, I.functions = I.functions, seen
            for q, n in new.items():
                I.functions[q] = I.functions.get(q, 0) + n
    r = _pure[key]
    if r is None:
        _busy.add(key)
        try:
            return I.call_function(fn, list(args), dict(kw))
        finally:
            _busy.discard(key)
    for q in r[2]:
        I.functions.setdefault(q, 1)
    return I.alloc("list", r[1]) if r[0] == "list" else r[1]


# ------------------------------------------------------------------- locations
class Kind(GhostVal):
    """the type a reference resolves to"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("kind", self.t.get_id())

    @staticmethod
    def universe():
        return list(sh.load().values()) + [str, int, float, bool, dict, list]

    def among(self, cs):
        u = self.universe()
        ix = [i for i, c in enumerate(u) if c in cs]
        return fm.lit(z3.Or(*[self.t == i for i in ix])) if ix else fm.BOT

    def py_eq(self, I, o):
        if isinstance(o, Kind):
            return fm.lit(self.t == o.t)
        return self.among([o]) if isinstance(o, type) else fm.BOT

    def py_issubclass(self, I, d):
        ds = d if isinstance(d, tuple) else (d,)
        ds = [y for x in ds for y in (typing.get_args(x) or (x,))]
        if not all(isinstance(x, type) for x in ds):
            I.raise_(TypeError)
        return self.among([c for c in self.universe() if any(issubclass(c, x) for x in ds)])

    def py_isinstance(self, I, c):
        cs = c if isinstance(c, tuple) else (c,)
        return fm.lit(any(x in (type, object) for x in cs))

    def py_type(self):
        return type

    def py_truth(self, I):
        return fm.T

    def py_attr(self, I, name):
        if name in ("__name__", "__qualname__", "__module__"):
            return SymStr(I.fresh("name", z3.StringSort()))
        raise C.Unsupported(f"type.{name}")

    def py_native(self, I, f, args, kw):
        if f is typing.get_args:
            return ()
        if f is typing.get_origin:
            return None
        return NotImplemented


class Target(GhostVal):
    """the object a reference resolves to"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def key(self):
        return ("target", self.k.key())

    def py_type(self):
        return self.k

    def py_isinstance(self, I, c):
        return self.k.py_issubclass(I, c)

    def py_truth(self, I):
        raise C.Unsupported("truth of the object referred to")


class Location:
    """REC on an arbitrary Reference at one location"""

    def __init__(self, loc, frame=False):
        self.loc, self.frame = loc, frame
        self.name = f"at {loc.name}: " + ("the check writes nothing" if frame else
                                          f"accepted iff it resolves to {' or '.join(loc.kinds) or 'anything'}")

    def path(self):
        parts = ["spec"]
        toks = self.loc.tokens
        for i, t in enumerate(toks):
            if t == "[]":
                s, n = step("list"), "[]"
            elif t == "{}":
                s, n = step("keymap" if toks[i - 1][1] == "root" else "map"), "{}"
            else:
                s, n = step(t[0]), t[1]
            st, ob = s
            if ob.status != "proved":
                raise C.Unsupported(f"{ob.name} is not proved")
            if n not in st.pieces:
                raise C.Unsupported(f"{ob.name}: {n} is not visited")
            for p in st.pieces[n]:
                parts.append(p.renamed(i) if isinstance(p, Atom) else p)
        return rope.make(parts)

    def resolve(self, I, args, kw):
        a = bind(utils.resolve_reference, args, kw)
        C.must(I, I.eq_f(a["ref"], I.obj_attr(self.obj, "ref")), "resolves another reference")
        C.must(I, I.same_f(a["spec"], self.spec), "resolves in another document")
        vis = a.get("visited_refs")
        if vis is not None and not (isinstance(vis, HRef) and vis.kind == "set" and not I.content(vis)):
            raise C.Unsupported("resolve_reference with references already followed")
        if I.decide(fm.lit(z3.Bool("external"))):
            return None
        if not I.decide(fm.lit(z3.Bool("resolves"))):
            I.raise_(ValueError)
        return I.call(utils.ReferenceResolutionResult, [Target(self.kind), self.kind, SymStr(z3.Const("resolved!", z3.StringSort()))], {})

    def run(self):
        def body(I, ob):
            e = I.enc
            e.json_data = True
            I.store[ADDED] = ()
            I.store[SEEN] = ()
            self.spec = SymObj(z3.Const("doc!", e.Obj), L("AsyncAPI3"))
            self.obj = SymObj(z3.Const("ref!", e.Obj), L("Reference"))
            self.kind = Kind(z3.Int("kind!"))
            u = Kind.universe()
            I.assume(fm.lit(z3.And(self.kind.t >= 0, self.kind.t < len(u))))
            # a chain ends at something else
            I.assume(fm.neg(self.kind.among([L("Reference")])))
            v = I.call(V.UnifiedReferencesValidator, [], {})
            p = self.path()
            base = dict(I.store)
            try:
                I.call(Bound(v, rec(), V.UnifiedReferencesValidator), [],
                       {"spec": self.spec, "obj": self.obj, "current_path": p, "validated_refs": GSet("validated"),
                        "visited_objects": GSet("visited")})
                bad = None
            except PyRaise as ex:
                bad = ex.exc.c
            stateless(I, v, base)
            if bad is None:
                if I.store[ADDED] and not self.frame:
                    raise C.Unsupported("an object stays marked as visited")
                C.reached(I, "accept")
            else:
                if not issubclass(bad, ValueError):
                    return C.mismatch(I, f"raises {bad.__name__}")
                C.reached(I, "reject")
            if self.frame:
                return
            ext, res = fm.lit(z3.Bool("external")), fm.lit(z3.Bool("resolves"))
            if self.loc.others:
                # plain values are admitted inline: the contract has no opinion on references to plain values
                I.assume(fm.disj(ext, fm.neg(res), self.kind.among(list(sh.load().values()))))
            want = fm.disj(ext, fm.conj(res, self.kind.among([L(k) for k in self.loc.kinds])))
            if bad is None:
                C.must(I, want, "accepts a reference that does not resolve to the kind expected here", self.witness)
            else:
                C.must(I, fm.neg(want), "rejects a reference that resolves to the kind expected here", self.witness)
        h = {utils.resolve_reference: self.resolve, "call": pure}
        h.update(gset_hooks(lambda I: self.obj))
        return C.prove(self.name, body, need=("accept", "reject"), budget=90.0, hooks=h)

    def witness(self, I, m):
        """the kind the reference resolves to in the counterexample"""
        if not z3.is_true(m.eval(z3.Bool("resolves"), model_completion=True)) or z3.is_true(m.eval(z3.Bool("external"), model_completion=True)):
            return None
        return Kind.universe()[m.eval(self.kind.t, model_completion=True).as_long()].__name__


# ----------------------------------------------------------------------- entry
def entry(frame=False):
    """the validator: one REC on the document, from the empty path; returns the document"""
    name = "UnifiedReferencesValidator: " + ("writes nothing and returns the document" if frame else
                                             "accepts iff REC accepts the document, and returns it")
    state = {}

    def call(I, fn, args, kw):
        if fn is not rec():
            return NotImplemented
        a = bind(fn, args, kw)
        C.must(I, I.same_f(a["spec"], state["doc"]), "resolves references in another document")
        C.must(I, I.same_f(a["obj"], state["doc"]), "does not start at the document")
        if a["current_path"] != "spec":
            raise C.Unsupported("path of the document")
        for n in ("validated_refs", "visited_objects"):
            x = a.get(n)
            if x is not None and not (isinstance(x, HRef) and x.kind == "set" and not I.content(x)):
                raise C.Unsupported(f"{n} is not empty at the start")
        I.store[SEEN] = I.store[SEEN] + ("call",)
        if not I.decide(fm.lit(z3.Bool("rec!"))):
            I.raise_(ValueError)
        return None

    def body(I, ob):
        e = I.enc
        e.json_data = True
        I.store[SEEN] = ()
        o = state["doc"] = SymObj(z3.Const("doc!", e.Obj), L("AsyncAPI3"))
        v = I.call(V.UnifiedReferencesValidator, [], {})
        base = dict(I.store)
        try:
            r = I.call(v, [o], {})
            bad = None
            C.must(I, I.same_f(r, o), "returns another object")
        except PyRaise as ex:
            bad = ex.exc.c
        stateless(I, v, base)
        if frame:
            C.reached(I, "run")
            return
        if len(I.store[SEEN]) != 1:
            raise C.Unsupported("REC is not called exactly once")
        if bad is not None and not issubclass(bad, ValueError):
            return C.mismatch(I, f"raises {bad.__name__}")
        C.reached(I, "accept" if bad is None else "reject")
        ok = fm.lit(z3.Bool("rec!"))
        C.must(I, ok if bad is None else fm.neg(ok), "verdict differs from REC's")
    return C.prove(name, body, need=("run",) if frame else ("accept", "reject"), budget=30.0, hooks={"call": call})


def missing():
    ob = C.Obligation("REC: validate_references_recursive")
    ob.fail("undecided", "no such method with the parameters spec, obj, current_path")
    return ob


def present():
    f = rec()
    if f is None:
        return False
    try:
        return {"spec", "obj", "current_path", "validated_refs", "visited_objects"} <= set(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        return False
