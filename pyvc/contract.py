"""Contracts on the validators of a model class, and the proof driver."""
import inspect
import time
import types

import z3

from . import formula as fm
from . import shape as sh
from .calls import Interp
from .enc import Enc
from .errors import Infeasible, Unsupported
from .formula import conj, disj, lit, neg
from .interp import Budget, PyRaise, Write
from .values import *
from .values import SymValue, is_sym

REJECT = (ValueError, AssertionError)


class Obligation:
    """one proof obligation and what became of it"""

    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.detail = []
        self.paths = 0
        self.queries = 0
        self.seconds = 0.0
        self.reach = {}
        self.witnesses = []         # concretised counterexample candidates
        self.functions = {}
        self.kind = "deductive"
        self.assumes = []

    def fail(self, status, text):
        order = {"proved": 0, "undecided": 1, "refuted": 2}
        if order[status] > order[self.status]:
            self.status = status
        if text not in self.detail and len(self.detail) < 12:
            self.detail.append(text)

    def record(self):
        return {"obligation": self.name, "status": self.status, "paths": self.paths, "queries": self.queries,
                "seconds": round(self.seconds, 2), "reach": self.reach, "detail": self.detail[:6]}


def new_enc(literal_chars=""):
    e = Enc(sh.shape, literal_chars)
    e.by_name = sh.load()
    return e


def prove(name, body, enc=None, hooks=None, budget=30.0, need=(), max_paths=4000, kinds=("return", "normal")):
    """body(I, ob) is run on every feasible path; it calls ob-level checks"""
    ob = Obligation(name)
    t0 = time.time()
    q0 = fm.STATS.queries
    e = enc or new_enc()
    I = Interp(e, deadline=t0 + budget, hooks=hooks, max_paths=max_paths)
    I.ob = ob
    try:
        outs = I.explore(lambda: body(I, ob))
        ob.paths = len(outs)
        for o in outs:
            if o.kind == "unsupported":
                ob.fail("undecided", "outside the supported subset: " + str(o.value))
            elif o.kind not in kinds:
                ob.fail("undecided", f"unexpected outcome {o.kind} {o.value!r}")
        for n in need:
            if not ob.reach.get(n):
                ob.fail("undecided", f"vacuous: no path reaches '{n}'")
        if not outs:
            ob.fail("undecided", "no path")
    except Budget as ex:
        ob.fail("undecided", str(ex))
    except Unsupported as ex:
        ob.fail("undecided", "outside the supported subset: " + str(ex))
    except z3.Z3Exception as ex:
        ob.fail("undecided", f"z3: {ex}")
    except RecursionError:
        ob.fail("undecided", "recursion")
    ob.queries = fm.STATS.queries - q0
    ob.seconds = time.time() - t0
    ob.functions = dict(I.functions)
    return ob


def reached(I, what):
    ob = I.ob
    if not ob.reach.get(what):
        if I.prover.check() == "sat":
            ob.reach[what] = ob.reach.get(what, 0) + 1
    else:
        ob.reach[what] += 1


def mismatch(I, text, concretise=None):
    """the current path violates the contract: refuted if it is feasible"""
    r = I.prover.check()
    if r == "unsat":
        raise Infeasible()
    if r == "unknown":
        I.ob.fail("undecided", "solver gave no answer: " + text)
        return
    ok, why = I.prover.verified, "strings"
    if ok and I.enc.dlens:
        keep = I.prover.last_model
        I.prover.push()
        try:
            for f in I.enc.small_maps():
                I.prover.add(f)
            ok, why = I.prover.check() == "sat" and I.prover.verified, "small maps"
            keep = I.prover.last_model or keep
        finally:
            I.prover.pop()
        I.prover.last_model = keep
    if ok:
        I.ob.fail("refuted", text)
    else:
        I.ob.fail("undecided", f"no model with concrete {why}: " + text)
    if concretise and len(I.ob.witnesses) < 6:
        try:
            I.ob.witnesses.append(concretise(I, I.prover.last_model))
        except Exception as ex:     # concretisation is best effort; the replay decides
            I.ob.detail.append(f"(no concrete witness: {type(ex).__name__} {ex})"[:200])


def must(I, f, text, concretise=None):
    """f has to hold on the current path"""
    if fm.is_true(f):
        return
    I.prover.push()
    try:
        I.prover.add(neg(f))
        try:
            mismatch(I, text, concretise)
        except Infeasible:
            pass
    finally:
        I.prover.pop()


# ----------------------------------------------------------------- class step
def schema_conds(enc, t, T):
    """constraints a scalar type puts on a value (top level only)"""
    V = enc.V
    fs = []
    for a in enc.alts(T):
        k = a[0]
        if k == "int":
            c = a[1]
            for key, g in (("ge", lambda x, y: x >= y), ("gt", lambda x, y: x > y),
                           ("le", lambda x, y: x <= y), ("lt", lambda x, y: x < y)):
                if key in c:
                    fs.append((lit(V.is_i(t)), lit(g(V.iv(t), c[key]))))
            if "multiple_of" in c:
                fs.append((lit(V.is_i(t)), lit(V.iv(t) % c["multiple_of"] == 0)))
        elif k == "str":
            c = a[1]
            if "max_length" in c:
                fs.append((lit(V.is_s(t)), lit(enc.length(V.sv(t), c["max_length"]) <= c["max_length"])))
            if "min_length" in c:
                fs.append((lit(V.is_s(t)), lit(enc.length(V.sv(t), c["min_length"]) >= c["min_length"])))
            if "pattern" in c:
                raise Unsupported("pattern constraint")
    return fs


def relax(T):
    """the type without scalar constraints (those are modelled as accept conditions)"""
    if T[0] == "union":
        return ["union", [relax(x) for x in T[1]]]
    if T[0] in ("int", "str", "float"):
        return [T[0], {}]
    return T


class ValidatorInfo:
    """the ValidationInfo a validator is handed; what depends on the rest of the input stays unknown"""

    def __init__(self, member):
        self.member = member

    def py_attr(self, I, name):
        if name == "field_name":
            return self.member
        raise Unsupported(f"{name} of the validation info")


def wants_info(fn):
    """as pydantic decides it: by the number of positional parameters without a default"""
    ps = [p for p in inspect.signature(fn).parameters.values()
          if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.default is p.empty]
    if len(ps) > 2:
        raise Unsupported("validator of unknown kind")
    return len(ps) == 2


def call_field_validator(I, fn, value, member=None):
    if not isinstance(fn, (types.MethodType, types.FunctionType)):
        raise Unsupported("field validator of unknown kind")
    return I.call(fn, [value] + ([ValidatorInfo(member)] if wants_info(fn) else []), {})


def apply_validator(I, fn, where, v, member):
    """the value after a validator has been applied to the parts of it that `where` names"""
    if where:
        from spec import parts
        if wants_info(fn):
            fn = parts.informed(fn, ValidatorInfo(member))
        fn = parts.at(fn, where)
        if fn is None:
            raise Unsupported("a validator inside a union of overlapping types")
        w = I.call(fn, [v], {})
    else:
        w = call_field_validator(I, fn, v, member)
    if not I.decide(I.same_value_f(v, w)):
        raise Write(f"a validator of {member} changes the value")
    return w


def run_class(I, cls, o, allow_change=False):
    """the validation step pydantic-core performs on an instance of cls whose
    members have already been given values of their declared types.
    Returns None (accepted) or the exception class."""
    s = sh.shape(cls)
    e = I.enc
    if s.nonafter or s.inner_wrappers or s.custom_init:
        raise Unsupported("validators of a mode other than 'after'")
    try:
        for n, f in s.fields.items():
            T = f["type"]
            vals = f["validators"]
            a = None
            for guard, c in schema_conds(e, e.attr(cls, n, T)(o.t), T):
                if I.decide(conj(guard, neg(c))):
                    return ValueError
            if not vals:
                continue
            if any(m != "after" for m, _, _ in vals):
                raise Unsupported("field validator of a mode other than 'after'")
            if not f["required"] and not f["validate_default"]:
                given = e.uf(f"given_{cls.__name__}_{n}", e.Obj, z3.BoolSort())(o.t)
                if not I.decide(lit(given)):
                    # the member was left out: it has its default and is not validated
                    t = e.attr(cls, n, T)(o.t)
                    d = f["default"]
                    if d is None or isinstance(d, (str, int, bool)):
                        I.assume(lit(t == e.val(d)))
                        continue
                    raise Unsupported("default of a validated field")
            v = I.obj_attr(o, n)
            for m, fn, where in vals:
                v = apply_validator(I, fn, where, v, n)
        for fn in s.after:
            info = [ValidatorInfo(None)] if len(inspect.signature(fn).parameters) > 1 and wants_info(fn) else []
            r = I.call(Bound(o, fn, cls), info, {})
            if not I.decide(I.same_f(r, o)):
                raise Write(f"{fn.__qualname__} does not return the instance")
    except PyRaise as ex:
        return ex.exc.c
    return None


def class_contract(cls, rule, name=None, hooks=None, budget=40.0, pre=None, extras="any", need=("accept", "reject")):
    """acceptance of a cls instance <=> the rules, for every combination of
    member values of the declared types"""
    s = sh.shape(cls)
    ext = s.config.get("extra_fields_behavior") == "allow"

    def body(I, ob):
        e = I.enc
        t = z3.Const(f"{cls.__name__}!{e.tag}", e.Obj)
        o = SymObj(t, cls)
        if pre:
            pre(I, o)
        if ext and extras == "none":
            T = ["map", ["str", {}], ["any"]]
            d = e.attr(cls, "$extra", T)(t)
            I.assume(lit(e.typed(d, T)))
            from .formula import Coll, forall
            I.assume(forall(Coll(e, "dict", e.V.ov(d), None), I.fresh("k", z3.StringSort()), fm.BOT))
        conc = lambda I, m: Concretiser(I, m).obj(t, cls)
        try:
            bad = run_class(I, cls, o)
        except Write as w:
            mismatch(I, f"{w.what}", conc)
            return
        if bad is not None and not issubclass(bad, REJECT):
            mismatch(I, f"raises {bad.__name__} instead of a verdict", conc)
            return
        reached(I, "accept" if bad is None else "reject")
        I.in_spec = True
        want = True
        try:
            for r in ([rule] if callable(rule) else rule):
                if not I.truth(I.call(r, [o], {})):
                    want = False
                    break
        except PyRaise as ex:
            raise Unsupported(f"the rule itself raised {ex.exc.c.__name__}")
        if (bad is None) != want:
            mismatch(I, ("accepts what the rule rejects" if bad is None else "rejects what the rule accepts"), conc)
    return prove(name or f"{cls.__name__}: accepted iff rule", body, hooks=hooks, budget=budget, need=need)


def extension_contract():
    """hooks that replace ExtendableBaseModel.validate_extensions (and the rule
    `extensions`) by its contract: accepts iff ext_ok(self); the contract itself
    is an obligation of C01"""
    from spec import rules as R
    base = sh.load()["ExtendableBaseModel"]
    fn = base.__dict__.get("validate_extensions")
    fn = getattr(fn, "wrapped", fn)

    def ok(I, o):
        return lit(I.enc.uf("ext_ok", I.enc.Obj, z3.BoolSort())(o.t))

    def code(I, args, kw):
        if not I.decide(ok(I, args[0])):
            I.raise_(ValueError)
        return args[0]

    def rule(I, args, kw):
        return I.decide(ok(I, args[0]))
    h = {R.extensions: rule}
    if isinstance(fn, types.FunctionType):
        h[fn] = code
    return h


# ----------------------------------------------------------- counterexamples
class Absent(Exception):
    pass


class Concretiser:
    """raw data for an instance described by a z3 model (best effort)"""

    def __init__(self, I, m):
        self.I, self.e, self.m = I, I.enc, m
        self.V = self.e.V

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def string(self, t):
        from .regex import unz
        v = unz(self.ev(t).as_string())
        return self.e.alpha.dec(self.I.prover.words.get(v, v))

    def obj(self, t, cls):
        s = sh.shape(cls)
        if s.root_model:
            T = s.root
            fn = self.e.attr_fn.get((cls, "root"))
            return {} if fn is None else self.value(fn(t), T)
        out = {}
        for n, f in s.fields.items():
            fn = self.e.attr_fn.get((cls, n))
            if fn is None:
                if f["required"]:
                    out[f["alias"]] = minimal(f["type"])
                continue
            given = next((u for k, u in self.e.ufs.items() if k[0] == f"given_{cls.__name__}_{n}"), None)
            if given is not None and z3.is_false(self.ev(given(t))):
                continue
            v = self.value(fn(t), f["type"])
            if v is None and not f["required"] and f["default"] is None and given is None:
                continue
            out[f["alias"]] = v
        fn = self.e.attr_fn.get((cls, "$extra"))
        if fn is not None:
            for k in self.keys(self.V.ov(fn(t))):
                out.setdefault(k, "extra")
        return out

    def value(self, t, T):
        V, v = self.V, self.ev(t)
        if z3.is_true(self.ev(V.is_none(v))):
            return None
        if z3.is_true(self.ev(V.is_b(v))):
            return z3.is_true(self.ev(V.bv(v)))
        if z3.is_true(self.ev(V.is_i(v))):
            return self.ev(V.iv(v)).as_long()
        if z3.is_true(self.ev(V.is_s(v))):
            return self.string(V.sv(v))
        if z3.is_true(self.ev(V.is_f(v))):
            return 1.5
        o = V.ov(t)
        for a in self.e.alts(T):
            if z3.is_true(self.ev(self.e.typed(t, a))) or len(self.e.alts(T)) == 1:
                k = a[0]
                if k == "model":
                    return self.obj(o, self.e.by_name[a[1]])
                if k == "url":
                    return "https://example.com/"
                if k == "list":
                    n = self.ev(self.e.llen(o)).as_long()
                    return [self.value(self.e.lat(o, z3.IntVal(i)), a[1]) for i in range(max(0, min(n, 4)))]
                if k == "map":
                    return {x: self.value(self.e.get(o, self.zkey(x)), a[2]) for x in self.keys(o)}
                if k == "any":
                    c = self.ev(self.e.cls(o)).as_long()
                    return [] if c == 1 else {}
        return minimal(T)        # a value the proof said nothing about

    def zkey(self, s):
        from .regex import zstr
        return zstr(self.e.alpha, s)

    def keys(self, o):
        from .regex import unz
        cands = []
        fi = self.m[self.e.has]
        try:
            for i in range(fi.num_entries() if fi is not None else 0):
                x = fi.entry(i)
                cands.append(x.arg_value(1))
        except z3.Z3Exception:      # a model without a table for it
            pass
        for d in self.m.decls():
            if d.arity() == 0 and d.range().eq(z3.StringSort()):
                cands.append(self.m[d])
        for lst in self.I.prover.elems.values():
            for _, x in lst:
                if x.sort().eq(z3.StringSort()):
                    cands.append(self.ev(x))
        out = []
        for c in cands:
            if z3.is_string_value(c) and z3.is_true(self.ev(self.e.has(o, c))):
                k = unz(c.as_string())
                k = self.e.alpha.dec(self.I.prover.words.get(k, k))
                if k not in out:
                    out.append(k)
        return out[:6]


def minimal(T):
    k = T[0]
    if k == "union":
        return None if ["none"] in T[1] else minimal(T[1][0])
    if k in ("str", "any"):
        return "x"
    if k == "enum":
        return T[1][0]
    if k == "int":
        return 1
    if k == "float":
        return 1.0
    if k == "bool":
        return True
    if k == "url":
        return "https://example.com/"
    if k == "email":
        return "a@example.com"
    if k == "list":
        return []
    if k == "map":
        return {}
    if k == "model":
        s = sh.shape(sh.load()[T[1]])
        if s.root_model:
            return {}
        return {f["alias"]: minimal(f["type"]) for f in s.fields.values() if f["required"]}
    return None
