"""Symbolic executor for the Python functions of the code under verification.

Every path of a function is explored over symbolic inputs; loops over symbolic
collections are summarised by exploring the body for one arbitrary element, so
results hold for collections of every length.  Anything outside the modelled
subset raises Unsupported: the obligation is then reported as undecided, never
as proved.
"""
import ast
import builtins
import fnmatch
import functools
import inspect
import itertools
import logging
import operator
import re
import time
import types
import typing

import z3

from . import formula as fm
from .enc import DICT, LIST, OTHER, CLASSOBJ, URL, Enc
from .errors import Infeasible, Unsupported
from .formula import Coll, conj, disj, exists, forall, lit, neg
from .regex import unz, zstr
from .values import *
from .values import SymValue, is_sym, vkey


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Write(Exception):
    """a write to an object that existed before the call"""

    def __init__(self, what):
        self.what = what


class Budget(Exception):
    pass


class Outcome:
    __slots__ = ("f", "kind", "value", "store", "trace")

    def __init__(self, f, kind, value, store):
        self.f, self.kind, self.value, self.store = f, kind, value, store

    def __repr__(self):
        return f"Outcome({self.kind}, {self.value!r}, {self.f!r})"


class Frame:
    __slots__ = ("fid", "globals", "parent", "locals", "fn", "owner", "cells", "nonlocals", "globs", "yields")

    def __init__(self, fid, globs, parent, locals_, fn=None):
        self.fid, self.globals, self.parent, self.locals = fid, globs, parent, locals_
        self.fn = fn
        self.cells = {}
        self.nonlocals = set()
        self.globs = set()
        self.owner = None
        self.yields = None


class _Trail:
    def __init__(self, prefix):
        self.prefix, self.pos, self.choices, self.fs, self.alts = prefix, 0, [], [], []
        self.nexp = 0


_module_ast = {}


def function_node(fn):
    """the AST of a function object, located in its source file; the compiled
    node is compared with the running bytecode so that the text analysed is
    the code that runs"""
    code = fn.__code__
    path = code.co_filename
    if path not in _module_ast:
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        table = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = n.decorator_list[0].lineno
                table.setdefault((line, getattr(n, "name", "<lambda>")), []).append(n)
        codes = {}

        def walk(c):
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    codes.setdefault((k.co_firstlineno, k.co_name), []).append(k)
                    walk(k)
        walk(compile(src, path, "exec", dont_inherit=True, flags=0))
        _module_ast[path] = (table, codes)
    table, codes = _module_ast[path]
    k = (code.co_firstlineno, code.co_name)
    nodes = table.get(k, [])
    if len(nodes) != 1:
        raise Unsupported(f"source of {fn.__qualname__} not found")
    if not any(c.co_code == code.co_code and c.co_names == code.co_names for c in codes.get(k, ())):
        raise Unsupported(f"running bytecode of {fn.__qualname__} differs from its source file")
    return nodes[0]


PURE_MODULES = ("re", "fnmatch", "operator", "itertools", "typing", "string", "functools", "posixpath", "collections")


class Interp:
    def __init__(self, enc, deadline=None, hooks=None, max_paths=4000):
        self.enc = enc
        self.prover = fm.Prover(enc)
        self.store = {}
        self.trail = _Trail([])
        self.loopvars = []
        self.ids = 0
        self.deadline = deadline
        self.hooks = dict(hooks or {})
        self.max_paths = max_paths
        self.depth = 0
        self.functions = {}          # qualname -> number of interpretations
        self.writable = set()        # keys of SymObj the obligation allows to be written
        self.exact = True
        self.notes = set()
        self.steps = 0
        self.excstack = []
        self.memo, self.posids, self.posid = {}, {}, 0

    # ------------------------------------------------------------------ paths
    def tick(self):
        self.steps += 1
        if self.steps % 256 == 0 and self.deadline and time.time() > self.deadline:
            raise Budget("time budget")

    def choose(self, fs):
        """n-way fork; the options must be exhaustive"""
        tr = self.trail
        for i, f in enumerate(fs):
            if fm.is_true(f):
                return i
        live = [i for i, f in enumerate(fs) if not fm.is_false(f)]
        if not live:
            raise Infeasible()
        if len(live) == 1 and len(fs) > 1 and tr.pos >= len(tr.prefix):
            pass
        if tr.pos < len(tr.prefix):
            i = tr.prefix[tr.pos]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget")
            feas = []
            for n, i in enumerate(live):
                if n == len(live) - 1 and not feas:
                    feas.append(i)          # at least one option is feasible on a feasible path
                    break
                if self.prover.check(fs[i]) != "unsat":
                    feas.append(i)
            i = feas[0]
            for j in feas[1:]:
                tr.alts.append(tr.choices + [j])
        tr.pos += 1
        tr.choices.append(i)
        tr.fs.append(fs[i])
        self.prover.add(fs[i])
        return i

    def decide(self, f):
        if fm.is_true(f):
            return True
        if fm.is_false(f):
            return False
        return self.choose([f, neg(f)]) == 0

    def assume(self, f):
        self.trail.fs.append(f)
        self.prover.add(f)

    split_raises = False     # keep one outcome per way of raising

    def explore(self, thunk):
        """all feasible paths of thunk.  A path is replayed from its start for every
        alternative; explorations nested in the common prefix are not repeated
        (execution is deterministic, fresh names included)."""
        pos = (self.posid, tuple(self.trail.choices), self.trail.nexp)
        self.trail.nexp += 1
        pid = self.posids.setdefault(pos, len(self.posids) + 1)
        if pid in self.memo:
            outs, self.enc.fresh_n = self.memo[pid]
            return outs
        base_pos, self.posid = self.posid, pid
        try:
            outs = self._explore(thunk)
        finally:
            self.posid = base_pos
        self.memo[pid] = (outs, self.enc.fresh_n)
        return outs

    def _explore(self, thunk):
        base_fresh = last_fresh = self.enc.fresh_n
        base_store, base_trail = self.store, self.trail
        base_ids, base_loop, base_depth = self.ids, list(self.loopvars), self.depth
        base_exc = list(self.excstack)
        outs, work = [], [[]]
        n = 0
        try:
            while work:
                prefix = work.pop()
                n += 1
                if n > self.max_paths:
                    raise Budget("path budget")
                self.store = dict(base_store)
                self.trail = tr = _Trail(prefix)
                self.ids, self.loopvars, self.depth = base_ids, list(base_loop), base_depth
                self.excstack = list(base_exc)
                self.enc.fresh_n = base_fresh
                self.prover.push()
                try:
                    kind, val = "normal", None
                    try:
                        val = thunk()
                    except PyRaise as e:
                        kind, val = "raise", e.exc
                    except Ret as e:
                        kind, val = "return", e.v
                    except Brk:
                        kind = "break"
                    except Cont:
                        kind = "normal"
                    except Write as e:
                        kind, val = "write", e.what
                    except Infeasible:
                        kind = None
                    except Unsupported as e:
                        kind, val = "unsupported", str(e)
                    except RecursionError:
                        kind, val = "unsupported", "recursion too deep"
                finally:
                    self.prover.pop()
                    last_fresh = max(last_fresh, self.enc.fresh_n)
                if kind is not None:
                    outs.append(Outcome(conj(*tr.fs), kind, val, self.store))
                work.extend(tr.alts)
        finally:
            self.store, self.trail = base_store, base_trail
            self.ids, self.loopvars, self.depth = base_ids, base_loop, base_depth
            self.excstack = base_exc
            self.enc.fresh_n = last_fresh
        return outs

    # -------------------------------------------------------------- heap/state
    def reach(self, store, roots, base):
        """keys of `store` reachable from the roots and from the cells of base"""
        seen, todo = set(), list(roots)
        for k in base:
            if k in store:
                seen.add(k)
                todo.append(store[k])
        while todo:
            v = todo.pop()
            if isinstance(v, HRef):
                for k in ((("h", v.oid),) if v.kind != "obj" else
                          tuple(k for k in store if k[0] == "a" and k[1] == v.oid)):
                    if k in store and k not in seen:
                        seen.add(k)
                        todo.append(store[k])
            elif isinstance(v, (tuple, frozenset)):
                todo.extend(v)
            elif isinstance(v, dict):
                todo.extend(v.values())
            elif isinstance(v, Bound):
                todo.append(v.self_)
            elif isinstance(v, StrMethod):
                todo.append(v.obj)
            elif isinstance(v, Seg):
                todo.extend(v.items)
            elif isinstance(v, Func):
                fr = v.frame
                while fr is not None:
                    for k in store:
                        if k[0] == "v" and k[1] == fr.fid and k not in seen:
                            seen.add(k)
                            todo.append(store[k])
                    fr = fr.parent
            elif isinstance(v, ExcVal) and v.args:
                todo.extend(v.args)
        return seen

    def diff(self, out, base):
        """canonical description of the state change of an outcome"""
        st = out.store
        keep = self.reach(st, [out.value] if out.value is not None else [], base)
        keep |= {k for k in st if k[0] == "g" or k[0] == "v" and k[1] <= self.ids}     # ghost state, live frames
        d = {}
        for k in keep:
            if k not in base or base[k] is not st[k]:
                if k not in base or vkey(base[k]) != vkey(st[k]):
                    d[k] = st[k]
        gone = [k for k in base if k not in st]
        return d, gone

    def summarise(self, thunk):
        """explore thunk, merge equal outcomes, continue with one group"""
        base = self.store
        outs = self.explore(thunk)
        groups = {}
        for o in outs:
            d, gone = self.diff(o, base)
            if o.kind == "raise":
                vk = ("exc", o.value.c, len(groups) if self.split_raises else 0)
            elif o.kind in ("unsupported", "write"):
                vk = ("u",)
            else:
                vk = vkey(o.value)
            key = (o.kind, vk, tuple(sorted(((k, vkey(v)) for k, v in d.items()), key=repr)), tuple(gone))
            if key in groups:
                g = groups[key]
                g[0].append(o.f)
                if o.kind == "raise":
                    g[1] = ExcVal(o.value.c)
            else:
                groups[key] = [[o.f], o.value, o.kind, d, gone, self.next_id(o.store)]
        gs = list(groups.values())
        if not gs:
            raise Infeasible()
        if len(gs) == 1:
            g = gs[0]
            f = disj(*g[0])
            if not fm.is_true(f):
                self.assume(f)
        else:
            i = self.choose([disj(*g[0]) for g in gs])
            g = gs[i]
        _, val, kind, d, gone, nid = g
        st = dict(self.store)
        st.update(d)
        for k in gone:
            st.pop(k, None)
        self.store = st
        self.ids = max(self.ids, nid)
        if kind == "raise":
            raise PyRaise(val)
        if kind == "unsupported":
            raise Unsupported(val)
        if kind == "write":
            raise Write(val)
        if kind == "return":
            raise Ret(val)
        if kind == "break":
            raise Brk()
        return val

    def next_id(self, store):
        m = self.ids
        for k in store:
            if isinstance(k[1], int) and k[1] >= m:
                m = k[1] + 1
        return m

    def alloc(self, kind, content=None, c=None):
        self.ids += 1
        r = HRef(kind, self.ids, c)
        if kind != "obj":
            self.store[("h", r.oid)] = content
        else:
            for k, v in (content or {}).items():
                self.store[("a", r.oid, k)] = v
            self.store[("a", r.oid, "$cls")] = c
        return r

    def content(self, r):
        c = self.store.get(("h", r.oid))
        if isinstance(c, Poison):
            raise Unsupported("container read inside a loop that modifies it")
        return c

    def setcontent(self, r, c):
        self.store[("h", r.oid)] = c

    def fresh(self, name, sort):
        return self.enc.fresh(name, sort, tuple(self.loopvars))

    def fresh_str(self, name="str"):
        return SymStr(self.enc.loosely(self.fresh(name, z3.StringSort())))

    # ------------------------------------------------------------- conversions
    def force(self, v):
        """reduce a Sym to a value of definite kind"""
        if not isinstance(v, Sym):
            return v
        V, t = self.enc.V, v.t
        alts = []
        seen = set()
        for a in self.enc.alts(v.T):
            if a[0] == "any":
                alts += [["none"], ["bool"], ["int", {}], ["float", {}], ["str", {}], ["list", ["any"], {}],
                         ["map", ["str", {}], ["any"]]] + ([] if self.enc.json_data else [["other"]])
            elif a[0] == "enum":
                kinds = {type(x) for x in a[1]}
                for ty, k in ((bool, ["bool"]), (int, ["int", {}]), (str, ["str", {}]), (type(None), ["none"])):
                    if ty in kinds:
                        alts.append(k)
            else:
                alts.append(a)
        uniq = []
        for a in alts:
            k = "str" if a[0] == "email" else a[0]
            key = (k, a[1]) if k == "model" else k
            if key not in seen:
                seen.add(key)
                uniq.append(a)
        conds = []
        for a in uniq:
            if a[0] == "other":
                conds.append(lit(z3.And(V.is_o(t), self.enc.cls(V.ov(t)) != LIST, self.enc.cls(V.ov(t)) != DICT)))
            elif a[0] in ("str", "email"):
                conds.append(lit(V.is_s(t)))
            elif a[0] == "int":
                conds.append(lit(V.is_i(t)))
            elif a[0] == "float" and any(b[0] == "int" for b in uniq):
                conds.append(lit(V.is_f(t)))
            else:
                conds.append(lit(self.enc.typed(t, a)))
        i = 0 if len(uniq) == 1 else self.choose(conds)
        a = uniq[i]
        k = a[0]
        z = z3.simplify
        if k == "none":
            return None
        if k == "bool":
            return SymBool(lit(V.bv(t)))
        if k == "int":
            return SymInt(V.iv(t))
        if k in ("str", "email"):
            return SymStr(V.sv(t))
        if k == "float":
            return Opaque("float", t.get_id(), t)
        if k == "list":
            return SymList(V.ov(t), a[1])
        if k == "map":
            return SymDict(V.ov(t), a[2])
        if k == "model":
            return SymObj(V.ov(t), self.enc.by_name[a[1]])
        if k == "url":
            return Opaque("url", t.get_id(), t)
        return Opaque(k, t.get_id(), t)

    def zs(self, v):
        """z3 string term of a (concrete or symbolic) str"""
        v = self.force(v)
        if isinstance(v, SymStr):
            return v.t
        if isinstance(v, str):
            return self.lits(v)
        raise Unsupported(f"not a string: {v!r}")

    def lits(self, s):
        try:
            return self.enc.const(s)
        except KeyError as e:
            raise Unsupported(str(e))

    def zi(self, v):
        v = self.force(v)
        if isinstance(v, SymInt):
            return v.t
        if isinstance(v, SymBool):
            return z3.If(self.bool_z3(v.f), z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, int):
            return z3.IntVal(int(v))
        raise Unsupported(f"not an int: {v!r}")

    def bool_z3(self, f):
        if fm.quantfree(f):
            return fm.to_z3(f)
        raise Unsupported("quantified condition used as a value")

    def val_term(self, v):
        """a Val term equal to v, or None"""
        V = self.enc.V
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, SymStr):
            return V.s(v.t)
        if isinstance(v, SymInt):
            return V.i(v.t)
        if isinstance(v, SymBool) and fm.quantfree(v.f):
            return V.b(fm.to_z3(v.f))
        if isinstance(v, (SymObj, SymList, SymDict)):
            return V.o(v.t)
        if v is None or isinstance(v, (bool, int, str)):
            try:
                return self.enc.val(v)
            except KeyError:
                return None
        return None

    def truth_f(self, v):
        """condition under which v is true"""
        if hasattr(type(v), "py_truth"):
            return v.py_truth(self)
        if isinstance(v, SymValue):
            if isinstance(v, SymBool):
                return v.f
            if isinstance(v, Sym):
                f = self.sym_truth(v)
                if f is not None:
                    return f
                return self.truth_f(self.force(v))
            if isinstance(v, SymStr):
                return lit(v.t != z3.StringVal(""))
            if isinstance(v, SymInt):
                return neg(self.int_f("==", v.t, z3.IntVal(0)))
            if isinstance(v, SymList):
                return lit(self.enc.llen(v.t) > 0)
            if isinstance(v, SymDict):
                c = Coll(self.enc, "dict", v.t, None)
                return exists(c, self.fresh("k", z3.StringSort()), fm.T)
            if isinstance(v, SymView):
                return self.truth_f(v.base)
            if isinstance(v, SymMatch) or isinstance(v, (Func, Bound, StrMethod, ExcVal, SymType, SymId)):
                return fm.T
            if isinstance(v, SymSplit):
                return fm.T
            if isinstance(v, SymObj):
                for nm in ("__bool__", "__len__"):
                    m = inspect.getattr_static(v.c, nm, None)
                    if m is not None:
                        return self.truth_f(self.call(Bound(v, m), [], {}))
                return fm.T
            if isinstance(v, HRef):
                if v.kind == "obj":
                    for nm in ("__bool__", "__len__"):
                        m = inspect.getattr_static(v.c, nm, None)
                        if m is not None:
                            return self.truth_f(self.call(Bound(v, m), [], {}))
                    return fm.T
                return self.nonempty(self.content(v))
            if isinstance(v, Opaque) and v.what in ("url", "subclass", "type"):
                return fm.T
            if isinstance(v, Opaque) and v.what == "float" and v.t is not None:
                V = self.enc.V
                return lit(z3.Or(z3.And(V.is_f(v.t), V.fv(v.t) != 0), z3.And(V.is_i(v.t), V.iv(v.t) != 0)))
            if isinstance(v, Opaque) and v.t is not None:
                return lit(self.enc.loosely(self.enc.uf("truthy", self.enc.V, z3.BoolSort())(v.t)))
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, tuple):
            return lit(len(v) > 0)
        try:
            return lit(bool(v))
        except Unsupported:
            raise
        except Exception as e:
            raise Unsupported(f"truth of {type(v)}: {e}")

    def nonempty(self, items):
        if isinstance(items, dict):
            return lit(len(items) > 0)
        fs = []
        for x in items:
            if isinstance(x, Seg):
                g = self.nonempty(x.items)
                fs.append(exists(x.coll, x.v, conj(x.f, g)))
            elif isinstance(x, Poison):
                raise Unsupported("container read inside a loop that modifies it")
            else:
                return fm.T
        return disj(*fs)

    def sym_truth(self, v):
        """truth of a Sym as a formula, without forking, when every alternative allows it"""
        V, t = self.enc.V, v.t
        fs = []
        for a in self.enc.alts(v.T):
            k = a[0]
            if k == "none":
                continue
            if k == "bool":
                fs.append(lit(z3.And(V.is_b(t), V.bv(t))))
            elif k == "int":
                fs.append(lit(z3.And(V.is_i(t), V.iv(t) != 0)))
            elif k in ("str", "email"):
                fs.append(lit(z3.And(V.is_s(t), V.sv(t) != z3.StringVal(""))))
            elif k == "enum":
                ps = [t == self.enc.val(x) for x in a[1] if x]
                if ps:
                    fs.append(lit(z3.Or(*ps)))
            elif k == "list":
                fs.append(lit(z3.And(self.enc.typed(t, a), self.enc.llen(V.ov(t)) > 0)))
            elif k == "model":
                c = self.enc.by_name[a[1]]
                if inspect.getattr_static(c, "__bool__", None) is None and \
                        inspect.getattr_static(c, "__len__", None) is None:
                    fs.append(lit(self.enc.typed(t, a)))
                else:
                    return None
            elif k in ("subclass", "url"):
                fs.append(lit(self.enc.typed(t, a)))
            else:
                return None
        return disj(*fs)

    def truth(self, v):
        if isinstance(v, SymValue):
            return self.decide(self.truth_f(v))
        return self.decide(self.truth_f(v))

    # --------------------------------------------------------------- equality
    def eq_f(self, a, b):
        """condition under which a == b (builtin semantics)"""
        if not is_sym(a) and not is_sym(b):
            try:
                return lit(bool(a == b))
            except Exception as e:
                raise Unsupported(f"native ==: {e}")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return fm.BOT
            return conj(*[self.eq_f(x, y) for x, y in zip(a, b)])
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym) and not isinstance(b, SymValue):
            if b is None or isinstance(b, str):
                # objects never equal None or a str (checked: no __eq__ override)
                return lit(a.t == self.enc.val(b)) if self.known(b) else fm.BOT
        a, b = self.force(a), self.force(b)
        if not is_sym(a) and not is_sym(b):
            return lit(bool(a == b))
        for x, y in ((a, b), (b, a)):
            if hasattr(type(x), "py_eq"):
                return x.py_eq(self, y)
        sa, sb = isinstance(a, (SymStr, str)), isinstance(b, (SymStr, str))
        if sa and sb:
            return self.str_eq(self.zs(a), self.zs(b))
        ia, ib = isinstance(a, (SymInt, int, SymBool)), isinstance(b, (SymInt, int, SymBool))
        if ia and ib:
            if isinstance(a, SymBool) and isinstance(b, (SymBool, bool)):
                fb = b.f if isinstance(b, SymBool) else lit(b)
                return fm.iff(a.f, fb)
            if isinstance(b, SymBool) and isinstance(a, bool):
                return fm.iff(b.f, lit(a))
            return self.int_f("==", self.zi(a), self.zi(b))
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o = a if isinstance(a, Opaque) else b
                if o.what in ("url", "float", "other", "subclass"):
                    return fm.BOT
                raise Unsupported("== on an opaque value")
            return fm.BOT
        if isinstance(a, SymId) and isinstance(b, SymId):
            return self.same_f(a.of, b.of)
        if isinstance(a, HRef) and isinstance(b, HRef) and a.kind == b.kind and a.kind in ("list",):
            ca, cb = self.content(a), self.content(b)
            if not any(isinstance(x, Seg) for x in ca + cb):
                return self.eq_f(tuple(ca), tuple(cb))
        if isinstance(a, SymSplit) or isinstance(b, SymSplit):
            o, s = (b, a) if isinstance(a, SymSplit) else (a, b)
            if isinstance(o, HRef) and o.kind == "list":
                c = self.content(o)
                if len(c) == 1 and c[0] == "" and isinstance(c[0], str) and s.sep:
                    return self.eq_f(SymStr(s.t), "")
            raise Unsupported("== on split()")
        kinds = [self.kind(x) for x in (a, b)]
        if None not in kinds and kinds[0] != kinds[1] and "obj" not in kinds:
            return fm.BOT
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            for m in ("__eq__",):
                f = inspect.getattr_static(a.c, m, None)
                if isinstance(f, types.FunctionType) and f.__module__.startswith("asyncapi3"):
                    return self.truth_f(self.call(Bound(a, f), [b], {}))
            h = self.hooks.get("model_eq")
            if h:
                return h(self, a, b)
        if vkey(a) == vkey(b):
            return fm.T
        raise Unsupported(f"== on {a!r} and {b!r}")

    def contains_f(self, s, sub):
        if z3.is_string_value(sub):
            rx = self.enc.rx
            return lit(self.enc.mem(s, rx.cat(rx.ALL, rx.word(unz(sub.as_string())), rx.ALL)))
        return lit(z3.Contains(s, sub))

    def str_eq(self, a, b):
        """equality of two string terms"""
        if z3.is_string_value(a):
            a, b = b, a
        if z3.is_string_value(b) and z3.is_app(a) and (
                a.decl().get_id() in self.enc.before or a.decl().get_id() in self.enc.drops or
                a.decl().get_id() in self.enc.preims or a.decl().get_id() in self.enc.strips or
                a.decl().kind() == z3.Z3_OP_SEQ_CONCAT):
            return lit(self.enc.mem(a, self.enc.rx.word(unz(b.as_string()))))
        return lit(a == b)

    def int_f(self, op, x, y):
        if z3.is_int_value(x) and not z3.is_int_value(y):
            x, y = y, x
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if z3.is_int_value(y) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STR_TO_INT:
            b = self.enc.int_cmp(op, x.arg(0), y.as_long())
            if b is not None:
                return lit(b)
        if z3.is_int_value(y) and z3.is_app(x) and x.num_args() == 1 and x.decl().get_id() in self.enc.counts:
            b = self.enc.count_cmp(op, x.arg(0), self.enc.counts[x.decl().get_id()], y.as_long())
            if b is not None:
                return lit(b)
        if z3.is_int_value(y) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_LENGTH and \
                not z3.is_string_value(x.arg(0)):
            b = self.enc.len_cmp(op, x.arg(0), y.as_long())
            if b is not None:
                return lit(b)
            x = self.enc.length(x.arg(0), y.as_long())
        if z3.is_int_value(y) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_INDEX and \
                z3.is_string_value(x.arg(1)) and z3.is_int_value(x.arg(2)) and x.arg(2).as_long() == 0:
            has = self.contains_f(x.arg(0), x.arg(1))
            k = y.as_long()
            if (op, k) in ((">=", 0), (">", -1)):
                return has
            if (op, k) in (("<", 0), ("==", -1), ("<=", -1)):
                return neg(has)
            if (op, k) == ("==", 0):
                rx = self.enc.rx
                return lit(self.enc.mem(x.arg(0), rx.cat(rx.word(unz(x.arg(1).as_string())), rx.ALL)))
        return lit({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op])

    def known(self, s):
        try:
            self.enc.val(s)
            return True
        except KeyError:
            raise Unsupported(f"literal {s!r} not in the alphabet")

    def kind(self, v):
        if isinstance(v, (SymStr, str)) or hasattr(type(v), "py_type") and v.py_type() is str:
            return "str"
        if isinstance(v, (SymInt, SymBool, int)):
            return "int"
        if isinstance(v, SymList) or (isinstance(v, HRef) and v.kind == "list") or isinstance(v, SymSplit):
            return "list"
        if isinstance(v, SymDict) or (isinstance(v, HRef) and v.kind == "dict"):
            return "dict"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, SymObj) or (isinstance(v, HRef) and v.kind == "obj"):
            return "obj"
        if isinstance(v, HRef):
            return v.kind
        return None

    def same_f(self, a, b):
        """identity"""
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if b is None or isinstance(b, bool):
                return lit(a.t == self.enc.val(b))
            if isinstance(b, Sym):
                if a.t.eq(b.t):
                    return fm.T
            a = self.force(a)
            b = self.force(b)
        if isinstance(a, SymValue) or isinstance(b, SymValue):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SymBool) and isinstance(y, bool):
                    return x.f if y else neg(x.f)
            if a is None or b is None:
                return fm.BOT
            if vkey(a) == vkey(b):
                return fm.T
            if isinstance(a, SymObj) and isinstance(b, SymObj):
                if a.c is not b.c:
                    return fm.BOT
                return lit(a.t == b.t)
            if isinstance(a, HRef) or isinstance(b, HRef):
                return fm.BOT
            if isinstance(a, SymType) or isinstance(b, SymType):
                raise Unsupported("type identity")
            if self.kind(a) != self.kind(b) and None not in (self.kind(a), self.kind(b)):
                return fm.BOT
            raise Unsupported(f"identity of {a!r} and {b!r}")
        return lit(a is b)

    def same_value_f(self, a, b):
        """a and b denote the same value (identity for objects)"""
        if vkey(a) == vkey(b):
            return fm.T
        ta, tb = self.val_term(a), self.val_term(b)
        if ta is not None and tb is not None:
            return lit(ta == tb)
        return self.same_f(a, b)

    def order_f(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if not is_sym(a) and not is_sym(b):
            try:
                return lit(bool({"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op](a, b)))
            except TypeError:
                self.raise_(TypeError)
        if a is None or b is None:
            self.raise_(TypeError)
        if self.setlike(a) and self.setlike(b):
            if op in (">=", ">"):
                a, b, op = b, a, {">=": "<=", ">": "<"}[op]
            f = self.subset_f(self.collect(a), b)
            return f if op == "<=" else conj(f, neg(self.subset_f(self.collect(b), a)))
        if isinstance(a, (SymInt, int, SymBool)) and isinstance(b, (SymInt, int, SymBool)):
            x, y = self.zi(a), self.zi(b)
            if z3.is_int_value(x) or z3.is_int_value(y):
                return self.int_f(op, x, y)
            return lit({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
        if isinstance(a, (SymInt, SymBool, int)) and isinstance(b, float) and b == int(b):
            return self.order_f(op, a, int(b))
        if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
            if isinstance(a, str):
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
            if isinstance(b, str) and b.isascii() and len(b) == 1:
                # s < "k"  <=>  s is empty or starts with a smaller character
                rx = self.enc.rx
                low = rx.alt(rx.EPS, rx.cat(rx.cls(rx.mask(lambda c: c < b)), rx.ALL))
                if op in ("<=", ">"):
                    low = rx.alt(low, rx.word(b))
                f = lit(self.enc.mem(self.zs(a), low))
                return f if op in ("<", "<=") else neg(f)
            raise Unsupported("string order")
        if self.kind(a) and self.kind(b) and self.kind(a) != self.kind(b) and \
                self.kind(a) in ("str", "int") and self.kind(b) in ("str", "int"):
            self.raise_(TypeError)
        raise Unsupported(f"{op} on {a!r}, {b!r}")

    def in_f(self, x, c):
        c = self.force(c)
        if hasattr(type(c), "py_contains"):
            return c.py_contains(self, self.force(x))
        if isinstance(c, GhostVal) and "contains" in self.hooks:
            return self.hooks["contains"](self, x, c)
        if isinstance(c, (tuple, list)) and not isinstance(c, SymValue):
            return disj(*[self.eq_f(x, y) for y in c]) if c else fm.BOT
        if isinstance(c, (frozenset, set, dict, types.MappingProxyType)) and not isinstance(c, SymValue):
            if not is_sym(x):
                return lit(x in c)
            x = self.force(x)
            if not isinstance(x, (SymStr, SymInt, SymBool)):
                if x is None:
                    return lit(None in c)
                raise Unsupported("membership of a symbolic object")
            ys = [y for y in c if self.kind(y) == self.kind(x)]
            return disj(*[self.eq_f(x, y) for y in ys]) if ys else fm.BOT
        if isinstance(c, SymDict) or isinstance(c, SymView) and c.kind == "keys":
            d = c if isinstance(c, SymDict) else c.base
            x = self.force(x)
            if isinstance(x, (SymStr, str)):
                return lit(self.enc.has(d.t, self.zs(x)))
            if isinstance(x, (SymInt, SymBool, int, float, type(None), tuple)):
                return fm.BOT
            raise Unsupported("key type")
        if isinstance(c, HRef):
            if c.kind == "obj":
                m = inspect.getattr_static(c.c, "__contains__", None)
                if m is not None:
                    return self.truth_f(self.call(Bound(c, m), [x], {}))
                raise Unsupported("in on object")
            cont = self.content(c)
            items = list(cont) if not isinstance(cont, dict) else [k.v for k in cont]
            x = self.force(x)
            fs = []
            for y in items:
                fs.append(self.seg_in(x, y))
            return disj(*fs) if fs else fm.BOT
        if isinstance(c, range) and c.step > 0:
            x = self.force(x)
            if isinstance(x, (SymInt, SymBool, int)):
                z = self.zi(x)
                f = conj(self.int_f(">=", z, z3.IntVal(c.start)), self.int_f("<", z, z3.IntVal(c.stop)))
                return f if c.step == 1 else conj(f, lit((z - c.start) % c.step == 0))
            if isinstance(x, (SymStr, str)) or x is None:
                return fm.BOT
        if isinstance(c, (SymStr, str)):
            x = self.force(x)
            if isinstance(c, str) and hasattr(type(x), "py_within"):
                return x.py_within(self, c)
            if not isinstance(x, (SymStr, str)):
                self.raise_(TypeError)
            if isinstance(c, str) and isinstance(x, str):
                return lit(x in c)
            if isinstance(c, str) and len(c) <= 40:
                rx = self.enc.rx
                zc = self.enc.alpha.enc(c)
                subs = {zc[i:j] for i in range(len(zc) + 1) for j in range(i, len(zc) + 1)}
                return lit(self.enc.mem(self.zs(x), rx.alt(*[rx.word(w) if w else rx.EPS for w in sorted(subs)])))
            return self.contains_f(self.zs(c), self.zs(x))
        if isinstance(c, SymObj):
            m = inspect.getattr_static(c.c, "__contains__", None)
            if m is not None:
                return self.truth_f(self.call(Bound(c, m), [x], {}))
        if isinstance(c, SymList):
            x = self.force(x)
            i = self.fresh("i", z3.IntSort())
            el = Sym(self.enc.lat(c.t, i), c.T)
            t = self.val_term(x)
            if t is None or isinstance(x, (SymObj, SymList, SymDict)):
                raise Unsupported("membership in a symbolic list")
            return exists(Coll(self.enc, "list", c.t, None), i, lit(el.t == t))
        if c is None:
            self.raise_(TypeError)
        raise Unsupported(f"in on {c!r}")

    def seg_in(self, x, y):
        if isinstance(y, Seg):
            inner = disj(*[self.seg_in(x, z) for z in y.items])
            return exists(y.coll, y.v, conj(y.f, inner))
        if isinstance(y, Poison):
            raise Unsupported("container read inside a loop that modifies it")
        if isinstance(y, Sym) and isinstance(x, (SymStr, str)):
            return lit(y.t == self.val_term(x))
        if isinstance(x, SymValue) or isinstance(y, SymValue):
            ka, kb = self.kind(x), self.kind(y)
            if ka and kb and ka != kb:
                return fm.BOT
        return self.eq_f(x, y)

    def raise_(self, c, *args):
        raise PyRaise(ExcVal(c, args))
