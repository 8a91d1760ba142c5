"""Calls, attributes, builtins and the contracts of library functions."""
import ast
import builtins
import fnmatch
import inspect
import itertools
import logging
import operator
import re
import types
import typing

import z3

from . import formula as fm
from . import rope
from .enc import CLASSOBJ, DICT, LIST
from .errors import Infeasible, Unsupported
from .exec_ import GenExp, _K, Interp as _Exec, local_names
from .formula import Coll, conj, disj, exists, forall, lit, neg
from .regex import unz
from .interp import Brk, Cont, Frame, PyRaise, Ret, Write, function_node
from .values import *
from .values import SymValue, is_sym, vkey

_EMPTY = inspect.Parameter.empty
STR = z3.StringSort()


class Interp(_Exec):
    # --------------------------------------------------------------- attributes
    def static(self, c, name):
        try:
            return inspect.getattr_static(c, name)
        except AttributeError:
            return None

    def get_attr(self, o, name):
        o = self.force(o)
        if isinstance(o, SymObj):
            return self.obj_attr(o, name)
        if isinstance(o, HRef) and o.kind == "obj":
            k = ("a", o.oid, name)
            if k in self.store:
                v = self.store[k]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name == "__class__":
                return o.c
            if name == "__dict__":
                raise Unsupported("__dict__")
            st = self.static(o.c, name)
            if st is None:
                self.raise_(AttributeError)
            return self.bind(o, st, o.c, name)
        if isinstance(o, Super):
            return self.super_attr(o, name)
        if hasattr(type(o), "py_attr"):
            return o.py_attr(self, name)
        if isinstance(o, (GhostVal, SymStr, HRef, SymList, SymDict, SymView, SymMatch, SymSplit, SymInt, SymBool, GenExp)):
            return StrMethod(o, name)
        if isinstance(o, ExcVal):
            if name == "args":
                return tuple(o.args or ())
            raise Unsupported("attribute of an exception")
        if isinstance(o, (Func, Bound)):
            if name in ("__name__", "__qualname__"):
                return self.fresh_str("name")
            raise Unsupported("attribute of a function")
        if isinstance(o, SymType):
            if name in ("__name__", "__qualname__"):
                return SymStr(self.enc.loosely(self.enc.uf("type_name", z3.IntSort(), STR)(o.t)))
            raise Unsupported("attribute of a symbolic type")
        if isinstance(o, Opaque):
            raise Unsupported(f"attribute {name} of an opaque value")
        if isinstance(o, SymValue):
            raise Unsupported(f"attribute {name} of {o!r}")
        if o is None or isinstance(o, (int, float)) and not isinstance(o, type):
            if not hasattr(o, name):
                self.raise_(AttributeError)
        if isinstance(o, (str, list, dict, tuple, set, frozenset, types.MappingProxyType)) and not (
                isinstance(o, tuple) and hasattr(o, "_fields") and name in o._fields):
            if isinstance(o, tuple) and not hasattr(o, name):
                self.raise_(AttributeError)
            return StrMethod(o, name)
        if isinstance(o, type):
            st = self.static(o, name)
            if isinstance(st, classmethod):
                return Bound(o, st.__func__, o)
            if isinstance(st, staticmethod):
                return st.__func__
        try:
            return getattr(o, name)
        except AttributeError:
            self.raise_(AttributeError)

    def obj_attr(self, o, name):
        c = o.c
        sh = self.enc.shapes(c)
        over = self.store.get(("s", o.t.get_id(), name))
        if over is not None:
            return over[1]
        if name == "root" and sh.root_model:
            return self.typed_sym(self.enc.attr(c, "root", sh.root)(o.t), sh.root)
        if name in sh.fields:
            T = sh.fields[name]["type"]
            return self.typed_sym(self.enc.attr(c, name, T)(o.t), T)
        if name == "__class__":
            return c
        if name in ("model_extra", "__pydantic_extra__", "__dict__", "__pydantic_fields_set__", "model_fields_set") \
                and "raw_attr" in self.hooks:
            return self.hooks["raw_attr"](self, o, name)
        if name in ("model_extra", "__pydantic_extra__"):
            if sh.config.get("extra_fields_behavior") == "allow":
                T = ["map", ["str", {}], ["any"]]
                return self.typed_sym(self.enc.attr(c, "$extra", T)(o.t), T)
            return None
        if name == "model_fields":
            return c.model_fields
        if name in ("__dict__", "__pydantic_fields_set__", "model_fields_set"):
            raise Unsupported(name)
        st = self.static(c, name)
        if st is None:
            if sh.config.get("extra_fields_behavior") == "allow":
                T = ["map", ["str", {}], ["any"]]
                d = self.enc.V.ov(self.enc.attr(c, "$extra", T)(o.t))
                k = self.lits(name)
                if self.decide(lit(self.enc.has(d, k))):
                    return Sym(self.enc.get(d, k), ["any"])
            self.raise_(AttributeError)
        return self.bind(o, st, c, name)

    def typed_sym(self, t, T):
        s = Sym(t, T)
        if len(self.enc.alts(T)) == 1 and T[0] in ("model", "map", "list"):
            self.prover.add(lit(self.enc.typed(t, T)))
            self.trail.fs.append(lit(self.enc.typed(t, T)))
            return self.force(s)
        return s

    def bind(self, o, st, owner, name):
        if isinstance(st, types.FunctionType):
            return Bound(o, st, owner)
        if isinstance(st, classmethod):
            return Bound(owner, st.__func__, owner)
        if isinstance(st, staticmethod):
            return st.__func__
        if isinstance(st, property):
            if isinstance(st.fget, types.FunctionType):
                return self.call(Bound(o, st.fget, owner), [], {})
        if type(st).__name__ == "PydanticDescriptorProxy":
            return self.bind(o, st.wrapped, owner, name)
        if isinstance(st, (int, str, float, bool, tuple, frozenset, dict, list, set, type(None), re.Pattern, type)):
            return st
        import functools
        if isinstance(st, functools.cached_property):
            return self.call(Bound(o, st.func, owner), [], {})
        raise Unsupported(f"attribute {name} of {owner.__name__}")

    def super_attr(self, s, name):
        obj_c = s.obj.c if isinstance(s.obj, (SymObj, HRef)) else s.obj
        mro = obj_c.__mro__
        i = mro.index(s.owner)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                h = self.hooks.get(("super", name))
                if h:
                    return _Hook(h, s.obj)
                if isinstance(s.obj, type):
                    st = c.__dict__[name]
                    if isinstance(st, classmethod):
                        return Bound(s.obj, st.__func__, c)
                return self.bind(s.obj, c.__dict__[name], c, name)
        self.raise_(AttributeError)

    def set_attr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, HRef) and o.kind == "obj":
            self.store[("a", o.oid, name)] = v
            return
        h = self.hooks.get("set_attr")
        if h:
            return h(self, o, name, v)
        raise Write(f"attribute {name} of an object that existed before")

    def isinstance_f(self, v, c):
        if isinstance(c, HRef):
            c = tuple(self.content(c))
        if isinstance(c, tuple):
            return disj(*[self.isinstance_f(v, x) for x in c])
        if isinstance(c, types.UnionType):
            return disj(*[self.isinstance_f(v, x) for x in typing.get_args(c)])
        if c is None:
            c = type(None)
        if isinstance(c, SymValue) or not isinstance(c, type):
            if getattr(c, "__origin__", None) in (list, dict, set, tuple):
                self.raise_(TypeError)
            if isinstance(c, SymValue) or not inspect.isclass(getattr(c, "__origin__", None)):
                raise Unsupported("isinstance class")
            c = c.__origin__
        if isinstance(v, Sym):
            return self.sym_isinstance(v, c)
        if hasattr(type(v), "py_isinstance"):
            return v.py_isinstance(self, c)
        if not is_sym(v):
            return lit(isinstance(v, c))
        if isinstance(v, tuple):
            return lit(issubclass(type(v), c))
        if isinstance(v, Opaque):
            if v.what == "url":
                from pydantic import AnyUrl
                return lit(issubclass(AnyUrl, c))
            if v.what in ("float",):
                return lit(issubclass(float, c))
            if v.what == "subclass":
                return lit(issubclass(type, c))
            raise Unsupported("isinstance of an opaque value")
        t = self.pytype(v)
        if t is None:
            raise Unsupported(f"isinstance of {v!r}")
        return lit(issubclass(t, c))

    def pytype(self, v):
        if hasattr(type(v), "py_type"):
            return v.py_type()
        if isinstance(v, SymStr):
            return str
        if isinstance(v, SymInt):
            return int
        if isinstance(v, SymBool):
            return bool
        if isinstance(v, (SymList, SymSplit)):
            return list
        if isinstance(v, SymDict):
            return dict
        if isinstance(v, SymObj):
            return v.c
        if isinstance(v, HRef):
            return {"list": list, "dict": dict, "set": set}.get(v.kind) or v.c
        if isinstance(v, ExcVal):
            return v.c
        if isinstance(v, (Func,)):
            return types.FunctionType
        if isinstance(v, SymMatch):
            return re.Match
        return None

    def sym_isinstance(self, v, c):
        V, t, e = self.enc.V, v.t, self.enc
        fs = []
        for a in e.alts(v.T):
            k = a[0]
            if k == "any":
                for ty, f in ((type(None), V.is_none(t)), (bool, V.is_b(t)), (int, V.is_i(t)), (float, V.is_f(t)),
                              (str, V.is_s(t)),
                              (list, z3.And(V.is_o(t), e.cls(V.ov(t)) == LIST)),
                              (dict, z3.And(V.is_o(t), e.cls(V.ov(t)) == DICT))):
                    if issubclass(ty, c):
                        fs.append(lit(f))
                if c not in (type(None), bool, int, float, str, list, dict) and not e.json_data:
                    other = z3.And(V.is_o(t), e.cls(V.ov(t)) != LIST, e.cls(V.ov(t)) != DICT)
                    if c is object:
                        fs.append(lit(other))
                    else:
                        # an arbitrary foreign object may or may not be an instance
                        p = e.uf(f"isinstance_{c.__name__}", e.Val, z3.BoolSort())(t)
                        fs.append(lit(z3.And(other, p)))
                continue
            if k == "enum":
                ps = [t == e.val(x) for x in a[1] if isinstance(x, c)]
                if ps:
                    fs.append(lit(z3.Or(*ps)))
                continue
            ty = {"none": type(None), "bool": bool, "int": int, "str": str, "list": list, "map": dict,
                  "subclass": type}.get(k)
            if k == "model":
                ty = e.by_name[a[1]]
            if k == "email":
                from asyncapi3.models.helpers import EmailStr
                ty = EmailStr
            if k == "url":
                from pydantic import AnyUrl
                if issubclass(AnyUrl, c):
                    fs.append(lit(e.typed(t, a)))
                continue
            if k == "float":
                for x, f in ((float, V.is_f(t)), (int, V.is_i(t))):
                    if issubclass(x, c):
                        fs.append(lit(f))
                continue
            if ty is None:
                raise Unsupported("isinstance on " + k)
            if issubclass(ty, c):
                fs.append(lit(e.typed(t, a)))
        return disj(*fs) if fs else fm.BOT

    # ------------------------------------------------------------ item access
    def get_item(self, o, i):
        o = self.force(o)
        i = self.force(i)
        if hasattr(type(o), "py_item"):
            return o.py_item(self, i)
        if isinstance(o, SymObj):
            m = self.static(o.c, "__getitem__")
            if m is None:
                self.raise_(TypeError)
            return self.call(Bound(o, m), [i], {})
        if isinstance(o, SymDict):
            if i is None or isinstance(i, (SymInt, SymBool, int, float)):
                self.raise_(KeyError)
            k = self.zs(i)
            if not self.decide(lit(self.enc.has(o.t, k))):
                self.raise_(KeyError)
            return Sym(self.enc.get(o.t, k), o.T)
        if isinstance(o, SymList):
            n = self.enc.llen(o.t)
            x = self.zi(i)
            if isinstance(i, int) and i < 0:
                x = n + i
            if not self.decide(lit(z3.And(x >= 0, x < n))):
                self.raise_(IndexError)
            return Sym(self.enc.lat(o.t, z3.simplify(x)), o.T)
        if isinstance(o, SymSplit):
            if isinstance(i, int) and i == 0 and o.sep:
                if len(o.sep) == 1 and not o.maxsplit == 0:
                    return SymStr(self.enc.before_fn(o.sep)(o.t))
                s, sep = o.t, self.lits(o.sep)
                return SymStr(z3.If(z3.Contains(s, sep), z3.SubString(s, 0, z3.IndexOf(s, sep, 0)), s))
            if isinstance(i, int) and i == 1 and o.maxsplit == 1 and len(o.sep) == 1:
                if not self.decide(self.contains_f(o.t, self.lits(o.sep))):
                    self.raise_(IndexError)
                return SymStr(self.enc.parted(o.t, o.sep, False)[1])
            if isinstance(i, int):
                idx = z3.IntVal(i)
                n = self.split_len(o)
                if not self.decide(self.int_f(">", n, z3.IntVal(i if i >= 0 else -i - 1))):
                    self.raise_(IndexError)
                if len(o.sep) == 1 and o.maxsplit < 0 and -1 <= i < 16:
                    return SymStr(self.enc.parted(o.t, o.sep, True)[1] if i == -1 else
                                  self.enc.piece(o.t, o.sep, i))
                return SymStr(self.enc.native(f"split_at_{o.sep!r}_{o.maxsplit}",
                                              lambda x, j: x.split(o.sep, o.maxsplit)[j],
                                              STR, z3.IntSort(), STR)(o.t, idx))
            raise Unsupported("index of split()")
        if isinstance(o, HRef):
            if o.kind == "obj":
                m = self.static(o.c, "__getitem__")
                if m is None:
                    self.raise_(TypeError)
                return self.call(Bound(o, m), [i], {})
            c = self.content(o)
            if o.kind == "dict":
                k = self.hk(i)
                if not is_sym(k.v):
                    if k in c and not any(is_sym(x.v) for x in c):
                        return c[k]
                    if not any(is_sym(x.v) for x in c):
                        self.raise_(KeyError)
                for kk, v in c.items():
                    if self.decide(self.eq_f(kk.v, i)):
                        return v
                self.raise_(KeyError)
            if o.kind == "list":
                if any(isinstance(x, (Seg, Poison)) for x in c):
                    if i == 0 or i == -1:
                        return self.end_item(c if i == 0 else tuple(reversed(c)))
                    raise Unsupported("index into a list of symbolic length")
                if isinstance(i, int):
                    try:
                        return c[i]
                    except IndexError:
                        self.raise_(IndexError)
            raise Unsupported("index")
        if isinstance(o, (SymStr, str)) and (is_sym(o) or is_sym(i)):
            s = self.zs(o)
            x = self.zi(i)
            n = z3.Length(s)
            if isinstance(i, int) and i < 0:
                x = n + i
            if isinstance(i, int) and not z3.is_string_value(s) and -64 <= i < 64:
                if not self.decide(self.int_f(">", n, z3.IntVal(i) if i >= 0 else z3.IntVal(-i - 1))):
                    self.raise_(IndexError)
                t = self.enc.slice_fn(s, i, None)
                return SymStr(self.enc.slice_fn(t, None, 1) if i != -1 else t)
            if not self.decide(lit(z3.And(x >= 0, x < n))):
                self.raise_(IndexError)
            return SymStr(z3.SubString(s, x, 1))
        if isinstance(o, SymValue):
            raise Unsupported(f"index of {o!r}")
        if is_sym(i):
            if isinstance(o, (dict, types.MappingProxyType)):
                for k, v in o.items():
                    if self.kind(k) == self.kind(i) and self.decide(self.eq_f(k, i)):
                        return v
                self.raise_(KeyError)
            raise Unsupported("symbolic index")
        try:
            return o[i]
        except (KeyError, IndexError, TypeError) as ex:
            self.raise_(type(ex))

    def end_item(self, c):
        """the first item of a list of symbolic length (any item a segment may start with), or IndexError"""
        for x in c:
            if isinstance(x, Poison):
                raise Unsupported("container read inside a loop that modifies it")
            if not isinstance(x, Seg):
                return x
            if len(x.items) != 1 or isinstance(x.items[0], (Seg, Poison)):
                raise Unsupported("index into a nested list of symbolic length")
            w = self.enc.loosely(self.fresh("first", x.v.sort()))
            here = conj(lit(x.coll.guard(w)), fm.subst(x.f, [(x.v, w)]))
            if self.choose([here, fm.forall(x.coll, x.v, neg(x.f))]) == 0:
                return self.subst_val(x.items[0], x.v, w)
        self.raise_(IndexError)

    def subst_val(self, val, v, w):
        if not self.mentions(val, v):
            return val
        if isinstance(val, tuple):
            return tuple(self.subst_val(x, v, w) for x in val)
        if isinstance(val, (Sym, SymInt, SymStr, SymObj, SymList, SymDict)):
            n = type(val).__new__(type(val))
            for k in type(val).__slots__:
                setattr(n, k, getattr(val, k))
            n.t = z3.substitute(val.t, (v, w))
            return n
        if isinstance(val, SymBool):
            return SymBool(fm.subst(val.f, [(v, w)]))
        raise Unsupported("item of a list of symbolic length")

    def split_len(self, o):
        if len(o.sep) == 1 and o.maxsplit < 0:
            return self.enc.pieces(o.t, o.sep)
        return self.enc.native(f"split_len_{o.sep!r}_{o.maxsplit}", lambda x: len(x.split(o.sep, o.maxsplit)),
                               STR, z3.IntSort())(o.t)

    def slice(self, o, lo, hi, step):
        o = self.force(o)
        lo, hi, step = self.force(lo), self.force(hi), self.force(step)
        if hasattr(type(o), "py_slice"):
            return o.py_slice(self, lo, hi, step)
        if isinstance(o, HRef) and o.kind == "list":
            c = self.content(o)
            if any(isinstance(x, (Seg, Poison)) for x in c) or is_sym(lo) or is_sym(hi):
                if (lo, hi, step) == (None, None, None):
                    return self.alloc("list", c)
                raise Unsupported("slice")
            return self.alloc("list", c[lo:hi:step])
        if isinstance(o, SymStr) and step is None:
            n = z3.Length(o.t)

            def pos(x, d):
                if x is None:
                    return d
                if isinstance(x, int):
                    if x >= 0:
                        return z3.If(z3.IntVal(x) <= n, z3.IntVal(x), n)
                    return z3.If(n + x >= 0, n + x, z3.IntVal(0))
                t = self.zi(x)
                t = z3.If(t < 0, n + t, t)
                return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
            a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
            if all(x is None or isinstance(x, int) for x in (lo, hi)):
                if lo is None and hi is None:
                    return o
                t = self.enc.slice_fn(o.t, lo, hi)
                if t is not None:
                    return SymStr(t)
            return SymStr(z3.If(a < b, z3.SubString(o.t, a, b - a), z3.StringVal("")))
        if isinstance(o, SymList) and (lo, hi, step) == (None, None, None):
            return SymView("copy", o)
        if isinstance(o, SymValue) or is_sym(lo) or is_sym(hi):
            raise Unsupported("slice")
        return o[lo:hi:step]

    def set_item(self, o, k, v):
        o = self.force(o)
        if isinstance(o, HRef):
            if o.kind == "obj":
                m = self.static(o.c, "__setitem__")
                if m:
                    return self.call(Bound(o, m), [k, v], {})
            c = self.content(o)
            if o.kind == "dict":
                kk = self.hk(k)
                if is_sym(kk.v) and c and kk not in c:
                    raise Unsupported("symbolic dict key")
                d = dict(c)
                d[kk] = v
                return self.setcontent(o, d)
            if o.kind == "list" and isinstance(k, int):
                l = list(c)
                try:
                    l[k] = v
                except IndexError:
                    self.raise_(IndexError)
                return self.setcontent(o, tuple(l))
        h = self.hooks.get("set_item")
        if h:
            return h(self, o, k, v)
        if isinstance(o, SymObj):
            m = self.static(o.c, "__setitem__")
            if m:
                return self.call(Bound(o, m), [k, v], {})
        raise Write("item assignment on a container that existed before")

    def del_item(self, o, k):
        o = self.force(o)
        if isinstance(o, HRef) and o.kind == "dict":
            c = dict(self.content(o))
            kk = self.hk(k)
            if is_sym(kk.v):
                raise Unsupported("del with symbolic key")
            if kk not in c:
                self.raise_(KeyError)
            del c[kk]
            return self.setcontent(o, c)
        h = self.hooks.get("del_item")
        if h:
            return h(self, o, k)
        raise Write("deletion from a container that existed before")

    # -------------------------------------------------------------------- calls
    def call(self, f, args, kw):
        self.tick()
        if isinstance(f, _Hook):
            return f.h(self, f.obj, args, kw)
        if isinstance(f, Bound):
            h = self.hooks.get(f.fn) if not isinstance(f.fn, SymValue) else None
            if h:
                return h(self, [f.self_] + args, kw)
            if isinstance(f.fn, types.FunctionType):
                return self.call_function(f.fn, [f.self_] + args, kw)
            if isinstance(f.fn, (Func,)):
                return self.call_closure(f.fn, [f.self_] + args, kw)
            if isinstance(f.fn, type) or callable(f.fn):
                return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_closure(f, args, kw)
        if isinstance(f, StrMethod):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, HRef) and f.kind == "obj":
            m = self.static(f.c, "__call__")
            if m is None:
                self.raise_(TypeError)
            return self.call(Bound(f, m), args, kw)
        if isinstance(f, Sym):
            f = self.force(f)
        if isinstance(f, SymValue):
            h = self.hooks.get("call_symbolic")
            if h:
                return h(self, f, args, kw)
            raise Unsupported(f"call of {f!r}")
        if f is None:
            self.raise_(TypeError)
        try:
            h = self.hooks.get(f)
        except TypeError:
            h = None
        if h:
            return h(self, args, kw)
        if isinstance(f, types.MethodType):
            g = f.__func__
            h = self.hooks.get(g)
            if h:
                return h(self, [f.__self__] + args, kw)
            if isinstance(f.__self__, logging.Logger):
                return None
            if isinstance(g, types.FunctionType) and self.ours(g):
                return self.call_function(g, [f.__self__] + args, kw)
        if isinstance(f, types.FunctionType):
            if f.__module__ == "logging":
                return None
            if self.ours(f):
                return self.call_function(f, args, kw)
            h = RE_FUNCS.get(f)
            if h:
                return h(self, args, kw)
            return self.native(f, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        nm = getattr(f, "__name__", None)
        if isinstance(f, types.BuiltinFunctionType) and getattr(f, "__self__", None) is builtins:
            m = getattr(self, "b_" + nm, None)
            if m:
                return m(*args, **kw)
            return self.native(f, args, kw)
        if isinstance(f, types.BuiltinFunctionType) and isinstance(f.__self__, re.Pattern):
            return self.regex(f.__self__, nm, args, kw)
        if isinstance(f, types.BuiltinFunctionType) and isinstance(f.__self__, (str, dict, list, tuple, set)):
            return self.method(f.__self__, nm, args, kw)
        import functools
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kw})
        if hasattr(f, "__wrapped__") and isinstance(getattr(f, "__wrapped__"), types.FunctionType) \
                and type(f).__name__ == "_lru_cache_wrapper":
            if not all(isinstance(self.force(a), (SymStr, SymInt, str, int, type(None))) for a in
                       list(args) + list(kw.values())):
                raise Unsupported("cached function of mutable arguments")
            return self.call(f.__wrapped__, args, kw)
        if f is object.__setattr__:
            return self.set_attr(args[0], args[1], args[2])
        if not callable(f):
            self.raise_(TypeError)
        return self.native(f, args, kw)

    def ours(self, f):
        m = f.__module__ or ""
        return m.startswith("asyncapi3") or m.startswith("props") or m.startswith("pyvc") or m.startswith("spec")

    def native(self, f, args, kw):
        for a in args:
            if hasattr(type(a), "py_native"):
                r = a.py_native(self, f, args, kw)
                if r is not NotImplemented:
                    return r
        if isinstance(f, type):
            mod = "types"
        else:
            mod = getattr(f, "__module__", None) or getattr(getattr(f, "__self__", None), "__module__", "") or ""
        from .interp import PURE_MODULES
        allow = (mod.split(".")[0] in PURE_MODULES + ("builtins", "pydantic", "types", "_operator", "_functools", "")
                 or mod.startswith("asyncapi3"))
        if not allow:
            raise Unsupported(f"call of {f!r}")
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kw.values()):
            args = [self.to_native(a) for a in args]
            kw = {k: self.to_native(a) for k, a in kw.items()}
        try:
            r = f(*args, **kw)
        except Unsupported:
            raise
        except Exception as ex:
            self.raise_(type(ex), *ex.args)
        return self.from_native(r)

    def from_native(self, r):
        if isinstance(r, list):
            return self.alloc("list", tuple(r))
        if type(r) is dict:
            return self.alloc("dict", {_K(k): v for k, v in r.items()})
        if type(r) is set:
            return self.alloc("set", tuple(r))
        if type(r) is zip or type(r) is map or type(r) is filter or isinstance(r, types.GeneratorType):
            return tuple(r)
        return r

    def to_native(self, v):
        v = self.force(v) if isinstance(v, Sym) else v
        if isinstance(v, HRef) and v.kind in ("list", "set"):
            c = self.content(v)
            if any(isinstance(x, (Seg, Poison)) for x in c):
                raise Unsupported("symbolic container passed to a library function")
            r = [self.to_native(x) for x in c]
            return r if v.kind == "list" else set(r)
        if isinstance(v, HRef) and v.kind == "dict":
            return {self.to_native(k.v): self.to_native(x) for k, x in self.content(v).items()}
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.to_native(x) for x in v)
        if is_sym(v):
            raise Unsupported(f"{v!r} passed to a library function")
        return v

    def bind_args(self, sig_args, fn_name, args, kw, defaults, kwdefaults):
        a = sig_args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_(TypeError)
        for n, v in zip(pos, args):
            bound[n] = v
        if a.vararg is not None:
            bound[a.vararg.arg] = tuple(args[len(pos):])
        po = {x.arg for x in a.posonlyargs}
        for n in pos[len(args):]:
            if n in kw and n not in po:
                bound[n] = kw.pop(n)
        for x in a.kwonlyargs:
            if x.arg in kw:
                bound[x.arg] = kw.pop(x.arg)
        dd = dict(zip(pos[len(pos) - len(defaults):], defaults))
        for n in pos:
            if n not in bound:
                if n in dd:
                    bound[n] = dd[n]
                else:
                    self.raise_(TypeError)
        for x in a.kwonlyargs:
            if x.arg not in bound:
                if x.arg in kwdefaults:
                    bound[x.arg] = kwdefaults[x.arg]
                else:
                    self.raise_(TypeError)
        if a.kwarg is not None:
            bound[a.kwarg.arg] = self.alloc("dict", {_K(k): v for k, v in kw.items()})
        elif kw:
            self.raise_(TypeError)
        return bound

    def call_function(self, fn, args, kw):
        if self.depth > 60:
            raise Unsupported("call depth")
        h = self.hooks.get("call")
        if h:
            r = h(self, fn, args, kw)
            if r is not NotImplemented:
                return r
        node = function_node(fn)
        q = f"{fn.__module__}.{fn.__qualname__}"
        self.functions[q] = self.functions.get(q, 0) + 1
        a = node.args
        kwd = {x.arg: (fn.__kwdefaults__ or {})[x.arg] for x in a.kwonlyargs if x.arg in (fn.__kwdefaults__ or {})}
        bound = self.bind_args(a, fn.__name__, args, kw, fn.__defaults__ or (), kwd)
        names, glob, nonl, is_gen = local_names(node)
        fr = self.new_frame(fn.__globals__, None, names, fn)
        fr.globs, fr.nonlocals = glob, nonl
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    fr.cells[n] = c.cell_contents
                except ValueError:
                    pass
        return self.run_body(node, fr, bound, is_gen)

    def call_closure(self, f, args, kw):
        node = f.node
        names, glob, nonl, is_gen = local_names(node)
        kwd = {x.arg: d for x, d in zip(node.args.kwonlyargs, f.kwdefaults) if d is not None}
        bound = self.bind_args(node.args, f.name, args, kw, f.defaults, kwd)
        fr = self.new_frame(f.frame.globals, f.frame, names)
        fr.globs, fr.nonlocals = glob, nonl
        return self.run_body(node, fr, bound, is_gen)

    def run_body(self, node, fr, bound, is_gen):
        def thunk():
            for n, v in bound.items():
                self.store[("v", fr.fid, n)] = v
            self.depth += 1
            if is_gen:
                fr.yields = self.alloc("iter", ())
            try:
                if isinstance(node, ast.Lambda):
                    return self.ev(node.body, fr)
                self.block(node.body, fr)
                r = None
            except Ret as e:
                r = e.v
            finally:
                self.depth -= 1
            return fr.yields if is_gen else r
        if isinstance(node, ast.Lambda):
            return thunk()
        return self.summarise(thunk)

    # ----------------------------------------------------------- construction
    def construct(self, c, args, kw):
        m = {list: self.k_list, tuple: self.k_tuple, set: self.k_set, frozenset: self.k_set, dict: self.k_dict,
             str: self.k_str, int: self.k_int, bool: self.k_bool, enumerate: self.k_enumerate, type: self.k_type,
             zip: self.k_zip, range: self.k_range, reversed: self.k_reversed, map: self.k_map,
             filter: self.k_filter}.get(c)
        if m:
            return m(*args, **kw)
        if c is object:
            return self.alloc("obj", {}, object)
        if issubclass(c, BaseException):
            return ExcVal(c, tuple(args))
        if c is super:
            if len(args) == 2:
                return Super(args[0], args[1])
            raise Unsupported("super()")
        if issubclass(c, tuple) and hasattr(c, "_fields"):
            return c(*args, **kw)
        h = self.hooks.get("construct")
        if h:
            r = h(self, c, args, kw)
            if r is not NotImplemented:
                return r
        from pydantic import BaseModel
        if issubclass(c, BaseModel):
            raise Unsupported(f"construction of {c.__name__}")
        if issubclass(c, str):
            v = self.force(args[0])
            if isinstance(v, (SymStr, str)):
                return v
        if (c.__module__ or "").startswith("asyncapi3"):
            o = self.alloc("obj", {}, c)
            init = self.static(c, "__init__")
            if isinstance(init, types.FunctionType) and self.ours(init):
                self.call(Bound(o, init), args, kw)
            elif args or kw:
                self.raise_(TypeError)
            return o
        return self.native(c, args, kw)

    def k_list(self, it=()):
        return self.alloc("list", tuple(self.collect(it)))

    def collect(self, it):
        it = self.force(it)
        if isinstance(it, GenExp):
            r = self.alloc("list", ())

            def emit(sub):
                x = self.ev(it.node.elt, sub)
                self.setcontent(r, self.store[("h", r.oid)] + (x,))
            self.comp(it.node, it.frame, emit)
            return self.content(r)
        if isinstance(it, HRef) and it.kind in ("list", "set", "iter"):
            return self.content(it)
        if isinstance(it, HRef) and it.kind == "dict":
            return tuple(k.v for k in self.content(it))
        if isinstance(it, (SymList, SymDict, SymView, SymStr)):
            c, v, x = self.elem_of(it)
            return (Seg(c, v, fm.T, (x,)),)
        if isinstance(it, SymObj):
            r = self.alloc("list", ())

            def body(v):
                self.setcontent(r, self.store[("h", r.oid)] + (v,))
            self.loop(it, body)
            return self.content(r)
        return tuple(self.concrete_items(it))

    def k_tuple(self, it=()):
        c = self.collect(it)
        if any(isinstance(x, (Seg, Run)) for x in c):
            return self.alloc("list", tuple(c))
        return tuple(c)

    def k_set(self, it=()):
        if isinstance(it, GhostVal):
            return self.hooks["dict_copy"](self, it)
        c = self.collect(it)
        out, seen = [], set()
        for x in c:
            k = vkey(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return self.alloc("set", tuple(out))

    def k_dict(self, *a, **kw):
        d = {}
        if a:
            o = self.force(a[0])
            if isinstance(o, HRef) and o.kind == "dict":
                d.update(self.content(o))
            elif isinstance(o, (dict, types.MappingProxyType)):
                d.update({_K(k): v for k, v in o.items()})
            else:
                h = self.hooks.get("dict_copy")
                if h:
                    return h(self, o)
                if isinstance(o, SymDict) and not kw:
                    return SymView("copy", o)
                raise Unsupported("dict()")
        for k, v in kw.items():
            d[_K(k)] = v
        return self.alloc("dict", d)

    def k_str(self, v=""):
        return self.to_str(v)

    def k_int(self, v=0, base=10):
        v = self.force(v)
        if isinstance(v, (SymInt,)):
            return v
        if isinstance(v, SymBool):
            return SymInt(self.zi(v))
        if isinstance(v, SymStr) and base == 10:
            digits = self.enc.rx.lang("[0-9]+", 0, "fullmatch")
            if self.decide(lit(self.enc.mem(v.t, digits))):
                return SymInt(z3.StrToInt(v.t))
            # other forms int() accepts: sign, blanks, underscores, other digits
            may = self.enc.rx.lang(r"\s*[+-]?\d+(_\d+)*\s*", 0, "fullmatch")
            if self.decide(lit(self.enc.mem(v.t, may))):
                return SymInt(self.enc.native("int_of", int, STR, z3.IntSort())(v.t))
            self.raise_(ValueError)
        if is_sym(v):
            raise Unsupported("int()")
        try:
            return int(v) if not isinstance(v, str) else int(v, base)
        except (ValueError, TypeError) as e:
            self.raise_(type(e))

    def k_bool(self, v=False):
        f = self.truth_f(v)
        if fm.is_true(f):
            return True
        if fm.is_false(f):
            return False
        return SymBool(f)

    def k_enumerate(self, it, start=0):
        it = self.force(it)
        if isinstance(it, (SymList, SymDict, SymView)):
            if not isinstance(start, int):
                raise Unsupported("enumerate start")
            return SymView("enumerate", it, start)
        c = self.collect(it)
        if any(isinstance(x, (Seg, Run)) for x in c):
            raise Unsupported("enumerate of a list of symbolic length")
        return tuple((i + start, x) for i, x in enumerate(c))

    def k_type(self, v):
        if isinstance(v, Sym):
            v = self.force(v)
        t = self.pytype(v) if isinstance(v, SymValue) else type(v)
        if t is None:
            if isinstance(v, Opaque):
                if v.what == "float":
                    return float
                return Opaque("type", v.n)
            raise Unsupported("type()")
        return t

    def k_zip(self, *its, strict=False):
        cs = [self.concrete_items(x) for x in its]
        return tuple(zip(*cs))

    def k_range(self, *a):
        a = [self.force(x) for x in a]
        if any(is_sym(x) for x in a):
            if len(a) == 1:
                n = self.zi(a[0])
                raise Unsupported("range of symbolic length")
            raise Unsupported("range of symbolic length")
        return range(*a)

    def k_reversed(self, it):
        it = self.force(it)
        if isinstance(it, (SymList, SymView)):
            return SymView("reversed", it)
        return tuple(reversed(self.concrete_items(it)))

    def k_map(self, f, it):
        r = self.alloc("list", ())

        def body(v):
            x = self.call(f, [v], {})
            self.setcontent(r, self.store[("h", r.oid)] + (x,))
        self.loop(it, body)
        return r

    def k_filter(self, f, it):
        r = self.alloc("list", ())

        def body(v):
            t = self.truth(v if f is None else self.call(f, [v], {}))
            if t:
                self.setcontent(r, self.store[("h", r.oid)] + (v,))
        self.loop(it, body)
        return r

    # ---------------------------------------------------------------- builtins
    def b_len(self, v):
        v = self.force(v)
        if isinstance(v, SymList):
            return SymInt(self.enc.llen(v.t))
        if isinstance(v, SymDict):
            return SymInt(self.enc.dlen(v.t))
        if isinstance(v, SymView):
            return self.b_len(v.base)
        if isinstance(v, SymStr):
            return SymInt(z3.Length(v.t))
        if isinstance(v, SymSplit):
            return SymInt(self.split_len(v))
        if isinstance(v, (SymObj,)) or isinstance(v, HRef) and v.kind == "obj":
            m = self.static(v.c, "__len__")
            if m is None:
                self.raise_(TypeError)
            return self.call(Bound(v, m), [], {})
        if isinstance(v, HRef):
            c = self.content(v)
            if not isinstance(c, dict) and any(isinstance(x, (Seg, Poison)) for x in c):
                if len(c) == 1 and isinstance(c[0], Seg) and fm.is_true(c[0].f) and len(c[0].items) == 1 and \
                        not isinstance(c[0].items[0], (Seg, Poison)) and c[0].coll.kind in ("list", "dict") and not c[0].coll.sym:
                    return SymInt((self.enc.llen if c[0].coll.kind == "list" else self.enc.dlen)(c[0].coll.t))
                # only emptiness is tracked
                n = self.enc.loosely(self.fresh("len", z3.IntSort()))
                f = self.nonempty(c)
                self.assume(conj(lit(n >= 0), disj(lit(n == 0), f), disj(lit(n > 0), neg(f))))
                return SymInt(n)
            return len(c)
        if isinstance(v, SymValue) or v is None:
            if v is None:
                self.raise_(TypeError)
            raise Unsupported("len()")
        try:
            return len(v)
        except TypeError:
            self.raise_(TypeError)

    def b_isinstance(self, v, c):
        f = self.isinstance_f(v, c)
        if fm.is_true(f):
            return True
        if fm.is_false(f):
            return False
        return SymBool(f)

    def b_issubclass(self, c, d):
        if is_sym(c):
            c = self.force(c)
        if isinstance(d, HRef):
            d = tuple(self.content(d))
        if hasattr(type(c), "py_issubclass") and not is_sym(d):
            f = c.py_issubclass(self, d)
            return True if fm.is_true(f) else False if fm.is_false(f) else SymBool(f)
        if is_sym(c) or is_sym(d):
            raise Unsupported("issubclass")
        try:
            return issubclass(c, d)
        except TypeError:
            self.raise_(TypeError)

    def b_hasattr(self, o, name):
        o = self.force(o)
        if isinstance(o, SymObj):
            sh = self.enc.shapes(o.c)
            if name in sh.fields or (name == "root" and sh.root_model) or self.static(o.c, name) is not None \
                    or name in ("__dict__", "__class__"):
                return True
            if sh.config.get("extra_fields_behavior") == "allow":
                T = ["map", ["str", {}], ["any"]]
                d = self.enc.V.ov(self.enc.attr(o.c, "$extra", T)(o.t))
                return SymBool(lit(self.enc.has(d, self.lits(name))))
            return False
        if isinstance(o, HRef):
            if o.kind == "obj":
                return ("a", o.oid, name) in self.store or self.static(o.c, name) is not None
            return hasattr({"list": list, "dict": dict, "set": set, "iter": list}[o.kind], name)
        t = {SymStr: str, SymInt: int, SymBool: bool, SymList: list, SymDict: dict}.get(type(o))
        if t:
            return hasattr(t, name)
        if isinstance(o, Opaque):
            if o.what == "url":
                from pydantic import AnyUrl
                return hasattr(AnyUrl, name)
            if o.what == "float":
                return hasattr(float, name)
            raise Unsupported("hasattr on an opaque value")
        if isinstance(o, SymValue):
            raise Unsupported("hasattr")
        return hasattr(o, name)

    def b_getattr(self, o, name, *default):
        name = self.force(name)
        if is_sym(name):
            raise Unsupported("getattr with symbolic name")
        if default:
            has = self.b_hasattr(o, name)
            if not self.truth(has):
                return default[0]
        return self.get_attr(o, name)

    def b_setattr(self, o, name, v):
        return self.set_attr(o, self.force(name), v)

    def b_id(self, v):
        return SymId(v)

    def b_callable(self, v):
        if isinstance(v, (Func, Bound, StrMethod)):
            return True
        if is_sym(v):
            raise Unsupported("callable")
        return callable(v)

    def b_any(self, it):
        return self.quant(it, True)

    def b_all(self, it):
        return self.quant(it, False)

    def quant(self, it, which):
        def test(x):
            if self.truth(x) == which:
                raise Brk()

        def thunk():
            try:
                if isinstance(it, GenExp):
                    self.comp(it.node, it.frame, lambda sub: test_cond(sub))
                else:
                    self.loop(it, test)
            except Brk:
                return which
            return not which

        def test_cond(sub):
            if self.cond(it.node.elt, sub) == which:
                raise Brk()
        return self.summarise(thunk)

    def b_next(self, it, *default):
        if not isinstance(it, GenExp):
            raise Unsupported("next()")
        box = []

        def emit(sub):
            raise Ret(self.ev(it.node.elt, sub))

        def thunk():
            try:
                self.comp(it.node, it.frame, emit)
            except Ret as r:
                return r.v
            if default:
                return default[0]
            self.raise_(StopIteration)
        return self.summarise(thunk)

    def b_iter(self, v):
        return v if not isinstance(v, Sym) else self.force(v)

    def b_sorted(self, it, key=None, reverse=False):
        it = self.force(it)
        if isinstance(it, (SymList, SymDict, SymView)):
            return self.k_list(it)          # a permutation: order is not tracked
        c = self.collect(it)
        if any(isinstance(x, Seg) for x in c):
            return self.alloc("list", tuple(c))
        if any(is_sym(x) for x in c):
            raise Unsupported("sorted()")
        if key is not None:
            ks = [self.call(key, [x], {}) for x in c]
            if any(is_sym(k) for k in ks):
                raise Unsupported("sorted key")
            c = [x for _, _, x in sorted(((k, i, x) for i, (k, x) in enumerate(zip(ks, c))),
                                         key=lambda t: t[0], reverse=bool(reverse))]
            return self.alloc("list", tuple(c))
        return self.alloc("list", tuple(sorted(c, reverse=bool(reverse))))

    def b_print(self, *a, **k):
        return None

    def b_repr(self, v):
        return self.fresh_str("repr") if is_sym(v) else repr(v)

    def b_hash(self, v):
        v = self.force(v)
        if isinstance(v, (SymStr,)):
            return SymInt(self.enc.loosely(self.enc.uf("hash_str", STR, z3.IntSort())(v.t)))
        if isinstance(v, SymObj):
            m = self.static(v.c, "__hash__")
            if isinstance(m, types.FunctionType) and self.ours(m):
                return self.call(Bound(v, m), [], {})
        if is_sym(v):
            raise Unsupported("hash()")
        return hash(v)

    def b_min(self, *a, **kw):
        return self.minmax(min, a, kw)

    def b_max(self, *a, **kw):
        return self.minmax(max, a, kw)

    def minmax(self, f, a, kw):
        if any(is_sym(x) for x in a) or kw:
            raise Unsupported("min/max")
        return f(*a)

    def b_sum(self, it, start=0):
        raise Unsupported("sum()")

    # -------------------------------------------------------- container methods
    def method(self, o, name, args, kw):
        h = self.hooks.get("method")
        if h:
            r = h(self, o, name, args, kw)
            if r is not NotImplemented:
                return r
        if hasattr(type(o), "py_method"):
            return o.py_method(self, name, args, kw)
        if isinstance(o, HRef):
            return self.heap_method(o, name, args, kw)
        if isinstance(o, (SymStr, str)):
            return self.str_method(o, name, args, kw)
        if isinstance(o, (SymDict, SymView)):
            if isinstance(o, SymView) and o.kind == "copy":
                o = o.base
            if isinstance(o, SymDict):
                if name in ("keys", "values", "items") and not args:
                    return SymView(name, o)
                if name == "get":
                    k = self.force(args[0])
                    d = args[1] if len(args) > 1 else kw.get("default")
                    if not isinstance(k, (SymStr, str)):
                        return d
                    z = self.zs(k)
                    if self.decide(lit(self.enc.has(o.t, z))):
                        return Sym(self.enc.get(o.t, z), o.T)
                    return d
                if name == "copy":
                    return SymView("copy", o)
                if name == "__contains__":
                    f = self.in_f(args[0], o)
                    return SymBool(f)
                if name in ("pop", "update", "setdefault", "clear", "popitem", "__setitem__", "__delitem__"):
                    h = self.hooks.get("dict_mutate")
                    if h:
                        return h(self, o, name, args, kw)
                    raise Write(f"dict.{name} on a mapping that existed before")
            raise Unsupported(f"method {name} of {o!r}")
        if isinstance(o, SymList):
            if name in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"):
                raise Write(f"list.{name} on a list that existed before")
            if name == "copy":
                return SymView("copy", o)
            raise Unsupported(f"list.{name}")
        if isinstance(o, SymMatch):
            if name == "group" and (not args or args[0] == 0):
                raise Unsupported("match.group")
            raise Unsupported("match." + name)
        if isinstance(o, SymSplit):
            raise Unsupported("split()." + name)
        if isinstance(o, (SymInt, SymBool)):
            raise Unsupported("int." + name)
        if isinstance(o, (dict, types.MappingProxyType)):
            if name in ("items", "keys", "values"):
                return list(getattr(o, name)())
            if name == "get" and is_sym(args[0]):
                for k, v in o.items():
                    if self.kind(k) == self.kind(self.force(args[0])) and self.decide(self.eq_f(k, args[0])):
                        return v
                return args[1] if len(args) > 1 else None
            if name in ("pop", "update", "setdefault", "clear", "popitem"):
                raise Write("module-level dict")
        if isinstance(o, (list, set)) and name in ("append", "extend", "insert", "remove", "pop", "clear", "sort",
                                                   "reverse", "add", "discard", "update"):
            raise Write("module-level container")
        if isinstance(o, (set, frozenset)) and len(args) == 1 and not kw and is_sym(self.force(args[0])) and \
                name in ("issubset", "issuperset", "isdisjoint", "difference", "intersection"):
            return self.set_method(name, o, args[0])
        return self.native(getattr(o, name), args, kw)

    def heap_method(self, o, name, args, kw):
        if o.kind == "iter" and name in ("__iter__",):
            return o
        c = self.store.get(("h", o.oid))
        if isinstance(c, Poison):
            raise Unsupported(c.why)
        if o.kind == "list":
            if name == "append":
                return self.setcontent(o, c + (args[0],))
            if name == "extend":
                return self.setcontent(o, c + tuple(self.collect(args[0])))
            self.content(o)
            concrete = not any(isinstance(x, (Seg, Poison)) for x in c)
            if name == "copy":
                return self.alloc("list", c)
            if name == "pop" and concrete and not any(is_sym(a) for a in args):
                l = list(c)
                try:
                    v = l.pop(*args)
                except IndexError:
                    self.raise_(IndexError)
                self.setcontent(o, tuple(l))
                return v
            if name == "insert" and concrete and isinstance(args[0], int):
                l = list(c)
                l.insert(*args)
                return self.setcontent(o, tuple(l))
            if name == "clear":
                return self.setcontent(o, ())
            if name in ("reverse",) and concrete:
                return self.setcontent(o, c[::-1])
            if name == "sort" and concrete and not any(is_sym(x) for x in c) and not kw:
                return self.setcontent(o, tuple(sorted(c)))
            raise Unsupported("list." + name)
        if o.kind == "set":
            if name == "add":
                if any(isinstance(x, Poison) for x in c):
                    return self.setcontent(o, c + (args[0],))
                k = vkey(args[0])
                if not any(vkey(x) == k for x in c):
                    self.setcontent(o, c + (args[0],))
                return None
            if name == "update":
                return self.setcontent(o, c + tuple(y for a in args for y in self.collect(a)))
            if name == "copy":
                return self.alloc("set", c)
            if name in ("discard", "remove"):
                k = vkey(args[0])
                n = tuple(x for x in c if vkey(x) != k)
                if len(n) != len(c):
                    # equal keys denote the same element; others must be provably different
                    for x in n:
                        if self.decide(self.seg_in(args[0], x)):
                            raise Unsupported("set." + name)
                    return self.setcontent(o, n)
                if name == "discard" and not c:
                    return None
                raise Unsupported("set." + name)
            if name in ("issubset", "issuperset", "isdisjoint", "difference", "intersection") and len(args) == 1 and not kw:
                return self.set_method(name, o, args[0])
            if name in ("union",):
                return self.alloc("set", c + tuple(y for a in args for y in self.collect(a)))
            raise Unsupported("set." + name)
        if o.kind == "dict":
            if name in ("keys",):
                return tuple(k.v for k in c)
            if name == "values":
                return tuple(c.values())
            if name == "items":
                return tuple((k.v, v) for k, v in c.items())
            if name == "get":
                if self.truth_of_in(args[0], o):
                    return self.get_item(o, args[0])
                return args[1] if len(args) > 1 else None
            if name == "copy":
                return self.alloc("dict", dict(c))
            if name == "update":
                d = dict(c)
                for a in args:
                    a = self.force(a)
                    if isinstance(a, HRef) and a.kind == "dict":
                        d.update(self.content(a))
                    elif isinstance(a, dict):
                        d.update({_K(k): v for k, v in a.items()})
                    else:
                        raise Unsupported("dict.update")
                for k, v in kw.items():
                    d[_K(k)] = v
                return self.setcontent(o, d)
            if name == "setdefault":
                if self.truth_of_in(args[0], o):
                    return self.get_item(o, args[0])
                v = args[1] if len(args) > 1 else None
                self.set_item(o, args[0], v)
                return v
            if name == "pop":
                if self.truth_of_in(args[0], o):
                    v = self.get_item(o, args[0])
                    self.del_item(o, args[0])
                    return v
                if len(args) > 1:
                    return args[1]
                self.raise_(KeyError)
            raise Unsupported("dict." + name)
        raise Unsupported("method of object")

    def set_method(self, name, o, arg):
        b = self.k_set(arg)
        if name == "issubset":
            f = self.subset_f(self.collect(o), b)
        elif name == "issuperset":
            f = self.subset_f(self.collect(b), o)
        elif name == "isdisjoint":
            f = self.subset_f(self.collect(o), b, False)
        else:
            return self.set_op(ast.Sub if name == "difference" else ast.BitAnd, o, b)
        return True if fm.is_true(f) else False if fm.is_false(f) else SymBool(f)

    def truth_of_in(self, k, o):
        return self.decide(self.in_f(k, o))

    # ------------------------------------------------------------------ strings
    def format_parts(self, text, args, kw):
        """text.format(...) of plain replacement fields, or None"""
        import string
        parts, n = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit_, field, spec, conv in fields:
            if lit_:
                parts.append(lit_)
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "" or field.isdigit():
                if field == "":
                    field, n = n, n + 1
                if int(field) >= len(args):
                    return None
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append(self.to_str(v))
        return self.joined(parts)

    def str_method(self, o, name, args, kw):
        args = [self.force(a) for a in args]
        if not is_sym(o) and not any(is_sym(a) for a in args) and not any(is_sym(a) for a in kw.values()):
            if name == "join":
                return self.str_join(o, args[0])
            return self.native(getattr(o, name), args, kw)
        if name == "format" and isinstance(o, str):
            parts = self.format_parts(o, args, kw)
            if parts is not None:
                return parts
        if name in ("format", "format_map"):
            return self.fresh_str("fmt")
        if name == "join":
            return self.str_join(o, args[0])
        if any(isinstance(a, rope.Rope) for a in args):
            return rope.Rope(rope.lift(self, o)).py_method(self, name, args, kw)
        s = self.zs(o)
        if name == "replace" and len(args) == 2 and isinstance(args[0], str) and args[0] and not kw and \
                self.prover.check(self.contains_f(s, self.lits(args[0]))) == "unsat":
            return o            # nothing to replace
        if name in ("startswith", "endswith"):
            if len(args) > 1:
                raise Unsupported("startswith with position")
            ps = args[0] if isinstance(args[0], tuple) else (args[0],)
            rx = self.enc.rx

            def g(p, s):
                if z3.is_string_value(p):
                    w = rx.word(unz(p.as_string()))
                    return self.enc.mem(s, rx.cat(w, rx.ALL) if name == "startswith" else rx.cat(rx.ALL, w))
                return (z3.PrefixOf if name == "startswith" else z3.SuffixOf)(p, s)
            fs = []
            for p in ps:
                if not isinstance(p, (str, SymStr)):
                    self.raise_(TypeError)
                fs.append(lit(g(self.zs(p), s)))
            f = disj(*fs)
            return SymBool(f)
        if name == "removeprefix":
            p = self.zs(args[0])
            if z3.is_string_value(p):
                w = unz(p.as_string())
                rx = self.enc.rx
                if not self.decide(lit(self.enc.mem(s, rx.cat(rx.word(w), rx.ALL)))):
                    return o
                return SymStr(self.enc.drop(s, len(w)))
            return SymStr(z3.If(z3.PrefixOf(p, s), z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p)), s))
        if name == "removesuffix":
            p = self.zs(args[0])
            if z3.is_string_value(p):
                w = unz(p.as_string())
                rx = self.enc.rx
                if not w or not self.decide(lit(self.enc.mem(s, rx.cat(rx.ALL, rx.word(w))))):
                    return o
                return SymStr(self.enc.slice_fn(s, None, -len(w)))
            return SymStr(z3.If(z3.And(z3.SuffixOf(p, s), z3.Length(p) > 0),
                                z3.SubString(s, 0, z3.Length(s) - z3.Length(p)), s))
        if name == "find" and len(args) == 1:
            return SymInt(z3.IndexOf(s, self.zs(args[0]), 0))
        if name == "__contains__":
            return SymBool(self.contains_f(s, self.zs(args[0])))
        if name in ("__str__",):
            return o
        if name == "__hash__":
            return SymInt(self.enc.loosely(self.enc.uf("hash_str", STR, z3.IntSort())(s)))
        if name == "split" and args and isinstance(args[0], str) and args[0]:
            ms = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            if not isinstance(ms, int):
                raise Unsupported("split")
            return SymSplit(s, args[0], ms)
        if name in ("partition", "rpartition") and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            if self.decide(self.contains_f(s, self.lits(args[0]))):
                h, d = self.enc.parted(s, args[0], name == "rpartition")
                return (SymStr(h), args[0], SymStr(d))
            return (SymStr(s), "", "") if name == "partition" else ("", "", SymStr(s))
        if name == "partition" and args and isinstance(args[0], str) and args[0]:
            sep = self.lits(args[0])
            if self.decide(self.contains_f(s, sep)):
                i = z3.IndexOf(s, sep, 0)
                return (SymStr(z3.SubString(s, 0, i)), args[0],
                        SymStr(z3.SubString(s, i + len(args[0]), z3.Length(s))))
            return (SymStr(s), "", "")
        if name == "count" and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            return SymInt(self.enc.seps(s, args[0]))
        if name in ("strip", "lstrip", "rstrip") and not kw and (
                not args or args == [None] or len(args) == 1 and isinstance(args[0], str) and args[0]):
            if not args or args[0] is None:
                args = [None]
            left, right = name != "rstrip", name != "lstrip"
            chars = self.enc.alpha.enc(args[0]) if args[0] is not None else None
            parts = [s.arg(i) for i in range(s.num_args())] if z3.is_app(s) and \
                s.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [s]
            while left and z3.is_string_value(parts[0]) and len(parts) > 1:
                w = unz(parts[0].as_string())
                rest = w.lstrip(chars)
                parts[0] = self.enc.tail(parts[0], len(w) - len(rest))
                if rest:
                    break
                parts = parts[1:]
            s = parts[0] if len(parts) == 1 else z3.Concat(*parts)
            c, t = self.enc.strip(s, args[0], left, right)
            if self.decide(lit(self.enc.mem(s, self.enc.stripped(c, left, right)))):
                return SymStr(s)
            return SymStr(t)
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title", "casefold", "replace",
                    "swapcase", "zfill", "ljust", "rjust", "expandtabs"):
            if all(isinstance(a, (str, int)) for a in args) and not kw:
                d = self.enc.native(f"str.{name}{tuple(args)!r}", lambda x: getattr(x, name)(*args), STR, STR)
                if name == "replace" and len(args) == 2:
                    self.enc.repls[d.get_id()] = tuple(args)
                return SymStr(d(s))
            if name == "replace" and len(args) == 2:
                return SymStr(self.enc.native("str.replace", str.replace, STR, STR, STR, STR)(s, self.zs(args[0]), self.zs(args[1])))
            raise Unsupported("str." + name)
        if name in Alph_PREDS and not args:
            plus = name not in ("isascii", "isprintable")
            rx = self.enc.rx
            r = rx.cls(rx.mask(lambda ch: getattr(ch, name)()))
            if name in ("isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "isspace"):
                return SymBool(lit(self.enc.mem(s, rx.cat(r, rx.star(r)))))
            if name in ("isascii", "isprintable"):
                return SymBool(lit(self.enc.mem(s, rx.star(r))))
            raise Unsupported("str." + name)
        raise Unsupported("str." + name)

    def str_join(self, sep, it):
        c = self.collect(it) if not isinstance(it, (str,)) else tuple(it)
        if sep == "" and isinstance(sep, str):
            c = [x.rope if isinstance(x, Run) else x for x in c]
        if any(isinstance(x, (Seg, Poison)) for x in c):
            return self.fresh_str("join")
        c = [self.force(x) for x in c]
        if isinstance(sep, rope.Rope) or any(isinstance(x, rope.Rope) for x in c):
            ps = []
            for i, x in enumerate(c):
                ps += (list(rope.lift(self, sep)) if i else []) + list(rope.lift(self, x))
            return rope.make(ps)
        if not all(isinstance(x, (str, SymStr)) for x in c):
            self.raise_(TypeError)
        if not is_sym(sep) and not any(is_sym(x) for x in c):
            return sep.join(c)
        parts = []
        for i, x in enumerate(c):
            if i:
                parts.append(self.zs(sep))
            parts.append(self.zs(x))
        if not parts:
            return ""
        return SymStr(parts[0] if len(parts) == 1 else z3.Concat(*parts))

    # -------------------------------------------------------------------- regex
    def regex(self, pat, mode, args, kw):
        v = self.force(args[0]) if args else self.force(kw.get("string"))
        if mode in ("sub", "split", "findall", "finditer", "subn"):
            x = args[1] if mode.startswith("sub") and len(args) > 1 else v
            if isinstance(x, rope.Rope):
                if kw or len(args) > (2 if mode.startswith("sub") else 1):
                    raise Unsupported("re." + mode)
                return x.py_regex(self, pat, mode, args)
        if isinstance(v, rope.Rope) and mode in ("match", "fullmatch", "search") and len(args) == 1:
            return v.py_regex(self, pat, mode, args)
        if mode not in ("match", "fullmatch", "search"):
            if is_sym(v) or any(is_sym(a) for a in args):
                if mode == "sub":
                    raise Unsupported("re.sub")
                raise Unsupported("re." + mode)
            return self.native(getattr(pat, mode), args, kw)
        if len(args) > 1:
            raise Unsupported("re position arguments")
        if isinstance(v, (SymInt, SymBool, SymObj, SymList, SymDict)) or v is None or isinstance(v, (int, float)):
            self.raise_(TypeError)
        if isinstance(v, Opaque):
            raise Unsupported("re on opaque value")
        if not is_sym(v):
            return self.native(getattr(pat, mode), [v], {})
        lang = self.enc.rx.lang(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, str) else 0, mode)
        if self.decide(lit(self.enc.mem(v.t, lang))):
            return SymMatch(v.t, pat.pattern)
        return None


Alph_PREDS = ("isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "isspace", "isascii", "isprintable")


class _Hook(SymValue):
    __slots__ = ("h", "obj")

    def __init__(self, h, obj):
        self.h, self.obj = h, obj

    def key(self):
        return ("hook", id(self.h), vkey(self.obj))


def _re_func(mode):
    def h(I, args, kw):
        names = ["pattern", "string", "flags"]
        a = dict(zip(names, args))
        a.update(kw)
        pat, flags = a["pattern"], a.get("flags", 0)
        if is_sym(pat) or is_sym(flags):
            raise Unsupported("symbolic pattern")
        if isinstance(pat, str):
            try:
                pat = re.compile(pat, flags)
            except re.error as e:
                I.raise_(type(e))
        return I.regex(pat, mode, [a["string"]], {})
    return h


RE_FUNCS = {re.match: _re_func("match"), re.fullmatch: _re_func("fullmatch"), re.search: _re_func("search")}


def _re_sub(I, args, kw):
    a = dict(zip(["pattern", "repl", "string", "count", "flags"], args))
    a.update(kw)
    if isinstance(a.get("string"), rope.Rope):
        if set(a) - {"pattern", "repl", "string"} or not isinstance(a["pattern"], (str, re.Pattern)):
            raise Unsupported("re.sub")
        return I.regex(re.compile(a["pattern"]), "sub", [a["repl"], a["string"]], {})
    return I.native(re.sub, args, kw)


def _fnmatch(f):
    def h(I, args, kw):
        a = dict(zip(["name", "pat"], args))
        a.update(kw)
        n, p = I.force(a.get("name")), I.force(a.get("pat"))
        if isinstance(n, rope.Rope) and isinstance(p, str):
            r = n.py_fnmatch(I, p)
            return True if fm.is_true(r) else False if fm.is_false(r) else SymBool(r)
        return I.native(f, args, kw)
    return h


RE_FUNCS[re.sub] = _re_sub
RE_FUNCS[fnmatch.fnmatch] = _fnmatch(fnmatch.fnmatch)
RE_FUNCS[fnmatch.fnmatchcase] = _fnmatch(fnmatch.fnmatchcase)


def _cast(I, args, kw):
    return args[1]


RE_FUNCS[typing.cast] = _cast
