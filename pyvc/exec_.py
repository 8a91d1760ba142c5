"""Statements and expressions."""
import ast
import builtins
import inspect
import operator
import types

import z3

from . import formula as fm
from . import rope
from .errors import Infeasible, Unsupported
from .formula import Coll, conj, contains, disj, exists, f_contains, forall, lit, neg
from .interp import *
from .interp import Interp as _Base
from .values import *
from .values import SymValue, is_sym, vkey

UNROLL = 3000
_locals_cache = {}


_dead_cache = {}


def loop_locals(fn, loop):
    """names whose value never outlives one iteration of the loop: every read is inside the
    loop and comes after an assignment in the same iteration"""
    k = (fn, loop)
    if k in _dead_cache:
        return _dead_cache[k]
    here = {id(n) for x in loop.body for n in ast.walk(x)}
    stored = {n.id for x in [loop.target, *loop.body] for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    live = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and (id(n) not in here or isinstance(n.ctx, ast.Del)):
            live.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            live |= set(n.names)
        elif isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.GeneratorExp)) and n is not fn:
            live |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            live.add(n.target.id)

    def loads(n):
        return {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and not isinstance(m.ctx, ast.Store)}

    def names(t):
        return {m.id for m in ast.walk(t) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}

    def block(stmts, done):
        """done: assigned for sure; returns the same after the statements (None: never gets there)"""
        done = set(done)
        for st in stmts:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                live.update(loads(st) - done)
                ts = st.targets if isinstance(st, ast.Assign) else [st.target] if st.value is not None else []
                for t in ts:
                    done |= names(t)
            elif isinstance(st, ast.If):
                live.update(loads(st.test) - done)
                a, b = block(st.body, done), block(st.orelse, done)
                if a is None and b is None:
                    return None
                done = b if a is None else a if b is None else a & b
            elif isinstance(st, (ast.For, ast.While)):
                if isinstance(st, ast.For):
                    live.update(loads(st.iter) - done)
                    block(st.body, done | names(st.target))
                else:
                    live.update(loads(st.test) - done)
                    block(st.body, done)
                block(st.orelse, done)
            elif isinstance(st, ast.Try):
                block(st.body, done)
                for x in st.handlers:
                    if x.type is not None:
                        live.update(loads(x.type) - done)
                    block(x.body, done | ({x.name} if x.name else set()))
                block(st.orelse, done)
                block(st.finalbody, done)
            elif isinstance(st, (ast.Continue, ast.Return, ast.Raise, ast.Break)):
                live.update(loads(st) - done)
                return None
            else:
                live.update(loads(st) - done)
        return done
    block(loop.body, names(loop.target))
    _dead_cache[k] = stored - live
    return _dead_cache[k]


def local_names(node):
    """names bound in a function body (not in nested functions)"""
    if node in _locals_cache:
        return _locals_cache[node]
    names, glob, nonl = set(), set(), set()
    has_yield = [False]

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        visit(b)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    names -= glob | nonl
    r = (frozenset(names), frozenset(glob), frozenset(nonl), has_yield[0])
    _locals_cache[node] = r
    return r


class Interp(_Base):
    # --------------------------------------------------------------- variables
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                k = ("v", f.fid, name)
                if k in self.store:
                    v = self.store[k]
                    if isinstance(v, Poison):
                        raise Unsupported(v.why)
                    return v
                if self.loopvars:
                    raise Unsupported("variable read before assignment inside a loop")
                if f is fr:
                    self.raise_(UnboundLocalError)
                self.raise_(NameError)
            if name in f.cells:
                return f.cells[name]
            f = f.parent
        g = fr.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError)

    def assign_name(self, name, v, fr):
        f = fr
        if name in fr.globs:
            raise Write(f"global {name}")
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.locals:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal in native closure")
        self.store[("v", f.fid, name)] = v

    def assign(self, tgt, v, fr):
        if isinstance(tgt, ast.Name):
            self.assign_name(tgt.id, v, fr)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            vals = self.unpack(v, tgt.elts)
            for t, x in zip(tgt.elts, vals):
                self.assign(t.value if isinstance(t, ast.Starred) else t, x, fr)
        elif isinstance(tgt, ast.Attribute):
            self.set_attr(self.ev(tgt.value, fr), tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, fr)
            self.set_item(o, self.ev(tgt.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        v = self.force(v)
        if isinstance(v, SymSplit) and v.maxsplit < 0 and len(v.sep) == 1 and not star:
            if not self.decide(self.int_f("==", self.split_len(v), z3.IntVal(n))):
                self.raise_(ValueError)
        items = self.concrete_items(v)
        if star:
            i = star[0]
            if len(items) < n - 1:
                self.raise_(ValueError)
            k = len(items) - (n - 1)
            mid = self.alloc("list", tuple(items[i:i + k]))
            return list(items[:i]) + [mid] + list(items[i + k:])
        if len(items) != n:
            self.raise_(ValueError)
        return items

    def concrete_items(self, v):
        """items of an iterable of concrete length"""
        v = self.force(v)
        if isinstance(v, HRef):
            if v.kind in ("list", "set", "iter"):
                c = self.content(v)
                if any(isinstance(x, (Seg, Poison)) for x in c):
                    raise Unsupported("list of symbolic length")
                return list(c)
            if v.kind == "dict":
                return [self.unkey(k) for k in self.content(v)]
            raise Unsupported("iteration over object")
        if isinstance(v, SymSplit) and v.maxsplit < 0 and len(v.sep) == 1:
            n = self.split_len(v)
            for k in range(1, 9):
                if self.prover.check(neg(self.int_f("==", n, z3.IntVal(k)))) == "unsat":
                    return [SymStr(self.enc.piece(v.t, v.sep, i)) for i in range(k)]
        if isinstance(v, SymValue):
            if isinstance(v, SymView) and v.kind == "chars":
                raise Unsupported("iteration over symbolic string")
            raise Unsupported(f"iteration over {v!r} at this place")
        try:
            it = list(v)
        except Unsupported:
            raise
        except TypeError:
            self.raise_(TypeError)
        if len(it) > UNROLL:
            raise Unsupported("long concrete loop")
        return it

    # --------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            old = self.get_attr(o, s.target.attr)
        else:
            o = self.ev(s.target.value, fr)
            idx = self.ev(s.target.slice, fr)
            old = self.get_item(o, idx)
        rhs = self.ev(s.value, fr)
        if isinstance(old, HRef) and old.kind in ("list", "set", "dict"):
            nm = {("list", ast.Add): "extend", ("set", ast.BitOr): "update", ("dict", ast.BitOr): "update"}.get(
                (old.kind, type(s.op)))
            if nm is None:
                raise Unsupported("augmented assignment")
            self.call(StrMethod(old, nm), [rhs], {})
            new = old
        else:
            new = self.binop(type(s.op), old, rhs)
        if isinstance(s.target, ast.Name):
            self.assign_name(s.target.id, new, fr)
        elif isinstance(s.target, ast.Attribute):
            self.set_attr(o, s.target.attr, new)
        else:
            self.set_item(o, idx, new)

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            self.raise_(AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.excstack:
                self.raise_(RuntimeError)
            raise PyRaise(self.excstack[-1])
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        if not isinstance(e, ExcVal):
            raise Unsupported("raise of " + repr(e))
        raise PyRaise(e)

    def s_Try(self, s, fr):
        def body():
            try:
                self.block(s.body, fr)
            except PyRaise as pr:
                exc = pr.exc
                for h in s.handlers:
                    if h.type is not None:
                        ts = self.ev(h.type, fr)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        if not all(isinstance(t, type) for t in ts):
                            raise Unsupported("except clause")
                        if not issubclass(exc.c, ts):
                            continue
                    if h.name:
                        self.assign_name(h.name, exc, fr)
                    self.excstack.append(exc)
                    try:
                        self.block(h.body, fr)
                    finally:
                        self.excstack.pop()
                        if h.name:
                            self.store.pop(("v", fr.fid, h.name), None)
                    return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody:
            body()
            return
        try:
            body()
        except (PyRaise, Ret, Brk, Cont):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        raise Unsupported("with statement")

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.assign_name(s.name, f, fr)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [self.ev(d, fr) if d is not None else None for d in a.kw_defaults]
        return Func(node, fr, tuple(defaults), tuple(kwd), name)

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                import importlib
                m = importlib.import_module(a.name)
            self.assign_name(a.asname or a.name.split(".")[0], m, fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            raise Unsupported("relative import inside a function")
        m = importlib.import_module(s.module)
        for a in s.names:
            self.assign_name(a.asname or a.name, getattr(m, a.name), fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store.pop(("v", fr.fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.del_item(o, self.ev(t.slice, fr))
            else:
                raise Unsupported("del target")

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_While(self, s, fr):
        h = self.hooks.get("while")
        if h:
            return h(self, s, fr)
        n = 0
        while True:
            if not self.cond(s.test, fr):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > 64:
                raise Unsupported("while loop without a contract")
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                continue

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for case in s.cases:
            ok = self.pattern(case.pattern, v, fr)
            if ok and (case.guard is None or self.cond(case.guard, fr)):
                self.block(case.body, fr)
                return

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.decide(self.eq_f(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.decide(self.same_f(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr):
                return False
            if p.name:
                self.assign_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.decide(self.isinstance_f(v, self.ev(p.cls, fr)))
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple) and len(v) == len(p.patterns) \
                and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            return all(self.pattern(q, x, fr) for q, x in zip(p.patterns, v))
        raise Unsupported("match pattern")

    # -------------------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        dead = ()
        if isinstance(fr.fn, types.FunctionType) and fr.parent is None and not fr.globs:
            dead = [("v", fr.fid, n) for n in loop_locals(function_node(fr.fn), s) if n in fr.locals]

        def body(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except Cont:
                pass
            for k in dead:
                self.store.pop(k, None)
        try:
            self.loop(it, body)
        except Brk:
            return
        self.block(s.orelse, fr)

    def loop(self, it, body):
        """run body(item) for each item; Brk propagates to the caller"""
        it = self.force(it)
        if isinstance(it, SymObj):
            m = inspect.getattr_static(it.c, "__iter__", None)
            if m is None or not (isinstance(m, types.FunctionType) and m.__module__.startswith("asyncapi3")):
                raise Unsupported("iteration over a model object")
            return self.loop(self.call(Bound(it, m), [], {}), body)
        if isinstance(it, GhostVal) and hasattr(it, "py_loop"):
            return it.py_loop(self, body)
        if isinstance(it, (SymSplit, GhostVal)) and "loop" in self.hooks:
            return self.hooks["loop"](self, it, body)
        if isinstance(it, (SymList, SymDict, SymView, SymStr)):
            return self.sym_loop(it, body)
        if isinstance(it, HRef) and it.kind in ("list", "set", "iter"):
            for x in list(self.content(it)):
                if isinstance(x, Seg):
                    self.seg_loop(x, body)
                else:
                    self.one_pass(body, x)
            return
        if it is None:
            self.raise_(TypeError)
        items = self.concrete_items(it)
        for x in items:
            self.one_pass(body, x)

    def one_pass(self, body, x):
        """one iteration; paths that leave the same state are merged"""
        if isinstance(x, Run):
            raise Unsupported(x.why)
        def thunk():
            try:
                body(x)
            except Cont:
                pass
        self.summarise(thunk)

    def elem_of(self, it):
        """(collection, element variable, element value)"""
        e = self.enc
        if isinstance(it, SymList):
            i = self.fresh("i", z3.IntSort())
            return Coll(e, "list", it.t, None), i, Sym(e.lat(it.t, i), it.T)
        if isinstance(it, SymStr):
            c = self.fresh("c", z3.StringSort())
            return Coll(e, "chars", it.t, None), c, SymStr(c)
        if isinstance(it, SymDict):
            k = self.fresh("k", z3.StringSort())
            return Coll(e, "dict", it.t, None), k, SymStr(k)
        if isinstance(it, SymView):
            if it.kind in ("keys", "values", "items"):
                c, k, _ = self.elem_of(it.base)
                val = Sym(e.get(it.base.t, k), it.base.T)
                return c, k, {"keys": SymStr(k), "values": val, "items": (SymStr(k), val)}[it.kind]
            if it.kind == "enumerate":
                c, i, x = self.elem_of(it.base)
                if c.kind == "chars":
                    raise Unsupported("position of a character")
                if c.kind == "list":
                    n = SymInt(i if it.start == 0 else i + it.start)
                else:
                    n = SymInt(e.loosely(e.uf("ordinal", e.Obj, z3.StringSort(), z3.IntSort())(c.t, i)) + it.start)
                return c, i, (n, x)
            if it.kind in ("reversed", "copy"):
                return self.elem_of(it.base)
        raise Unsupported(f"loop over {it!r}")

    def sym_loop(self, it, body):
        c, v, x = self.elem_of(it)
        self.generic_loop(c, v, fm.T, lambda: body(x))

    def seg_loop(self, seg, body):
        def inner():
            for y in seg.items:
                if isinstance(y, Seg):
                    self.seg_loop(y, body)
                elif isinstance(y, Run):
                    raise Unsupported(y.why)
                else:
                    try:
                        body(y)
                    except Cont:
                        pass
        self.generic_loop(seg.coll, seg.v, seg.f, inner)

    def generic_loop(self, coll, v, pre, run):
        """for every v in coll with pre(v): run()"""
        base = self.store

        def once():
            self.loopvars = self.loopvars + [v]
            self.assume(lit(coll.guard(v)))
            if not fm.is_true(pre):
                self.assume(pre)
            try:
                run()
            except Cont:
                pass

        outs = self.explore(once)
        modified, st = {}, None
        for o in outs:
            if o.kind == "normal":
                d, gone = self.diff(o, base)
                for k, val in d.items():
                    if k in base:
                        modified.setdefault(k, []).append(val)
                    elif k[0] == "v":
                        modified.setdefault(k, []).append(val)
                for k in gone:
                    modified.setdefault(k, []).append(None)
        if self.flag_loop(base, modified, outs, once, coll, v, pre):
            return
        if any(k in base or k[0] != "v" for k in modified):
            # the body carries state: no iteration may depend on what an earlier one left
            st = dict(base)
            for k in modified:
                if k[0] == "h" and isinstance(base.get(k), tuple):
                    st[k] = (Poison("state carried through a loop"),)
                else:
                    st[k] = Poison("variable carried through a loop over a symbolic collection")
            self.store = st
            try:
                outs = self.explore(once)
            finally:
                self.store = base
        nxt, groups = [], {}
        changes = {}
        pbase = st if st is not None else base
        for o in outs:
            if o.kind == "normal":
                nxt.append(o.f)
                d, gone = self.diff(o, pbase)
                for k, val in d.items():
                    changes.setdefault(k, []).append((o.f, val))
                for k in set(d) - set(modified):
                    if k in base or k[0] == "v":
                        raise Unsupported("state change appeared in the second pass")
            else:
                vk = ("exc", o.value.c, len(groups) if self.split_raises else 0) if o.kind == "raise" else vkey(o.value) if o.kind != "unsupported" else "u"
                if o.kind == "break":
                    d, gone = self.diff(o, pbase)
                    key = ("break", tuple(sorted(((k, vkey(x)) for k, x in d.items()), key=repr)))
                    if any(isinstance(x, Poison) for x in d.values()):
                        pass
                    groups.setdefault(key, []).append((o, d))
                else:
                    d, gone = self.diff(o, pbase)
                    key = (o.kind, vk, tuple(sorted(((k, vkey(x)) for k, x in d.items()), key=repr)))
                    groups.setdefault(key, []).append((o, d))
        normal = forall(coll, v, disj(disj(*nxt) if nxt else fm.BOT, neg(pre)))
        opts, acts = [normal], [None]
        for key, lst in groups.items():
            f = conj(pre, disj(*[o.f for o, _ in lst]))
            o, d = lst[0]
            if o.kind == "raise":
                o.value = ExcVal(o.value.c)
            dep = self.mentions(o.value if o.kind != "raise" else None, v) or any(self.mentions(x, v) for x in d.values())
            if dep:
                opts.append(conj(lit(coll.holds(v)), f))
                if coll.kind == "chars":
                    opts[-1] = conj(opts[-1], exists(coll, v, f))
            else:
                opts.append(exists(coll, v, f))
            acts.append((o, d))
        i = self.choose(opts)
        st2 = dict(base)
        if i == 0:
            for k in modified:
                self.after_loop(st2, base, k, changes.get(k, []), coll, v, pre)
            self.store = st2
            return
        o, d = acts[i]
        for k in modified:
            st2[k] = Poison("state after leaving a loop early")
        for k, x in d.items():
            if isinstance(x, tuple) and x and isinstance(x[0], Poison):
                x = (Poison("state after leaving a loop early"),)
            st2[k] = x
        self.store = st2
        self.ids = max(self.ids, self.next_id(st2))
        if o.kind == "raise":
            raise PyRaise(o.value)
        if o.kind == "return":
            raise Ret(o.value)
        if o.kind == "break":
            raise Brk()
        if o.kind == "write":
            raise Write(o.value)
        raise Unsupported(o.value)

    def flag_loop(self, base, modified, outs, once, coll, v, pre):
        """a loop that only keeps a flag, of the form `flag = flag and P(v)` (or `or`): one of its
        values is kept by every iteration, the other becomes P(v)"""
        ks = [k for k in modified if k in base]
        if len(ks) != 1 or ks[0][0] != "v" or not isinstance(base[ks[0]], (bool, SymBool)) or \
                any(o.kind != "normal" for o in outs) or any(k[0] != "v" for k in modified):
            return False
        k, res = ks[0], {}
        for start in (True, False):
            self.store = {**base, k: start}
            try:
                res[start] = self.explore(once)
            finally:
                self.store = base
            for o in res[start]:
                if o.kind != "normal" or not isinstance(o.store.get(k), (bool, SymBool)) or \
                        any(x in self.store and x != k for x in self.diff(o, {**base, k: start})[0]):
                    return False
        for stay in (False, True):
            if all(o.store[k] is stay for o in res[stay]):
                hold = disj(*[conj(o.f, self.truth_f(o.store[k])) for o in res[not stay]])
                old = self.truth_f(base[k])
                if stay:
                    new = disj(old, exists(coll, v, conj(pre, hold)))
                else:
                    new = conj(old, forall(coll, v, disj(neg(pre), hold)))
                st = {x: y for x, y in base.items()}
                for x in modified:
                    st[x] = Poison("variable assigned in a loop over a symbolic collection")
                st[k] = True if fm.is_true(new) else False if fm.is_false(new) else SymBool(new)
                self.store = st
                return True
        return False

    def after_loop(self, st, base, k, chg, coll, v, pre):
        """value of a modified cell after all iterations"""
        old = base.get(k)
        if k[0] == "h" and isinstance(old, tuple):
            segs = list(old)
            for f, val in chg:
                if not (isinstance(val, tuple) and val and isinstance(val[0], Poison)):
                    st[k] = Poison("container modified in a loop")
                    return
                segs.append(Seg(coll, v, conj(pre, f), tuple(val[1:])))
            st[k] = tuple(segs)
            return
        vals = {vkey(x) for _, x in chg}
        if k in base and len(vals) == 1 and not self.mentions(chg[0][1], v) and not isinstance(chg[0][1], Poison) \
                and not isinstance(old, HRef):
            # a flag: set to one value in some iterations, untouched in the others
            c = exists(coll, v, conj(pre, disj(*[f for f, _ in chg])))
            new = chg[0][1]
            if isinstance(old, bool) and isinstance(new, bool):
                st[k] = SymBool(c if new else neg(c)) if old != new else new
                return
            if self.decide_in(st, c):
                st[k] = new
            return
        st[k] = Poison("variable assigned in a loop over a symbolic collection")

    def decide_in(self, st, c):
        return self.decide(c)

    def mentions(self, val, v):
        if val is None:
            return False
        if isinstance(val, tuple):
            return any(self.mentions(x, v) for x in val)
        if isinstance(val, (Sym, SymInt, SymStr, SymObj, SymList, SymDict, SymMatch, SymSplit, SymType)):
            return contains(val.t, v)
        if isinstance(val, SymBool):
            return f_contains(val.f, v)
        if isinstance(val, Opaque) and val.t is not None:
            return contains(val.t, v)
        if isinstance(val, SymView):
            return self.mentions(val.base, v)
        if isinstance(val, HRef):
            ks = [k for k in self.store if k[1] == val.oid and k[0] in "ha"]
            return True if not ks else any(self.mentions(self.store[k], v) for k in ks)
        if isinstance(val, (Poison, Opaque, Func)):
            return isinstance(val, Opaque)
        if isinstance(val, GhostVal):
            for k in type(val).__slots__:
                x = getattr(val, k, None)
                if isinstance(x, z3.ExprRef) and contains(x, v) or isinstance(x, (SymValue, tuple)) and self.mentions(x, v):
                    return True
            return False
        if isinstance(val, Bound):
            return self.mentions(val.self_, v)
        if isinstance(val, StrMethod):
            return self.mentions(val.obj, v)
        if isinstance(val, Seg):
            return True
        return False

    # --------------------------------------------------------------- expressions
    def cond(self, node, fr):
        """truth of an expression, with short-circuit evaluation"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.cond(node.operand, fr)
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                for n in node.values:
                    if not self.cond(n, fr):
                        return False
                return True
            for n in node.values:
                if self.cond(n, fr):
                    return True
            return False
        return self.truth(self.ev(node, fr))

    def ev(self, n, fr):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return self.alloc("list", tuple(self.elts(n.elts, fr)))

    def e_Set(self, n, fr):
        return self.make_set(self.elts(n.elts, fr))

    def make_set(self, items):
        out, seen = [], set()
        for x in items:
            k = vkey(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return self.alloc("set", tuple(out))

    def elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.force(self.ev(e.value, fr))
                if isinstance(v, HRef) and v.kind in ("list", "set"):
                    out.extend(self.content(v))
                elif isinstance(v, (SymList, SymDict, SymView)):
                    c, x, val = self.elem_of(v)
                    out.append(Seg(c, x, fm.T, (val,)))
                else:
                    out.extend(self.concrete_items(v))
            else:
                out.append(self.ev(e, fr))
        return out

    def hk(self, k):
        """key of a heap dict"""
        k = self.force(k)
        if isinstance(k, SymValue) and not isinstance(k, (SymStr, SymInt)):
            raise Unsupported("dict key")
        return _K(k)

    def unkey(self, k):
        return k.v

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.force(self.ev(v, fr))
                if isinstance(o, HRef) and o.kind == "dict":
                    d.update(self.content(o))
                elif isinstance(o, dict):
                    d.update({_K(a): b for a, b in o.items()})
                elif isinstance(o, GhostVal) and len(n.keys) == 1:
                    return self.hooks["dict_copy"](self, o)
                else:
                    raise Unsupported("** of symbolic dict")
            else:
                kk = self.hk(self.ev(k, fr))
                if is_sym(kk.v) and d:
                    raise Unsupported("symbolic dict key")
                d[kk] = self.ev(v, fr)
        return self.alloc("dict", d)

    def e_BoolOp(self, n, fr):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return self.refine(v, False)
            if isinstance(n.op, ast.Or) and t:
                return self.refine(v, True)

    def refine(self, v, truth):
        return truth if isinstance(v, SymBool) else v

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            v = self.ev(n.operand, fr)
            f = neg(self.truth_f(v))
            if fm.is_true(f):
                return True
            if fm.is_false(f):
                return False
            return SymBool(f)
        v = self.force(self.ev(n.operand, fr))
        if not is_sym(v):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)](v)
        if isinstance(n.op, ast.USub):
            return SymInt(-self.zi(v))
        raise Unsupported("unary operator")

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.cond(n.test, fr) else n.orelse, fr)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        fs = []
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            f = self.cmp(op, left, right)
            if len(n.ops) > 1 and i < len(n.ops) - 1:
                if not self.decide(f):
                    return False
            else:
                fs.append(f)
            left = right
        f = conj(*fs)
        if fm.is_true(f):
            return True
        if fm.is_false(f):
            return False
        return SymBool(f)

    def cmp(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq_f(a, b)
        if isinstance(op, ast.NotEq):
            return neg(self.eq_f(a, b))
        if isinstance(op, ast.Is):
            return self.same_f(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.same_f(a, b))
        if isinstance(op, ast.In):
            return self.in_f(a, b)
        if isinstance(op, ast.NotIn):
            return neg(self.in_f(a, b))
        return self.order_f({ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], a, b)

    def e_BinOp(self, n, fr):
        return self.binop(type(n.op), self.ev(n.left, fr), self.ev(n.right, fr))

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
           ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Div: operator.truediv,
           ast.Pow: operator.pow, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if not is_sym(a) and not is_sym(b):
            try:
                return self.OPS[op](a, b)
            except (TypeError, ValueError, ZeroDivisionError) as e:
                self.raise_(type(e))
        if op is ast.Add:
            if hasattr(type(a), "py_add"):
                return a.py_add(self, b, False)
            if hasattr(type(b), "py_add"):
                return b.py_add(self, a, True)
            if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
                return SymStr(z3.Concat(self.zs(a), self.zs(b)))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, HRef) and isinstance(b, HRef) and a.kind == b.kind == "list":
                return self.alloc("list", self.content(a) + self.content(b))
        if isinstance(a, (SymInt, SymBool, int)) and isinstance(b, (SymInt, SymBool, int)):
            x, y = self.zi(a), self.zi(b)
            if op is ast.Add:
                return SymInt(x + y)
            if op is ast.Sub:
                return SymInt(x - y)
            if op is ast.Mult and (not is_sym(a) or not is_sym(b)):
                return SymInt(x * y)
            if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(a, (SymBool, bool)) and \
                    isinstance(b, (SymBool, bool)):
                fa, fb = self.truth_f(a), self.truth_f(b)
                if op is ast.BitXor:
                    return SymBool(neg(fm.iff(fa, fb)))
                return SymBool(conj(fa, fb) if op is ast.BitAnd else disj(fa, fb))
        if op is ast.Mod and isinstance(a, str):
            return self.fresh_str("fmt")
        if op is ast.BitOr and isinstance(a, HRef) and isinstance(b, HRef) and a.kind == b.kind == "set":
            return self.make_set(self.content(a) + self.content(b))
        if op in (ast.BitOr, ast.BitAnd, ast.Sub) and self.setlike(a) and self.setlike(b):
            return self.set_op(op, a, b)
        raise Unsupported(f"operator {op.__name__} on {a!r}, {b!r}")

    def setlike(self, x):
        return isinstance(x, HRef) and x.kind == "set" or isinstance(x, (set, frozenset)) or \
            isinstance(x, SymView) and x.kind == "keys"

    def set_op(self, op, a, b):
        xs = self.collect(a)
        if op is ast.BitOr:
            return self.make_set(xs + self.collect(b))
        out = []
        for x in xs:
            for y in self.filtered(x, b, op is ast.BitAnd):
                out.append(y)
        return self.alloc("set", tuple(out))

    def filtered(self, x, b, keep):
        """the items of one element (or segment) that are in b / not in b"""
        if isinstance(x, Seg):
            for y in x.items:
                if isinstance(y, Seg):
                    raise Unsupported("set operation on a nested comprehension")
                f = self.in_f(y, b)
                yield Seg(x.coll, x.v, conj(x.f, f if keep else neg(f)), (y,))
        elif isinstance(x, (Poison, Run)):
            raise Unsupported("set operation")
        elif self.decide(self.in_f(x, b)) == keep:
            yield x

    def subset_f(self, xs, b, inside=True):
        """every item of xs is (not) in b"""
        fs = []
        for x in xs:
            if isinstance(x, Seg):
                fs.append(fm.forall(x.coll, x.v, disj(neg(x.f), self.subset_f(x.items, b, inside))))
            elif isinstance(x, (Poison, Run)):
                raise Unsupported("set comparison")
            else:
                f = self.in_f(x, b)
                fs.append(f if inside else neg(f))
        return conj(*fs)

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = self.ev(p.value, fr)
            if p.conversion != -1 or p.format_spec is not None:
                v = self.force(v)
                if is_sym(v) or p.format_spec is not None:
                    parts.append(self.fresh_str("fmt"))
                else:
                    parts.append({114: repr, 115: str, 97: ascii}[p.conversion](v))
                continue
            parts.append(self.to_str(v))
        return self.joined(parts)

    def joined(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        if any(isinstance(p, rope.Rope) for p in parts):
            return rope.make([x for p in parts for x in rope.lift(self, p)])
        zs = [self.zs(p) for p in parts if not (isinstance(p, str) and p == "")]
        return SymStr(zs[0] if len(zs) == 1 else z3.Concat(*zs))

    def to_str(self, v):
        if isinstance(v, Sym):
            alts = self.enc.alts(v.T)
            if not all(a[0] in ("str", "email") for a in alts):
                if any(a[0] in ("str", "email", "any") for a in alts):
                    v = self.force(v)
                else:
                    return self.fresh_str("str")
            else:
                v = self.force(v)
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, rope.Rope):
            return v
        if is_sym(v):
            if isinstance(v, SymInt):
                return SymStr(self.enc.loosely(self.enc.uf("str_of_int", z3.IntSort(), z3.StringSort())(v.t)))
            return self.fresh_str("str")
        try:
            return str(v)
        except Exception:
            return self.fresh_str("str")

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda>")

    def e_Starred(self, n, fr):
        raise Unsupported("starred expression")

    def e_Attribute(self, n, fr):
        return self.get_attr(self.ev(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            return self.slice(o, *[self.ev(x, fr) if x is not None else None
                                   for x in (n.slice.lower, n.slice.upper, n.slice.step)])
        return self.get_item(o, self.ev(n.slice, fr))

    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args = self.elts(n.args, fr)
        if any(isinstance(a, (Seg, Run)) for a in args):
            raise Unsupported("* of symbolic list")
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                v = self.force(v)
                if isinstance(v, HRef) and v.kind == "dict":
                    for a, b in self.content(v).items():
                        if not isinstance(a.v, str):
                            raise Unsupported("** keys")
                        kw[a.v] = b
                elif isinstance(v, dict):
                    kw.update(v)
                elif isinstance(o, GhostVal) and len(n.keys) == 1:
                    return self.hooks["dict_copy"](self, o)
                else:
                    raise Unsupported("** of symbolic dict")
            else:
                kw[k.arg] = v
        if f is builtins.super and not args:
            return self.zero_super(fr)
        if f in (builtins.locals, builtins.globals) if isinstance(f, types.BuiltinFunctionType) else False:
            raise Unsupported("locals()")
        return self.call(f, args, kw)

    def zero_super(self, fr):
        f = fr
        while f.fn is None and f.parent is not None:
            f = f.parent
        fn = f.fn
        if fn is None or "__class__" not in fn.__code__.co_freevars:
            raise Unsupported("super()")
        owner = fn.__closure__[fn.__code__.co_freevars.index("__class__")].cell_contents
        first = fn.__code__.co_varnames[0]
        return Super(owner, self.store[("v", f.fid, first)])

    # comprehensions
    def comp(self, n, fr, emit):
        sub = self.new_frame(fr.globals, fr, comp_names(n))

        def gen(i):
            if i == len(n.generators):
                emit(sub)
                return
            g = n.generators[i]
            it = self.ev(g.iter, fr if i == 0 else sub)

            def body(v):
                self.assign(g.target, v, sub)
                for c in g.ifs:
                    if not self.cond(c, sub):
                        return
                gen(i + 1)
            self.loop(it, body)
        gen(0)

    def e_ListComp(self, n, fr):
        r = self.alloc("list", ())

        def emit(sub):
            x = self.ev(n.elt, sub)
            self.setcontent(r, self.store[("h", r.oid)] + (x,))
        self.comp(n, fr, emit)
        return r

    def e_GeneratorExp(self, n, fr):
        # evaluated eagerly; any()/all() over it are handled lazily in call_any
        return GenExp(n, fr)

    def e_SetComp(self, n, fr):
        r = self.e_ListComp(n, fr)
        return self.alloc("set", self.store[("h", r.oid)])

    def e_DictComp(self, n, fr):
        r = self.alloc("dict", {})

        def emit(sub):
            k = self.hk(self.ev(n.key, sub))
            v = self.ev(n.value, sub)
            d = self.content(r)
            if is_sym(k.v):
                raise Unsupported("symbolic keys in a dict comprehension")
            d = dict(d)
            d[k] = v
            self.setcontent(r, d)
        self.comp(n, fr, emit)
        return r

    def new_frame(self, globs, parent, names, fn=None):
        self.ids += 1
        return Frame(self.ids, globs, parent, names, fn)

    def e_Yield(self, n, fr):
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        v = self.ev(n.value, fr) if n.value is not None else None
        r = f.yields
        self.setcontent(r, self.store[("h", r.oid)] + (v,))
        return None

    def e_YieldFrom(self, n, fr):
        it = self.ev(n.value, fr)
        r = fr.yields

        def body(v):
            self.setcontent(r, self.store[("h", r.oid)] + (v,))
        self.loop(it, body)
        return None


class GenExp(SymValue):
    __slots__ = ("node", "frame")

    def __init__(self, node, frame):
        self.node, self.frame = node, frame

    def key(self):
        return ("genexp", id(self.node), self.frame.fid)


class _K:
    """hashable wrapper for the keys of heap dicts"""
    __slots__ = ("v", "_k")

    def __init__(self, v):
        self.v = v
        self._k = vkey(v) if is_sym(v) else ("c", v)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return self._k == o._k


def comp_names(n):
    names = set()
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                names.add(x.id)
    return frozenset(names)
