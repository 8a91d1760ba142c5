"""Formula trees over z3 literals with quantifiers restricted to collections.

Quantifiers never reach z3: existentials are skolemised and universals are
instantiated at the ground element terms of the same collection, so every
solver query is quantifier free.  `unsat` answers are therefore proofs; `sat`
answers are candidate counterexamples.
"""
import time

import z3

from .errors import Unsupported
from .regex import unz
z3.z3.Z3_DEBUG = False

_B = z3.BoolSort()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class F:
    __slots__ = ("k", "a", "_free", "_key")

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._free = None
        self._key = None

    def __repr__(self):
        return show(self)

    def key(self):
        if self._key is None:
            if self.k == "lit":
                self._key = ("l", self.a.get_id())
            elif self.k in ("and", "or"):
                self._key = (self.k,) + tuple(x.key() for x in self.a)
            else:
                self._key = (self.k, self.a[0].key(), self.a[1].get_id(), self.a[2].key())
        return self._key


def show(f, d=0):
    if f.k == "lit":
        return str(f.a)
    if f.k in ("and", "or"):
        return "(" + f" {f.k} ".join(show(x) for x in f.a) + ")"
    return f"({f.k} {f.a[1]} in {f.a[0]}: {show(f.a[2])})"


def lit(b):
    if b is True:
        return T
    if b is False:
        return BOT
    return F("lit", b)


T = F("lit", TRUE)
BOT = F("lit", FALSE)


def is_true(f):
    return f.k == "lit" and z3.is_true(f.a)


def is_false(f):
    return f.k == "lit" and z3.is_false(f.a)


def conj(*fs):
    out, seen = [], set()
    for f in fs:
        if is_true(f):
            continue
        if is_false(f):
            return BOT
        for g in (f.a if f.k == "and" else (f,)):
            k = g.key()
            if k not in seen:
                seen.add(k)
                out.append(g)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    if all(g.k == "lit" for g in out):
        return F("lit", z3.And(*[g.a for g in out]))
    return F("and", tuple(out))


def disj(*fs):
    out, seen = [], set()
    for f in fs:
        if is_false(f):
            continue
        if is_true(f):
            return T
        for g in (f.a if f.k == "or" else (f,)):
            k = g.key()
            if k not in seen:
                seen.add(k)
                out.append(g)
    if not out:
        return BOT
    if len(out) == 1:
        return out[0]
    if all(g.k == "lit" for g in out):
        return F("lit", z3.Or(*[g.a for g in out]))
    return F("or", tuple(out))


def neg(f):
    if f.k == "lit":
        a = f.a
        if z3.is_true(a):
            return BOT
        if z3.is_false(a):
            return T
        if z3.is_not(a):
            return F("lit", a.arg(0))
        return F("lit", z3.Not(a))
    if f.k == "and":
        return disj(*[neg(x) for x in f.a])
    if f.k == "or":
        return conj(*[neg(x) for x in f.a])
    coll, v, b = f.a
    return F("exists" if f.k == "forall" else "forall", (coll, v, neg(b)))


def forall(coll, v, body):
    if is_true(body):
        return T
    if coll.kind == "chars":
        return neg(coll.some(v, neg(body)))
    return F("forall", (coll, v, body))


def exists(coll, v, body):
    if is_false(body):
        return BOT
    if coll.kind == "chars":
        return coll.some(v, body)
    return F("exists", (coll, v, body))


def iff(a, b):
    return conj(disj(neg(a), b), disj(neg(b), a))


def subst(f, pairs):
    if f.k == "lit":
        return F("lit", z3.substitute(f.a, *pairs))
    if f.k in ("and", "or"):
        g = [subst(x, pairs) for x in f.a]
        return conj(*g) if f.k == "and" else disj(*g)
    coll, v, b = f.a
    return F(f.k, (coll.subst(pairs), z3.substitute(v, *pairs), subst(b, pairs)))


def quantfree(f):
    if f.k == "lit":
        return True
    if f.k in ("and", "or"):
        return all(quantfree(x) for x in f.a)
    return False


def to_z3(f):
    if f.k == "lit":
        return f.a
    if f.k == "and":
        return z3.And(*[to_z3(x) for x in f.a])
    if f.k == "or":
        return z3.Or(*[to_z3(x) for x in f.a])
    raise ValueError("quantified")


def contains(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def f_contains(f, v):
    if f.k == "lit":
        return contains(f.a, v)
    if f.k in ("and", "or"):
        return any(f_contains(x, v) for x in f.a)
    return contains(f.a[0].t, v) or contains(f.a[1], v) or f_contains(f.a[2], v)


class Coll:
    """A symbolic collection: a list (indexed), a map (keyed) or the characters of a string."""
    __slots__ = ("enc", "kind", "t", "sym")

    def __init__(self, enc, kind, t, sym):
        self.enc, self.kind, self.t, self.sym = enc, kind, t, sym

    def key(self):
        return (self.kind, self.t.get_id(), self.sym)

    def __repr__(self):
        return f"{self.kind}({self.t})"

    def subst(self, pairs):
        return Coll(self.enc, self.kind, z3.substitute(self.t, *pairs), self.sym)

    def sort(self):
        return z3.StringSort() if self.kind in ("dict", "chars") else z3.IntSort()

    def guard(self, v):
        e = self.enc
        if self.kind == "list":
            return z3.And(v >= 0, v < e.llen(self.t))
        if self.kind == "index":            # 0 <= v < t  (t is an Int)
            return z3.And(v >= 0, v < self.t)
        if self.kind == "chars":            # v is some character (that it occurs in t: holds)
            return e.mem(v, e.dots(1))
        return e.has(self.t, v)

    def holds(self, v):
        """v is an element of the collection"""
        if self.kind == "chars":
            return z3.And(self.guard(v), z3.Contains(self.t, v))
        return self.guard(v)

    def some(self, v, body):
        """(chars) some character of the string satisfies body: body can tell characters
        apart only by the languages it asks about, so this is a question about languages"""
        rx = self.enc.rx
        rx.setup()
        atoms = {}

        def mask(a):
            if z3.is_eq(a):
                x, y = a.arg(0), a.arg(1)
                if not x.eq(v):
                    x, y = y, x
                if x.eq(v) and z3.is_string_value(y):
                    w = unz(y.as_string())
                    i = rx.sym(ord(w)) if len(w) == 1 else None
                    if len(w) == 1 and (i is None or ord(w) not in rx.zindex or
                                        any(j == i for _, _, j in rx.groups)):
                        raise Unsupported("comparison of a character")
                    return 0 if i is None else 1 << i
            if z3.is_app(a) and a.num_args() == 1 and a.arg(0).eq(v):
                n = self.enc.mems.get(a.decl().get_id())
                if n is not None:
                    return sum(p for i, p in rx.blocks(n) if rx.deriv(n, i).nullable)
            raise Unsupported(f"condition on a character: {a.decl()}")

        def conn(a):
            return z3.is_and(a) or z3.is_or(a) or z3.is_not(a)

        def scan(a):
            if conn(a):
                for x in a.children():
                    scan(x)
            elif contains(a, v) and a.get_id() not in atoms:
                atoms[a.get_id()] = (a, mask(a))

        def walk(f):
            if f.k == "lit":
                scan(f.a)
            elif f.k in ("and", "or"):
                for x in f.a:
                    walk(x)
            elif f_contains(f, v):
                raise Unsupported("quantifier over a condition on a character")

        def val(a, p):
            if a.get_id() in atoms:
                return T if atoms[a.get_id()][1] & p else BOT
            if not conn(a) or not contains(a, v):
                return lit(a)
            xs = [val(x, p) for x in a.children()]
            return conj(*xs) if z3.is_and(a) else disj(*xs) if z3.is_or(a) else neg(xs[0])

        def at(f, p):
            if f.k == "lit":
                return val(f.a, p)
            if f.k in ("and", "or"):
                xs = [at(x, p) for x in f.a]
                return conj(*xs) if f.k == "and" else disj(*xs)
            return f
        walk(body)
        parts = [rx.full]
        for _, m in atoms.values():
            parts = [q for p in parts for q in (p & m, p & ~m) if q]
        groups = {}
        for p in parts:
            g = at(body, p)
            if not is_false(g):
                k = g.key()
                groups[k] = (g, groups[k][1] | p if k in groups else p)
        return disj(*[conj(g, lit(self.enc.mem(self.t, rx.cat(rx.ALL, rx.cls(p), rx.ALL))))
                      for g, p in groups.values()])


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


STATS = Stats()
ARITH = {getattr(z3, "Z3_OP_" + x) for x in (
    "SEQ_LENGTH", "SEQ_EXTRACT", "SEQ_INDEX", "SEQ_LAST_INDEX", "SEQ_AT", "SEQ_NTH", "SEQ_PREFIX", "SEQ_SUFFIX",
    "SEQ_CONTAINS", "SEQ_REPLACE", "STR_TO_INT", "INT_TO_STR") if hasattr(z3, "Z3_OP_" + x)}


class Prover:
    """Satisfiability of a set of formulas, incrementally."""

    def __init__(self, enc, timeout_ms=4000):
        self.enc = enc
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.n = 0
        self.foralls = []       # (guard lit or None, coll, var, body)
        self.elems = {}         # coll key -> list of terms
        self.done = set()
        self.seen_terms = set()
        self.pending = []
        self.stack = []
        self.undo = []
        self.bound = 4000
        self.memapps = []       # membership atoms in the current assertions
        self.concats = []
        self.approx = []        # string arithmetic and functions with a native meaning
        self.partial = False
        self.verified = True    # the last model is a model of those, too
        self.words = {}         # model string -> concrete string (z3 encoded)

    def push(self):
        self.stack.append((len(self.foralls), len(self.undo), len(self.memapps), len(self.concats),
                           len(self.approx), self.partial))
        self.solver.push()

    def pop(self):
        self.solver.pop()
        nf, nu, nm, nc, na, self.partial = self.stack.pop()
        del self.approx[na:]
        del self.memapps[nm:]
        del self.concats[nc:]
        del self.foralls[nf:]
        u = self.undo
        while len(u) > nu:
            kind, x = u.pop()
            if kind == 0:
                self.done.discard(x)
            elif kind == 1:
                self.seen_terms.discard(x)
            else:
                self.elems[x].pop()

    def add(self, f):
        self._proc(f, None)
        self._saturate()

    def _fresh(self, name, sort):
        self.n += 1
        return z3.Const(f"{name}!p{id(self) % 9973}_{self.n}", sort)

    def _assert(self, b, guard):
        self._scan(b)
        self.solver.add(b if guard is None else z3.Implies(guard, b))

    def _proc(self, f, guard):
        if f.k == "lit":
            self._assert(f.a, guard)
            return
        if quantfree(f):
            self._assert(to_z3(f), guard)
            return
        if f.k == "and":
            for x in f.a:
                self._proc(x, guard)
            return
        if f.k == "or":
            ps = []
            for x in f.a:
                if quantfree(x):
                    b = to_z3(x)
                    self._scan(b)
                    ps.append(b)
                else:
                    p = self._fresh("d", _B)
                    ps.append(p)
                    self._proc(x, p if guard is None else z3.And(guard, p))
            b = z3.Or(*ps)
            self.solver.add(b if guard is None else z3.Implies(guard, b))
            return
        coll, v, body = f.a
        if f.k == "exists":
            sk = self._fresh(str(v).split("!")[0], v.sort())
            self._register(coll, sk)
            self._assert(coll.guard(sk), guard)
            self._proc(subst(body, [(v, sk)]), guard)
            return
        self.foralls.append((guard, coll, v, body))

    def _register(self, coll, t):
        k = coll.key()
        lst = self.elems.setdefault(k, [])
        i = t.get_id()
        if not any(j == i for j, _ in lst):
            lst.append((i, t))
            self.undo.append((2, k))

    def _scan(self, b):
        """typing facts and element terms of all subterms of a ground literal"""
        stack = [(b.get_id(), b)]
        nodes = self.enc.scan_cache
        while stack:
            i, x = stack.pop()
            if i in self.seen_terms:
                continue
            self.seen_terms.add(i)
            self.undo.append((1, i))
            node = nodes.get(i)
            if node is None:
                node = nodes[i] = self._node(x)
            x, info, kids = node
            if info is not None:
                facts, elems, mem, cat, arith = info
                for fact in facts:
                    self._proc(fact, None)
                for coll, el in elems:
                    self._register(coll, el)
                if mem:
                    self.memapps.append(x)
                if cat:
                    self.concats.append(x)
                if arith:
                    self.approx.append(x)
            stack.extend(kids)

    def _node(self, x):
        if z3.is_quantifier(x) or not z3.is_app(x):
            return x, None, ()
        n = x.num_args()
        d = x.decl()
        facts = self.enc.term_facts(x)
        elems = self.enc.term_elems(x)
        mem = n == 1 and d.get_id() in self.enc.mems
        cat = n >= 2 and d.kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(x.arg(0))
        arith = d.get_id() in self.enc.loose or n >= 1 and (d.kind() in ARITH or d.get_id() in self.enc.natives or
                            d.kind() == z3.Z3_OP_SEQ_CONCAT and not z3.is_string_value(x.arg(0)))
        info = (facts, elems, mem, cat, arith) if facts or elems or mem or cat or arith else None
        return x, info, tuple((c.get_id(), c) for c in (x.children() if n else ()))

    def _saturate(self):
        rounds = 0
        progress = True
        while progress:
            progress = False
            rounds += 1
            if rounds > 12 or len(self.done) > self.bound:
                self.partial = True         # not every instance was added: a model proves nothing
                return
            for j, (guard, coll, v, body) in list(enumerate(self.foralls)):
                ck = coll.key()
                for ti, t in list(self.elems.get(ck, ())):
                    key = (ck, ti, v.get_id(), body.key(), guard.get_id() if guard is not None else None)
                    if key in self.done:
                        continue
                    self.done.add(key)
                    self.undo.append((0, key))
                    progress = True
                    ic = self.enc.inst_cache
                    hit = ic.get(key[:4])
                    if hit is None:
                        inst = disj(lit(z3.Not(coll.guard(t))), subst(body, [(v, t)]))
                        ic[key[:4]] = hit = (inst, coll, t, v, body)
                    self._proc(hit[0], guard)

    def check(self, *fs):
        """'unsat' | 'sat' | 'unknown' for the current set plus fs"""
        t0 = time.time()
        self.push()
        try:
            for f in fs:
                self._proc(f, None)
            if fs:
                self._saturate()
            r = self._solve()
        finally:
            self.pop()
        STATS.queries += 1
        STATS.time += time.time() - t0
        return r

    def _solve(self):
        self.last_model = None
        self.verified = True
        tries = 0
        for _ in range(200):
            r = self.solver.check()
            if r != z3.sat:
                return str(r)
            m = self.solver.model()
            self.words, self.bases, self.langs = {}, {}, {}
            lemmas = self._languages(m) if self.memapps else ()
            if not lemmas:
                if self.partial or any(x.decl().get_id() in self.enc.loose for x in self.approx):
                    self.last_model, self.verified = m, False
                    return "sat"
                if not self.approx or not self.memapps and not any(
                        x.decl().get_id() in self.enc.natives for x in self.approx):
                    self.last_model = m
                    return "sat"
                tries += 1
                lemmas = self._confirm(m)
                if lemmas is None:
                    return "sat"
                if not lemmas or tries > 12:
                    self.last_model, self.verified = m, False
                    return "sat"
            for b in lemmas:
                self._scan(b)
                self.solver.add(b)
        return "unknown"

    def _confirm(self, m):
        """None if there is a model with concrete strings in which the string functions have
        their real values (it becomes the last model); otherwise facts learned on the way"""
        from .regex import zraw
        e = self.enc
        words = dict(self.words)
        long, pins = self._lengthen(m, words)
        eqs = [t == zraw(w) for t, w in pins]
        for v, terms in self.bases.items():
            w = words.get(v, v)
            if w is None:
                return []
            c = e.strconsts.setdefault(w, zraw(w))
            eqs += [t == c for t in terms]
        learned = []
        self.push()
        try:
            for q in eqs:
                self._scan(q)
                self.solver.add(q)
            for _ in range(12):
                if self.solver.check() != z3.sat:
                    return () if long else learned      # (facts about the long words are no facts)
                m = self.solver.model()
                self.words, self.bases = {}, {}
                new = list(self._languages(m)) if self.memapps else []
                new += self._natives(m, long)
                if not new:
                    if any(v != w for v, w in self.words.items()):
                        return () if long else learned
                    self.last_model = m
                    self.words = {**self.words, **long}
                    return None
                for b in new:
                    self._scan(b)
                    self.solver.add(b)
                learned += new
            return () if long else learned
        finally:
            self.pop()

    def _lengthen(self, m, words):
        """({word: word as long as the model says}, [(term, word)]) for lengths above the limit of z3's
        own theory.  z3 only sees the short word; nothing but equalities, memberships and native
        functions (evaluated on the long word) may look at it"""
        from .regex import unz
        e, rx = self.enc, self.enc.rx
        out, pins = {}, []
        ln = e.ufs.get(("str_len", str(z3.StringSort()), str(z3.IntSort())))
        seen = set()                    # values z3's own string functions look at
        for x in self.concats + [x for x in self.approx if x.decl().get_id() not in e.natives]:
            for y in [x] + x.children():
                y = m.eval(y, model_completion=True)
                if z3.is_string_value(y):
                    seen.add(unz(y.as_string()))
        for x in self.approx:
            if ln is None or not x.decl().eq(ln):
                continue
            t = x.arg(0)
            n, v = m.eval(x, model_completion=True), m.eval(t, model_completion=True)
            if not z3.is_int_value(n) or not z3.is_string_value(v) or not 64 < n.as_long() <= 20000:
                continue
            n, v = n.as_long(), unz(v.as_string())
            L = self.langs.get(v)
            if L is None:
                w = f"l{len(out)}{n}"
                cands = [w + "a" * (n - len(w))]
            else:
                w = words.get(v, v)
                if w is None or len(w) >= n or v in e.strconsts or v in seen:
                    continue
                cands = [w[:i] + w[i] * (n - len(w) + 1) + w[i + 1:] for i in range(len(w))][::-1]
            if w in e.strconsts or w in seen or w in out:
                continue
            for c in cands[:6]:
                if c not in out.values() and (L is None or rx_member(rx, L, c)):
                    out[w] = c
                    pins.append((t, w))
                    break
        return out, pins

    def _natives(self, m, long={}):
        """facts about the functions with a native meaning that the model violates"""
        from .regex import unz, zraw
        e = self.enc
        out = []
        for x in self.approx:
            fn = e.natives.get(x.decl().get_id())
            if fn is None:
                continue
            args, vals = [], []
            for i in range(x.num_args()):
                v = m.eval(x.arg(i), model_completion=True)
                args.append(v)
                if z3.is_string_value(v):
                    s = unz(v.as_string())
                    vals.append(e.alpha.dec(long.get(s, s)))
                elif z3.is_int_value(v):
                    vals.append(v.as_long())
                else:
                    vals = None
                    break
            if vals is None:
                continue
            try:
                r = fn(*vals)
                if isinstance(r, bool):
                    r = z3.BoolVal(r)
                elif isinstance(r, int):
                    r = z3.IntVal(r)
                else:
                    r = zraw(e.alpha.enc(r))
            except Exception:
                continue
            if not m.eval(x, model_completion=True).eq(r):
                out.append(z3.Implies(z3.And(*[x.arg(i) == args[i] for i in range(x.num_args())]), x == r))
        return out

    def _languages(self, m):
        """theory lemmas violated by the model: memberships must be jointly possible"""
        from .regex import unz
        e, rx = self.enc, self.enc.rx
        lemmas, groups = [], {}

        def val(t):
            v = m.eval(t, model_completion=True)
            return unz(v.as_string()) if z3.is_string_value(v) else None

        def put(base, conds, node):
            v = val(base)
            self.bases.setdefault(v, []).append(base)
            groups.setdefault(v, []).append((base, conds, node))
        for app in self.memapps:
            b = z3.is_true(m.eval(app, model_completion=True))
            t, n = e.peel(app.arg(0), e.mems[app.decl().get_id()])
            if t is None:
                if n != b:
                    lemmas.append(app if n else z3.Not(app))
                continue
            put(t, [app if b else z3.Not(app)], n if b else rx.not_(n))
        if lemmas:
            return lemmas
        for _ in range(3):
            moved = False
            for u in self.concats:
                uv = val(u)
                if uv not in groups:
                    continue
                c = unz(u.arg(0).as_string())
                rest = [u.arg(i) for i in range(1, u.num_args())]
                x = rest[0] if len(rest) == 1 else z3.Concat(*rest)
                for base, conds, node in list(groups[uv]):
                    if base.eq(u):
                        continue
                    item = (x, conds + [base == u], rx.lquot(node, c))
                    g = groups.setdefault(val(x), [])
                    if not any(i[0].eq(x) and i[2] is item[2] for i in g):
                        g.append(item)
                        moved = True
            if not moved:
                break
        words, used = {}, set(e.strconsts)
        self.langs = {}
        for v, items in groups.items():
            if v in e.strconsts:
                for base, conds, node in items:
                    if not rx.member(node, v):
                        lemmas.append(z3.Not(z3.And(*conds, base == e.strconsts[v])))
                words[v] = v
                continue
            L = rx.and_(*[i[2] for i in items])
            if rx.empty(L):
                core = list(items)
                for it in list(core):
                    rest = [i for i in core if i is not it]
                    if rest and rx.empty(rx.and_(*[i[2] for i in rest])):
                        core = rest
                cs = [c for i in core for c in i[1]]
                b0 = core[0][0]
                cs += [i[0] == b0 for i in core[1:] if not i[0].eq(b0)]
                lemmas.append(z3.Not(z3.And(*cs)))
                continue
            self.langs[v] = L
            if any(x.decl().kind() == z3.Z3_OP_SEQ_LENGTH for x in self.approx):
                n = m.eval(z3.Length(items[0][0]), model_completion=True)
                n = n.as_long() if z3.is_int_value(n) else None
                if n is not None and 0 <= n <= 64:
                    Ln = rx.and_(L, e.dots(n))
                    if not rx.empty(Ln):
                        L = Ln
                    elif rx.empty(rx.and_(L, e.upto(n + 1))):
                        lemmas.append(z3.Implies(z3.And(*[c for i in items for c in i[1]], *[
                            i[0] == items[0][0] for i in items[1:] if not i[0].eq(items[0][0])]),
                            z3.Length(items[0][0]) > n))
                        continue
                    else:
                        lemmas.append(z3.Implies(z3.And(*[c for i in items for c in i[1]], *[
                            i[0] == items[0][0] for i in items[1:] if not i[0].eq(items[0][0])]),
                            z3.Length(items[0][0]) != n))
                        continue
            ws = rx.words(L, len(used) % 50 + 4 + len(words))
            ok = [w for w in ws if w not in used]
            if not ok:
                fin = rx.finite_words(L)
                if fin is not None:
                    if v in fin:
                        words[v] = v
                        continue
                    from .regex import zraw
                    for w in fin:
                        e.strconsts.setdefault(w, zraw(w))
                    cs = [c for i in items for c in i[1]]
                    b0 = items[0][0]
                    cs += [i[0] == b0 for i in items[1:] if not i[0].eq(b0)]
                    lemmas.append(z3.Implies(z3.And(*cs), z3.Or(*[b0 == e.strconsts[w] for w in fin])))
                    continue
                ok = ws
            words[v] = v if v is not None and v not in used and rx_member(rx, L, v) else ok[0]
            used.add(words[v])
        self.words = words
        return lemmas


def rx_member(rx, L, v):
    try:
        return rx.member(L, v)
    except Exception:
        return False
