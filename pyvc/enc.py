"""Logical encoding of Python values and of instances of the model classes."""
import z3

from . import formula as fm
from .charset import Alphabet
from .formula import Coll, F, conj, disj, exists, forall, lit, neg
from .lang import Langs
from .regex import unz, zraw, zstr

INT, STR, BOOL = z3.IntSort(), z3.StringSort(), z3.BoolSort()
NONE, LIST, DICT, CLASSOBJ, OTHER, URL = 0, 1, 2, 3, 4, 5


class Enc:
    _n = 0
    json_data = False       # values of type Any are JSON data (no foreign objects)

    def __init__(self, shapes, literal_chars="", use_patterned_keys=True):
        Enc._n += 1
        self.tag = f"{Enc._n}"
        t = self.tag
        self.Obj = z3.DeclareSort("Obj" + t)
        V = z3.Datatype("Val" + t)
        V.declare("none")
        V.declare("b", ("bv", BOOL))
        V.declare("i", ("iv", INT))
        V.declare("f", ("fv", z3.RealSort()))
        V.declare("s", ("sv", STR))
        V.declare("o", ("ov", self.Obj))
        self.Val = self.V = V.create()
        self.cls = z3.Function("cls" + t, self.Obj, INT)
        self.llen = z3.Function("llen" + t, self.Obj, INT)
        self.lat = z3.Function("lat" + t, self.Obj, INT, self.Val)
        self.has = z3.Function("has" + t, self.Obj, STR, BOOL)
        self.get = z3.Function("get" + t, self.Obj, STR, self.Val)
        self.dlen = z3.Function("dlen" + t, self.Obj, INT)
        self.dlens = {}                 # the sizes of maps that occur
        self.loose = {}                 # symbols only partly constrained: no model with them is trusted
        self.alpha = Alphabet(literal_chars)
        self.rx = Langs(self.alpha)
        self.mems = {}                  # z3 decl id -> language
        self.mem_of = {}
        self.before = {}                # z3 decl id -> separator (z3 encoded)
        self.drops = {}                 # z3 decl id -> number of leading characters removed
        self.preims = {}                # z3 decl id -> (language -> language of the arguments mapped into it)
        self.counts = {}                # z3 decl id of a function to Int -> (k -> language of the arguments mapped to k)
        self.repls = {}                 # z3 decl id -> (old, new) of str.replace
        self.natives = {}               # z3 decl id -> the Python function an uninterpreted one stands for
        self.strips = {}                # z3 decl id -> (language of a stripped character, left, right)
        self.strconsts = {"": z3.StringVal("")}     # z3-encoded string -> literal
        self.shapes = shapes            # class -> ClassShape
        self.clsid = {}
        self.attrs = {}                 # z3 decl id -> T
        self.attr_fn = {}
        self.consts = {}                # term id -> T
        self.keep = []
        self.ufs = {}
        self.fresh_n = 0
        self.scan_cache, self.inst_cache = {}, {}
        self.keyfacts = None            # optional: (obj term) -> regex for keys

    def class_id(self, c):
        if c not in self.clsid:
            self.clsid[c] = 100 + len(self.clsid)
        return self.clsid[c]

    def attr(self, c, f, T):
        k = (c, f)
        if k not in self.attr_fn:
            d = z3.Function(f"{c.__name__}.{f}_{self.tag}_{len(self.attr_fn)}", self.Obj, self.Val)
            self.attr_fn[k] = d
            self.attrs[d.get_id()] = T
            self.keep.append(d)
        return self.attr_fn[k]

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(f"{name}_{self.tag}_{len(self.ufs)}", *sorts)
        return self.ufs[k]

    def fresh(self, name, sort, over=()):
        self.fresh_n += 1
        nm = f"{name}!{self.tag}_{self.fresh_n}"
        if not over:
            return z3.Const(nm, sort)
        d = z3.Function(nm, *[x.sort() for x in over], sort)
        return d(*over)

    def loosely(self, t):
        """t is only partly constrained: models in which it matters are not trusted"""
        self.loose[t.decl().get_id()] = t
        return t

    def declare(self, term, T):
        self.consts[term.get_id()] = T
        self.keep.append(term)

    # -- strings -------------------------------------------------------------
    def const(self, s):
        """literal for a Python string"""
        z = zstr(self.alpha, s)
        self.strconsts.setdefault(self.alpha.enc(s), z)
        return z

    def peel(self, t, n):
        """(t', n') with t in n <=> t' in n' where t' has no known affixes; t' is None
        when the answer does not depend on a symbolic string (n' is then a bool)"""
        while True:
            if z3.is_string_value(t):
                return None, self.rx.member(n, unz(t.as_string()))
            if not z3.is_app(t):
                return t, n
            if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(t.arg(0)):
                n = self.rx.lquot(n, unz(t.arg(0).as_string()))
                rest = [t.arg(i) for i in range(1, t.num_args())]
                t = rest[0] if len(rest) == 1 else z3.Concat(*rest)
                continue
            k = self.drops.get(t.decl().get_id())
            if k is not None:
                r = self.rx
                head = r.EPS
                for _ in range(k):
                    head = r.cat(head, r.any_char())
                m = r.cat(head, n)
                if r.member(n, ""):
                    m = r.alt(m, r.not_(r.cat(head, r.ALL)))
                t, n = t.arg(0), m
                continue
            st = self.strips.get(t.decl().get_id())
            if st is not None:
                r, (c, left, right) = self.rx, st
                cs = r.star(c)
                n = r.and_(n, self.stripped(c, left, right))
                t, n = t.arg(0), r.cat(cs if left else r.EPS, n, cs if right else r.EPS)
                continue
            pre = self.preims.get(t.decl().get_id())
            if pre is not None:
                t, n = t.arg(0), pre(n)
                continue
            sep = self.before.get(t.decl().get_id())
            if sep is not None:
                r = self.rx
                nosep = r.not_(r.cat(r.ALL, r.word(sep), r.ALL))
                m = r.and_(n, nosep)
                n = r.alt(m, r.cat(m, r.word(sep), r.ALL)) if len(sep) == 1 else None
                if n is None:
                    return t, n
                t = t.arg(0)
                continue
            return t, n

    def mem(self, t, n):
        """the string t belongs to language n"""
        t, n = self.peel(t, n)
        if t is None:
            return z3.BoolVal(n)
        if n is self.rx.NONE:
            return z3.BoolVal(False)
        if n is self.rx.ALL:
            return z3.BoolVal(True)
        d = self.mem_of.get(n.id)
        if d is None:
            d = self.mem_of[n.id] = z3.Function(f"in_L{n.id}_{self.tag}", STR, BOOL)
            self.mems[d.get_id()] = n
            self.keep.append(d)
        return d(t)

    def before_fn(self, sep):
        d = self.uf(f"before_{sep!r}", STR, STR)
        self.before[d.get_id()] = self.alpha.enc(sep)
        self.natives[d.get_id()] = lambda x: x.split(sep, 1)[0]
        return d

    def strfn(self, name, native, pre):
        """a string function with a known effect on languages: native(s) in n <=> s in pre(n)"""
        d = self.uf(name, STR, STR)
        self.preims[d.get_id()] = pre
        self.natives[d.get_id()] = native
        return d

    def native(self, name, fn, *sorts):
        """an uninterpreted function with the Python function it stands for: models are
        checked against it (proofs know nothing about it)"""
        d = self.uf(name, *sorts)
        self.natives[d.get_id()] = fn
        return d

    def dots(self, k):
        r = self.rx
        return r.cat(*[r.any_char() for _ in range(k)]) if k else r.EPS

    def upto(self, k):
        """strings of fewer than k characters"""
        return self.rx.alt(*[self.dots(i) for i in range(k)]) if k else self.rx.NONE

    def slice_fn(self, t, lo, hi):
        """t[lo:hi] for constants with a known preimage, else None"""
        r = self.rx
        if max(abs(lo or 0), abs(hi or 0)) > 1100:
            return None
        if hi is None and lo is not None and lo >= 0:
            return self.drop(t, lo)
        if hi is None and lo is not None:
            k = -lo
            return self.strfn(f"last_{k}", lambda x: x[-k:], lambda n: r.alt(
                r.cat(r.ALL, r.and_(n, self.dots(k))), r.and_(n, self.upto(k))))(t)
        if lo in (None, 0) and hi is not None and hi >= 0:
            k = hi
            return self.strfn(f"first_{k}", lambda x: x[:k], lambda n: r.alt(
                r.cat(r.and_(n, self.dots(k)), r.ALL), r.and_(n, self.upto(k))))(t)
        if lo in (None, 0) and hi is not None:
            k = -hi
            return self.strfn(f"chop_{k}", lambda x: x[:-k], lambda n: r.alt(
                r.cat(n, self.dots(k)), self.upto(k) if n.nullable else r.NONE))(t)
        if lo is not None and lo > 0 and hi is not None:
            if 0 <= hi <= lo:
                return z3.StringVal("")
            return self.slice_fn(self.drop(t, lo), None, hi - lo if hi > 0 else hi)
        return None

    def parted(self, t, sep, last):
        """(head, tail) of t.partition(sep) (or rpartition) where the one-character sep occurs in t"""
        r = self.rx
        c = r.word(self.alpha.enc(sep))
        no = r.not_(r.cat(r.ALL, c, r.ALL))
        if last:
            h = self.strfn(f"rhead_{sep!r}", lambda x: x.rpartition(sep)[0], lambda n: r.alt(
                r.cat(n, c, no), no if n.nullable else r.NONE))
            d = self.strfn(f"rtail_{sep!r}", lambda x: x.rpartition(sep)[2], lambda n: r.alt(
                r.cat(r.ALL, c, r.and_(n, no)), r.and_(n, no)))
        else:
            h = self.before_fn(sep)
            d = self.strfn(f"after_{sep!r}", lambda x: x.partition(sep)[2], lambda n: r.alt(
                r.cat(no, c, n), no if n.nullable else r.NONE))
        return h(t), d(t)

    def nosep(self, sep):
        r = self.rx
        c = r.word(self.alpha.enc(sep))
        return c, r.not_(r.cat(r.ALL, c, r.ALL))

    def piece(self, t, sep, i):
        """t.split(sep)[i], i >= 0"""
        r = self.rx
        c, no = self.nosep(sep)
        head = r.cat(*([no, c] * i)) if i else r.EPS

        def get(x):
            a = x.split(sep)
            return a[i] if i < len(a) else ""
        return self.strfn(f"piece_{sep!r}_{i}", get, lambda n: r.alt(
            r.cat(head, r.and_(n, no), r.alt(r.EPS, r.cat(c, r.ALL))),
            r.not_(r.cat(head, r.ALL)) if n.nullable else r.NONE))(t)

    def pieces(self, t, sep):
        """len(t.split(sep))"""
        r = self.rx
        c, no = self.nosep(sep)
        d = self.native(f"pieces_{sep!r}", lambda x: len(x.split(sep)), STR, INT)
        self.counts[d.get_id()] = lambda k: r.cat(no, *([c, no] * (k - 1))) if k > 0 else r.NONE
        return d(t)

    def seps(self, t, sep):
        """t.count(sep)"""
        r = self.rx
        c, no = self.nosep(sep)
        d = self.native(f"count_{sep!r}", lambda x: x.count(sep), STR, INT)
        self.counts[d.get_id()] = lambda k: r.cat(no, *([c, no] * k)) if k >= 0 else r.NONE
        return d(t)

    def count_cmp(self, op, t, lang, k):
        r = self.rx
        if k > 32:
            return None
        if op == "==":
            n = lang(k)
        else:
            n = r.alt(*[lang(i) for i in range(0, k if op in ("<", ">=") else k + 1)])
            if op in (">", ">="):
                n = r.not_(n)
        return self.mem(t, n)

    def len_cmp(self, op, t, k):
        """len(t) op k as a membership, or None"""
        r = self.rx
        if k > 64:
            return None
        if op == "==":
            n = self.dots(k) if k >= 0 else r.NONE
        else:
            n = self.upto(max(0, k if op in ("<", ">=") else k + 1))
            if op in (">", ">="):
                n = r.not_(n)
        return self.mem(t, n)

    def length(self, t, k):
        """the length of t for a comparison with k; z3's own theory builds strings of that length"""
        if k <= 64:
            return z3.Length(t)
        return self.native("str_len", len, z3.StringSort(), z3.IntSort())(t)

    def drop(self, t, k):
        """t without its first k characters"""
        if k == 0:
            return t
        if z3.is_string_value(t):
            return z3.StringVal("") if t.as_string() == "" else self.tail(t, k)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(t.arg(0)) and \
                len(unz(t.arg(0).as_string())) >= k:
            rest = [t.arg(i) for i in range(1, t.num_args())]
            head = self.tail(t.arg(0), k)
            if head.as_string() != "":
                rest = [head] + rest
            return rest[0] if len(rest) == 1 else z3.Concat(*rest)
        d = self.uf(f"drop_{k}", STR, STR)
        self.drops[d.get_id()] = k
        self.natives[d.get_id()] = lambda x: x[k:]
        return d(t)

    def tail(self, t, k):
        return zraw(unz(t.as_string())[k:])

    def stripped(self, c, left, right):
        """strings that str.strip leaves alone"""
        r = self.rx
        n = r.ALL
        if left:
            n = r.and_(n, r.not_(r.cat(c, r.ALL)))
        if right:
            n = r.and_(n, r.not_(r.cat(r.ALL, c)))
        return n

    def strip(self, t, chars, left, right):
        r = self.rx
        r.setup()
        if chars is None:
            c = r.cls(r.mask(str.isspace))
        else:
            c = r.alt(*[r.word(x) for x in self.alpha.enc(chars)])
        d = self.uf(f"strip_{left}_{right}_{chars!r}", STR, STR)
        self.strips[d.get_id()] = (c, left, right)
        self.natives[d.get_id()] = lambda x: getattr(x, ("l" if left and not right else "r" if right and not left else "")
                                                     + "strip")(chars)
        return c, d(t)

    def int_cmp(self, op, t, c):
        """mem formula for  int(t) op c  where t consists of ASCII digits"""
        r = self.rx
        zeros = r.star(r.word("0"))

        def num(k):
            return r.cat(zeros, r.word(str(k)) if k else r.alt(r.word("0")))
        D = r.lang("[0-9]+", 0, "fullmatch")

        def less(k):
            if k <= 0:
                return r.NONE
            if k > 2000:
                return None
            return r.alt(*[num(i) for i in range(k)])
        if op == "==":
            n = num(c) if c >= 0 else r.NONE
        else:
            k = c if op in ("<", ">=") else c + 1
            n = less(k)
            if n is None:
                return None
            if op in (">", ">="):
                n = r.and_(D, r.not_(n))
        return self.mem(t, n)

    # -- types ---------------------------------------------------------------
    def alts(self, T):
        return T[1] if T[0] == "union" else [T]

    def typed(self, t, T):
        V = self.V
        k = T[0]
        if k == "any":
            return fm.TRUE
        if k == "union":
            ps = [self.typed(t, x) for x in T[1]]
            return z3.Or(*ps)
        if k == "none":
            return V.is_none(t)
        if k == "bool":
            return V.is_b(t)
        if k == "int":
            return V.is_i(t)
        if k == "float":
            return z3.Or(V.is_f(t), V.is_i(t))
        if k in ("str", "email"):
            return V.is_s(t)
        if k == "enum":
            return z3.Or(*[t == self.val(x) for x in T[1]])
        c = {"list": LIST, "map": DICT, "subclass": CLASSOBJ, "url": URL}.get(k)
        if c is None and k == "model":
            c = self.class_id(self.by_name[T[1]])
        if c is None:
            c = OTHER
        return z3.And(V.is_o(t), self.cls(V.ov(t)) == c)

    def val(self, x):
        V = self.V
        if x is None:
            return V.none
        if isinstance(x, bool):
            return V.b(z3.BoolVal(x))
        if isinstance(x, int):
            return V.i(z3.IntVal(x))
        if isinstance(x, str):
            return V.s(self.const(x))
        raise KeyError(x)

    def type_of(self, t):
        """T of a Val term (attribute, element, declared constant), or None."""
        T = self.consts.get(t.get_id())
        if T is not None:
            return T
        if not z3.is_app(t):
            return None
        d = t.decl()
        T = self.attrs.get(d.get_id())
        if T is not None:
            return T
        if d.eq(self.lat) or d.eq(self.get):
            base = t.arg(0)
            bt = self.obj_type(base, "list" if d.eq(self.lat) else "map")
            if bt is None:
                return None
            return bt[1] if bt[0] == "list" else bt[2]
        return None

    def obj_type(self, o, kind):
        T = self.consts.get(o.get_id())
        if T is None and z3.is_app(o) and o.decl().name() == "ov" and o.num_args() == 1:
            T = self.type_of(o.arg(0))
        if T is None:
            return None
        for a in self.alts(T):
            if a[0] == kind:
                return a
        return None

    def small_maps(self, most=3):
        """the maps whose size was asked for have exactly that many keys, at most `most` (a restriction:
        what can be satisfied with it is real; in general only emptiness is tied to the size)"""
        fs = []
        for x in list(self.dlens.values()):
            coll = Coll(self, "dict", x.arg(0), None)
            alts = []
            for n in range(most + 1):
                ks = [self.fresh("key", STR) for _ in range(n)]
                v = self.fresh("k", STR)
                alts.append(conj(lit(x == n), *[lit(self.has(x.arg(0), k)) for k in ks],
                                 *([lit(z3.Distinct(*ks))] if n > 1 else []),
                                 forall(coll, v, disj(*[lit(v == k) for k in ks]) if ks else fm.BOT)))
            fs.append(disj(*alts))
        return fs

    # -- hooks used by the prover -------------------------------------------
    def term_facts(self, x):
        if x.sort().eq(self.Val):
            T = self.type_of(x)
            if T is not None and T[0] != "any":
                return [lit(self.typed(x, T))]
            return []
        if x.sort().eq(INT) and x.num_args() == 1:
            d = x.decl()
            if d.eq(self.llen):
                return [lit(x >= 0)]
            if d.eq(self.dlen):
                self.dlens[x.get_id()] = x
                k = Coll(self, "dict", x.arg(0), None)
                v = z3.Const(f"k!dl_{self.tag}", STR)
                return [lit(x >= 0),
                        disj(lit(x == 0), exists(k, v, fm.T)),
                        disj(lit(x > 0), forall(k, v, fm.BOT))]
        if x.sort().eq(BOOL) and z3.is_app(x) and x.decl().eq(self.has) and self.keyfacts is not None:
            return self.keyfacts(x.arg(0), x.arg(1))
        return []

    def term_elems(self, x):
        if not z3.is_app(x) or x.num_args() == 0:
            return []
        d = x.decl()
        if d.eq(self.lat):
            return [(Coll(self, "list", x.arg(0), None), x.arg(1))]
        if d.eq(self.get) or d.eq(self.has):
            return [(Coll(self, "dict", x.arg(0), None), x.arg(1))]
        if d.eq(self.llen):
            return [(Coll(self, "list", x.arg(0), None), z3.IntVal(0))]
        return []
