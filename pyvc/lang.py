"""Regular languages over the class alphabet, with derivatives.

Membership of a symbolic string in a regular language is decided here (exactly),
not by the string solver: the solver sees an uninterpreted predicate per
language and the prover refutes inconsistent combinations with lemmas obtained
from emptiness of boolean combinations of the languages.
"""
import re
import re._constants as K
import re._parser as P

from .errors import Unsupported


class Node:
    __slots__ = ("k", "a", "nullable", "id", "masks", "_d")


class Langs:
    def __init__(self, alpha):
        self.alpha = alpha
        self.table = {}
        self.syms = None
        self.NONE = self.mk("none", ())
        self.EPS = self.mk("eps", ())
        self.ALL = self.mk("not", (self.NONE,))
        self.cache = {}
        self.empty_cache = {}
        self.blocks_cache = {}

    # ------------------------------------------------------------- alphabet
    def setup(self):
        if self.syms is not None:
            return
        reps = self.alpha.representatives()      # (python char, z3 char)
        self.syms = reps
        self.full = (1 << len(reps)) - 1
        self.zindex = {}
        for i, (_, z) in enumerate(reps):
            self.zindex[ord(z)] = i
        self.groups = [(lo, hi, self.zindex[lo]) for _, lo, hi, _ in self.alpha._groups]

    def mask(self, pred):
        self.setup()
        m = 0
        for i, (c, _) in enumerate(self.syms):
            if pred(c):
                m |= 1 << i
        return m

    def sym(self, zc):
        """symbol index of a z3 character code"""
        self.setup()
        i = self.zindex.get(zc)
        if i is not None:
            return i
        for lo, hi, i in self.groups:
            if lo <= zc <= hi:
                return i
        return None

    # ----------------------------------------------------------- constructors
    def mk(self, k, a):
        key = (k, a) if k == "cls" else (k,) + tuple(x.id for x in a)
        n = self.table.get(key)
        if n is not None:
            return n
        n = Node()
        n.k, n.a, n.id, n._d = k, a, len(self.table), {}
        if k == "cls":
            n.masks = frozenset((a,))
        else:
            m = frozenset()
            for x in a:
                m |= x.masks
            n.masks = m
        n.nullable = {"none": lambda: False, "eps": lambda: True, "cls": lambda: False,
                      "cat": lambda: all(x.nullable for x in a), "alt": lambda: any(x.nullable for x in a),
                      "and": lambda: all(x.nullable for x in a), "not": lambda: not a[0].nullable,
                      "star": lambda: True}[k]()
        self.table[key] = n
        return n

    def cls(self, mask):
        return self.mk("cls", mask) if mask else self.NONE

    def any_char(self):
        self.setup()
        return self.cls(self.full)

    def cat(self, *xs):
        out = []
        for x in xs:
            if x is self.NONE:
                return self.NONE
            if x is self.EPS:
                continue
            if x.k == "cat":
                out.extend(x.a)
            else:
                out.append(x)
        if not out:
            return self.EPS
        if len(out) == 1:
            return out[0]
        return self.mk("cat", tuple(out))

    def alt(self, *xs):
        s, m = {}, 0
        for x in xs:
            for y in (x.a if x.k == "alt" else (x,)):
                if y is self.ALL:
                    return self.ALL
                if y is self.NONE:
                    continue
                if y.k == "cls":
                    m |= y.a
                else:
                    s[y.id] = y
        if m:
            c = self.cls(m)
            s[c.id] = c
        if not s:
            return self.NONE
        if len(s) == 1:
            return next(iter(s.values()))
        return self.mk("alt", tuple(s[i] for i in sorted(s)))

    def and_(self, *xs):
        s = {}
        for x in xs:
            for y in (x.a if x.k == "and" else (x,)):
                if y is self.NONE:
                    return self.NONE
                if y is self.ALL:
                    continue
                s[y.id] = y
        for y in s.values():
            if y.k == "not" and y.a[0].id in s:
                return self.NONE
        if self.EPS.id in s:
            return self.EPS if all(y.nullable for y in s.values()) else self.NONE
        if not s:
            return self.ALL
        if len(s) == 1:
            return next(iter(s.values()))
        return self.mk("and", tuple(s[i] for i in sorted(s)))

    def not_(self, x):
        if x.k == "not":
            return x.a[0]
        return self.mk("not", (x,))

    def star(self, x):
        if x is self.NONE or x is self.EPS:
            return self.EPS
        if x.k == "star":
            return x
        if x.k == "cls" and self.syms and x.a == self.full:
            return self.ALL
        return self.mk("star", (x,))

    def word(self, zs):
        """language of one z3-encoded string"""
        out = []
        for c in zs:
            i = self.sym(ord(c))
            if i is None:
                raise Unsupported("character outside the alphabet")
            out.append(self.cls(1 << i))
        return self.cat(*out) if out else self.EPS

    def loop(self, x, lo, hi):
        r = self.EPS
        if hi is None:
            r = self.star(x)
        else:
            if hi > 2000:
                raise Unsupported("large regex repetition")
            for _ in range(hi - lo):
                r = self.alt(self.EPS, self.cat(x, r))
        for _ in range(lo):
            r = self.cat(x, r)
        return r

    # ------------------------------------------------------------- derivatives
    def deriv(self, n, i):
        d = n._d.get(i)
        if d is None:
            d = n._d[i] = self._deriv(n, i)
        return d

    def _deriv(self, n, i):
        k = n.k
        if k == "cls":
            return self.EPS if n.a >> i & 1 else self.NONE
        if k in ("none", "eps"):
            return self.NONE
        if k == "cat":
            rest = self.cat(*n.a[1:])
            d = self.cat(self.deriv(n.a[0], i), rest)
            if n.a[0].nullable:
                d = self.alt(d, self.deriv(rest, i))
            return d
        if k == "alt":
            return self.alt(*[self.deriv(x, i) for x in n.a])
        if k == "and":
            return self.and_(*[self.deriv(x, i) for x in n.a])
        if k == "not":
            return self.not_(self.deriv(n.a[0], i))
        return self.cat(self.deriv(n.a[0], i), n)

    def blocks(self, n):
        """one symbol of each class that the masks of n can tell apart"""
        key = n.masks
        r = self.blocks_cache.get(key)
        if r is None:
            self.setup()
            parts = [self.full]
            for m in key:
                nxt = []
                for p in parts:
                    a, b = p & m, p & ~m
                    if a:
                        nxt.append(a)
                    if b:
                        nxt.append(b)
                parts = nxt
            # prefer printable characters as representatives
            def pick(p):
                for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_. ":
                    if p >> ord(c) & 1:
                        return ord(c)
                for o in range(33, 127):
                    if p >> o & 1:
                        return o
                return (p & -p).bit_length() - 1
            r = self.blocks_cache[key] = [(pick(p), p) for p in parts]
        return r

    def words(self, n, count=1, limit=4000):
        """up to `count` distinct z3-encoded words of n, shortest first (an empty
        result means that n is empty)"""
        out, seen, live, done = [], {n.id}, {}, 0
        todo = {n: [""]}
        while todo:
            nxt = {}
            for x, ws in todo.items():
                if x.nullable:
                    out.extend(ws)
                    if len(out) >= count:
                        return out[:count]
                done += 1
                if done > limit:
                    raise Unsupported("regular language too large")
                for i, p in self.blocks(x):
                    y = self.deriv(x, i)
                    if y is self.NONE:
                        continue
                    if count == 1:
                        if y.id not in seen:
                            seen.add(y.id)
                            nxt[y] = [ws[0] + self.syms[i][1]]
                        continue
                    if not self.is_live(y, live):
                        continue
                    lst = nxt.setdefault(y, [])
                    js = [i]
                    q = p & ~(1 << i)
                    while q and len(js) < count:
                        j = (q & -q).bit_length() - 1
                        q &= q - 1
                        js.append(j)
                    for j in js:
                        for w in ws:
                            if len(lst) < count:
                                lst.append(w + self.syms[j][1])
            todo = nxt
        return out

    def is_live(self, n, memo):
        if n.id not in memo:
            memo[n.id] = not self.empty(n)
        return memo[n.id]

    def empty(self, n):
        r = self.empty_cache.get(n.id)
        if r is None:
            r = self.empty_cache[n.id] = not self.words(n)
        return r

    def finite_words(self, n, limit=40):
        """all words of n if there are at most `limit`, else None"""
        out = []
        todo = [(n, "")]
        live = {}
        steps = 0
        while todo:
            x, w = todo.pop()
            steps += 1
            if steps > 2000 or len(w) > 200:
                return None
            if x.nullable:
                out.append(w)
                if len(out) > limit:
                    return None
            for i, p in self.blocks(x):
                y = self.deriv(x, i)
                if y is self.NONE or not self.is_live(y, live):
                    continue
                if p.bit_count() > limit:
                    return None
                q = p
                while q:
                    j = (q & -q).bit_length() - 1
                    q &= q - 1
                    todo.append((y, w + self.syms[j][1]))
                    if j >= 128:
                        return None
                if len(todo) > 4 * limit:
                    return None
        return out

    def member(self, n, zs):
        for c in zs:
            i = self.sym(ord(c))
            if i is None:
                raise Unsupported("character outside the alphabet")
            n = self.deriv(n, i)
        return n.nullable

    def lquot(self, n, zs):
        """{w : zs.w in n}"""
        for c in zs:
            i = self.sym(ord(c))
            if i is None:
                raise Unsupported("character outside the alphabet")
            n = self.deriv(n, i)
        return n

    # ------------------------------------------------------------ re patterns
    def lang(self, pattern, flags, mode):
        """all strings s with re.<mode>(pattern, s) not None"""
        key = (pattern, flags, mode)
        if key in self.cache:
            return self.cache[key]
        self.setup()
        if not isinstance(pattern, str):
            raise Unsupported("bytes pattern")
        tree = P.parse(pattern, flags)
        fl = tree.state.flags
        if fl & (re.MULTILINE | re.IGNORECASE | re.LOCALE):
            raise Unsupported("regex flags")
        self.fl = fl
        if mode == "fullmatch":
            r = self.seq(list(tree), self.EPS, True)
        elif mode == "match":
            r = self.seq(list(tree), self.ALL, True)
        elif mode == "search":
            r = self.seq(list(tree), self.ALL, True)
            r2 = self.seq(list(tree), self.ALL, False)
            r = self.alt(r, self.cat(self.any_char(), self.star(self.any_char()), r2))
        else:
            raise Unsupported("regex mode " + mode)
        self.cache[key] = r
        return r

    def seq(self, items, cont, start):
        """language of the rest of the input; start: True at 0, False after 0, None unknown"""
        if not items:
            return cont
        op, av = items[0]
        rest = items[1:]
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            return self.cat(self.char(op, av), self.seq(rest, cont, False))
        if op is K.SUBPATTERN:
            _, addf, delf, p = av
            if addf or delf:
                raise Unsupported("inline regex flags")
            return self.seq(list(p) + rest, cont, start)
        if op is K.BRANCH:
            return self.alt(*[self.seq(list(b) + rest, cont, start) for b in av[1]])
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            if has_zero_width(p):
                raise Unsupported("zero-width assertion inside repetition")
            inner = self.seq(p, self.EPS, None)
            w = width(p) * lo
            nstart = False if w else (start if start is False else None)
            tail = self.seq(rest, cont, nstart)
            if start is True and nstart is None and starts_with_anchor(rest):
                raise Unsupported("anchor at unknown position")
            r = self.loop(inner, lo, None if hi is K.MAXREPEAT or hi == K.MAXREPEAT else hi)
            return self.cat(r, tail)
        if op is K.AT:
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                if start is True:
                    return self.seq(rest, cont, start)
                if start is False:
                    return self.NONE
                raise Unsupported("anchor at unknown position")
            tail = self.seq(rest, cont, start)
            if av is K.AT_END:
                return self.and_(tail, self.alt(self.EPS, self.word("\n")))
            if av is K.AT_END_STRING:
                return self.and_(tail, self.EPS)
            raise Unsupported(f"regex anchor {av}")
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise Unsupported("lookbehind")
            look = self.seq(list(p), self.ALL, start)
            tail = self.seq(rest, cont, start)
            return self.and_(tail, look if op is K.ASSERT else self.not_(look))
        raise Unsupported(f"regex op {op}")

    def char(self, op, av):
        fl = self.fl & re.ASCII
        if op is K.LITERAL:
            return self.word(self.alpha_enc(chr(av)))
        if op is K.ANY:
            m = self.full
            if not self.fl & re.DOTALL:
                m &= ~(1 << 10)
            return self.cls(m)
        if op is K.NOT_LITERAL:
            return self.cls(self.full & ~self.word(self.alpha_enc(chr(av))).a)
        neg = False
        conds = []
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                self.alpha_enc(chr(a))
                conds.append(("l", a))
            elif o is K.RANGE:
                if a[1] > 127:
                    raise Unsupported("non-ASCII range in regex class")
                conds.append(("r", a))
            elif o is K.CATEGORY:
                pat = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_WORD: r"\w",
                       K.CATEGORY_NOT_WORD: r"\W", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S"}[a]
                conds.append(("c", re.compile(pat, re.ASCII if fl else 0)))
            else:
                raise Unsupported(f"regex class item {o}")

        def pred(ch):
            o = ord(ch)
            for k, a in conds:
                if k == "l" and o == a:
                    return True
                if k == "r" and a[0] <= o <= a[1]:
                    return True
                if k == "c" and a.match(ch):
                    return True
            return False
        m = self.mask(pred)
        return self.cls(self.full & ~m if neg else m)

    def alpha_enc(self, s):
        try:
            return self.alpha.enc(s)
        except KeyError as e:
            raise Unsupported(str(e))


def width(items):
    w = 0
    for op, av in items:
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            w += 1
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            w += av[0] * width(list(av[2]))
        elif op is K.SUBPATTERN:
            w += width(list(av[3]))
        elif op is K.BRANCH:
            w += min(width(list(b)) for b in av[1])
    return w


def has_zero_width(items):
    for op, av in items:
        if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
            return True
        if op is K.SUBPATTERN and has_zero_width(list(av[3])):
            return True
        if op is K.BRANCH and any(has_zero_width(list(b)) for b in av[1]):
            return True
        if op in (K.MAX_REPEAT, K.MIN_REPEAT) and has_zero_width(list(av[2])):
            return True
    return False


def starts_with_anchor(items):
    return bool(items) and items[0][0] is K.AT and items[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING)
