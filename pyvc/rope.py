"""Strings built from known text and atoms of known language.

A Rope is a concatenation of constants and atoms; an atom stands for any word
of its language.  Operations are carried out exactly when they do the same for
every choice of the words (decided with regular languages); a test whose answer
depends on the words becomes an unconstrained boolean, anything else is
Unsupported.
"""
import fnmatch
import re

import z3

from . import formula as fm
from .errors import Unsupported
from .formula import lit
from .values import *
from .values import SymValue, vkey


class Atom:
    """any word of `pattern` (a regular expression), all of whose characters are in `cls`"""
    __slots__ = ("name", "cls", "pattern")

    def __init__(self, name, cls, pattern=None):
        self.name, self.cls, self.pattern = name, cls, pattern or cls + "+"

    def key(self):
        return ("atom", self.name, self.cls, self.pattern)

    def __eq__(self, o):
        return isinstance(o, Atom) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "{" + str(self.name) + "}"


    def renamed(self, tag):
        return type(self)(*self.renaming((self.name, tag)))

    def renaming(self, name):
        return name, self.cls, self.pattern


ANY = r"[\s\S]"


class HomAtom(Atom):
    """any text with some of its characters replaced by words: a sequence of units, each an
    unreplaced character or one of the words"""
    __slots__ = ("units",)

    def __init__(self, name, units):
        self.units = tuple(sorted(dict(units).items()))
        self.name, self.cls = name, ANY
        self.pattern = "(?:" + "|".join([self.plain, *(re.escape(w) for _, w in self.units if w)]) + ")*"

    @property
    def plain(self):
        """the characters left as they are"""
        return "[^" + "".join(re.escape(c) for c, _ in self.units) + "]"

    def renaming(self, name):
        return name, self.units


def hom(I, t):
    """the atom of a term that is built by replacing single characters, or None"""
    chain = []
    while z3.is_app(t) and t.num_args() == 1 and t.decl().get_id() in I.enc.repls:
        chain.append(I.enc.repls[t.decl().get_id()])
        t = t.arg(0)
    if not chain or not all(isinstance(x, str) for r in chain for x in r) or any(len(o) != 1 for o, _ in chain):
        return None
    units = {}
    for c in {o for o, _ in chain}:
        w = c
        for o, n in reversed(chain):
            w = w.replace(o, n)
        units[c] = w
    return HomAtom(("term", t.get_id()), units)
_chars, _null, _pred, _langs = {}, {}, {}, {}


def lang_of(I, pattern):
    k = (id(I.enc.rx), pattern)
    if k not in _langs:
        I.enc.rx.setup()
        _langs[k] = (I.enc.rx, I.enc.rx.lang(pattern, 0, "fullmatch"))
    return _langs[k][1]


def has_char(I, atom, ch):
    k = (atom.cls, ch)
    if k not in _chars:
        _chars[k] = re.fullmatch(atom.cls, ch) is not None
    return _chars[k]


def nullable(atom):
    if atom.pattern not in _null:
        _null[atom.pattern] = re.fullmatch(atom.pattern, "") is not None
    return _null[atom.pattern]


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, Rope):
            for q in p.parts:
                out.append(q)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, str):
            if not p:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += p
                continue
        res.append(p)
    return tuple(res)


def make(parts):
    ps = norm(parts)
    if not ps:
        return ""
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0]
    return Rope(ps)


def lift(I, v):
    """a str, Rope or SymStr as parts"""
    if isinstance(v, str):
        return (v,)
    if isinstance(v, Rope):
        return v.parts
    if isinstance(v, SymStr):
        h = I.hooks.get("rope_atom")
        a = h(I, v) if h else None
        return (a or hom(I, v.t) or Atom(("term", v.t.get_id()), ANY, ANY + "*"),)
    raise Unsupported(f"string operation with {v!r}")


def is_str(v):
    return isinstance(v, (str, Rope, SymStr))


class Match(GhostVal):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def key(self):
        return ("ropematch", self.n)

    def py_truth(self, I):
        return fm.T


class Rope(GhostVal):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def key(self):
        return ("rope", tuple(p if isinstance(p, str) else p.key() for p in self.parts))

    def __repr__(self):
        return "<" + "".join(p if isinstance(p, str) else repr(p) for p in self.parts) + ">"

    # ------------------------------------------------------------- languages
    def lang(self, I):
        rx = I.enc.rx
        rx.setup()
        return rx.cat(*[rx.word(I.enc.alpha.enc(p)) if isinstance(p, str) else lang_of(I, p.pattern) for p in self.parts])

    def pred(self, I, what, lang):
        """whether the string is in a language; an unknown boolean if the words decide"""
        k = (self.key(), what)
        r = _pred.get(k)
        if r is None:
            rx = I.enc.rx
            me = self.lang(I)
            if rx.empty(rx.and_(me, lang)):
                r = False
            elif rx.empty(rx.and_(me, rx.not_(lang))):
                r = True
            else:
                r = f"{self!r} {what}"
            _pred[k] = r
        if isinstance(r, bool):
            return lit(r)
        I.unsure = getattr(I, "unsure", ()) + ((self, what),)
        return lit(z3.Bool(r))

    def touches(self, I, w):
        """may an occurrence of the word w use a character of an atom?"""
        nodes = []
        for p in self.parts:
            nodes.extend(p if isinstance(p, str) else [p])

        def succ(i):
            out = [i] if isinstance(nodes[i], Atom) else []
            j = i + 1
            while j < len(nodes):
                out.append(j)
                if isinstance(nodes[j], Atom) and nullable(nodes[j]):
                    j += 1
                    continue
                break
            return out

        def fits(i, ch):
            n = nodes[i]
            return has_char(I, n, ch) if isinstance(n, Atom) else n == ch
        cur = {(i, isinstance(nodes[i], Atom)) for i in range(len(nodes)) if fits(i, w[0])}
        for ch in w[1:]:
            nxt = set()
            for i, t in cur:
                for j in succ(i):
                    if fits(j, ch):
                        nxt.add((j, t or isinstance(nodes[j], Atom)))
            cur = nxt
        return any(t for _, t in cur) and (len(w) > 40 or self.overlaps(I, w))

    def overlaps(self, I, w):
        """exactly: is there an occurrence of w with a character of an atom?"""
        k = (self.key(), "overlaps", w)
        if k in _pred:
            return _pred[k]
        rx = I.enc.rx
        rx.setup()
        word = lambda x: rx.word(I.enc.alpha.enc(x))
        langs = [word(p) if isinstance(p, str) else lang_of(I, p.pattern) for p in self.parts]

        def some():
            for n, p in enumerate(self.parts):
                if isinstance(p, str):
                    continue
                left, right = rx.cat(*langs[:n]), rx.cat(*langs[n + 1:])
                for i in range(len(w)):
                    if i and rx.empty(rx.and_(left, rx.cat(rx.ALL, word(w[:i])))):
                        continue
                    for j in range(i + 1, len(w) + 1):
                        if j < len(w) and rx.empty(rx.and_(right, rx.cat(word(w[j:]), rx.ALL))):
                            continue
                        part = rx.cat(*([] if i else [rx.ALL]), word(w[i:j]), *([] if j < len(w) else [rx.ALL]))
                        if not rx.empty(rx.and_(langs[n], part)):
                            return True
            return False
        _pred[k] = r = some()
        return r

    def only_text(self, I, w):
        if not w:
            raise Unsupported("empty needle")
        if self.touches(I, w):
            raise Unsupported(f"{w!r} may occur in an unknown part of {self!r}")

    # --------------------------------------------------------------- protocol
    def py_type(self):
        return str

    def py_str(self, I):
        return self

    def py_truth(self, I):
        if any(isinstance(p, str) or not nullable(p) for p in self.parts):
            return fm.T
        raise Unsupported("truth of a rope")

    def py_eq(self, I, o):
        if isinstance(o, str):
            rx = I.enc.rx
            rx.setup()
            return self.pred(I, f"== {o!r}", rx.word(I.enc.alpha.enc(o)))
        if isinstance(o, Rope):
            if o.key() == self.key():
                return fm.T
            # a common prefix and suffix of text does not matter
            rx = I.enc.rx
            if rx.empty(rx.and_(self.lang(I), o.lang(I))):
                return fm.BOT
            raise Unsupported(f"{self!r} == {o!r}")
        if o is None or isinstance(o, (int, float, bool, tuple, HRef, SymInt, SymBool, SymObj)):
            return fm.BOT
        raise Unsupported("comparison of a rope")

    def py_contains(self, I, x):
        if not isinstance(x, str):
            raise Unsupported("in a rope")
        rx = I.enc.rx
        rx.setup()
        return self.pred(I, f"contains {x!r}", rx.cat(rx.ALL, rx.word(I.enc.alpha.enc(x)), rx.ALL))

    def py_within(self, I, text):
        """self in text, for a constant text"""
        subs = {text[i:j] for i in range(len(text)) for j in range(i + 1, len(text) + 1)}
        if len(subs) > 400:
            raise Unsupported("rope in a long string")
        rx = I.enc.rx
        rx.setup()
        return self.pred(I, f"in {text!r}", rx.alt(rx.EPS, *[rx.word(I.enc.alpha.enc(x)) for x in subs]))

    def py_slice(self, I, lo, hi, step):
        if step is not None or not all(x is None or isinstance(x, int) and not isinstance(x, bool) for x in (lo, hi)):
            raise Unsupported("slice of a rope")
        ps = list(self.parts)
        if hi is not None and hi < 0:
            n = -hi
            if not isinstance(ps[-1], str) or len(ps[-1]) < n:
                raise Unsupported("slice of a rope")
            ps[-1] = ps[-1][:-n]
            hi = None
        if lo is not None and lo < 0:
            n = -lo
            if hi is not None or not isinstance(ps[-1], str) or len(ps[-1]) < n:
                raise Unsupported("slice of a rope")
            return ps[-1][-n:]
        if hi is not None:
            if not isinstance(ps[0], str) or len(ps[0]) < hi:
                raise Unsupported("slice of a rope")
            return ps[0][lo or 0:hi]
        if lo:
            if not isinstance(ps[0], str) or len(ps[0]) < lo:
                raise Unsupported("slice of a rope")
            ps[0] = ps[0][lo:]
        return make(ps)

    def py_item(self, I, i):
        if isinstance(i, int) and not isinstance(i, bool):
            if i >= 0 and isinstance(self.parts[0], str) and i < len(self.parts[0]):
                return self.parts[0][i]
            if i < 0 and isinstance(self.parts[-1], str) and -i <= len(self.parts[-1]):
                return self.parts[-1][i]
            if i in (0, -1):
                a = self.parts[0 if i == 0 else -1]
                if isinstance(a, Atom) and not nullable(a):
                    return Rope((Atom((a.name, "first" if i == 0 else "last"), a.cls, a.cls),))
        raise Unsupported("index of a rope")

    def py_add(self, I, o, right):
        """self + o, or o + self if right"""
        if not is_str(o):
            I.raise_(TypeError)
        a, b = self.parts, lift(I, o)
        return make(b + a if right else a + b)

    def split(self, I, sep, maxsplit=-1, right=False):
        self.only_text(I, sep)
        if len(sep) > 1 and len(set(sep)) < len(sep):
            raise Unsupported("split of a rope")
        out, cur = [], []
        for p in self.parts:
            if isinstance(p, Atom):
                cur.append(p)
                continue
            bits = p.split(sep)
            for n, b in enumerate(bits):
                if n:
                    out.append(make(cur))
                    cur = []
                cur.append(b)
        out.append(make(cur))
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            def glue(xs):
                ps = []
                for n, x in enumerate(xs):
                    ps += ([sep] if n else []) + list(x.parts if isinstance(x, Rope) else (x,))
                return make(ps)
            out = [glue(out[:len(out) - maxsplit])] + out[len(out) - maxsplit:] if right else \
                out[:maxsplit] + [glue(out[maxsplit:])]
        return out

    def py_method(self, I, name, args, kw):
        if kw and name not in ("split", "rsplit"):
            raise Unsupported(f"str.{name} of a rope")
        a = [I.force(x) for x in args]
        if name == "replace" and len(a) == 2 and isinstance(a[0], str) and a[0]:
            self.only_text(I, a[0])
            new = lift(I, a[1])
            if new == (a[0],) or not any(isinstance(p, str) and a[0] in p for p in self.parts):
                return self
            out = []
            for p in self.parts:
                if isinstance(p, str):
                    for n, b in enumerate(p.split(a[0])):
                        out += (list(new) if n else []) + [b]
                else:
                    out.append(p)
            return make(out)
        if name in ("split", "rsplit"):
            sep = a[0] if a else kw.get("sep")
            ms = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
            if not isinstance(sep, str) or not sep or not isinstance(ms, int):
                raise Unsupported("split of a rope")
            return I.alloc("list", tuple(self.split(I, sep, ms, name == "rsplit")))
        if name in ("partition", "rpartition") and len(a) == 1 and isinstance(a[0], str) and a[0]:
            r = self.split(I, a[0], 1, name == "rpartition")
            if len(r) == 2:
                return (r[0], a[0], r[1])
            return (self, "", "") if name == "partition" else ("", "", self)
        if name in ("startswith", "endswith") and len(a) == 1:
            ws = a[0] if isinstance(a[0], tuple) else (a[0],)
            if not all(isinstance(w, str) for w in ws):
                raise Unsupported(f"{name} of a rope")
            f = fm.disj(*[self.affix(I, name, w) for w in ws])
            return True if fm.is_true(f) else False if fm.is_false(f) else SymBool(f)
        if name in ("removeprefix", "removesuffix") and len(a) == 1 and isinstance(a[0], str):
            w = a[0]
            if not w or not I.decide(self.affix(I, "startswith" if name == "removeprefix" else "endswith", w)):
                return self
            return self.py_slice(I, len(w), None, None) if name == "removeprefix" else self.py_slice(I, None, -len(w), None)
        if name == "__contains__" and len(a) == 1:
            f = self.py_contains(I, a[0])
            return SymBool(f)
        if name in ("strip", "lstrip", "rstrip") and len(a) == 1 and isinstance(a[0], str):
            ps = list(self.parts)
            for end in ((0,) if name == "lstrip" else (-1,) if name == "rstrip" else (0, -1)):
                while ps:
                    p = ps[end]
                    if isinstance(p, str):
                        q = p.lstrip(a[0]) if end == 0 else p.rstrip(a[0])
                        if q:
                            ps[end] = q
                            break
                        ps.pop(end)
                    elif nullable(p) or any(has_char(I, p, c) for c in a[0]):
                        raise Unsupported("strip of a rope")
                    else:
                        break
            return make(ps)
        if name == "join" and len(a) == 1:
            return I.str_join(self, a[0])
        if name == "count" and len(a) == 1 and isinstance(a[0], str) and a[0]:
            self.only_text(I, a[0])
            return sum(p.count(a[0]) for p in self.parts if isinstance(p, str))
        if name in ("__str__",):
            return self
        raise Unsupported(f"str.{name} of a rope")

    def affix(self, I, name, w):
        rx = I.enc.rx
        rx.setup()
        z = rx.word(I.enc.alpha.enc(w))
        return self.pred(I, f"{name} {w!r}", rx.cat(z, rx.ALL) if name == "startswith" else rx.cat(rx.ALL, z))

    # ------------------------------------------------------------------ regex
    def py_regex(self, I, pat, mode, args):
        rx = I.enc.rx
        rx.setup()
        flags = pat.flags & ~re.UNICODE
        if mode in ("match", "fullmatch", "search"):
            if I.decide(self.pred(I, f"{mode} {pat.pattern!r} {flags}", rx.lang(pat.pattern, flags, mode))):
                return Match(len(self.parts))
            return None
        if mode == "sub":
            return self.sub(I, pat, flags, args[0])
        raise Unsupported("re." + mode + " of a rope")

    def sub(self, I, pat, flags, repl):
        """re.sub where every match is fixed by the parts alone"""
        if not isinstance(repl, str) or "\\" in repl:
            raise Unsupported("re.sub replacement")
        rx = I.enc.rx
        p = rx.lang(pat.pattern, flags, "fullmatch")
        some = rx.cat(rx.any_char(), rx.ALL)
        if p.nullable or not rx.empty(rx.and_(p, rx.cat(p, some))):
            raise Unsupported("re.sub with a pattern that is not prefix-free")
        starts = rx.cat(p, rx.ALL)
        words = [rx.word(I.enc.alpha.enc(x)) if isinstance(x, str) else lang_of(I, x.pattern) for x in self.parts]
        out, i, off = [], 0, 0
        while i < len(self.parts):
            x = self.parts[i]
            rest = rx.cat(*words[i + 1:])
            if isinstance(x, Atom):
                # a match beginning inside the atom: some suffix of one of its words begins it
                if isinstance(x, HomAtom) and self.sub_inside(I, x, p, i, repl):
                    out.append(HomAtom((x.name, "sub", pat.pattern, repl), x.units))
                    i, off = i + 1, 0
                    continue
                any_ = lang_of(I, x.cls + "+")
                if not rx.empty(rx.and_(rx.cat(any_, rest), starts)):
                    raise Unsupported(f"re.sub may match inside an unknown part of {self!r}")
                out.append(x)
                i, off = i + 1, 0
                continue
            if off >= len(x):
                i, off = i + 1, 0
                continue
            here = rx.cat(rx.word(I.enc.alpha.enc(x[off:])), rest)
            if rx.empty(rx.and_(here, starts)):
                out.append(x[off])
                off += 1
                continue
            # where does the (unique) match end?
            end = self.match_end(I, p, words, i, off)
            if end is None:
                raise Unsupported("re.sub: the words decide whether it matches")
            out.append(repl)
            i, off = end
        return make(out)

    def sub_inside(self, I, x, p, i, repl):
        """matches that touch the unit sequence x lie within it and consist of whole units, and so
        does the replacement: what is left is a sequence of the same units"""
        rx = I.enc.rx
        used = "".join({c for c, w in x.units} | {c for _, w in x.units for c in w})
        inside = rx.star(rx.cls(rx.mask(lambda ch: ch not in used)))
        if not rx.empty(rx.and_(p, rx.not_(inside))) or any(c in used for c in repl):
            return False
        if i + 1 == len(self.parts):
            return True
        nxt = self.parts[i + 1]
        if not isinstance(nxt, str):
            return False
        c = rx.word(I.enc.alpha.enc(nxt[0]))
        return rx.empty(rx.and_(p, rx.cat(rx.ALL, c, rx.ALL)))

    def match_end(self, I, p, words, i, off):
        rx = I.enc.rx
        pre, first = rx.EPS, True
        for j in range(i, len(self.parts)):
            x = self.parts[j]
            if isinstance(x, str):
                for k in range(off if first else 0, len(x)):
                    pre = rx.cat(pre, rx.word(I.enc.alpha.enc(x[k])))
                    if rx.empty(rx.and_(pre, rx.not_(p))):
                        return j, k + 1
            else:
                pre = rx.cat(pre, words[j])
                if rx.empty(rx.and_(pre, rx.not_(p))):
                    return j + 1, 0
            first = False
        return None

    def py_fnmatch(self, I, pattern):
        t = fnmatch.translate(pattern)
        m = re.fullmatch(r"\(\?s:(.*)\)\\[zZ]", t, re.S)
        if not m:
            raise Unsupported("fnmatch pattern")
        I.enc.rx.setup()
        return self.pred(I, f"fnmatch {pattern!r}", I.enc.rx.lang(m.group(1), re.S, "fullmatch"))

    # ------------------------------------------------------------------- loop
    def py_loop(self, I, body):
        for p in self.parts:
            if isinstance(p, str):
                for ch in p:
                    I.one_pass(body, ch)
            else:
                self.run(I, body, p)

    def run(self, I, body, atom):
        """all characters of an atom: the state may only grow by the characters read.

        Invariant: after any number of units the state is the entry state, characters appended to some
        lists or strings.  Checked from the entry state and from a state after some units.  A unit is one
        character, for a HomAtom one character left as it is or one of its words."""
        hom = isinstance(atom, HomAtom)
        if nullable(atom) and not hom:
            raise Unsupported("loop over a possibly empty part")
        base = I.store
        if hom:
            units = [[Rope((Atom((atom.name, "char"), atom.plain, atom.plain),))]] + [list(w) for _, w in atom.units if w]
            some = whole = Rope((Atom((atom.name, "read"), ANY, ANY + "*"),))
        else:
            units = [[Rope((Atom((atom.name, "char"), atom.cls, atom.cls),))]]
            some = Rope((Atom((atom.name, "run"), atom.cls, atom.cls + "+"),))
            whole = Rope((atom,))
        grown = self.effects(I, body, units, base)
        if self.effects(I, body, units, self.state(base, grown, some)) != grown:
            raise Unsupported("loop over an unknown part: no invariant")
        I.store = self.state(base, grown, whole)

    def effects(self, I, body, units, start):
        out = {}
        for u in units:
            for k, how in self.pass_(I, body, u, start).items():
                if out.setdefault(k, how) != how:
                    raise Unsupported("loop over an unknown part: no invariant")
        return out

    def pass_(self, I, body, chars, start):
        from .interp import Cont

        def once():
            for ch in chars:
                try:
                    body(ch)
                except Cont:
                    pass
        save = I.store
        I.store = start
        try:
            outs = I.explore(once)
        finally:
            I.store = save
        if len(outs) != 1 or outs[0].kind != "normal":
            raise Unsupported("loop over an unknown part: " + (str(outs[0].value) if outs and outs[0].kind == "unsupported" else "the words decide"))
        d, gone = I.diff(outs[0], start)
        if gone:
            raise Unsupported("loop over an unknown part deletes a variable")
        keys = [vkey(ch) for ch in chars]
        out = {}
        for k, v in d.items():
            if k not in start and k[0] != "v":
                continue
            old = start.get(k)
            if vkey(v) == keys[-1]:
                out[k] = "last"
            elif k[0] == "h" and isinstance(old, tuple) and isinstance(v, tuple) and len(v) > len(old) and \
                    all(vkey(a) == vkey(b) for a, b in zip(v, old)) and \
                    (all(isinstance(x, str) and len(x) == 1 for x in v[len(old):]) or
                     len(chars) == 1 and [vkey(x) for x in v[len(old):]] == keys):
                out[k] = "list"
            elif isinstance(old, (str, Rope)) and self.longer(old, v, chars):
                out[k] = "text"
            else:
                raise Unsupported("loop over an unknown part changes " + str(k[-1]))
        return out

    def longer(self, old, v, chars):
        """v is old with text appended, or with the one unknown character read"""
        if isinstance(v, Rope) and len(chars) == 1 and vkey(make([*self.partsof(old), chars[0]])) == vkey(v):
            return True
        if isinstance(chars[0], Rope):
            return False
        a, b = self.partsof(old), self.partsof(v) if isinstance(v, (str, Rope)) else ()
        if len(a) == len(b) and a[:-1] == b[:-1] and isinstance(a[-1], str) and isinstance(b[-1], str):
            return b[-1].startswith(a[-1])
        return len(b) == len(a) + 1 and b[:-1] == a and isinstance(b[-1], str)

    @staticmethod
    def partsof(v):
        return v.parts if isinstance(v, Rope) else (v,)

    def state(self, base, grown, part):
        st = dict(base)
        for k, how in grown.items():
            if how == "last":
                st[k] = Poison("last character of an unknown part")
            elif how == "list":
                st[k] = base[k] + (Run(part),)
            else:
                st[k] = make([*self.partsof(base[k]), part])
        return st
