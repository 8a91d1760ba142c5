"""Exact treatment of Unicode for the string theory.

Z3 characters stop at 0x2FFFF and huge character classes are slow, so code
points are partitioned into the coarsest classes that no predicate used by the
code can tell apart: every ASCII character and every character occurring in a
literal is a class of its own; the rest are grouped by their signature under
the Unicode predicates of `re` and `str`.  Each group is represented by up to
POOL z3 characters (enough to keep finitely many strings distinct).
"""
import re
import sys

POOL = 64
_BASE = 0x1000


class Alphabet:
    _cache = {}

    def __init__(self, literal_chars=(), cuts=()):
        self.literals = sorted({ord(c) for c in literal_chars if ord(c) > 127})
        self.cuts = sorted(set(cuts))
        self._groups = None

    PREDS = ("isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "islower",
             "isupper", "isspace", "isprintable", "isidentifier")

    def _build(self):
        if self._groups is not None:
            return
        key = (tuple(self.literals), tuple(self.cuts))
        if key in Alphabet._cache:
            self._groups, self._lit = Alphabet._cache[key]
            return
        big = "".join(map(chr, range(128, sys.maxunicode + 1)))
        cols = [list(map(getattr(str, p), big)) for p in self.PREDS]
        for cat in (r"\w", r"\d", r"\s"):
            col = bytearray(len(big))
            for m in re.finditer(cat + "+", big):
                col[m.start():m.end()] = b"\1" * (m.end() - m.start())
            cols.append(col)
        cutcol = []
        if self.cuts:
            import bisect
            cutcol = [[bisect.bisect_right(self.cuts, c) for c in range(128, sys.maxunicode + 1)]]
        lit = set(self.literals)
        groups = {}
        cp = 128
        for sig in zip(*cols, *cutcol):
            if cp not in lit:
                g = groups.get(sig)
                if g is None:
                    g = groups[sig] = [0, []]
                g[0] += 1
                if len(g[1]) < POOL and not 0xD800 <= cp <= 0xDFFF:
                    g[1].append(cp)
            cp += 1
        self._groups = []           # (sample code point, z3 lo, z3 hi, members)
        z = _BASE
        for sig in groups:
            n, members = groups[sig]
            if not members:         # surrogates only: not valid str input
                continue
            self._groups.append((members[0], z, z + len(members) - 1, members))
            z += POOL
        self._lit = {}
        for c in self.literals:
            self._lit[c] = z
            z += 1
        Alphabet._cache[key] = self._groups, self._lit

    # -- mapping of literals -------------------------------------------------
    def enc(self, s):
        if s.isascii():
            return s
        self._build()
        out = []
        for c in s:
            o = ord(c)
            if o < 128:
                out.append(c)
            elif o in self._lit:
                out.append(chr(self._lit[o]))
            else:
                raise KeyError(f"character {c!r} not registered with the alphabet")
        return "".join(out)

    def dec(self, s):
        """z3 string (already decoded to python) -> a concrete string of its class."""
        if all(ord(c) < 128 for c in s):
            return s
        self._build()
        inv = {z: c for c, z in self._lit.items()}
        out = []
        for c in s:
            o = ord(c)
            if o < 128:
                out.append(c)
                continue
            if o in inv:
                out.append(chr(inv[o]))
                continue
            for sample, lo, hi, members in self._groups:
                if lo <= o <= hi:
                    out.append(chr(members[o - lo]))
                    break
            else:
                out.append("\u20ac")
        return "".join(out)

    def ranges(self, pred):
        """z3 char ranges of all classes satisfying pred(python one-char string)."""
        self._build()
        res = []
        for c in range(128):
            if pred(chr(c)):
                if res and res[-1][1] == c - 1:
                    res[-1][1] = c
                else:
                    res.append([c, c])
        for sample, lo, hi, members in self._groups:
            if pred(chr(sample)):
                res.append([lo, hi])
        for c, z in self._lit.items():
            if pred(chr(c)):
                res.append([z, z])
        return [tuple(r) for r in res]

    def representatives(self):
        self._build()
        return ([(chr(c), chr(c)) for c in range(128)]
                + [(chr(m[0]), chr(lo)) for s, lo, hi, m in self._groups]
                + [(chr(c), chr(z)) for c, z in self._lit.items()])
