"""C03: a patterned map behaves as a mapping view of its contents."""
import random
import types

from props.common import *


LEVEL = "proof"
REPLAY_ONLY = True
NOTE = ("Proved for every map content and every string key: each mapping method against a ghost log of the changes made to "
        "the underlying dict. Construction of a one-entry map is replaced by its contract (C02 and C08). Trusts pyvc, z3.")
RULE = "a patterned map and a history of mapping operations on it; non-trivial when the history changes the map"
BOUNDED = "none: the concrete histories only cross-check the proofs"
TRUSTED = ["CPython dict: iteration, membership, length, item access and insertion order"]
SHRINK = ("ops", "raw")
METHODS = ("__iter__", "__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__")


def patterned():
    return [c for c in classes() if "root" in TABLE[c]]


# --------------------------------------------------------------- ghost dictionary
LOG = ("g", "log", 0)


def events(I):
    r = I.store.get(LOG, ())
    if not isinstance(r, tuple):
        raise C.Unsupported("change of the map inside a loop")
    return r


def log(I, *ev):
    if events(I):
        raise C.Unsupported("more than one change of the map")
    I.store[LOG] = events(I) + (tuple(ev),)


class Ghost:
    def __init__(self, cls):
        self.cls = cls

    def hooks(self):
        return {"set_item": self.set_item, "del_item": self.del_item, "dict_mutate": self.mutate,
                "construct": self.construct, "call": self.call}

    def root(self, I, o):
        if not isinstance(o, SymDict) or not o.t.eq(self.dict.t):
            raise Write("another container is modified")

    def set_item(self, I, o, k, v):
        self.root(I, o)
        log(I, "set", k, v)

    def del_item(self, I, o, k):
        self.root(I, o)
        if not I.decide(I.in_f(k, o)):
            I.raise_(KeyError)
        log(I, "del", k)

    def mutate(self, I, o, name, args, kw):
        self.root(I, o)
        if name == "__setitem__":
            return log(I, "set", args[0], args[1])
        if name == "__delitem__":
            return self.del_item(I, o, args[0])
        if name == "pop" and not kw:
            k = I.force(args[0])
            if not I.decide(I.in_f(k, o)):
                if len(args) > 1:
                    return args[1]
                I.raise_(KeyError)
            log(I, "del", k)
            return Sym(I.enc.get(o.t, I.zs(k)), o.T)
        if name == "update" and len(args) == 1 and not kw:
            a = I.force(args[0])
            if isinstance(a, HRef) and a.kind == "dict":
                for k, v in I.content(a).items():
                    log(I, "set", k.v, v)
                return None
        raise C.Unsupported("dict." + name)

    # construction of a map with one entry, by contract
    def key_ok(self, I, k):
        return fm.lit(I.enc.uf("key_ok", z3.StringSort(), z3.BoolSort())(I.zs(k)))

    def item_ok(self, I, v):
        return fm.lit(I.enc.uf("item_ok", I.enc.Val, z3.BoolSort())(v.t))

    def parsed(self, I, v):
        return Sym(I.enc.uf("parsed", I.enc.Val, I.enc.Val)(v.t), sh.shape(self.cls).root[2])

    def construct(self, I, c, args, kw):
        if c is not self.cls or len(args) != 1 or kw:
            return NotImplemented
        a = I.force(args[0])
        if not (isinstance(a, HRef) and a.kind == "dict"):
            return NotImplemented
        out = {}
        from pyvc.exec_ import _K
        for k, v in I.content(a).items():
            if not isinstance(v, Sym):
                return NotImplemented
            if not I.decide(fm.conj(self.key_ok(I, k.v), self.item_ok(I, v))):
                I.raise_(ValueError)
            out[k] = self.parsed(I, v)
        d = I.alloc("dict", out)
        return I.alloc("obj", {"root": d}, c)

    def call(self, I, fn, args, kw):
        name = getattr(fn, "__name__", "")
        if name == "model_validate" and args and args[0] is self.cls:
            return self.construct(I, self.cls, args[1:], kw)
        return NotImplemented


OTHER_KEYS = {"an integer": lambda: SymInt(z3.Const("int!", z3.IntSort())), "null": lambda: None,
              "a truth value": lambda: SymBool(fm.lit(z3.Const("bool!", z3.BoolSort())))}


def other_key_obligation(cname, meth, label, fn):
    """keys that are not strings are absent"""
    name = f"{label}: keys that are not strings are absent"

    def thunk():
        cls = L(cname)
        g = Ghost(cls)

        def make(kind):
            def body(I, ob):
                I.store[LOG] = ()
                o = SymObj(z3.Const("map!", I.enc.Obj), cls)
                g.dict = I.get_attr(o, "root")
                conc = lambda I, m: [C.Concretiser(I, m).obj(o.t, cls), ""]
                raised, r = None, None
                try:
                    r = I.call(Bound(o, fn, cls), [OTHER_KEYS[kind]()], {})
                except PyRaise as ex:
                    raised = ex.exc.c
                except Write as w:
                    ob.fail("undecided", w.what)
                    return
                C.reached(I, kind)
                if events(I):
                    return C.mismatch(I, f"{kind}: changes the map", conc)
                if meth == "__contains__":
                    if raised:
                        return C.mismatch(I, f"{kind}: raises {raised.__name__}", conc)
                    C.must(I, fm.neg(I.truth_f(r)), f"{kind}: counts as a member", conc)
                elif raised is not KeyError:
                    C.mismatch(I, f"{kind}: {raised.__name__ if raised else 'found'}", conc)
            return body

        def all_kinds(I, ob):
            n = z3.Const("kind!", z3.IntSort())
            for i, kind in enumerate(OTHER_KEYS):
                if i == len(OTHER_KEYS) - 1 or I.decide(fm.lit(n == i)):
                    return make(kind)(I, ob)
        return C.prove(name, all_kinds, need=tuple(OTHER_KEYS), hooks=g.hooks())
    return (name, thunk, lambda w: other_cases(cname))


def other_cases(cname):
    it = ITEM(cname)
    for raw in ({"5": it, "None": it, "True": it, "1": it, "0": it, "1-5": it, "a": it}, {"a": it}):
        for k in (5, None, True, False, 0, 1, 1.5, -1):
            for op in ("in", "get", "del"):
                yield {"class": cname, "raw": raw, "ops": [[op, k]]}


def method_obligation(cname, meth, label, fn):
    name = f"{label}: mapping contract"

    def thunk():
        cls = L(cname)
        g = Ghost(cls)

        def body(I, ob):
            e = I.enc
            I.store[LOG] = ()
            o = SymObj(z3.Const("map!", e.Obj), cls)
            d = I.get_attr(o, "root")
            if not isinstance(d, SymDict):
                raise C.Unsupported("root")
            g.dict = d
            k = SymStr(z3.Const("key!", z3.StringSort()))
            x = Sym(z3.Const("item!", e.Val), ["any"])
            conc = lambda I, m: [C.Concretiser(I, m).obj(o.t, cls), C.Concretiser(I, m).string(k.t)]
            has = fm.lit(e.has(d.t, k.t))
            args = {"__iter__": [], "__len__": [], "__setitem__": [k, x]}.get(meth, [k])
            raised, r = None, None
            try:
                r = I.call(Bound(o, fn, cls), args, {})
            except PyRaise as ex:
                raised = ex.exc.c
            except Write as w:
                ob.fail("undecided", w.what)
                return
            ev = events(I)
            C.reached(I, "raise" if raised else "return")
            if meth in ("__getitem__", "__delitem__"):
                if raised and raised is not KeyError:
                    return C.mismatch(I, f"raises {raised.__name__}", conc)
                C.must(I, fm.iff(has, fm.BOT if raised else fm.T), "raises KeyError for the wrong keys", conc)
            if meth in ("__iter__", "__contains__", "__len__") and raised:
                return C.mismatch(I, f"raises {raised.__name__}", conc)
            if meth not in ("__setitem__", "__delitem__") and ev:
                return C.mismatch(I, f"changes the map: {ev}", conc)
            if meth == "__getitem__" and not raised:
                C.must(I, I.same_f(r, Sym(e.get(d.t, k.t), d.T)), "returns another item", conc)
            if meth == "__contains__":
                C.must(I, fm.iff(I.truth_f(r), has), "membership", conc)
            if meth == "__len__":
                C.must(I, I.eq_f(r, SymInt(e.dlen(d.t))), "length", conc)
            if meth == "__iter__":
                if isinstance(r, HRef):
                    r = I.content(r)
                    ok = len(r) == 1 and isinstance(r[0], Seg) and r[0].coll.kind == "dict" and r[0].coll.t.eq(d.t) \
                        and len(r[0].items) == 1 and not isinstance(r[0].items[0], Seg)
                    if ok:
                        sg = r[0]
                        C.must(I, fm.forall(sg.coll, sg.v, fm.conj(sg.f, I.eq_f(sg.items[0], SymStr(sg.v)))),
                               "iterates over something else than its keys", conc)
                else:
                    while isinstance(r, SymView) and r.kind in ("keys", "copy"):
                        r = r.base
                    ok = isinstance(r, SymDict) and r.t.eq(d.t)
                if not ok:
                    ob.fail("undecided", f"iterator {r!r} not recognised")
            if meth == "__delitem__":
                if raised:
                    if ev:
                        C.mismatch(I, "changes the map and raises", conc)
                elif len(ev) != 1 or ev[0][0] != "del":
                    C.mismatch(I, f"changes: {ev}", conc)
                else:
                    C.must(I, I.eq_f(ev[0][1], k), "removes another key", conc)
            if meth == "__setitem__":
                valid = fm.conj(g.key_ok(I, k), g.item_ok(I, x))
                if raised:
                    if not issubclass(raised, ValueError):
                        return C.mismatch(I, f"raises {raised.__name__}", conc)
                    C.must(I, fm.neg(valid), "rejects a valid item", conc)
                    if ev:
                        C.mismatch(I, "changes the map and raises", conc)
                    return
                C.must(I, valid, "accepts an item construction rejects", conc)
                if len(ev) != 1 or ev[0][0] != "set":
                    return C.mismatch(I, f"changes: {ev}", conc)
                C.must(I, fm.conj(I.eq_f(ev[0][1], k), I.same_f(ev[0][2], g.parsed(I, x))),
                       "stores something else than the validated item under the key", conc)
        need = ("return", "raise") if meth in ("__getitem__", "__delitem__", "__setitem__") else ("return",)
        return C.prove(name, body, need=need, hooks=g.hooks())
    return (name, thunk, lambda w: witness_cases(cname, meth, w))


def witness_cases(cname, meth, w):
    raw = {k if __import__("re").fullmatch("[A-Za-z0-9_-]+", k) else f"k{i}": ITEM(cname) for i, k in enumerate(w[0])}
    out = []
    for key in [w[1], "a"] + list(raw):
        for op in (["set", key, ITEM(cname)], ["del", key], ["get", key], ["set", key, 5], ["set", key, None], ["set", key + " ", ITEM(cname)],
                   ["setobj", key, ITEM(cname)]):
            out.append({"class": cname, "raw": raw, "ops": [op]})
    return out


def ITEM(cname):
    g = gen.Gen(1)
    return g.least_value(TABLE[cname]["root"][2])


def obligations(tier):
    groups = {}
    for cname in patterned():
        cls = L(cname)
        for m in METHODS:
            fn = next((c.__dict__[m] for c in cls.__mro__ if m in c.__dict__), None)
            groups.setdefault((m, fn), []).append(cname)
    for (m, fn), names in groups.items():
        if not isinstance(fn, types.FunctionType) or not (fn.__module__ or "").startswith("asyncapi3"):
            n = f"{m} of {', '.join(names)}"
            yield (n, lambda n=n: static_obligation(n, False, "not a method of the library"))
            continue
        for c in names:
            yield method_obligation(c, m, f"{c}.{m}", fn)
            if m in ("__getitem__", "__delitem__", "__contains__"):
                yield other_key_obligation(c, m, f"{c}.{m}", fn)

    def schemas():
        bad = []
        for cname in patterned():
            s = sh.shape(L(cname))
            if not s.root_model or s.nonafter or s.inner_wrappers or s.custom_init or \
                    s.config.get("revalidate_instances") != "always":
                bad.append(cname)
        return static_obligation("patterned classes are plain root models", not bad, str(bad))
    yield ("patterned classes are plain root models", schemas)


# ----------------------------------------------------------------------- replay
def replay(case):
    c, raw, ops = case["class"], case["raw"], case["ops"]
    try:
        if not oracle.accepts(c, raw)[0]:
            return SKIP
    except oracle.Undefined:
        return SKIP
    m = build(L(c), raw)
    if m is None:
        return SKIP
    ref = dict(m.root)
    for n, op in enumerate(ops):
        what = f"{c} with keys {list(ref)}, operation {n + 1} {op[:2]}: "
        kind, k = op[0], op[1]
        before = dict(m.root)
        exc = r = None
        try:
            if kind == "get":
                r = m[k]
            elif kind == "del":
                del m[k]
            elif kind in ("set", "setobj"):
                v = copy.deepcopy(op[2])
                if kind == "setobj":
                    o = build(L(c), {"k": v})
                    if o is None:
                        continue
                    v = o.root["k"]
                m[k] = v
            elif kind == "in":
                r = k in m
        except Exception as ex:      # noqa: BLE001
            exc = ex
        if kind == "get":
            if k in ref:
                if exc is not None or r is not ref[k]:
                    return what + f"indexing gives {exc or r!r}"
            elif not isinstance(exc, KeyError):
                return what + f"indexing an absent key gives {exc or r!r}"
        elif kind == "del":
            if k in ref:
                if exc is not None:
                    return what + f"raises {exc!r}"
                del ref[k]
            elif not isinstance(exc, KeyError):
                return what + f"deleting an absent key gives {exc!r}"
        elif kind == "in":
            if exc is not None or r is not (k in ref):
                return what + f"membership is {exc or r!r}"
        else:
            try:
                ok = oracle.accepts(c, {k: op[2]})[0]
            except oracle.Undefined:
                return SKIP
            if ok:
                if exc is not None:
                    return what + f"a valid item is rejected: {exc!r}"[:300]
                want = build(L(c), {k: op[2]})
                if k not in m.root or (want is not None and m.root[k] != want.root[k]):
                    return what + "the stored item is not the assigned one"
                ref[k] = m.root[k]
            elif exc is None:
                return what + "an invalid item is accepted"
        # the whole view agrees with the contents
        if list(m) != list(ref) or list(m.root) != list(ref):
            return what + f"afterwards the keys are {list(m)} instead of {list(ref)}"
        for kk, v in ref.items():
            if m.root[kk] is not v or m[kk] is not v or kk not in m:
                return what + f"entry {kk!r} changed"
            if kk in before and kk != k and before[kk] is not v:
                return what + f"entry {kk!r} replaced"
        if len(m) != len(ref) or len(list(iter(m))) != len(ref):
            return what + "length"
        for kk in ("zz-absent", "", k):
            if (kk in m) is not (kk in ref):
                return what + f"membership of {kk!r}"
    return None


def nontrivial(case):
    return any(op[0] in ("set", "del", "setobj") for op in case["ops"])


KS = ["a", "b", "c", "0", "-", "root", "keys", "items", "model_fields", "values", "get"]


ALIKE = ["a_b", "a-b", "ab", "A_B", "aB", "a--b", "a", "A", "-a", "a-", "_a", "a_", "0", "00", "1", "01", "10", "-1", "_", "-", "--", "__"]


def fixed_cases(tier):
    for c in patterned():
        it = ITEM(c)
        for n in (0, 1, 3, 5):
            raw = {k: it for k in KS[:n]}
            for op in (["get", "a"], ["get", "zz"], ["del", "a"], ["del", "zz"], ["set", "a", it], ["set", "zz", it],
                       ["set", "a b", it], ["set", "", it], ["set", "b\n", it], ["set", "a", 5], ["set", "zz", None],
                       ["set", "zz", []], ["in", "a"], ["in", "zz"], ["setobj", "zz", it], ["setobj", "a", it],
                       ["setobj", "a.b", it], ["get", "root"], ["del", "root"], ["set", "root", it], ["set", "keys", it],
                       ["get", ""], ["del", ""], ["del", "c"], ["set", "c", it]):
                yield {"class": c, "raw": raw, "ops": [op]}
                yield {"class": c, "raw": raw, "ops": [op, ["in", "a"], ["del", "b"], op, ["get", op[1]]]}
        yield from other_cases(c)
        yield {"class": c, "raw": {k: it for k in ALIKE}, "ops": [["in", "zz"]]}
        for k in ALIKE:
            rest = {q: it for q in ALIKE if q != k}
            yield {"class": c, "raw": rest, "ops": [["get", k], ["del", k], ["set", k, it], ["del", k]]}
        big = {f"k{i}": it for i in range(700)}
        ops = [["del", "k3"], ["set", "k3", it], ["get", "k699"], ["in", "k650"], ["in", "zz"], ["del", "zz"], ["get", "zz"],
               ["del", "k699"], ["set", "new", it], ["set", "k600", it]]
        yield {"class": c, "raw": big, "ops": ops[:3]}
        yield {"class": c, "raw": big, "ops": ops[3:]}
        g = gen.Gen(7)
        for _ in range(6):
            raw = g.model(c, 1)
            v = g.value(TABLE[c]["root"][2], 1)
            yield {"class": c, "raw": raw, "ops": [["set", "new", v], ["set", "a", v], ["get", "new"], ["del", "new"]]}


def random_cases(seed, tier):
    g = gen.Gen(seed)
    r = random.Random(seed)
    cs = patterned()
    while True:
        c = r.choice(cs)
        T = TABLE[c]["root"][2]
        raw = {k: g.value(T, 1) for k in r.sample(KS, r.randint(0, 5))}
        pool = list(raw) + r.sample(KS, 3)
        ops = []
        for _ in range(r.randint(1, 10)):
            k = r.choice(pool) if r.random() < 0.9 else r.choice(gen.BAD_KEYS)
            o = r.choice(["get", "del", "set", "set", "setobj", "in"])
            if o in ("set", "setobj"):
                v = g.value(T, 1)
                if r.random() < 0.25:
                    v = g.wrong(T)
                ops.append([o, k, v])
            else:
                ops.append([o, k])
        yield {"class": c, "raw": raw, "ops": ops}
