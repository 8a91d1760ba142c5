"""C20: validators are pure."""
import gc

from asyncapi3 import validators as V
from asyncapi3.validators import ExternalDocsRefValidator, TagsRefValidator
from props import c10 as U
from props import c11, c12
from props.refcheck import *
from spec import probes

LEVEL = "proof"
REPLAY_ONLY = True
RULE = "a document (raw data, or references at places) and every exported validator; non-trivial when the document has references or duplicates"
NOTE = ("Frame conditions proved for all documents: the 18 one-line validators, the tags and external-documentation validators (every "
        "step, every helper), the unified validator (every step, all 354 places, resolve_reference). Trusts pyvc, z3.")
BOUNDED = "interleaving with other documents: identity-and-content snapshots of concrete documents around every call"
ASSUMPTIONS = ["the document was accepted by the library (fields have their declared types)"]
TRUSTED = []
SHRINK = ("raw", "doc", "places")


def validators():
    """every exported validator class"""
    return [getattr(V, n) for n in V.__all__ if isinstance(getattr(V, n), type)]


# ------------------------------------------------------------------- deductive part
class Frame(RefCheck):
    """the steps of a validator, under the frame contract: nothing of the document is written"""

    def __init__(self, validator):
        super().__init__(validator, [], None, None)

    def prove_leaf(self, fn, vals, npos, kws):
        def body(I, ob):
            e = I.enc
            out = []
            for i, v in enumerate(vals):
                if isinstance(v, SymObj):
                    out.append(SymObj(z3.Const(f"leaf{i}!", e.Obj), v.c))
                elif isinstance(v, (SymStr, str)):
                    out.append(SymStr(z3.Const(f"leaf{i}!s", z3.StringSort())))
                elif isinstance(v, HRef) and v.kind == "obj":
                    out.append(I.call(self.validator, [], {}))
                elif not is_sym(v):
                    out.append(v)
                else:
                    raise C.Unsupported("argument of a reference check")
            try:
                r = I.call(fn, out[:npos], dict(zip(kws, out[npos:])))
                C.must(I, I.same_f(r, None), "returns a value")
            except PyRaise as ex:
                if not issubclass(ex.exc.c, ValueError):
                    C.mismatch(I, f"raises {ex.exc.c.__name__}")
            except Write as w:
                ob.fail("undecided", f"writes {w.what}")
            C.reached(I, "run")
        self.busy.add(fn)
        try:
            return C.prove(f"{self.validator.__name__}: {fn.__qualname__} writes nothing", body, need=("run",), budget=40.0)
        finally:
            self.busy.discard(fn)

    def frame(self, fn, whole=False):
        name = f"{self.validator.__name__}: {'__call__' if whole else fn.__qualname__} writes nothing" + \
            (" and returns the document" if whole else "")

        def thunk():
            def body(I, ob):
                o, conc = self.doc(I)
                v = I.call(self.validator, [], {})
                try:
                    if whole:
                        base = dict(I.store)
                        C.must(I, I.same_f(I.call(v, [o], {}), o), "returns another object", conc)
                        if any(k[0] == "a" and k[1] == v.oid and base.get(k) is not x for k, x in I.store.items()):
                            raise C.Unsupported("the validator keeps state")
                    else:
                        self.run_step(I, fn, v, o)
                except Wrong as w:
                    C.mismatch(I, str(w), conc)
                except Write as w:
                    C.mismatch(I, f"writes {w.what}", conc)
                C.reached(I, "run")
            return C.prove(name, body, need=("run",), budget=60.0, hooks={} if whole else {"call": self.hook})
        return (name, thunk, self.cases)

    def obligations(self):
        fn = self.validator.__call__
        for _ in range(4):
            self.inner.add(fn)
            top, steps = self.top()
            if len(steps) != 1:
                break
            fn = steps[0]
        if not steps:
            yield self.frame(None, True)
            return
        yield (f"{self.validator.__name__}: " + top.name, lambda: top, self.cases)
        name, thunk, conv = self.frame(steps[0])
        first = thunk()
        yield (name, lambda: first, conv)
        for (fn, *_), ob in list(self.leaf_ob.items()):
            yield (ob.name, lambda ob=ob: ob, lambda w: [])
        for fn in steps[1:]:
            yield self.frame(fn)


def obligations(tier):
    for v in validators():
        if v is V.UnifiedReferencesValidator:
            yield from unified()
        else:
            yield from Frame(v).obligations()


def unified():
    from props import c09
    from props import unified as X
    if not X.present():
        yield ("REC", X.missing, None)
        return
    yield ("unified entry", lambda: X.entry(True), lambda w: [])
    for n in X.step_names():
        ob = X.Step(n, True).run()
        yield (ob.name, lambda ob=ob: ob, lambda w: [])
    for n in X.step_names():
        X.step(n)           # the paths of the places
    for loc in X.D.LOCS:
        u = X.Location(loc, True)
        yield (u.name, u.run, lambda w: [])
    # the frame of resolve_reference: its obligations under C09 exclude any write
    for name, thunk, *_ in c09.obligations("quick"):
        yield ("resolve_reference writes nothing: " + name, thunk, lambda w: [])


# ------------------------------------------------------------------------- replay
SCALARS = (str, int, float, bool, type(None), bytes, type)


def snapshot(root):
    """identity and contents of everything reachable from the document: path -> description"""
    from pydantic import BaseModel
    out, keep, seen = {}, [], set()

    def go(x, p):
        keep.append(x)
        if type(x) in SCALARS:
            out[p] = (type(x), x if not isinstance(x, float) else repr(x))
            return
        out[p] = (type(x), id(x))
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, BaseModel):
            for n, v in list(x.__dict__.items()):
                go(v, p + ("." + n,))
            out[p + ("names",)] = tuple(x.__dict__)
            ex = x.__pydantic_extra__
            out[p + ("extra",)] = None if ex is None else (id(ex), tuple(ex))
            for n, v in (ex or {}).items():
                go(v, p + ("+" + n,))
            out[p + ("set",)] = tuple(sorted(x.__pydantic_fields_set__))
            out[p + ("private",)] = repr(x.__pydantic_private__)
        elif isinstance(x, (list, tuple)):
            out[p + ("len",)] = len(x)
            for i, v in enumerate(x):
                go(v, p + (i,))
        elif isinstance(x, dict):
            out[p + ("keys",)] = tuple(x)
            for i, v in enumerate(x.values()):
                go(v, p + (i,))
        elif isinstance(x, (set, frozenset)):
            out[p + ("members",)] = sorted(map(repr, x))
        else:
            out[p + ("repr",)] = repr(x)
    go(root, ())
    return out, keep


def difference(a, b):
    for k in a:
        if k not in b:
            return f"{show(k)} is gone"
        if a[k] != b[k]:
            return f"{show(k)}: {a[k]!r} became {b[k]!r}"
    for k in b:
        if k not in a:
            return f"{show(k)} is new"
    return None


def show(k):
    return "document" + "".join(f"[{x}]" if isinstance(x, int) else f"{x}" if x[0] in ".+" else f" ({x})" for x in k)


def run(v, doc):
    try:
        r = v(doc)
        return True, r
    except ValueError:
        return False, None
    except Exception as ex:      # noqa: BLE001
        return type(ex).__name__, None


def document_of(case):
    if "places" in case:
        doc = U.build_doc(case)
    else:
        doc = build(L("AsyncAPI3"), case.get("doc", case.get("raw")))
    if doc is not None and case.get("words"):
        spice(doc, case["words"], case.get("values"))
    if doc is not None and case.get("bare"):
        bare(doc, set())
    return doc


def bare(x, seen):
    """as if every object had been made by model_construct: no member counts as set"""
    from pydantic import BaseModel
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, BaseModel):
        object.__setattr__(x, "__pydantic_fields_set__", set())
        for v in list(x.__dict__.values()):
            bare(v, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            bare(v, seen)
    elif isinstance(x, dict):
        for v in x.values():
            bare(v, seen)


def others():
    """documents to interleave: one accepted and one rejected by each validator"""
    good = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1", "tags": [{"name": "a"}, {"$ref": "#/components/tags/a"}],
                                          "externalDocs": {"$ref": "#/components/externalDocs/a"}},
            "components": {"tags": {"a": {"name": "a"}}, "externalDocs": {"a": {"url": "https://e.com"}}}}
    bad = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1", "tags": [{"$ref": "#/components/tags/no"}],
                                         "externalDocs": {"$ref": "#/components/externalDocs/no"}}}
    return [build(L("AsyncAPI3"), good), build(L("AsyncAPI3"), bad)]


def replay(case):
    try:
        doc = document_of(case)
    except (KeyError, IndexError, ValueError, TypeError):
        return SKIP
    if doc is None:
        return SKIP
    before, keep = snapshot(doc)
    vs = validators()
    if case.get("order"):
        random.Random(case["order"]).shuffle(vs)
    first = {}
    for cls in vs:
        v = cls()
        first[cls] = got, r = run(v, doc)
        what = "accepts" if got is True else "rejects"
        after, keep2 = snapshot(doc)
        d = difference(before, after)
        if d:
            return f"{cls.__name__} {what} a document and modifies it: {d}"[:500]
        if got is True and r is not doc:
            return f"{cls.__name__} does not return the document it was given"
        if getattr(v, "__dict__", None) and any(x is doc for x in vars(v).values()):
            pass
        again, r = run(v, doc)
        if again != got or again is True and r is not doc:
            return f"{cls.__name__} {what} the document, then the same validator {verb(again)}"
    for o in others():
        for cls in vs:
            run(cls(), o)
    for cls in vs:
        got = first[cls][0]
        again, r = run(cls(), doc)
        if again != got or again is True and r is not doc:
            return f"{cls.__name__} {verb(got)} the document, but a second time (after other documents) {verb(again)}"
    twin = doc.model_copy(deep=True)
    for cls in vs:
        again, r = run(cls(), twin)
        if again != first[cls][0]:
            return f"{cls.__name__} {verb(first[cls][0])} the document, but {verb(again)} a copy of it"
        if again is True and r is not twin:
            return f"{cls.__name__} does not return the document it was given"
    d = difference(before, snapshot(doc)[0])
    if d:
        return f"the validators modify the document: {d}"
    return None


def verb(x):
    return "accepts" if x is True else "rejects" if x is False else f"raises {x}"


def nontrivial(case):
    return "ref" in str(case) or "#" in str(case) or "tags" in str(case)


def fixed_cases(tier):
    base = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}
    yield {"raw": base}
    tags = [[{"name": "a"}, {"name": "a"}], [{"name": "b"}, {"name": "a"}], [{"$ref": "#/components/tags/a"}] * 2, [],
            [{"name": "a"}, {"$ref": "#/components/tags/a"}, {"name": "a"}], [{"name": "A"}, {"name": "a "}],
            [{"name": "a", "description": ""}, {"name": "a"}]]
    for comp in ({}, {"tags": {"a": {"name": "a"}}}, {"tags": {}}, {"tags": {"b": {"name": "a"}, "a": {"name": "a"}}}):
        for name, path in c11.PATHS.items():
            if not path.endswith("+T"):
                continue
            p = path[:-3]
            keys = ["k" if s == "*" else 0 for s in stars(p)]
            for ts in tags:
                d = document([(p, keys, copy.deepcopy(ts))])
                d.setdefault("components", {}).update(copy.deepcopy(comp))
                yield {"raw": d}
    words = key_words()
    every = {"raw": probes.full("AsyncAPI3", 6)}
    for i in range(0, len(words), 5):
        yield {**every, "words": words[i:i + 5]}
        yield {"raw": base, "words": words[i:i + 5]}
    for mod, step in ((c11, 9), (c12, 17)):
        for i, c in enumerate(mod.fixed_cases(tier)):
            if i % step == 0:
                yield {"doc": c["doc"]}
                if i % (3 * step) == 0:
                    yield {"doc": c["doc"], "bare": True}
    r = random.Random(5)
    every = [U.D.target(k) for k in U.D.KINDS] + U.D.OTHER_TARGETS + U.D.BAD_TARGETS + ["http://e.com/a#/b"]
    for loc in U.D.LOCS:
        for t in U.right(loc)[:1] + r.sample(every, 2):
            yield U.one(loc, ["k"] * loc.stars, [0] * loc.lists, t)


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    a, b, u = c11.random_cases(seed + 1, tier), c12.random_cases(seed + 2, tier), U.random_cases(seed + 3, tier)
    while True:
        k = r.randrange(4)
        c = next(a) if k == 0 else next(b) if k == 1 else next(u) if k == 2 else {"raw": g.model("AsyncAPI3", r.choice([3, 5, 7]))}
        if "raw" in c or "doc" in c:
            twist(r, c.get("raw") or c.get("doc"))
        c = {k: v for k, v in c.items() if k != "at"}
        if r.random() < 0.5:
            c["order"] = r.randrange(1, 1000)
        if r.random() < 0.15:
            c["words"] = r.sample(key_words(), min(5, len(key_words())))
        if r.random() < 0.1:
            c["bare"] = True
        yield c


def twist(r, x):
    """repeat, move or share some entries"""
    lists = []

    def walk(v):
        if isinstance(v, dict):
            for w in v.values():
                walk(w)
        elif isinstance(v, list):
            if v:
                lists.append(v)
            for w in v:
                walk(w)
    walk(x)
    for v in lists:
        if r.random() < 0.5:
            v.insert(r.randrange(len(v) + 1), copy.deepcopy(r.choice(v)))
