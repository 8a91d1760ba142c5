"""Shared by C11 and C12: a document validator against its list of locations.

Modular proof.  The validator's __call__ is executed with every call of a
function of the validators package that receives nothing but the validator and
the document replaced by an uninterpreted verdict (a "step"); it must accept
iff all verdicts do and return the document.  Then
  * soundness of a step: whenever it raises, one of the listed locations is bad;
  * completeness of a location: some step raises whenever the location is bad;
  * the reference contract: functions given one Reference are proved, once, to
    raise ValueError iff the reference rule fails, and replaced by that.
"""
from props.common import *
from spec import history
from pyvc.interp import Budget

PKG = "asyncapi3.validators"


class Wrong(Exception):
    pass


class RefCheck:
    def __init__(self, validator, locations, leaf_rule, place):
        self.validator, self.locations, self.leaf_rule = validator, locations, leaf_rule
        self.place = place       # (document, reference) -> document with the reference at a verified location
        self.leaf = {}           # function -> proved to be a reference check
        self.leaf_ob = {}
        self.busy = set()
        self.inner = set()       # functions that only combine steps

    # ------------------------------------------------------------ abstraction
    def is_leaf(self, I, fn, args, kw):
        """fn(..., spec, ..., reference, ...) proved to raise ValueError iff the rule fails"""
        vals = [I.force(a) if isinstance(a, Sym) else a for a in list(args) + list(kw.values())]
        refs = [a for a in vals if isinstance(a, SymObj) and a.c is L("Reference")]
        docs = [a for a in vals if isinstance(a, SymObj) and a.c is L("AsyncAPI3")]
        if len(refs) != 1 or len(docs) != 1:
            return None
        if fn in self.busy:
            return None
        shape = (fn, tuple(self.kind(v) for v in vals), tuple(kw))
        if shape not in self.leaf:
            self.leaf[shape] = None
            ob = self.prove_leaf(fn, vals, len(args), tuple(kw))
            self.leaf[shape] = ob.status == "proved"
            if __import__("os").environ.get("VERIF_DEBUG"):
                print("leaf", fn.__qualname__, ob.record())
            self.leaf_ob[shape] = ob
        return refs[0] if self.leaf[shape] else None

    @staticmethod
    def kind(v):
        if isinstance(v, SymObj):
            return v.c.__name__
        if isinstance(v, (SymStr, str)):
            return "str"
        return type(v).__name__

    def prove_leaf(self, fn, vals, npos, kws):
        def body(I, ob):
            e = I.enc
            out, spec, ref = [], None, None
            for i, v in enumerate(vals):
                if isinstance(v, SymObj):
                    o = SymObj(z3.Const(f"leaf{i}!", e.Obj), v.c)
                    if v.c is L("Reference"):
                        ref = o
                    else:
                        spec = o
                    out.append(o)
                elif isinstance(v, (SymStr, str)):
                    out.append(SymStr(z3.Const(f"leaf{i}!s", z3.StringSort())))
                elif isinstance(v, HRef) and v.kind == "obj":
                    out.append(I.call(self.validator, [], {}))
                elif not is_sym(v):
                    out.append(v)
                else:
                    raise C.Unsupported("argument of a reference check")
            def conc(I, m):
                k = C.Concretiser(I, m)
                return [k.obj(spec.t, spec.c), k.obj(ref.t, ref.c)]
            try:
                r = I.call(fn, out[:npos], dict(zip(kws, out[npos:])))
                bad = None
                C.must(I, I.same_f(r, None), "returns a value")
            except PyRaise as ex:
                bad = ex.exc.c
            except Write as w:
                ob.fail("undecided", w.what)
                return
            if bad is not None and not issubclass(bad, ValueError):
                C.mismatch(I, f"raises {bad.__name__}", conc)
                return
            C.reached(I, "accept" if bad is None else "reject")
            want = I.truth(I.call(self.leaf_rule, [spec, ref], {}))
            if want != (bad is None):
                C.mismatch(I, "verdict differs from the reference rule", conc)
        self.busy.add(fn)
        try:
            return C.prove(f"{fn.__qualname__}: raises ValueError iff the reference is dangling or foreign", body,
                           need=("accept", "reject"), budget=40.0)
        finally:
            self.busy.discard(fn)

    def ok(self, I, ref):
        return fm.lit(I.enc.uf("ref_ok", I.enc.Obj, z3.BoolSort())(ref.t))

    def hook(self, I, fn, args, kw):
        if fn is self.leaf_rule:
            if self.busy or not any(self.leaf.values()):
                return NotImplemented        # no proved reference check: both sides by their bodies
            return I.decide(self.ok(I, I.force(args[1])))
        if self.busy or not (fn.__module__ or "").startswith(PKG):
            return NotImplemented
        if getattr(I, "steps_of", None) is not None and fn not in self.inner and self.is_step(args, kw):
            I.steps_of[fn] = 1
            if not I.decide(fm.lit(z3.Bool(f"step!{fn.__qualname__}"))):
                I.raise_(ValueError)
            return None
        ref = self.is_leaf(I, fn, args, kw)
        if ref is None:
            return NotImplemented
        if not I.decide(self.ok(I, ref)):
            I.raise_(ValueError)
        return None

    @staticmethod
    def is_step(args, kw):
        vals = list(args) + list(kw.values())
        return (len(vals) == 2 and isinstance(vals[0], HRef) and vals[0].kind == "obj"
                and isinstance(vals[1], SymObj) and vals[1].c is L("AsyncAPI3"))

    # ------------------------------------------------------------ obligations
    def doc(self, I):
        cls = L("AsyncAPI3")
        I.enc.json_data = True
        o = SymObj(z3.Const("doc!", I.enc.Obj), cls)
        return o, lambda I, m: C.Concretiser(I, m).obj(o.t, cls)

    def top(self):
        """__call__ accepts iff all steps do; returns the document"""
        steps = {}

        def body(I, ob):
            o, conc = self.doc(I)
            I.steps_of = None
            v = I.call(self.validator, [], {})
            I.steps_of = steps
            I.steps_of = steps
            try:
                r = I.call(v, [o], {})
                bad = None
                C.must(I, I.same_f(r, o), "returns another object")
            except PyRaise as ex:
                bad = ex.exc.c
            I.steps_of = None
            if bad is not None and not issubclass(bad, ValueError):
                C.mismatch(I, f"raises {bad.__name__}", conc)
                return
            C.reached(I, "accept" if bad is None else "reject")
            for fn in steps:
                p = fm.lit(z3.Bool(f"step!{fn.__qualname__}"))
                if bad is None:
                    C.must(I, p, f"accepts although {fn.__name__} would raise")
            if bad is not None:
                allp = fm.conj(*[fm.lit(z3.Bool(f"step!{fn.__qualname__}")) for fn in steps])
                C.must(I, fm.neg(allp), "raises although every step accepts")
        ob = C.prove("__call__: accepts iff every step accepts, and returns the document", body,
                     need=("accept", "reject"), budget=30.0, hooks={"call": self.hook})
        return ob, list(steps)

    def run_step(self, I, fn, v, o):
        """True accepted, False rejected"""
        base = dict(I.store)
        try:
            I.call(Bound(v, fn, self.validator), [o], {})
            bad = None
        except PyRaise as ex:
            bad = ex.exc.c
        for k, x in I.store.items():
            if k in base and base[k] is x or k[0] == "v":
                continue
            if k in base or k[0] == "a" and k[1] == v.oid:
                raise C.Unsupported(f"{fn.__qualname__} keeps state")
        if bad is not None and not issubclass(bad, ValueError):
            raise Wrong(f"raises {bad.__name__}")
        return bad is None

    def sound(self, fn, steps):
        name = f"{fn.__qualname__}: raises only if a listed location is bad"

        def thunk():
            order = []

            def body(I, ob):
                o, conc = self.doc(I)
                v = I.call(self.validator, [], {})
                I.split_raises = True
                try:
                    acc = self.run_step(I, fn, v, o)
                except Wrong as w:
                    C.mismatch(I, str(w), conc)
                    return
                finally:
                    I.split_raises = False
                C.reached(I, "accept" if acc else "reject")
                if acc:
                    return
                I.in_spec = True
                for loc in order + [x for x in self.locations if x not in order]:
                    if self.entailed_bad(I, loc, o):
                        if loc not in order:
                            order.insert(0, loc)
                        return
                for loc in self.locations:
                    if not I.truth(I.call(loc[1], [o], {})):
                        return
                C.mismatch(I, "rejects a document all of whose listed locations are good", conc)
            return C.prove(name, body, need=("accept", "reject"), budget=60.0, hooks={"call": self.hook})
        return (name, thunk, self.cases)

    def entailed_bad(self, I, loc, o):
        """the location is bad on the current path"""
        class No(Exception):
            pass

        def once():
            if I.truth(I.call(loc[1], [o], {})) and I.prover.check() != "unsat":
                raise No()
        try:
            outs = I.explore(once)
        except No:
            return False
        return all(x.kind == "normal" for x in outs)

    def complete(self, loc, steps):
        name = f"{self.validator.__name__}: rejects every document with a bad reference at: {loc[0]}"

        def thunk():
            last = None
            words = set(loc[0].replace("'", "").lower().split())
            score = lambda fn: -sum(w.rstrip("s")[:8] in fn.__name__.replace("_", "").lower() for w in words)
            cands = sorted(steps, key=score)
            accepted = []       # documents with a bad reference there that a step meant for the place accepts
            for fn in cands:
                def body(I, ob):
                    o, conc = self.doc(I)
                    I.in_spec = True
                    good = I.truth(I.call(loc[1], [o], {}))
                    I.in_spec = False
                    if good:
                        return
                    C.reached(I, "bad location")
                    v = I.call(self.validator, [], {})
                    try:
                        acc = self.run_step(I, fn, v, o)
                    except Wrong as w:
                        C.mismatch(I, str(w), conc)
                        return
                    if acc:
                        C.mismatch(I, f"{fn.__name__} accepts", conc)
                        if ob.status == "refuted":
                            if score(fn):
                                accepted.extend(ob.witnesses)
                            raise Wrong("accepts")
                try:
                    ob = self.prove_quick(name, body)
                except Wrong:
                    continue
                if ob.status == "proved":
                    return ob
                last = ob
            # no single step is proved to cover the location: a candidate for replay
            ob = C.Obligation(name)
            ob.fail("undecided", "no single step is proved to reject it")
            ob.witnesses = accepted[:12] + self.bad_documents(loc)
            return ob
        return (name, thunk, self.cases)

    def prove_quick(self, name, body):
        return C.prove(name, body, need=("bad location",), budget=40.0, hooks={"call": self.hook})

    def bad_documents(self, loc):
        """documents with a bad reference at the location"""
        out = []

        def body(I, ob):
            o, conc = self.doc(I)
            I.in_spec = True
            if I.truth(I.call(loc[1], [o], {})):
                return
            I.prover.check()
            try:
                out.append(conc(I, I.prover.last_model))
            except Exception:        # noqa: BLE001 - no concrete document from this model
                pass
        C.prove("witness", body, budget=10.0)
        return out[:6]

    def obligations(self):
        fn = self.validator.__call__
        for _ in range(4):
            self.inner.add(fn)
            top, steps = self.top()
            if len(steps) != 1:
                break
            fn = steps[0]
        yield (top.name, lambda: top, self.cases)
        if top.status == "proved" and steps:
            # proves the contracts of the reference checks once, for all obligations
            name, thunk, conv = self.sound(steps[0], steps)
            first = thunk()
            yield (name, lambda: first, conv)
        for (fn, *_), ob in list(self.leaf_ob.items()):
            yield (ob.name, lambda ob=ob: ob, self.leaf_cases)
        for fn in steps[1:]:
            yield self.sound(fn, steps)
        for loc in self.locations:
            yield self.complete(loc, steps)

    # ---------------------------------------------------------------- witnesses
    def cases(self, w):
        return [{"doc": tidy(w)}]

    def leaf_cases(self, w):
        doc, ref = w
        return [{"doc": tidy(self.place(doc, ref))}]


def tidy(raw):
    """a concretised document with the names the document model insists on"""
    def walk(x, cname):
        if not isinstance(x, dict) or cname not in TABLE:
            return x
        e = TABLE[cname]
        if "root" in e:
            out = {}
            for i, (k, v) in enumerate(x.items()):
                ok = __import__("re").fullmatch(r"[A-Za-z0-9_-]+", k)
                out[k if ok else f"k{i}"] = value(v, e["root"][2])
            return out
        al = {f["alias"]: f for f in e["fields"].values()}
        return {k: value(v, al[k]["type"]) if k in al else v for k, v in x.items()
                if k in al or k.startswith("x-")}

    def value(v, T):
        alts = T[1] if T[0] == "union" else [T]
        if isinstance(v, list):
            t = [a for a in alts if a[0] == "list"]
            return [value(x, t[0][1]) for x in v] if t else v
        if isinstance(v, dict):
            if "$ref" in v and ["model", "Reference"] in alts:
                return v
            t = [a for a in alts if a[0] == "model" and a[1] != "Reference"]
            t.sort(key=lambda a: a[1] != "Schema")
            if t:
                return walk(v, t[0][1])
        return v
    out = walk(raw, "AsyncAPI3")
    out["asyncapi"] = "3.0.0"
    for k in ("extra_validators", "extra_converters"):
        out.pop(k, None)
    return out


# ------------------------------------------------------------- concrete documents
NEW = {"S": lambda: {"host": "h", "protocol": "p"}, "C": dict, "M": dict, "T": lambda: {"name": "t"},
       "O": lambda: {"action": "send", "channel": {"$ref": "#/channels/a"}}, "t": dict, "H": dict,
       "D": lambda: {"url": "https://example.com"}, "i": lambda: {"title": "t", "version": "1"}}


def parse(path):
    """'channels *C messages *M traits +t tags +T' -> [(key | '*' | '+', kind)]"""
    out = []
    for w in path.split():
        out.append((w[0], w[1]) if w[0] in "*+" else tuple(w.split("=")) if "=" in w else (w, None))
    return out


def document(placements):
    """a document with the given values at the given places.

    placements: list of (path, keys, value) where keys fills the '*' and '+' steps"""
    doc = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}
    for path, keys, val in placements:
        keys = list(keys)
        cur, steps = doc, parse(path)
        for n, (s, kind) in enumerate(steps):
            last = n == len(steps) - 1
            nxt = steps[n + 1][0] if not last else None
            empty = {"+": list}.get(nxt, dict)
            make = NEW[kind] if kind else empty
            if s == "+":
                i = keys.pop(0)
                while len(cur) <= i:
                    cur.append(NEW[kind]())
                if last:
                    cur[i] = val
                cur = cur[i]
            else:
                k = keys.pop(0) if s == "*" else s
                if last:
                    cur[k] = val
                elif k not in cur or (isinstance(cur[k], dict) and "$ref" in cur[k]):
                    cur[k] = make()
                cur = cur[k]
    return doc


def stars(path):
    return [s for s, _ in parse(path) if s in "*+"]


class Cases:
    """documents with references at the verified locations"""

    def __init__(self, paths, kind, prefix, component):
        # paths: name -> path; component: path of the component entries the references name
        self.paths, self.kind, self.prefix, self.component = paths, kind, prefix, component

    def refs(self, names):
        p = self.prefix
        k = names[0] if names else "zz"
        other = "#/components/" + ("tags/" if "externalDocs" in p else "externalDocs/") + k
        out = [p + k, p + "missing", p + k + "x", p + k[:-1], p, p + p + k, p + k + "/", p + "/" + k, p[:-1] + k, p[1:] + k,
               "#" + k, "#", "", "#/", other, other.upper(), p.lower() + k, p.replace("components", "component") + k,
               "http://e.com/a" + p + k, "https://e.com/x.yaml", "other.yaml" + p + k, "other.yaml", " " + p + k, k,
               p + k + " ", p + k.upper(), "#/components" + p[1:] + k, p + "a/b", p + "components/tags/" + k,
               p + k + "#", "##" + p[1:] + k, "#" + p + k, p[:-2] + "/" + k, "#/info", "#/channels/a", p + "name"]
        return list(dict.fromkeys(out))

    def fixed(self, tier):
        for name, path in self.paths.items():
            n = len(stars(path))
            keyss = [["a" if s == "*" else 0 for s in stars(path)], ["b" if s == "*" else 2 for s in stars(path)]]
            for names in ([], ["a"], ["a", "b-1"], ["components"], ["tags", "externalDocs"]):
                comp = [(self.component, [k], NEW[self.kind]()) for k in names]
                for keys in keyss:
                    for r in self.refs(names):
                        if name.startswith("components") and path == self.component:
                            keys = [x if x != names[0] else "self" for x in keys] if names else keys
                        yield {"doc": document(comp + [(path, keys, {"$ref": r})]), "at": name}
        # position: a bad reference among good ones and unrelated objects
        p = self.prefix
        for name, path in self.paths.items():
            st = stars(path)
            if not st:
                continue
            comp = [(self.component, ["good"], NEW[self.kind]())]
            for pos in range(len(st)):
                for where in (0, 1, 2):
                    pl = list(comp)
                    for j in range(3):
                        keys = [("k0" if s == "*" else 0) for s in st]
                        keys[pos] = f"k{j}" if st[pos] == "*" else j
                        pl.append((path, keys, {"$ref": p + ("good" if j != where else "bad")}))
                    yield {"doc": document(pl), "at": name}
                pl = list(comp)
                for j in range(3):
                    keys = [("k0" if s == "*" else 0) for s in st]
                    keys[pos] = f"k{j}" if st[pos] == "*" else j
                    pl.append((path, keys, {"$ref": p + "good"}))
                yield {"doc": document(pl), "at": name}
                pl = comp + [(path, [("k0" if s == "*" else 0) for s in st], {"$ref": "https://e.com/x"})]
                keys = [("k0" if s == "*" else 0) for s in st]
                keys[pos] = "k1" if st[pos] == "*" else 1
                yield {"doc": document(pl + [(path, keys, {"$ref": p + "bad"})]), "at": name}

        # many references, or many components, and one that points nowhere
        for name, path in self.paths.items():
            st = stars(path)
            comp = [(self.component, ["good"], NEW[self.kind]())]
            for pos in range(len(st)):
                for n in (30, 260, 1100):
                    for bad in (0, n // 2, n - 1, None) if n < 1000 else (n - 1,):
                        pl = list(comp)
                        for j in range(n):
                            keys = [("k0" if s == "*" else 0) for s in st]
                            keys[pos] = f"k{j}" if st[pos] == "*" else j
                            pl.append((path, keys, {"$ref": p + ("bad" if j == bad else "good")}))
                        yield {"doc": document(pl), "at": name}
            comp = [(self.component, [f"c{j}"], NEW[self.kind]()) for j in range(260)]
            for r in ("c0", "c259", "c260", "k" * 3000):
                keys = ["k0" if s == "*" else 0 for s in st]
                yield {"doc": document(comp + [(path, keys, {"$ref": p + r})]), "at": name}

        # the same reference twice, in the same object, in equal entries or elsewhere
        for name, path in self.paths.items():
            for other, path2 in self.paths.items():
                for r in ("bad", "good") if name == other else ("bad",):
                    for i in (0, 1):
                        ka, kb = (["k0" if s == "*" else 0 for s in stars(x)] for x in (path, path2))
                        if i:
                            kb = ["k1" if s == "*" else 1 for s in stars(path2)]
                        comp = [(self.component, ["good"], NEW[self.kind]())]
                        try:
                            doc = document(comp + [(path, ka, {"$ref": p + r}), (path2, kb, {"$ref": p + r})])
                        except (TypeError, KeyError, IndexError, AttributeError):
                            continue
                        yield {"doc": doc, "at": name}

        # texts and extension members the code knows, in every object
        words = key_words()
        for name, path in self.paths.items():
            comp = [(self.component, ["good"], NEW[self.kind]())]
            keys = ["k0" if s == "*" else 0 for s in stars(path)]
            for r in ("good", "bad"):
                doc = document(comp + [(path, keys, {"$ref": p + r})])
                for vs in ([True], ["a"], [None]):
                    yield {"doc": doc, "at": name, "words": words, "values": vs}
                for i in range(0, len(words), 1 if r == "bad" else 8):
                    yield {"doc": doc, "at": name, "words": [words[i]]}

        # an entry where the path ends early next to one where it does not
        for name, path in self.paths.items():
            st = stars(path)
            comp = [(self.component, ["good"], NEW[self.kind]())]
            for pos in range(len(st)):
                for cut_path, n, val in self.stubs(path):
                    if n < pos + 1:
                        continue
                    for first in (0, 1):
                        for target in ("bad", "good"):
                            ka, kb = ([("k0" if s == "*" else 0) for s in st] for _ in (0, 1))
                            ka[pos], kb[pos] = (("k1", "k2") if first == 0 else ("k2", "k1")) if st[pos] == "*" else ((0, 1) if first == 0 else (1, 0))
                            pa, pb = (cut_path, ka[:n], val), (path, kb, {"$ref": p + target})
                            yield {"doc": document(comp + ([pa, pb] if first == 0 else [pb, pa])), "at": name}

    @staticmethod
    def stubs(path):
        """(prefix of the path, number of wildcards in it, value that ends it)"""
        words = path.split()
        for cut in range(1, len(words) + 1):
            n = len([w for w in words[:cut] if w[0] in "*+"])
            if not n:
                continue
            w, pre = words[cut - 1], " ".join(words[:cut])
            if w[0] in "*+":
                yield pre, n, {"$ref": "https://e.com/x"}
                yield pre, n, NEW[w[1]]()
            elif cut < len(words):
                yield pre.split("=")[0], n, [] if words[cut][0] == "+" else {} if words[cut][0] == "*" else None
            else:
                yield pre, n, None

    def random(self, seed, tier):
        r = random.Random(seed)
        names = list(self.paths)
        keys = ["a", "b", "c-1", "tags", "externalDocs", "components", "x_y"]
        while True:
            have = r.sample(keys, r.randint(0, 3))
            pl = [(self.component, [k], NEW[self.kind]()) for k in have]
            bad = r.random() < 0.6
            n = r.choice([1, 2, 4, 8, 16])
            at = r.randrange(n)
            for i in range(n):
                path = self.paths[r.choice(names)]
                ks = [r.choice(keys) if s == "*" else r.randrange(4) for s in stars(path)]
                if path == self.component:
                    ks = [k if k not in have else "own" for k in ks]
                pool = [self.prefix + k for k in have] + ["https://e.com/x", "x.yaml#/components"]
                ref = r.choice(pool)
                if bad and i == at:
                    ref = r.choice(self.refs(have))
                if not (bad and i == at) and r.random() < 0.3:
                    cuts = list(self.stubs(path))
                    if cuts:
                        path, n_, val = r.choice(cuts)
                        pl.append((path, ks[:n_], val))
                        continue
                pl.append((path, ks, {"$ref": ref}))
            if r.random() < 0.3:
                m = r.choice(["servers", "channels", "operations", "components channels", "components messages"])
                pl.append((m.replace(" ", " ") + " *C", [r.choice(keys)], {"$ref": "#/components/messages/q"}))
            try:
                yield {"doc": document(pl), "at": "random"}
            except (TypeError, KeyError, IndexError, AttributeError):
                continue


_good = []


def good():
    if not _good:
        _good.append(L("AsyncAPI3").model_validate({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}))
    return _good[0]


def replay_doc(validator, rule, case):
    from pydantic import ValidationError
    try:
        doc = L("AsyncAPI3").model_validate(copy.deepcopy(case["doc"]))
    except ValidationError:
        return SKIP
    if case.get("words"):
        spice(doc, case["words"], case.get("values"))
    want = rule(doc)
    history.used_before(doc, good(), validator())
    v = validator()
    try:
        r = v(doc)
        got = True
    except ValueError:
        got = False
    except Exception as ex:      # noqa: BLE001
        return f"{validator.__name__} raises {type(ex).__name__} on {case['doc']!r}"
    if got is not want:
        return (f"{validator.__name__} {'accepts' if got else 'rejects'} a document "
                f"{'with a dangling or foreign reference' if got else 'whose references are all good'}: {case['doc']!r}")
    if got and r is not doc:
        return f"{validator.__name__} does not return the document it was given"
    return None
