"""C13: reference factories and equality of references."""
import inspect
import itertools

from props.c09 import NEXT, OUT, STEP, WALKED, Walk, outcome
from props.common import *
from spec import resolve as R

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("contract per factory: for every key, what the factory returns resolves (by running resolve_reference symbolically on "
             "an arbitrary document) to entry k of its container, and to nothing when there is none; equality and hash as functions "
             "of the reference string; discharged by pyvc and z3, failing inputs replayed")
NOTE = ("Proved for every document and every patterned key: the factory's string and its resolution up to the first entry (what "
        "follows when the entry is itself a Reference is C09's chain contract). Equality trusts pydantic's BaseModel.__eq__.")
RULE = "a factory, a key and a document with decoys; non-trivial always"
BOUNDED = "none: concrete documents only cross-check the proofs"
TRUSTED = ["str.split('/') yields the segments between the slashes", "BaseModel.__eq__ compares the class and the field values",
           "Reference(ref=s) has the reference string s (schema of Reference, C02)"]
ASSUMPTIONS = ["values of type Any are JSON data"]
SHRINK = ("keys",)

# factory -> the container it names
FACTORIES = {
    "to_root_server_name": ["servers"], "to_root_channel_name": ["channels"], "to_root_operation_name": ["operations"],
    **{f"to_component_{n}_name": ["components", m] for n, m in {
        "schema": "schemas", "server": "servers", "channel": "channels", "operation": "operations", "message": "messages",
        "security_scheme": "security_schemes", "server_variable": "server_variables", "parameter": "parameters",
        "correlation_id": "correlation_ids", "reply": "replies", "reply_address": "reply_addresses",
        "external_doc": "external_docs", "tag": "tags", "operation_trait": "operation_traits",
        "message_trait": "message_traits", "server_binding": "server_bindings", "channel_binding": "channel_bindings",
        "operation_binding": "operation_bindings", "message_binding": "message_bindings"}.items()}}


MADE = ("g", "made", 0)


def flat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for a in t.children() for x in flat(a)]
    return [t]


class Short(Walk):
    """resolve_reference on a reference whose segments are known: the walk is
    executed segment by segment"""

    def __init__(self):
        super().__init__("end", L("Reference"), visited=False)

    def loop(self, I, it, body):
        if not isinstance(it, SymSplit) or it.sep != "/" or it.maxsplit != -1:
            raise C.Unsupported("loop")
        from pyvc.interp import Brk, Cont
        from pyvc.regex import unz
        rx = I.enc.rx
        parts, cur = [], []
        for a in flat(it.t):
            if not z3.is_string_value(a):
                C.must(I, fm.neg(fm.lit(I.enc.mem(a, rx.cat(rx.ALL, rx.word("/"), rx.ALL)))), "a segment contains a slash")
                cur.append(a)
                continue
            for n, s in enumerate(I.enc.alpha.dec(unz(a.as_string())).split("/")):
                if n:
                    parts.append(cur)
                    cur = []
                if s:
                    cur.append(I.enc.const(s))
        parts.append(cur)
        I.store[WALKED] = True
        for p in parts:
            if all(z3.is_string_value(a) for a in p):
                s = "".join(I.enc.alpha.dec(unz(a.as_string())) for a in p)
            else:
                s = SymStr(p[0] if len(p) == 1 else z3.Concat(*p))
            try:
                body(s)
            except Cont:
                continue
            except Brk:
                raise C.Unsupported("break")

    def element(self, I):
        return self.entry, L("Reference")


def reference(I, h):
    """an arbitrary instance of Reference; its constructor gives it the string"""
    def construct(I, c, args, kw):
        if c is not L("Reference"):
            return NotImplemented
        if args or len(kw) != 1 or set(kw) - {"ref", "$ref"}:
            raise C.Unsupported("construction of a Reference")
        v = I.force(next(iter(kw.values())))
        if not isinstance(v, (str, SymStr)):
            raise C.Unsupported("reference string")
        o = SymObj(I.fresh("ref", I.enc.Obj), c)
        I.assume(I.eq_f(I.obj_attr(o, "ref"), v))
        I.store[MADE] = (o, v)
        return o
    h["construct"] = construct


def key_lang(rx):
    return rx.lang("[A-Za-z0-9_-]+", 0, "fullmatch")


def obligations(tier):
    for fname, path in FACTORIES.items():
        name = f"Reference.{fname}: names entry k of {'.'.join(path)}"

        def thunk(fname=fname, path=path, name=name):
            w = Short()
            h = w.hooks()
            reference(None, h)

            def body(I, ob):
                rx = I.enc.rx
                rx.setup()
                I.store[MADE] = None
                k = SymStr(z3.Const("key!", z3.StringSort()))
                I.assume(fm.lit(I.enc.mem(k.t, key_lang(rx))))
                f = I.get_attr(L("Reference"), fname)
                r = I.force(I.call(f, [k], {}))
                if not isinstance(r, SymObj) or r.c is not L("Reference"):
                    return C.mismatch(I, "does not return a Reference")
                ref = I.store[MADE][1] if I.store[MADE] and I.store[MADE][0].key() == r.key() else None
                if ref is None:
                    raise C.Unsupported("how the Reference was made")
                w.start(I, ref)
                # the contract: entry k of the container, if it is there
                o = w.spec
                for n in path:
                    v = I.obj_attr(o, n)
                    if isinstance(v, Sym) and I.decide(I.same_f(v, None)):
                        o = None
                        break
                    o = I.force(v)
                want = None
                if o is not None:
                    root = I.force(I.obj_attr(o, "root"))
                    if I.decide(fm.lit(I.enc.has(root.t, k.t))):
                        want = I.force(Sym(I.enc.get(root.t, k.t), root.T))
                w.entry = want

                def after(kind, v):
                    if want is None:
                        C.reached(I, "missing")
                        if kind != "raise" or not issubclass(v, ValueError):
                            C.mismatch(I, f"there is no entry, but {kind}")
                        return
                    if isinstance(want, SymObj) and want.c is L("Reference"):
                        C.reached(I, "chain")
                        if kind != NEXT:
                            C.mismatch(I, f"the entry is a Reference, but {kind}")
                        return
                    C.reached(I, "entry")
                    if kind != "return" or not isinstance(v, tuple) or not v:
                        return C.mismatch(I, f"the entry exists, but {kind} {v!r}")
                    C.must(I, I.same_value_f(v[0], want), "resolves to something else")
                outcome(I, w, after)
            T = TABLE[container(path)]["root"][2]
            chain = T[0] == "union" and ["model", "Reference"] in T[1]
            return C.prove(name, body, need=("missing", "entry") + (("chain",) if chain else ()), hooks=h, budget=60.0)
        yield (name, thunk, lambda w: [])

    def complete():
        """every factory of the class is under contract"""
        ref = L("Reference")
        have = {n for n in dir(ref) if n.startswith("to_") and callable(getattr(ref, n))}
        bad = sorted(set(FACTORIES) - have)
        return static_obligation("Reference: has a factory for each of the 22 containers", not bad, f"missing {bad}")
    yield ("Reference: has a factory for each of the 22 containers", complete)

    def fields():
        s = sh.shape(L("Reference"))
        from pydantic import BaseModel
        bad = []
        if set(s.fields) != {"ref"}:
            bad.append(f"members {sorted(s.fields)}")
        if s.config.get("extra_fields_behavior") != "forbid":
            bad.append("undeclared members")
        if L("Reference").__private_attributes__:
            bad.append("private attributes")
        if L("Reference").__eq__ is not BaseModel.__eq__:
            bad.append("its own equality")
        if s.custom_init or s.nonafter or s.inner_wrappers or s.after:
            bad.append("validators")
        return static_obligation("Reference: pydantic's equality compares the reference string alone", not bad, str(bad))
    yield ("Reference: pydantic's equality compares the reference string alone", fields)

    def hashes():
        cls = L("Reference")

        def body(I, ob):
            a, b = (SymObj(z3.Const(n, I.enc.Obj), cls) for n in ("a!", "b!"))
            I.assume(I.eq_f(I.obj_attr(a, "ref"), I.obj_attr(b, "ref")))
            ha, hb = (I.call(hash, [x], {}) for x in (a, b))
            C.reached(I, "hash")
            C.must(I, I.eq_f(ha, hb), "equal references with different hashes")
        return C.prove("Reference.__hash__: a function of the reference string", body, need=("hash",), budget=20.0)
    yield ("Reference.__hash__: a function of the reference string", hashes, lambda w: [])


def container(path):
    c = "AsyncAPI3"
    for n in path:
        c = next(a[1] for a in TABLE[c]["fields"][n]["type"][1] if a[0] == "model")
    return c


# ----------------------------------------------------------------------- replay
ROUTES = {
    "ref=": lambda s: L("Reference")(ref=s),
    "$ref": lambda s: L("Reference")(**{"$ref": s}),
    "validate": lambda s: L("Reference").model_validate({"$ref": s}),
    "validate name": lambda s: L("Reference").model_validate({"ref": s}),
    "json": lambda s: L("Reference").model_validate_json(__import__("json").dumps({"$ref": s})),
    "copy": lambda s: L("Reference")(ref=s).model_copy(),
    "deep copy": lambda s: copy.deepcopy(L("Reference")(ref=s)),
    "instance": lambda s: L("Reference").model_validate(L("Reference")(ref=s)),
    "assigned": lambda s: assigned(s),
    "update": lambda s: L("Reference")(ref="zz").model_copy(update={"ref": s}),
    "embedded": lambda s: L("Tag").model_validate({"name": "n", "externalDocs": {"$ref": s}}).external_docs,
    "list": lambda s: L("Operation").model_validate({"action": "send", "channel": {"$ref": s}, "messages": [{"$ref": s}]}).messages[0],
    "pickled": lambda s: __import__("pickle").loads(__import__("pickle").dumps(L("Reference")(ref=s))),
}


def assigned(s):
    r = L("Reference")(ref="x" + s)
    hash(r)
    r.ref = s
    return r


def replay(case):
    if "factory" in case:
        return replay_factory(case)
    (ra, sa), (rb, sb) = case["a"], case["b"]
    a, b = ROUTES[ra](sa), ROUTES[rb](sb)
    if (a == b) is not (sa == sb) or (a != b) is (sa == sb):
        return f"Reference({sa!r}) ({ra}) == Reference({sb!r}) ({rb}) is {a == b}"
    if sa == sb:
        if hash(a) != hash(b):
            return f"equal references {sa!r} ({ra}, {rb}) have hashes {hash(a)} and {hash(b)}"
        if len({a, b}) != 1 or {a: 1}.get(b) != 1:
            return f"equal references {sa!r} ({ra}, {rb}) are kept apart in a set"
    elif len({a, b}) != 2:
        return f"references {sa!r} and {sb!r} are one in a set"
    return None


def replay_factory(case):
    from asyncapi3.validators.utils import resolve_reference
    fname, k, keys = case["factory"], case["key"], case["keys"]
    path = FACTORIES[fname]
    g = gen.Gen(1)
    doc = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "components": {}}
    for f, p in FACTORIES.items():
        cont = container(p)
        m = {}
        for q in keys:
            m[q] = probes_entry(cont, g)
        if f == fname and k not in keys and case.get("have"):
            m[k] = probes_entry(cont, g)
        elif f == fname and not case.get("have"):
            m.pop(k, None)
        if case.get("have") and f == fname and case.get("end") is not None:
            m[k] = {"$ref": case["end"]}
        al = TABLE["AsyncAPI3"]["fields"][p[0]]["alias"]
        if len(p) == 1:
            doc[al] = m
        else:
            doc[al][TABLE["Components"]["fields"][p[1]]["alias"]] = m
    if not case.get("have") and case.get("absent"):
        if len(path) == 1:
            del doc[path[0]]
        else:
            del doc["components"][TABLE["Components"]["fields"][path[1]]["alias"]]
    d = build(L("AsyncAPI3"), doc)
    if d is None:
        return SKIP
    # whoever got a reference to the same entry before may have changed it
    for q in (k, "a"):
        early = getattr(L("Reference"), fname)(q)
        early.ref = "#/info/title"
        early.__dict__["ref"] = "#/info/version"
    r = getattr(L("Reference"), fname)(k)
    if type(r) is not L("Reference"):
        return f"{fname}({k!r}) is a {type(r).__name__}"
    o = d
    for n in path:
        o = getattr(o, n) if o is not None else None
    want = o.root.get(k) if o is not None else None
    if type(want).__name__ == "Reference":
        try:
            w = R.resolve(d, want.ref, {r.ref})
        except oracle.Undefined:
            return SKIP
        want = w[1] if w[0] == "ok" else None
        if w[0] == "external":
            return None if resolve_reference(ref=r.ref, spec=d) is None else f"{fname}({k!r}) does not end at the external reference"
    try:
        got = resolve_reference(ref=r.ref, spec=d)
        got = got.resolved_object if got is not None else "(external)"
    except ValueError as ex:
        if want is None:
            return None
        return f"{fname}({k!r}) = {r.ref!r} does not resolve although the document defines the entry: {ex}"[:300]
    except Exception as ex:      # noqa: BLE001
        return f"resolving {fname}({k!r}) raises {type(ex).__name__}"
    if want is None:
        return f"{fname}({k!r}) = {r.ref!r} resolves to {got!r} although the document does not define the entry"[:300]
    if got is not want:
        return f"{fname}({k!r}) = {r.ref!r} resolves to another object: {got!r}"[:300]
    return None


def probes_entry(cont, g):
    T = TABLE[cont]["root"][2]
    for a in (T[1] if T[0] == "union" else [T]):
        if a[0] == "model" and a[1] != "Reference":
            return g.least(a[1])
    return g.least_value(T)


def nontrivial(case):
    return True


KEYS = ["a", "A", "0", "-", "_", "root", "user-events", "servers", "components", "x-1", "info", "-a", "a-", "_a", "a_", "00", "name", "title",
        "model_fields", "keys", "ref", "to", "k" * 300, "Reference", "schemas", "securitySchemes", "security_schemes", "items", "get"]


def fixed_cases(tier):
    for f in FACTORIES:
        for k in KEYS:
            for keys in ([], ["other"], [k], [k.upper(), k.lower(), k + "x", k[:-1] or "z"]):
                yield {"factory": f, "key": k, "keys": keys, "have": True}
                yield {"factory": f, "key": k, "keys": keys, "have": False}
            yield {"factory": f, "key": k, "keys": [], "have": False, "absent": True}
            for end in ("https://a/b", "#/info", "#/info/title", "#/nowhere", "#/components/tags/other", "#/servers/other"):
                yield {"factory": f, "key": k, "keys": ["other"], "have": True, "end": end}
    long = ["k" * 5000, "a-b_c" * 700, "K" * 5000]
    for f in FACTORIES:
        for k in long:
            for keys in ([], long, [f"k{i}" for i in range(300)], [k[:-1], k + "k"]):
                for have in (True, False):
                    yield {"factory": f, "key": k, "keys": keys, "have": have}
    far = ["#/" + "a" * 5000, "#/" + "a" * 4999 + "b", "#/" + "a" * 5001, "b" + "#/" + "a" * 5000]
    for sa, sb in itertools.product(far, far):
        yield {"a": ["ref=", sa], "b": ["ref=", sb]}
    strs = ["", "#", "#/a", "#/A", "#/a ", " #/a", "#/a\n", "a", "b", "1", "é", "e\u0301", "#/a/", "http://a/b", "http://a/b#"]
    for ra, rb in itertools.product(ROUTES, ROUTES):
        for sa, sb in itertools.product(strs, strs):
            if sa == sb or ra == rb or ra == "ref=":
                yield {"a": [ra, sa], "b": [rb, sb]}


def random_cases(seed, tier):
    r = random.Random(seed)
    ab = "abcXYZ019_-"
    while True:
        if r.random() < 0.7:
            k = random_string(r, ab, 12) or "a"
            yield {"factory": r.choice(list(FACTORIES)), "key": k, "keys": [random_string(r, ab, 3) or "b" for _ in range(2)],
                   "have": r.random() < 0.6}
        else:
            s = random_string(r, NASTY + list("#/a"), 6)
            t = s if r.random() < 0.6 else random_string(r, NASTY + list("#/a"), 6)
            yield {"a": [r.choice(list(ROUTES)), s], "b": [r.choice(list(ROUTES)), t]}
