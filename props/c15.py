"""C15: as_builder."""
import itertools
import json

from props.common import *
from props.serial import differ, jsonable

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("postcondition of as_builder over its construction record (which class is built from which values, which containers are "
             "allocated), proved by symbolic execution for arbitrary arguments; failing arguments replayed on the real code")
NOTE = ("Proved for arbitrary argument values: the document is built from exactly the given metadata and the listed empty "
        "containers, each freshly allocated in the call; every keyword replaces its own default only. What the constructors do with "
        "these values is C02-C08; concrete builders cross-check values and independence.")
RULE = "arguments of as_builder; non-trivial when some argument is given"
BOUNDED = "the histories of two builders: concrete"
TRUSTED = ["the constructors keep the values they accept (C02, C03)"]
ASSUMPTIONS = ["arguments are not mutated by other threads during the call"]
SHRINK = ("args", "kwargs")

META = ["title", "version", "description", "terms_of_service", "contact", "license", "tags", "external_docs"]
DEFAULTS = {"title": "Sample APP", "version": "0.0.1"}
COMPONENTS = sorted(TABLE["Components"]["fields"])
TOP = ["servers", "channels", "operations"]
UNIFIED = "UnifiedReferencesValidator"
LOG = ("g", "log", 0)


def unified():
    import asyncapi3.validators as v
    return v.UnifiedReferencesValidator


def field_of(cname, key):
    for n, f in TABLE[cname]["fields"].items():
        if key in (n, f["alias"]):
            return n
    return None


def container(cname, n):
    return next(a[1] for a in TABLE[cname]["fields"][n]["type"][1] if a[0] == "model" and a[1] != "Reference")


class Record:
    """what a constructor of the package was called with"""

    def hooks(self):
        return {"construct": self.construct}

    def construct(self, I, c, args, kw):
        if not (c.__module__ or "").startswith("asyncapi3.models"):
            return NotImplemented
        o = SymObj(I.fresh("made", I.enc.Obj), c)
        log = I.store[LOG]
        held = {}
        for k, v in list(enumerate(args)) + list(kw.items()):
            # the contents at the time of the call: later changes are another matter
            held[k] = (v, I.content(v) if isinstance(v, HRef) and v.kind != "obj" else None)
        I.store[LOG] = log + ((o, held),)
        return o

    def of(self, I, o):
        o = I.force(o) if isinstance(o, Sym) else o
        for x, held in I.store[LOG]:
            if isinstance(o, SymObj) and x.key() == o.key():
                return x.c, held
        return None, None


def obligations(tier):
    def run(given, kwargs):
        """given: metadata arguments given; kwargs: names of extra keyword arguments"""
        name = f"as_builder: built from its arguments ({', '.join(given) or 'no metadata'}; {', '.join(kwargs) or 'no keywords'})"

        def thunk():
            rec = Record()

            def body(I, ob):
                I.store[LOG] = ()
                cls = L("AsyncAPI3")
                sym = {n: Sym(z3.Const(f"arg_{n}!", I.enc.Val), ["any"]) for n in list(given) + list(kwargs)}
                r = I.call(I.get_attr(cls, "as_builder"), [], dict(sym))
                C.reached(I, "built")
                c, held = rec.of(I, r)
                if c is not cls:
                    return C.mismatch(I, "does not return a document it built")
                got = {}
                for k, (v, cont) in held.items():
                    n = field_of("AsyncAPI3", k) if isinstance(k, str) else None
                    got[n or k] = (v, cont)
                seen = set()

                def is_arg(v, n):
                    return isinstance(v, Sym) and v.key() == sym[n].key()

                def fresh_list(n, items):
                    v, cont = got.get(n, (None, None))
                    if not isinstance(v, HRef) or v.kind != "list" or v.oid in seen:
                        return C.mismatch(I, f"{n} is not a list of its own")
                    seen.add(v.oid)
                    if list(cont) != items:
                        C.mismatch(I, f"{n} is {cont}")

                def empty(v, cname, what):
                    c, held = rec.of(I, v)
                    if c is not L(cname) or id(held) in seen:
                        return C.mismatch(I, f"{what} is not a {cname} of its own")
                    seen.add(id(held))
                    if len(held) > 1 or (held and next(iter(held)) not in (0, "root")):
                        return C.mismatch(I, f"{what}: built from {held}")
                    for x, cont in held.values():
                        if isinstance(x, HRef) and x.kind == "dict" and x.oid not in seen:
                            seen.add(x.oid)
                            if cont:
                                C.mismatch(I, f"{what} is not empty")
                        else:
                            C.mismatch(I, f"{what}: {x!r} is not an empty mapping of its own")
                want = ["info", "components", "extra_validators"] + TOP + list(kwargs)
                for n in want:
                    if n not in got:
                        return C.mismatch(I, f"{n} is not set")
                for n in got:
                    if n not in want and not (n == "extra_converters" and not got[n][1]):
                        C.mismatch(I, f"sets {n}")
                for n in kwargs:
                    if not is_arg(got[n][0], n):
                        C.mismatch(I, f"{n} is not the value given")
                if "info" not in kwargs:
                    c, held = rec.of(I, got["info"][0])
                    if c is not L("Info"):
                        C.mismatch(I, "info is not an Info")
                    else:
                        h = {field_of("Info", k): v for k, (v, _) in held.items() if isinstance(k, str)}
                        if None in h or len(h) != len(held):
                            C.mismatch(I, f"info has other members: {list(held)}")
                        for n in META:
                            if n in given:
                                if n not in h or not is_arg(h[n], n):
                                    C.mismatch(I, f"info.{n} is not the value given")
                            elif n in DEFAULTS:
                                if h.get(n) != DEFAULTS[n]:
                                    C.mismatch(I, f"info.{n} is {h.get(n)!r} by default")
                            elif h.get(n) is not None:
                                C.mismatch(I, f"info.{n} is {h[n]!r} by default")
                        for n in h:
                            if n not in META:
                                C.mismatch(I, f"info.{n} is set")
                if "components" not in kwargs:
                    c, held = rec.of(I, got["components"][0])
                    if c is not L("Components"):
                        C.mismatch(I, "components is not a Components")
                    else:
                        h = {field_of("Components", k): v for k, (v, _) in held.items()}
                        if sorted(h, key=str) != COMPONENTS:
                            C.mismatch(I, f"components has {sorted(h, key=str)}")
                        else:
                            for n in COMPONENTS:
                                empty(h[n], container("Components", n), f"components.{n}")
                for n in TOP:
                    if n not in kwargs:
                        empty(got[n][0], container("AsyncAPI3", n), n)
                if "extra_validators" not in kwargs:
                    fresh_list("extra_validators", [unified()])
                if "extra_converters" not in kwargs and "extra_converters" in got and got["extra_converters"][0] is not None:
                    fresh_list("extra_converters", [])
            return C.prove(name, body, need=("built",), hooks=rec.hooks(), budget=30.0)
        return (name, thunk, lambda w: [])
    tops = [n for n in TABLE["AsyncAPI3"]["fields"]]
    yield run([], [])
    yield run(META, [])
    for n in META:
        yield run([n], [])
        yield run([m for m in META if m != n], [])
    for n in tops + ["x-a"]:
        yield run([], [n])
        yield run(META, [m for m in tops if m != n])
    yield run(META, tops + ["x-a"])

    def sig():
        import inspect
        f = L("AsyncAPI3").as_builder
        bad = []
        p = inspect.signature(f).parameters
        if not any(x.kind is x.VAR_KEYWORD for x in p.values()):
            bad.append("no **kwargs")
        for n in META:
            d = p[n].default if n in p else "missing"
            if d != DEFAULTS.get(n):
                bad.append(f"{n}={d!r}")
            if isinstance(d, (list, dict, set)):
                bad.append(f"mutable default of {n}")
        return static_obligation("as_builder: defaults of its parameters", not bad, str(bad))
    yield ("as_builder: defaults of its parameters", sig)


# ----------------------------------------------------------------------- replay
def mutables(o, out=None, path="doc"):
    """id -> path of the mutable objects reachable from a document"""
    out = {} if out is None else out
    if isinstance(o, type) or o is None or isinstance(o, (str, int, float, bytes)) or id(o) in out:
        return out
    from pydantic import BaseModel
    if isinstance(o, BaseModel):
        out[id(o)] = (path, o)
        out[id(o.__dict__)] = (path + ".__dict__", o.__dict__)
        for k, v in o.__dict__.items():
            mutables(v, out, f"{path}.{k}")
        for n in ("__pydantic_extra__", "__pydantic_private__", "__pydantic_fields_set__"):
            v = getattr(o, n, None)
            if v is not None:
                mutables(v, out, f"{path}.{n}")
    elif isinstance(o, dict):
        out[id(o)] = (path, o)
        for k, v in o.items():
            mutables(v, out, f"{path}[{k!r}]")
    elif isinstance(o, (list, set)):
        out[id(o)] = (path, o)
        for i, v in enumerate(o):
            mutables(v, out, f"{path}[{i}]")
    elif isinstance(o, tuple):
        for i, v in enumerate(o):
            mutables(v, out, f"{path}[{i}]")
    return out


def mutate(doc):
    """change everything that can be changed in place"""
    doc.info.title = "changed"
    doc.info.description = "changed"
    doc.default_content_type = "changed/x"
    if doc.servers is not None:
        doc.servers["s1"] = {"host": "h", "protocol": "p"}
    if doc.channels is not None:
        doc.channels["c1"] = {}
        doc.channels.root["c2"] = L("Channel")()
    if doc.operations is not None:
        doc.operations.root["o1"] = {"any": 1}
    if doc.components is not None:
        for n in COMPONENTS:
            v = getattr(doc.components, n)
            if v is not None:
                v.root["added"] = "anything"
        doc.components.schemas = None
    for n in ("extra_validators", "extra_converters"):
        v = getattr(doc, n)
        if v is not None:
            v.append("junk")
    doc.model_fields_set.add("junk")
    if doc.info.tags is not None:
        doc.info.tags.append("junk")


VALUES = {"str": str}


def make(x):
    """an argument from its description"""
    if isinstance(x, dict) and "$make" in x:
        c, raw = x["$make"]
        return L(c).model_validate(copy.deepcopy(raw))
    if isinstance(x, list):
        return [make(v) for v in x]
    return copy.deepcopy(x)


def plain_arg(x):
    if isinstance(x, dict) and "$make" in x:
        return plain_arg(x["$make"][1])
    if isinstance(x, list):
        return [plain_arg(v) for v in x]
    return x


def call(case):
    A = L("AsyncAPI3")
    args = {k: make(v) for k, v in case["args"].items()}
    kw = {k: make(v) for k, v in case["kwargs"].items()}
    for n, l in case.get("lists", {}).items():
        kw[n] = None if l is None else [unified() if x == UNIFIED else Other for x in l]
    if case.get("positional"):
        pos = [args.pop(n) for n in list(itertools.takewhile(lambda n: n in args, META))]
        return A.as_builder(*pos, **args, **kw)
    return A.as_builder(**args, **kw)


class Other:
    def __call__(self, doc):
        return doc


def refs(x):
    if isinstance(x, dict):
        if isinstance(x.get("$ref"), str):
            yield x["$ref"]
        for v in x.values():
            yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)


def expected(case):
    """the raw document the call should yield"""
    info = {"title": "Sample APP", "version": "0.0.1"}
    for n in META:
        if n in case["args"]:
            info[TABLE["Info"]["fields"][n]["alias"]] = plain_arg(case["args"][n])
    raw = {"info": info, "servers": {}, "channels": {}, "operations": {},
           "components": {f["alias"]: {} for f in TABLE["Components"]["fields"].values()}}
    for k, v in case["kwargs"].items():
        n = field_of("AsyncAPI3", k)
        raw[TABLE["AsyncAPI3"]["fields"][n]["alias"] if n else k] = plain_arg(v)
    return raw


def replay(case):
    from pydantic import ValidationError
    what = f"as_builder({case['args']}, {case['kwargs']}, {case.get('lists', {})})"[:300]
    raw = expected(case)
    val = case.get("lists", {}).get("extra_validators", [UNIFIED])
    if val and UNIFIED in val and any(not r.startswith(("http://", "https://")) for r in refs(raw)):
        return SKIP
    try:
        want = oracle.parse_model("AsyncAPI3", raw)
    except oracle.Undefined:
        return SKIP
    except oracle.Reject as r:
        want = r
    try:
        doc = call(case)
    except ValidationError as ex:
        return None if isinstance(want, oracle.Reject) else f"{what} raises {ex}"[:500]
    except Exception as ex:      # noqa: BLE001
        return f"{what} raises {type(ex).__name__}: {ex}"[:400]
    if isinstance(want, oracle.Reject):
        return f"{what} is accepted although {want}"[:400]
    r = check(doc, case, want, what)
    if r:
        return r
    # histories: other builders before and after, changed in every way
    other = call(case)
    shared = set(mutables(doc)) & set(mutables(other))
    if shared:
        m = mutables(doc)
        return f"{what}: two builders share {sorted(m[i][0] for i in shared)[:4]}"
    try:
        mutate(other)
    except Exception:        # noqa: BLE001 - some change is refused
        pass
    r = check(doc, case, want, what + " after another builder was changed") or \
        check(call(case), case, want, what + ", built after another builder was changed")
    if r:
        return r
    base = L("AsyncAPI3").as_builder()
    shared = set(mutables(doc)) & set(mutables(base))
    if shared:
        m = mutables(doc)
        return f"{what} and as_builder() share {sorted(m[i][0] for i in shared)[:4]}"
    return None


def check(doc, case, want, what):
    if type(doc) is not L("AsyncAPI3"):
        return f"{what} is a {type(doc).__name__}"
    r = differ(doc.model_dump(mode="json"), oracle.dump(want))
    if r:
        return f"{what}: {r}"
    lists = case.get("lists", {})
    v = lists.get("extra_validators", [UNIFIED])
    want_v = None if v is None else [unified() if x == UNIFIED else Other for x in v]
    if doc.extra_validators != want_v:
        return f"{what}: validators {doc.extra_validators}"
    c = lists.get("extra_converters", [])
    want_c = None if c is None else [unified() if x == UNIFIED else Other for x in c]
    if (doc.extra_converters or None) != (want_c or None):
        return f"{what}: converters {doc.extra_converters}"
    return None


def nontrivial(case):
    return bool(case["args"] or case["kwargs"] or case.get("lists"))


def ok_raw(g, c, depth):
    for _ in range(20):
        raw = g.model(c, depth)
        if all(r.startswith(("http://", "https://")) for r in refs(raw)):
            return raw
    return g.least(c)


LISTS = [None, [], [UNIFIED], ["Other"], [UNIFIED, "Other"]]


def fixed_cases(tier):
    g = gen.Gen(3)
    e = {"args": {}, "kwargs": {}}
    yield e
    t = TABLE["Info"]["fields"]
    vals = {"title": ["", "T", "é\n"], "version": ["", "1.2.3", "x"], "description": ["", "d", None],
            "terms_of_service": [oracle.GOOD_URLS[1], None, "nope"],
            "contact": [{}, {"name": "n", "email": "a@example.com"}, {"$make": ["Contact", {"name": "n"}]}, None, {"email": "x"}],
            "license": [{"name": "n"}, {"$make": ["License", {"name": "n", "url": oracle.GOOD_URLS[0]}]}, None, {}],
            "tags": [[], [{"name": "a"}, {"$make": ["Tag", {"name": "b"}]}, {"$ref": "https://a/b"}], None, "x", [{}]],
            "external_docs": [{"url": oracle.GOOD_URLS[0]}, {"$ref": "https://a/b"}, None,
                              {"$make": ["ExternalDocumentation", {"url": oracle.GOOD_URLS[0]}]},
                              {"$make": ["Reference", {"$ref": "https://a/b"}]}, {"url": ""}]}
    long = {"title": "t" * 20011, "version": "1." + "0" * 20011, "description": "d\n" * 9000,
            "tags": [{"name": f"t{i}"} for i in range(400)], "terms_of_service": oracle.GOOD_URLS[0]}
    yield {"args": long, "kwargs": {}}
    yield {"args": long, "kwargs": {}, "positional": True}
    yield {"args": {"tags": [{"name": "a"}] * 300 + [5]}, "kwargs": {}}
    yield {"args": {}, "kwargs": {f"x-k{i}": i for i in range(300)}}
    yield {"args": {}, "kwargs": {**{f"x-k{i}": i for i in range(300)}, "y": 1}}
    yield {"args": {}, "kwargs": {"channels": {f"c{i}": {} for i in range(300)}, "servers": {}}}
    for n in META:
        for v in vals[n]:
            yield {"args": {n: v}, "kwargs": {}}
            yield {"args": {n: v}, "kwargs": {}, "positional": True}
    for i in range(3):
        full = {n: vals[n][i % len(vals[n])] for n in META}
        full["terms_of_service"] = oracle.GOOD_URLS[i]
        for p in (False, True):
            yield {"args": full, "kwargs": {}, "positional": p}
            for n in META:
                yield {"args": {k: v for k, v in full.items() if k != n}, "kwargs": {}, "positional": p}
    tops = {"asyncapi": ["3.0.0", "3.1.2", "2.0.0"], "id": ["urn:example:thing", None, "nope"],
            "info": [{"title": "q", "version": "9"}, {}, {"$make": ["Info", {"title": "q", "version": "9"}]}],
            "default_content_type": ["a/b", None], "defaultContentType": ["a/b"],
            "servers": [None, {}, {"a": {"host": "h", "protocol": "p"}}, {"$make": ["Servers", {}]}, {"a b": {}}],
            "channels": [None, {}, {"a": {}}, {"$make": ["Channels", {"b": {"title": "x"}}]}],
            "operations": [None, {}, {"a": {"action": "send", "channel": {"$ref": "https://a/b"}}}],
            "components": [None, {}, {"tags": {"a": {"name": "n"}}}, {"$make": ["Components", {"schemas": {"a": {}}}]}, {"zz": 1}],
            "x-foo": [1, None, {"a": [1]}], "y": [1], "x-servers": [{}]}
    for n, vs in tops.items():
        for v in vs:
            yield {"args": {}, "kwargs": {n: v}}
            yield {"args": {"title": "T", "version": "7", "description": "d"}, "kwargs": {n: v}}
            for a in LISTS:
                yield {"args": {}, "kwargs": {n: v}, "lists": {"extra_validators": a}}
    for a, b in itertools.product(LISTS, LISTS):
        yield {"args": {}, "kwargs": {}, "lists": {"extra_validators": a, "extra_converters": b}}
        yield {"args": {}, "kwargs": {}, "lists": {"extra_converters": b}}
    for k in range(2, len(tops)):
        for combo in itertools.islice(itertools.combinations([n for n in tops if n not in ("y", "defaultContentType")], k), 40):
            yield {"args": {"title": "T"}, "kwargs": {n: tops[n][0] for n in combo}}


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    top = [n for n in TABLE["AsyncAPI3"]["fields"] if n not in ("extra_converters", "extra_validators")]
    while True:
        info = ok_raw(g, "Info", 3)
        inv = {f["alias"]: n for n, f in TABLE["Info"]["fields"].items()}
        args = {inv[k]: v for k, v in info.items() if k in inv and r.random() < 0.8}
        raw = ok_raw(g, "AsyncAPI3", 3)
        kw = {}
        for k, v in raw.items():
            if r.random() < 0.4:
                n = field_of("AsyncAPI3", k)
                if n == "info" and r.random() < 0.7:
                    continue
                kw[k if n is None or r.random() < 0.3 else n] = v
        case = {"args": args, "kwargs": kw, "positional": r.random() < 0.3}
        if r.random() < 0.3:
            case["lists"] = {r.choice(["extra_validators", "extra_converters"]): r.choice(LISTS)}
        yield case
