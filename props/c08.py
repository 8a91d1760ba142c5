"""C08: the declared shape of every object."""
from props.common import *
from pyvc import subtype
from spec import probes

LEVEL = "proof"
REPLAY_ONLY = True
TECHNIQUE = ("one contract per member: the type pydantic-core enforces is proved equivalent (z3 for the constraints) to the "
             "contract table, and every class's validators are proved to reject nothing beyond the rules; a mismatch is "
             "reported only with an input on which the real code and the contract differ")
NOTE = ("For all classes and members: the executed core schema is equivalent to the contract table (spec/shape.json), and the "
        "model validators add exactly the rules. Trusts pydantic-core's execution of its schema and the reading of the schema "
        "by pyvc/shape.py, both cross-checked on about 100k concrete objects.")
RULE = "a raw object and a class; non-trivial when the object has at least one member"
BOUNDED = "lax coercions of scalars (string to number etc.) are outside the contract; concrete objects cross-check the rest"
TRUSTED = ["pydantic-core: url, literal, list, dict, nullable and union schemas accept what their documentation says"]


def attr_defaults(f):
    return f["default"]


def field_obligation(c, n, want):
    """the member as the code declares it against the table"""
    def thunk():
        bad = []
        if c not in sh.load():
            return static_obligation(f"{c}.{n}: declared as specified", False, "no such class")
        f = sh.shape(L(c)).fields.get(n)
        if f is None:
            return static_obligation(f"{c}.{n}: declared as specified", False, "no such member")
        if f["alias"] != want["alias"] or f["ser_alias"] != want["ser"]:
            bad.append(f"named {f['alias']}/{f['ser_alias']}")
        if f["required"] != want["required"]:
            bad.append("required" if f["required"] else "optional")
        if not f["required"]:
            d = f["default"]
            if isinstance(d, tuple) and d and d[0] == "factory":
                d = d[1]()
            if not oracle.same(d, want.get("default")):
                bad.append(f"default {d!r}")
        if f["frozen"]:
            bad.append("frozen")
        if f["outer_validators"]:
            bad.append("validators around the default")
        if not probes.processor(want):
            r = subtype.equivalent(f["type"], want["type"])
            if r:
                bad.append(r)
        else:
            if f["type"] != want["type"]:
                bad.append("processor list")
        ob = static_obligation(f"{c}.{n}: declared as specified", not bad, "; ".join(bad), witnesses=[{}])
        ob.queries = 1
        return ob
    return thunk


def limits(I, o):
    """the members satisfy the table's limits (a member that does not is rejected by its field obligation)"""
    for n, f in TABLE[o.c.__name__]["fields"].items():
        g = sh.shape(o.c).fields.get(n)
        if g is not None and not rules.RULES.get(o.c.__name__):
            for guard, c in C.schema_conds(I.enc, I.enc.attr(o.c, n, g["type"])(o.t), f["type"]):
                I.assume(fm.disj(fm.neg(guard), c))


def foreign(c, n, f):
    """the member under names the table does not have for it"""
    known = {x for m, g in TABLE[c]["fields"].items() for x in (m, g["alias"])}
    base = {k: v for k, v in gen.Gen(1).least(c).items() if k != f["alias"]}
    for k in names_read(c):
        if k not in known:
            yield {"class": c, "raw": {**base, k: probes.rich(f["type"], 1)}}
            yield {"class": c, "raw": {**base, f["alias"]: probes.rich(f["type"], 1), k: probes.rich(f["type"], 1)}}


def obligations(tier):
    def all_classes():
        have = set(sh.concrete_classes())
        bad = sorted(set(TABLE) ^ have)
        return static_obligation("the classes of the document model", not bad, f"{bad}")
    yield ("the classes of the document model", all_classes)
    for c in classes():
        e = TABLE[c]
        if "root" in e:
            def root(c=c, e=e):
                s = sh.shape(L(c))
                r = subtype.equivalent(s.root, e["root"]) if s.root_model else "not a map"
                return static_obligation(f"{c}: declared as specified", not r, str(r))
            yield (f"{c}: declared as specified", root)
            yield class_obligation(c, rules.patterned, "no rule besides the keys", budget=40.0)
            continue

        def names(c=c, e=e):
            s = sh.shape(L(c))
            bad = sorted(set(s.fields) ^ set(e["fields"]))
            cfg = [k for k in ("validate_by_name", "validate_by_alias", "serialize_by_alias") if s.config.get(k) is not True]
            odd = {k: v for k, v in s.config.items() if k in ("str_max_length", "str_min_length", "strict", "frozen",
                                                              "str_to_lower", "str_to_upper", "str_strip_whitespace")
                   and v not in (None, False)}
            ok = not bad and not cfg and not odd and not s.nonafter and not s.inner_wrappers and not s.custom_init
            return static_obligation(f"{c}: exactly the specified members", ok, f"{bad} {cfg} {odd} {s.nonafter}")
        yield (f"{c}: exactly the specified members", names)
        for n, f in e["fields"].items():
            yield (f"{c}.{n}: declared as specified", field_obligation(c, n, f), lambda w, c=c, n=n, f=f: foreign(c, n, f))
        if e["extra"] == "forbid":
            r = rules.RULES.get(c)
            yield class_obligation(c, [r] if r else [], "validators reject nothing beyond its rule",
                                   need=("accept", "reject") if r else ("accept",), budget=40.0, pre=limits)


# ----------------------------------------------------------------------- replay
def replay(case):
    c, raw = case["class"], case.get("raw")
    if c not in sh.load():
        return f"there is no class {c}"
    if "instance" in case:
        return replay_instance(c, case["instance"], case["of"], case["way"])
    r = differential(c, raw)
    if r is not None:
        return r
    try:
        v = oracle.parse_model(c, raw)
    except oracle.Reject:
        return None
    if verdict(L(c), raw, True) is not True and all(isinstance(k, str) for k in raw) and "root" not in TABLE[c]:
        return f"{c}(**data) rejects data that {c}.model_validate accepts: {raw!r}"
    o = build(L(c), raw)
    return compare(c, v, o, raw)


def leaves(T, way=()):
    """(class, way) of the models a value of type T can hold; way: 'list' or 'map' steps to it"""
    for a in probes.alts(T):
        if a[0] == "model":
            yield a[1], way
        elif a[0] == "list" and not way:
            yield from leaves(a[1], ("list",))
        elif a[0] == "map" and not way:
            yield from leaves(a[2], ("map",))


def replay_instance(c, n, cname, way):
    """an instance of an admitted class is admitted, and stays of its class"""
    f = TABLE[c]["fields"][n] if n else {"type": TABLE[c]["root"], "alias": None}
    inner = gen.Gen(1).least(cname)
    wrap = lambda x: [x] if way == ["list"] else {"key": x} if way == ["map"] else x
    base = gen.Gen(1).least(c) if n else {}
    by = (lambda x: {**base, f["alias"]: x}) if n else (lambda x: x)
    try:
        if not oracle.accepts(c, by(wrap(inner)))[0]:
            return SKIP
    except oracle.Undefined:
        return SKIP
    x = build(L(cname), inner)
    if x is None:
        return SKIP
    r = verdict(L(c), by(wrap(x)))
    if r is not True:
        return f"{c} rejects an instance of {cname} at {n or 'an entry'}"
    o = build(L(c), by(wrap(x)))
    got = getattr(o, n or "root")
    got = got[0] if way == ["list"] else got["key"] if way == ["map"] else got
    if type(got) is not L(cname):
        return f"{c}.{n or 'root'}: an instance of {cname} becomes a {type(got).__name__}"
    return None


def compare(c, v, o, raw):
    """the members of the accepted object, by Python name, with their defaults"""
    e = TABLE[c]
    if "root" in e:
        if list(o.root) != list(v.root):
            return f"{c} keeps entries {list(o.root)} of {list(v.root)}"
        return None
    try:
        got, _ = oracle.split_members(c, raw, ())
    except oracle.Undefined:
        return SKIP
    for n, f in e["fields"].items():
        if not hasattr(o, n):
            return f"{c} has no attribute {n}"
        x, y = getattr(o, n), getattr(v, n)
        if n not in got:
            if not oracle.same(x, y):
                return f"{c}.{n} defaults to {x!r} instead of {y!r}"
        elif y is None or isinstance(y, (str, bool, int, float)):
            if not (type(x) is type(y) or isinstance(y, (str, float))) or not same_scalar(x, y):
                return f"{c}.{n} is {x!r} for {got[n]!r}"
        elif wanted_class(f["type"], got[n]) not in (None, type(x).__name__):
            return f"{c}.{n} is a {type(x).__name__} for {got[n]!r}, not a {wanted_class(f['type'], got[n])}"
        elif isinstance(y, (list, dict)) and len(probes.alts(f["type"])) <= 2 and type(x) is not type(y):
            return f"{c}.{n} is {x!r} for {got[n]!r}"
    return None


def wanted_class(T, raw):
    """the only class among the alternatives that declares every member the data has"""
    if not isinstance(raw, dict) or not raw or any(v is None for v in raw.values()):
        return None
    alts = [a for a in probes.alts(T) if a[0] == "model"]
    fit = [a[1] for a in alts if "fields" in TABLE[a[1]]
           and set(raw) <= {f["alias"] for f in TABLE[a[1]]["fields"].values()}]
    if len(alts) < 2 or len(fit) != 1 or any(a[0] in ("any", "map") for a in probes.alts(T)):
        return None
    try:
        oracle.parse(["model", fit[0]], raw)
    except (oracle.Reject, oracle.Undefined):
        return None
    return fit[0]


def same_scalar(x, y):
    if isinstance(y, str) and not isinstance(x, str):
        return str(x).rstrip("/") == y.rstrip("/")          # URL objects
    return x == y


def nontrivial(case):
    return bool(case.get("raw") or case.get("instance"))


def fixed_cases(tier):
    for c in classes():
        e = TABLE[c]
        yield {"class": c, "raw": gen.Gen(1).least(c)}
        yield {"class": c, "raw": probes.full(c)}
        yield {"class": c, "raw": probes.full(c, 4)}
        yield {"class": c, "raw": {}}
        for raw in probes.large_cases(c):
            yield {"class": c, "raw": raw}
        for raw in probes.texts(c, mined()[:40]):
            yield {"class": c, "raw": raw}
        if "root" in e:
            T = e["root"][2]
            for m, way in leaves(e["root"]):
                yield {"class": c, "instance": None, "of": m, "way": list(way)}
            for v in list(probes.good(T)) + list(probes.near(T)):
                yield {"class": c, "raw": {"key": v}}
            continue
        for n, f in e["fields"].items():
            if not probes.processor(f):
                for m, way in leaves(f["type"]):
                    yield {"class": c, "instance": n, "of": m, "way": list(way)}
        f_ = probes.full(c)
        by = {f["alias"]: n for n, f in e["fields"].items()}
        yield {"class": c, "raw": {by.get(k, k): v for k, v in f_.items()}}
        for n, f in e["fields"].items():
            if probes.processor(f):
                continue
            for raw in probes.field_cases(c, f, n):
                yield {"class": c, "raw": raw}
                if n != f["alias"] and f["alias"] in raw and len(raw) < 4:
                    yield {"class": c, "raw": {(n if k == f["alias"] else k): v for k, v in raw.items()}}
            for k in {n.rstrip("_"), n.upper(), f["alias"].lower(), f["alias"].upper(), f["alias"] + "_", n + "_",
                      n.replace("_", "-"), f["alias"] + "s", f["alias"].rstrip("s")}:
                if k not in by and k not in e["fields"]:
                    yield {"class": c, "raw": {**gen.Gen(1).least(c), k: probes.rich(f["type"], 1)}}


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    cs = list(classes())
    while True:
        c = r.choice(cs)
        raw = g.model(c, r.choice([1, 2, 3]))
        if r.random() < 0.6:
            g.perturb(c, raw, r.choice([1, 1, 2]))
        yield {"class": c, "raw": raw}
