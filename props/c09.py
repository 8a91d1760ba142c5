"""C09: reference resolution."""
import ast

from props.common import *
from spec import history
from spec import resolve as R

LEVEL = "proof"
REPLAY_ONLY = True
TERMINATION = True
TECHNIQUE = ("contracts on resolve_reference: a loop invariant for the walk (current object = the object reached so far; one "
             "arbitrary segment from an arbitrary object of every class), an invariant and a decreasing measure for the chain; "
             "discharged by pyvc and z3 on the real code, failing inputs replayed")
NOTE = ("Proved for every document, every segment string and any number of segments: one step of the walk per class (149 classes, "
        "JSON maps, scalars), the form of references, the end of the walk and the chain step with its measure. Trusts pyvc, z3 "
        "and str.split.")
RULE = "a document and a reference string; non-trivial when the reference is local"
BOUNDED = "none: concrete documents only cross-check the proofs"
TRUSTED = ["str.split('/') yields the segments between the slashes"]
ASSUMPTIONS = ["values of type Any are JSON data", "a document contains finitely many reference strings"]
SHRINK = ("raw",)


class GSet(GhostVal):
    """the set of references followed so far"""
    __slots__ = ()

    def key(self):
        return ("visited",)


class Loop(Exception):
    pass


FN = "resolve_reference"
ADDED = ("g", "added", 0)
WALKED = ("g", "walked", 0)
TAIL = ("g", "tail", 0)
OUT = ("g", "out", 0)
NEXT = "chain step"
STEP = "walk step"


class Walk:
    """one run of resolve_reference under its loop contracts"""

    def __init__(self, mode, cls=None, kind=None, visited=True):
        self.mode, self.cls, self.kind, self.visited = mode, cls, kind, visited

    def hooks(self):
        h = {"while": self.while_, "loop": self.loop, "contains": self.contains, "method": self.method}
        from asyncapi3.validators import utils
        h[utils.resolve_reference] = self.recursion
        return h

    # -- the visited set
    def contains(self, I, x, c):
        x = I.force(x)
        if not isinstance(c, GSet) or not isinstance(x, SymStr):
            raise C.Unsupported("membership")
        old = fm.lit(I.enc.uf("visited", z3.StringSort(), z3.BoolSort())(x.t))
        return fm.disj(old, *[I.eq_f(x, y) for y in I.store[ADDED]])

    def method(self, I, o, name, args, kw):
        if isinstance(o, GSet):
            if name == "add" and len(args) == 1:
                I.store[ADDED] = I.store[ADDED] + (I.force(args[0]),)
                return None
            raise C.Unsupported(f"visited.{name}")
        return NotImplemented

    # -- entry
    def start(self, I, ref):
        e = I.enc
        e.json_data = True
        self.spec = SymObj(z3.Const("doc!", e.Obj), L("AsyncAPI3"))
        self.ref = ref
        self.given = GSet() if self.visited else None
        I.store[ADDED] = ()
        I.store[WALKED] = False
        I.store[OUT] = None

    def run(self, I):
        from asyncapi3.validators import utils
        f = utils.resolve_reference
        kw = {"ref": self.ref, "spec": self.spec}
        if self.visited:
            kw["visited_refs"] = self.given
        return I.call_function(f, [], kw)

    def recursion(self, I, args, kw):
        """a call of resolve_reference from within: by its own contract"""
        import inspect
        from asyncapi3.validators import utils
        b = inspect.signature(utils.resolve_reference).bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        self.next(I, a["ref"], a["visited_refs"], a["spec"])
        self.leave(I, NEXT)

    def next(self, I, ref, visited, spec):
        """the state in which the chain goes on"""
        x = self.element(I)[0]
        if not I.store[WALKED] or self.cls is not L("Reference"):
            return C.mismatch(I, "follows a chain from something that is not a Reference")
        C.must(I, I.same_f(spec, self.spec), "continues in another document")
        C.must(I, I.eq_f(ref, I.obj_attr(x, "ref")), "continues with another reference string")
        self.measure(I, visited)
        C.reached(I, "chain")

    def measure(self, I, visited):
        """the measure: references of the document not followed yet; it decreases
        because this one has not been followed before and is recorded"""
        if isinstance(visited, GSet):
            if not self.visited:
                return C.mismatch(I, "visited set")
            got = list(I.store[ADDED])
        elif isinstance(visited, HRef) and visited.kind == "set":
            if self.visited:
                return C.mismatch(I, "forgets the references followed before")
            got = list(I.content(visited))
        else:
            return C.mismatch(I, "does not pass on the references followed")
        f = fm.disj(*[I.eq_f(self.ref, y) for y in got]) if got else fm.BOT
        C.must(I, f, "the reference followed is not recorded")
        for y in got:
            C.must(I, I.eq_f(self.ref, y), "records a reference that was not followed")
        if self.visited:
            C.must(I, fm.neg(fm.lit(I.enc.uf("visited", z3.StringSort(), z3.BoolSort())(self.ref.t))),
                   "follows a reference twice")

    def while_(self, I, s, fr):
        """chain as a loop: the state at its head is the state of a fresh call"""
        if I.store[WALKED]:
            raise C.Unsupported("while loop")
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        role = {}
        for n in names:
            k = ("v", fr.fid, n)
            v = I.store.get(k)
            if isinstance(v, SymStr) and v.t.eq(self.ref.t):
                role.setdefault("ref", n)
            elif k in I.store and (v is self.given or isinstance(v, HRef) and v.kind == "set"):
                role.setdefault("visited", n)
            else:
                I.store[k] = Poison("variable of an earlier round")
        # variables the loop does not assign keep their (general) entry value
        ids = {n: I.store.get(("v", fr.fid, n)) for n in list(fr.locals) if n not in names}
        if "ref" not in role:
            raise C.Unsupported("no variable holds the reference")
        if not I.cond(s.test, fr):
            raise C.Unsupported("loop condition")
        from pyvc.interp import Brk, Cont
        try:
            I.block(s.body, fr)
        except Cont:
            pass
        except Brk:
            raise C.Unsupported("break")
        if "visited" in role:
            visited = I.store[("v", fr.fid, role["visited"])]
        else:
            visited = next((v for v in ids.values() if isinstance(v, GSet) or isinstance(v, HRef) and v.kind == "set"), None)
        self.next(I, I.store[("v", fr.fid, role["ref"])], visited, self.spec)
        self.leave(I, NEXT)

    def leave(self, I, what):
        I.store[OUT] = what
        raise Write(what)

    # -- the walk
    def element(self, I):
        """an arbitrary object the walk may have reached"""
        e = I.enc
        t = z3.Const("cur!", e.Obj)
        if self.cls is not None:
            return SymObj(t, self.cls), self.cls
        k = self.kind
        if k == "dict":
            return SymDict(t, ["any"]), dict
        if k == "list":
            return SymList(t, ["any"]), list
        if k == "str":
            return SymStr(z3.Const("curs!", z3.StringSort())), str
        if k == "int":
            return SymInt(z3.Int("curi!")), int
        if k == "bool":
            return SymBool(fm.lit(z3.Bool("curb!"))), bool
        if k == "url":
            from pydantic import AnyUrl
            return Opaque("url", 1, z3.Const("curu!", e.Val)), AnyUrl
        return Opaque("float", 1, z3.Const("curf!", e.Val)), float

    def loop(self, I, it, body):
        if I.store[WALKED] or not isinstance(it, SymSplit):
            raise C.Unsupported("loop over split()")
        if self.mode == "form":
            if I.store[TAIL] is not None:
                C.must(I, I.eq_f(SymStr(it.t), I.store[TAIL]), "walks something else than the segments of the reference")
            if it.sep != "/" or it.maxsplit != -1:
                C.mismatch(I, "segments are not separated by slashes")
            self.leave(I, "walk")
        base = dict(I.store)
        # which variables does the body carry?
        p0 = SymStr(I.fresh("p0", z3.StringSort()))

        def probe():
            from pyvc.interp import Cont
            try:
                body(p0)
            except Cont:
                pass
        mod = set()
        for o in I.explore(probe):
            if o.kind == "normal":
                d, gone = I.diff(o, base)
                mod |= set(d)
            elif o.kind == "unsupported":
                raise C.Unsupported(o.value)
        I.store = dict(base)
        if any(k[0] != "v" for k in mod):
            raise C.Unsupported("the walk changes more than variables")
        role = {}
        for k in mod:
            v = base.get(k)
            if isinstance(v, SymObj) and v.key() == self.spec.key():
                role[k] = "object"
            elif v is self.spec.c:
                role[k] = "type"
            elif isinstance(v, (str, SymStr)):
                role[k] = "text"
            else:
                role[k] = "other"
        if "object" not in role.values():
            return C.mismatch(I, "the walk does not start at the document")
        cur, ty = self.element(I)
        for k, r in role.items():
            I.store[k] = {"object": cur, "type": ty}.get(r) if r in ("object", "type") else \
                SymStr(I.fresh("text", z3.StringSort())) if r == "text" else Poison("variable carried through the walk")
        I.store[WALKED] = True
        if self.mode == "end":
            return
        p = SymStr(I.fresh("p", z3.StringSort()))
        rx = I.enc.rx
        slash = rx.word("/")
        seg = rx.and_(rx.not_(rx.EPS), rx.not_(rx.cat(rx.ALL, slash, rx.ALL)))
        I.assume(fm.lit(I.enc.mem(p.t, seg)))
        from pyvc.interp import Cont
        try:
            body(p)
        except Cont:
            pass
        except PyRaise as ex:
            found, want = self.step(I, cur, p)
            if found:
                C.mismatch(I, "rejects a segment that exists", self.witness(p))
            I.store[OUT] = "missing"
            raise
        found, want = self.step(I, cur, p)
        if not found:
            C.mismatch(I, "accepts a missing or null segment", self.witness(p))
        else:
            for k, r in role.items():
                v = I.store[k]
                if r == "object":
                    C.must(I, I.same_value_f(v, want), "walks to another object", self.witness(p))
                elif r == "type":
                    w = I.call(type, [want], {})
                    C.must(I, I.same_f(v, w), "reports another type", self.witness(p))
            C.reached(I, "found")
        self.leave(I, STEP)

    def witness(self, p):
        return lambda I, m: C.Concretiser(I, m).string(p.t)

    def step(self, I, o, p):
        """the contract of one segment"""
        if isinstance(o, SymDict):
            if not I.decide(fm.lit(I.enc.has(o.t, p.t))):
                return False, None
            v = Sym(I.enc.get(o.t, p.t), o.T)
            return (not I.decide(I.same_f(v, None))), v
        if not isinstance(o, SymObj):
            return False, None
        e = TABLE[o.c.__name__]
        if "root" in e:
            root = I.force(I.obj_attr(o, "root"))
            if not I.decide(fm.lit(I.enc.has(root.t, p.t))):
                return False, None
            return True, Sym(I.enc.get(root.t, p.t), root.T)
        for n, f in e["fields"].items():
            g = sh.shape(o.c).fields.get(n)
            if g is None:
                raise C.Unsupported(f"no member {n}")
            for nm in dict.fromkeys((n, f["alias"])):
                if I.decide(I.eq_f(p, nm)):
                    v = I.obj_attr(o, n)
                    isnone = I.same_f(v, None) if isinstance(v, Sym) else fm.lit(v is None)
                    return (not I.decide(isnone)), v
        return False, None


def string(I, name="ref!"):
    return SymStr(z3.Const(name, z3.StringSort()))


def outcome(I, w, after):
    """run and hand the outcome to after(kind, value)"""
    try:
        r = w.run(I)
    except PyRaise as ex:
        return after("raise", ex.exc.c)
    except Write as wr:
        if I.store[OUT] in (STEP, NEXT, "walk"):
            return after(I.store[OUT], None)
        I.ob.fail("undecided", wr.what)
        return None
    return after("return", r)


def obligations(tier):
    def forms(visited):
        name = f"resolve_reference: form of the reference ({'chain' if visited else 'first'})"

        def thunk():
            w = Walk("form", visited=visited)

            def body(I, ob):
                rx = I.enc.rx
                rx.setup()
                kind = I.choose([fm.lit(z3.Int("kind!") == i) for i in range(3)] + [fm.lit(z3.Or(z3.Int("kind!") < 0, z3.Int("kind!") > 2))])
                word = lambda s: rx.cat(rx.word(s), rx.ALL)
                noslash = rx.not_(rx.cat(rx.ALL, rx.word("/"), rx.ALL))
                seg = rx.and_(rx.not_(rx.EPS), noslash)
                tail = None
                if kind == 0:       # '#/' segments
                    x = z3.Const("tail!", z3.StringSort())
                    I.assume(fm.lit(I.enc.mem(x, rx.cat(seg, rx.star(rx.cat(rx.word("/"), seg))))))
                    ref = SymStr(z3.Concat(I.enc.const("#/"), x))
                    tail = SymStr(x)
                else:
                    ref = string(I)
                    ext = rx.alt(word("http://"), word("https://"))
                    if kind == 1:
                        lang = ext
                    elif kind == 2:
                        lang = rx.not_(rx.alt(ext, word("#")))
                    else:
                        lang = rx.alt(rx.word("#"), rx.word("#/"))
                    I.assume(fm.lit(I.enc.mem(ref.t, lang)))
                w.start(I, ref)
                I.store[TAIL] = tail
                seen = fm.lit(I.enc.uf("visited", z3.StringSort(), z3.BoolSort())(ref.t)) if visited else fm.BOT

                def after(k, v):
                    if k == "raise" and not issubclass(v, ValueError):
                        return C.mismatch(I, f"raises {v.__name__}")
                    if I.decide(seen):
                        C.reached(I, "seen")
                        if k != "raise":
                            C.mismatch(I, "a reference already followed is followed again")
                        return
                    if kind == 0:
                        C.reached(I, "local")
                        if k != "walk":
                            C.mismatch(I, f"a local reference: {k}")
                    elif kind == 1:
                        C.reached(I, "external")
                        if k != "return" or v is not None:
                            C.mismatch(I, f"an http(s) reference: {k} {v!r}")
                    else:
                        C.reached(I, "malformed")
                        if k != "raise":
                            C.mismatch(I, f"a malformed reference or empty pointer: {k}")
                outcome(I, w, after)
            return C.prove(name, body, need=("local", "external", "malformed") + (("seen",) if visited else ()),
                           hooks=w.hooks(), budget=60.0)
        return (name, thunk, lambda w: [])
    yield forms(False)
    yield forms(True)

    def setup(I, w):
        rx = I.enc.rx
        rx.setup()
        x = z3.Const("tail!", z3.StringSort())
        seg = rx.and_(rx.not_(rx.EPS), rx.not_(rx.cat(rx.ALL, rx.word("/"), rx.ALL)))
        I.assume(fm.lit(I.enc.mem(x, rx.cat(seg, rx.star(rx.cat(rx.word("/"), seg))))))
        w.start(I, SymStr(z3.Concat(I.enc.const("#/"), x)))
        if w.visited:
            I.assume(fm.neg(fm.lit(I.enc.uf("visited", z3.StringSort(), z3.BoolSort())(w.ref.t))))

    def steps(label, cls=None, kind=None, need=("found", "missing")):
        name = f"walk: one segment from {label}"

        def thunk():
            w = Walk("step", cls and L(cls), kind, visited=False)

            def body(I, ob):
                setup(I, w)
                def after(k, v):
                    if k == "raise":
                        if not issubclass(v, ValueError):
                            C.mismatch(I, f"raises {v.__name__}")
                        C.reached(I, "missing")
                        if I.store[OUT] != "missing":
                            C.mismatch(I, "raises outside the walk")
                    elif k != STEP:
                        C.mismatch(I, f"ends before the walk: {k}")
                outcome(I, w, after)
            return C.prove(name, body, need=need, hooks=w.hooks(), budget=60.0)
        return (name, thunk, lambda p: [{"class": cls, "part": p}] if cls else [])

    def ends(label, cls=None, kind=None, visited=False):
        name = f"end of the walk at {label}" + (" (chain)" if visited else "")

        def thunk():
            w = Walk("end", cls and L(cls), kind, visited=visited)

            def body(I, ob):
                setup(I, w)

                def after(k, v):
                    if cls == "Reference":
                        C.reached(I, "end")
                        if k != NEXT:
                            C.mismatch(I, f"a Reference is not followed: {k}")
                        return
                    if k != "return" or not isinstance(v, tuple) or len(v) < 2:
                        return C.mismatch(I, f"{k} {v!r}")
                    C.reached(I, "end")
                    C.must(I, I.same_value_f(v[0], w.element(I)[0]), "returns another object")
                    if v[1] is not w.element(I)[1]:
                        C.mismatch(I, "returns another type")
                outcome(I, w, after)
            return C.prove(name, body, need=("end",), hooks=w.hooks(), budget=60.0)
        return (name, thunk, lambda p: [])
    for c in classes():
        e = TABLE[c]
        opt = "root" in e or any(True for _ in e["fields"])
        yield steps(c, c, need=("found", "missing") if opt else ("missing",))
        yield ends(c, c)
    yield ends("Reference", "Reference", visited=True)
    for k in ("dict", "list", "str", "int", "bool", "float", "url"):
        yield steps(f"a value of type {k}", None, k, need=("found", "missing") if k == "dict" else ("missing",))
        yield ends(f"a value of type {k}", None, k)


# ----------------------------------------------------------------------- replay
def replay(case):
    from asyncapi3.validators.utils import resolve_reference
    if "part" in case:
        return replay_step(case)
    doc = build(L("AsyncAPI3"), case["raw"])
    if doc is None:
        return SKIP
    for ref in case.get("refs") or [case["ref"]]:
        r = compare(doc, ref)
        if r is not None and r != SKIP:
            return r
    return r


_good = []


def good():
    if not _good:
        _good.append(L("AsyncAPI3").model_validate({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}))
    return _good[0]


def compare(doc, ref):
    from asyncapi3.validators.utils import resolve_reference
    try:
        want = R.resolve(doc, ref)
    except oracle.Undefined:
        want = None
    history.used_before(doc, good(), lambda doc: resolve_reference(ref=ref, spec=doc))
    try:
        r = resolve_reference(ref=ref, spec=doc)
        got = ("external",) if r is None else ("ok", r.resolved_object, r.resolved_type)
    except ValueError as ex:
        got = ("error", str(ex))
    except Exception as ex:
        return f"resolving {ref!r} raises {type(ex).__name__}: {ex}"[:300]
    if want is None:
        return SKIP
    if want[0] != got[0]:
        return f"resolving {ref!r}: {show(got)} instead of {show(want)}"
    if want[0] == "ok":
        if got[1] is not want[1]:
            return f"resolving {ref!r} gives another object: {got[1]!r}"[:400]
        if got[2] is not type(want[1]):
            return f"resolving {ref!r} reports type {got[2].__name__} for a {type(want[1]).__name__}"
    return None


def show(x):
    return {"external": "None", "error": "ValueError", "ok": "an object"}[x[0]] + (f" ({x[1]})"[:120] if x[0] == "error" else "")


def place(c):
    """a raw document in which an object of class c can be reached, and the path to it"""
    return PLACES.get(c)


def _places():
    """class -> (document builder, path), for every class reachable by a reference"""
    out = {}
    g = gen.Gen(1)

    def visit(c, wrap, path, depth):
        if c in out or depth > 9:
            return
        out[c] = (wrap, path)
        e = TABLE[c]
        todo = [("key", e["root"][2], "root")] if "root" in e else \
            [(f["alias"], f["type"], n) for n, f in e["fields"].items() if n not in ("extra_converters", "extra_validators")]
        nxt = []
        for a, T, n in todo:
            for t in (T[1] if T[0] == "union" else [T]):
                if t[0] == "model":
                    nxt.append((t[1], a, T))
        for m, a, T in nxt:
            def w2(x, a=a, c=c, wrap=wrap, root="root" in e):
                return wrap({a: x} if root else {**g.least(c), **fix(c, a), a: x})
            yield m, w2, path + [a], depth + 1

    def fix(c, a):
        if c == "Channel" and a == "parameters":
            return {"address": "a/{b}"}
        return {}
    todo = [("AsyncAPI3", lambda x: {**{"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}, **x}, [], 0)]
    while todo:
        nt = []
        for t in todo:
            nt += list(visit(*t))
        todo = nt
    return out


PLACES = _places()


def replay_step(case):
    c, part = case["class"], case["part"]
    pl = place(c)
    if pl is None or "/" in part or not part:
        return SKIP
    for raw in (probes_full(c), gen.Gen(1).least(c)):
        if "root" in TABLE[c] and rules.KEY.fullmatch(part):
            raw = dict(raw)
            raw[part] = raw.get("k1", gen.Gen(1).least_value(TABLE[c]["root"][2]))
        doc = build(L("AsyncAPI3"), pl[0](raw))
        if doc is None:
            continue
        r = compare(doc, "#/" + "/".join(pl[1] + [part]))
        if r is not None and r != SKIP:
            return r
    return None


def probes_full(c):
    from spec import probes
    return probes.full(c)


def nontrivial(case):
    return "part" in case or "refs" in case or case["ref"].startswith("#")


def base_doc():
    from spec import probes
    return probes.full("AsyncAPI3", 5)


def paths(doc, limit=6):
    """all paths that exist in the raw document"""
    out = []

    def go(x, p):
        out.append(p)
        if isinstance(x, dict) and len(p) < limit:
            for k, v in x.items():
                go(v, p + [k])
    go(doc, [])
    return [p for p in out if p]


def weird(path):
    s = "#/" + "/".join(path)
    yield s
    yield s + "/zzz"
    yield s + "/0"
    yield s[1:]
    yield s[2:]
    yield s.upper()
    yield s + "s"
    yield s[:-1]
    yield s.replace("#/", "#/components/", 1)
    yield " " + s
    yield "x" + s
    yield "http:" + s
    yield "http://" + s
    yield "https://a.b/c" + s
    yield "HTTP://a.b" + s
    yield "ftp://a.b" + s
    yield "/" + s[1:]
    yield "##" + s[1:]


MARKS = ["#", "#b", "?", "?b", " ", "\n", "\t", "%20", "%", "%2F", "~0", "~1", "~", ".", "..", ":", ";b", ",", "é", "\0", "&b", "=", "@1", "*", "[0]",
         "\\", "'", '"', "#/b", "{}", "-", "_", "^", "!", "|", "$", "+", "(b)", "<b>"]


def marked(path):
    """the path with something written next to one of its segments"""
    known = MARKS + [w for w in mined() if len(w) <= 12 and w not in MARKS][:60]
    for i in range(len(path)):
        for m in known if i in (0, len(path) - 1) else MARKS[:6]:
            yield "#/" + "/".join(path[:i] + [path[i] + m] + path[i + 1:])
            yield "#/" + "/".join(path[:i] + [m + path[i]] + path[i + 1:])
        for s in (path[i].lower(), path[i].upper(), path[i].title(), path[i].swapcase(), path[i][:1].swapcase() + path[i][1:], path[i] + path[i]):
            if s != path[i]:
                yield "#/" + "/".join(path[:i] + [s] + path[i + 1:])


def escaped(s):
    """other ways of writing the same text"""
    for i in {0, len(s) - 1}:
        a, c, b = s[:i], s[i:i + 1], s[i + 1:]
        for e in (f"%{ord(c):02x}", f"%{ord(c):02X}", f"%25{ord(c):02x}", f"\\u{ord(c):04x}", f"\\x{ord(c):02x}", f"&#{ord(c)};", f"&#x{ord(c):x};",
                  chr(ord(c) + 0xfee0), c + "\u0301", c + "\u200b"):
            yield a + e + b


def chain(n, last, first="tags"):
    tags = {f"t{i}": {"$ref": f"#/components/tags/t{i + 1}"} for i in range(n)}
    tags[f"t{n}"] = last
    return {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "components": {"tags": tags}}


def escapes(paths):
    """a document with what the paths name"""
    raw = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}
    for p in paths:
        cur = raw
        for k in p[:-1]:
            cur = cur.setdefault(k, {})
        cur[p[-1]] = {"name": "n"}
    return raw


def chain_of(refs, last):
    """a document in which each of the references names an entry that is the next one"""
    raw = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}
    for a, b in zip(refs, refs[1:] + [None]):
        cur = raw
        for p in a.split("/")[1:-1]:
            cur = cur.setdefault(p, {})
        cur[a.split("/")[-1]] = {"$ref": b} if b else last
    return raw


ALIKE = ["t", "T", "t-", "t_", "tt", "-t", "0t", "0", "00", "t0", "T0", "tags", "Tags", "tag", "components", "ref", "root", "a-b", "a_b", "aB", "ab"]


def alike():
    pre = "#/components/tags/"
    for n, a in enumerate(ALIKE):
        for b in ALIKE[n + 1:]:
            yield [pre + a, pre + b]
    for maps in (("tags", "externalDocs", "schemas"), ("serverVariables", "servers"), ("channels", "messages", "operations"),
                 ("messageTraits", "operationTraits", "tags"), ("parameters", "correlationIds", "replies", "replyAddresses")):
        for n in ("a", "tags", "T"):
            yield [f"#/components/{m}/{n}" for m in maps]
    for n in ("a", "servers"):
        yield [f"#/servers/{n}", f"#/components/servers/{n}"]
        yield [f"#/channels/{n}", f"#/components/channels/{n}"]
        yield [f"#/components/operations/{n}", f"#/operations/{n}"]
    yield [pre + a for a in ALIKE]


def fixed_cases(tier):
    for c in classes():
        if place(c) is None:
            continue
        e = TABLE[c]
        if "root" in e:
            for k in gen.KEYS + ["key", "k1", "root", "zzz", "_root", "model_fields", "values"]:
                yield {"class": c, "part": k}
            continue
        for n, f in e["fields"].items():
            for k in {n, f["alias"], n.upper(), f["alias"] + "s", f["alias"][:-1], n + "_", n.rstrip("_"), "_" + n}:
                if k:
                    yield {"class": c, "part": k}
        for k in ("zzz", "x-a", "model_extra", "model_fields", "__dict__", "__class__", "root", "copy", "0", "validate"):
            yield {"class": c, "part": k}
    d = base_doc()
    ps = paths(d)
    for p in ps:
        yield {"raw": d, "refs": list(weird(p))}
    for r in ("#", "#/", "", "/", "a", "http", "http:", "http://", "https://", "https:/a", "httpx://a", "#a", "servers",
              "other.yaml#/a", "./a", "file:///a", "#/\n", "\n#/info", "#/info\n"):
        yield {"raw": d, "ref": r}
    seen = set()
    for p in sorted(ps, key=len):
        # one path per shape: the names down to the last, the kind of what is there
        if tuple(p[:2]) not in seen or len(p) == 3:
            seen.add(tuple(p[:2]))
            rs = list(marked(p))
            for i in range(0, len(rs), 64):
                yield {"raw": d, "refs": rs[i:i + 64]}
    # escapes: a segment is the key as it stands
    name = "tA-1_z"
    for p in (["components", "tags", name], ["components", "schemas", "s", "x-map", name], ["components", "schemas", "s", "x-map", "a b"],
              ["components", "schemas", "s", "x-map", "a~b"], ["components", "schemas", "s", "x-map", "\u00e9"]):
        for i in range(len(p)):
            forms = list(escaped(p[i])) + [p[i].replace(x, y) for x, y in ((" ", "+"), (" ", "%20"), (" ", "_"), ("~", "~0"), ("\u00e9", "e\u0301"),
                                                                         ("-", "_"), ("_", "-"), ("_", ""), ("-", "")) if x in p[i]]
            for f in forms:
                s = "#/" + "/".join(p[:i] + [f] + p[i + 1:])
                yield {"raw": escapes([p]), "ref": s}
                yield {"raw": escapes([p, p[:i] + [f]] if i == 4 else [p]), "refs": ["#/" + "/".join(p), s]}
    tag = {"name": "n"}
    for n in (0, 1, 2, 3, 10, 500, 1500, 3000):
        yield {"raw": chain(n, tag), "ref": "#/components/tags/t0"}
        yield {"raw": chain(n, tag), "ref": "#/components/tags/t0/name"}
    for n in (0, 1, 2, 3, 10):
        for last in ({"$ref": "#/components/tags/t0"}, {"$ref": f"#/components/tags/t{n}"}, {"$ref": "#/components/tags/zz"},
                     {"$ref": "http://a/b"}, {"$ref": "other.yaml#/a"}, {"$ref": "#/info"}, {"$ref": "#/"}, {"$ref": "#"},
                     {"$ref": f"#/components/tags/t{n // 2}"}, {"$ref": f"#/components/tags/t{max(n - 1, 0)}"}, {"$ref": ""},
                     {"$ref": "#/components/tags"}, {"$ref": "#/info/title"}, {"$ref": "#/components/tags/t0/$ref"},
                     {"$ref": "#/components/tags/t0/name"}, {"$ref": "#/info/license"}):
            for first in ("t0", f"t{n}", "t0/$ref", "t0/ref", f"t{n}/name"):
                yield {"raw": chain(n, last), "ref": "#/components/tags/" + first}
    # chains through names that look alike
    for names in alike():
        for last in ({"name": "n"}, {"$ref": names[0]}, {"$ref": "#/info"}, {"$ref": "#/components/tags/zzz"}):
            yield {"raw": chain_of(names, last), "ref": names[0]}
            yield {"raw": chain_of(names[::-1], last), "ref": names[-1]}
    # JSON values below an object
    js = {"schemaFormat": "f", "schema": {"a": None, "b": {"c": [1], "d": {"e": None, "": 1, "root": {"q": 1}}}, "root": {"r": 0},
                                          "0": False, "s": "", "z": 0, "l": [{"a": 1}], "ref": {"$ref": "#/info"}, "$ref": "#/info"}}
    raw = {"asyncapi": "3.0.0", "info": {"title": "", "version": ""},
           "components": {"schemas": {"m": js, "s": {"root": {"type": "x"}, "externalDocs": {"url": "https://a.b/"},
                                                     "deprecated": False, "zzz": {"a": 1}}, "root": {"root": {}}}}}
    for p in paths(raw, 9) + [["components", "schemas", "m", "schema", "l", "0"], ["components", "schemas", "s", "root", "type"],
                              ["components", "schemas", "s", "zzz"], ["components", "schemas", "s", "discriminator"]]:
        for r in weird(p):
            yield {"raw": raw, "ref": r}


def random_cases(seed, tier):
    r = random.Random(seed)
    g = gen.Gen(seed)
    while True:
        raw = g.model("AsyncAPI3", r.choice([3, 4, 5]))
        ps = paths(raw, 8)
        for _ in range(8):
            p = list(r.choice(ps))
            m = r.random()
            if m < 0.2:
                p.append(r.choice(gen.KEYS))
            elif m < 0.35:
                p[r.randrange(len(p))] = r.choice(gen.KEYS)
            elif m < 0.45:
                p.pop(r.randrange(len(p)))
            ref = "#/" + "/".join(p)
            if r.random() < 0.15:
                ref = r.choice(list(weird(p)))
            yield {"raw": raw, "ref": ref}
        names = ["#/components/" + r.choice(["tags", "tags", "servers", "channels"]) + "/" + r.choice(ALIKE + [mined_string(r, True) or "q"])
                 for _ in range(r.choice([2, 3, 5]))]
        names = list(dict.fromkeys(names))
        try:
            raw = chain_of(names, r.choice([{"$ref": r.choice(names)}, {"$ref": "#/info"}, {"$ref": "#/zz"}]))
        except TypeError:
            continue
        yield {"raw": raw, "ref": r.choice(names)}
