"""The declared shape of every model class, read from the core schema pydantic
validates with (not from the source text), in a small normal form.

Type normal form (JSON-able lists):
  ["none"] ["bool"] ["int", constraints] ["float", constraints] ["str", constraints]
  ["any"] ["url", constraints] ["email"] ["enum", values] ["list", T, constraints]
  ["map", Tkey, T] ["model", name] ["union", [T...]] ["subclass", name] ["other", text]
Validator functions found in a field schema are reported separately, in the
order in which pydantic-core runs them.
"""
import importlib
import pkgutil
import sys

_loaded = None


def setup_path():
    for p in ("/opt/venv/lib/python3.12/site-packages", REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


import os
REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    """Import the whole package; return {class name: class} of its model classes."""
    global _loaded
    if _loaded is None:
        import warnings
        warnings.simplefilter("ignore")
        import logging
        setup_path()
        import asyncapi3
        for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."):
            importlib.import_module(m.name)
        logging.disable(logging.CRITICAL)
        from pydantic import BaseModel

        def subs(c):
            for s in c.__subclasses__():
                yield s
                yield from subs(s)
        _loaded = {}
        for c in subs(BaseModel):
            if c.__module__.startswith("asyncapi3") and "[" not in c.__name__:
                _loaded.setdefault(c.__name__, c)
    return _loaded


def below(step, funcs):
    return [(m, f, (step,) + w) for m, f, w in funcs]


class ClassShape:
    """Everything the generated validator of one model class does."""

    def __init__(self, cls):
        self.cls = cls
        self.name = cls.__name__
        sch = cls.__pydantic_core_schema__
        self.defs = {}
        self.emails = []                # the functions behind ["email"] types
        sch = self._unwrap(sch)
        self.model_validators = []      # (mode, function), order of execution for 'after'
        wrappers = []
        while sch["type"].startswith("function-"):
            wrappers.append((sch["type"][9:], sch["function"]["function"]))
            sch = self._unwrap(sch["schema"])
        self.wrappers = wrappers        # outermost first
        self.after = [f for mode, f in reversed(wrappers) if mode == "after"]
        self.nonafter = [(m, f) for m, f in wrappers if m != "after"]
        assert sch["type"] == "model", sch["type"]
        self.model = sch
        self.config = sch.get("config", {})
        self.custom_init = bool(sch.get("custom_init"))
        self.root_model = bool(sch.get("root_model"))
        inner = self._unwrap(sch["schema"])
        self.inner_wrappers = []
        while inner["type"].startswith("function-"):
            self.inner_wrappers.append((inner["type"][9:], inner["function"]["function"]))
            inner = self._unwrap(inner["schema"])
        self.fields = {}
        self.root = None
        if self.root_model:
            self.root = self.type(inner)[0]
            self.rootschema = inner
        else:
            assert inner["type"] == "model-fields", inner["type"]
            for n, f in inner["fields"].items():
                self.fields[n] = self._field(n, f)

    def _unwrap(self, s):
        while True:
            if s["type"] == "definitions":
                for d in s["definitions"]:
                    self.defs[d["ref"]] = d
                s = s["schema"]
            elif s["type"] == "definition-ref":
                s = self.defs[s["schema_ref"]]
            else:
                return s

    def _field(self, name, f):
        s = f["schema"]
        d = {"name": name, "alias": f.get("validation_alias", name),
             "ser_alias": f.get("serialization_alias", f.get("validation_alias", name)),
             "exclude": bool(f.get("serialization_exclude")),
             "exclude_if": f.get("serialization_exclude_if"),
             "frozen": bool(f.get("frozen")), "required": True, "default": None,
             "validate_default": False, "schema": s}
        pre = []
        s = self._unwrap(s)
        while s["type"].startswith("function-") and self._unwrap(s["schema"])["type"] != "url" \
                and self._contains_default(s):
            pre.append((s["type"][9:], s["function"]["function"]))
            s = self._unwrap(s["schema"])
        d["outer_validators"] = pre      # these also see the default's absence
        if s["type"] == "default":
            d["required"] = False
            d["default"] = s["default"] if "default" in s else ("factory", s["default_factory"])
            d["validate_default"] = bool(s.get("validate_default"))
            s = s["schema"]
        T, funcs = self.type(s)
        d["type"] = T
        d["validators"] = funcs + [(m, f, ()) for m, f in reversed(pre)]
        return d

    def _contains_default(self, s):
        s = self._unwrap(s)
        while s["type"].startswith("function-"):
            s = self._unwrap(s["schema"])
        return s["type"] == "default"

    def type(self, s):
        """-> (normal form, [(mode, function, where)...] in execution order); where: the parts of
        the value the function is applied to, a path of "nonnull", "items", "keys", "values" and
        ("choice", T) steps"""
        s = self._unwrap(s)
        t = s["type"]
        if t == "any":
            return ["any"], []
        if t in ("none", "bool"):
            return [t], []
        if t in ("int", "float"):
            c = {k: s[k] for k in ("ge", "gt", "le", "lt", "multiple_of", "strict") if s.get(k) is not None}
            return [t, c], []
        if t == "str":
            c = {k: s[k] for k in ("max_length", "min_length", "pattern", "strict", "strip_whitespace",
                                   "to_lower", "to_upper") if s.get(k)}
            if s.get("max_length") == 0:
                c["max_length"] = 0
            return ["str", c], []
        if t == "url":
            c = {k: (list(s[k]) if k == "allowed_schemes" else s[k])
                 for k in ("max_length", "allowed_schemes", "host_required", "default_host") if s.get(k)}
            return ["url", c], []
        if t == "literal":
            return ["enum", sorted(s["expected"], key=repr)], []
        if t == "nullable":
            T, f = self.type(s["schema"])
            f = below("nonnull", f)
            if T[0] == "union":
                return ["union", T[1] + [["none"]]], f
            return ["union", [T, ["none"]]], f
        if t == "union":
            out, fs = [], []
            each = [self.type(c[0] if isinstance(c, tuple) else c) for c in s["choices"]]
            for i, (T, f) in enumerate(each):
                fs += below(("choice", T, [t for j, (t, _) in enumerate(each) if j != i]), f)
                for x in (T[1] if T[0] == "union" else [T]):
                    if x not in out:
                        out.append(x)
            return (["union", out] if len(out) > 1 else out[0]), fs
        if t == "list":
            T, f = self.type(s["items_schema"]) if "items_schema" in s else (["any"], [])
            c = {k: s[k] for k in ("min_length", "max_length") if s.get(k) is not None}
            return ["list", T, c], below("items", f)
        if t == "dict":
            K, f1 = self.type(s["keys_schema"]) if "keys_schema" in s else (["any"], [])
            V, f2 = self.type(s["values_schema"]) if "values_schema" in s else (["any"], [])
            return ["map", K, V], below("keys", f1) + below("values", f2)
        if t == "model":
            return ["model", s["cls"].__name__], []
        if t == "is-subclass":
            return ["subclass", s["cls"].__name__], []
        if t == "lax-or-strict":
            return self.type(s["lax_schema"])
        if t.startswith("function-"):
            fn = s["function"]["function"]
            inner = s["schema"] if "schema" in s else {"type": "any"}
            ii = self._unwrap(inner)
            # a model class reached through its after-validators
            m = ii
            while m["type"].startswith("function-") and "schema" in m:
                m = self._unwrap(m["schema"])
            if m["type"] == "model":
                return ["model", m["cls"].__name__], []
            if t == "function-wrap" and ii["type"] == "url" and getattr(fn, "__module__", "") == "pydantic.networks":
                return self.type(ii)
            if t == "function-after" and "EmailStr" in getattr(fn, "__qualname__", ""):
                self.emails.append(fn)
                return ["email"], []
            T, f = self.type(inner)
            return T, f + [(t[9:], fn, ())]
        if t == "default":
            return self.type(s["schema"])
        return ["other", t], []


_shapes = {}


def shape(cls):
    if cls not in _shapes:
        _shapes[cls] = ClassShape(cls)
    return _shapes[cls]


ABSTRACT = ("ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel", "_AtomicAssignmentMixin")


def concrete_classes():
    return {n: c for n, c in load().items() if n not in ABSTRACT and not n.startswith("_")}


def table():
    """JSON-able table of every class's declared shape."""
    out = {}
    for n, c in sorted(concrete_classes().items()):
        s = shape(c)
        e = {"extra": s.config.get("extra_fields_behavior", "ignore")}
        if s.root_model:
            e["root"] = s.root
        else:
            e["fields"] = {}
            for fn, f in s.fields.items():
                d = f["default"]
                e["fields"][fn] = {"alias": f["alias"], "ser": f["ser_alias"], "required": f["required"],
                                   "type": f["type"]}
                if not f["required"]:
                    if isinstance(d, tuple) and d and d[0] == "factory":
                        d = d[1]()
                    e["fields"][fn]["default"] = d
                e["fields"][fn]["omit"] = ("always" if f["exclude"] else
                                           "null" if f["exclude_if"] is not None else "never")
        out[n] = e
    return out
