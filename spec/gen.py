"""Seeded generator of raw documents from the contract table."""
import copy
import random

from spec import oracle, rules
from spec.oracle import TABLE

KEYS = ["a", "b1", "user-events", "A_B", "0", "-", "_", "root", "servers", "channels", "messages", "tags", "info",
        "components", "externalDocs", "external_docs", "operations", "payload", "schemas", "x-1", "bindings", "reply",
        "model_fields", "items", "keys", "ref", "address"]
BAD_KEYS = ["", " ", "a b", "a.b", "a/b", "é", "a\n", "\na", "$ref", "a$", "{a}", "a:b", "٣", "a~1b", "ａ", " a", "a ",
            "a\x00", "a,b", "*", "a[0]", "a\"b", "a\\b"]
X_GOOD = ["x-a", "x-foo.bar", "x-1", "x-é", "x--", "x-_", "x-a-b_c.d", "x-٣"]
X_BAD = ["y", "x-", "X-a", "x_a", "xa", "x-a b", "x-a\n", " x-a", "x-a/b", "x-$", "-x-a", "foo", "x-a:b", "x-{", "ax-b"]
STRS = ["", "text", "#", "# Title\n\nline", "é€", "{x}", "null", "0", "a/b", "$message.header#/id"]
REFS = ["#/components/schemas/a", "#/servers/a", "https://example.com/x.yaml#/a", "other.yaml#/x", "#", ""]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    # ---------------------------------------------------------------- values
    def value(self, T, depth=3):
        r = self.r
        k = T[0]
        if k == "union":
            alts = [a for a in T[1] if a[0] != "none"]
            if ["none"] in T[1] and r.random() < 0.08:
                return None
            if depth <= 0 and ["model", "Reference"] in alts and r.random() < 0.8:
                return self.reference()
            return self.value(r.choice(alts), depth)
        if k == "any":
            return self.any(depth)
        if k == "none":
            return None
        if k == "enum":
            return r.choice(T[1])
        if k == "bool":
            return r.random() < 0.5
        if k == "int":
            return r.choice([0, 1, 2, -1, 7, 100, 255, 256, 10 ** 6, -(10 ** 9)])
        if k == "float":
            return r.choice([0.0, 1.5, -2.25])
        if k == "str":
            s = r.choice(STRS)
            if "min_length" in T[1] and len(s) < T[1]["min_length"]:
                s = "s" * T[1]["min_length"]
            return s[:T[1].get("max_length", 10 ** 9)]
        if k == "email":
            return r.choice(["a@example.com", "john.doe+x@a-b.co", "A_%@x.y.info"])
        if k == "url":
            return r.choice(oracle.GOOD_URLS + (oracle.OTHER_URLS if not T[1].get("allowed_schemes") else []))
        if k == "list":
            return [self.value(T[1], depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]) if depth > 0 else r.choice([0, 0, 1]))]
        if k == "map":
            n = r.choice([0, 1, 2, 3]) if depth > 0 else 0
            return {r.choice(KEYS + BAD_KEYS[:8]): self.value(T[2], depth - 1) for _ in range(n)}
        if k == "model":
            return self.model(T[1], depth)
        raise ValueError(k)

    def any(self, depth):
        r = self.r
        c = r.randrange(8)
        if c == 0:
            return {k: self.any(depth - 1) for k in r.sample(KEYS, r.randint(0, 2))} if depth > 0 else {}
        if c == 1:
            return [self.any(depth - 1) for _ in range(r.randint(0, 2))] if depth > 0 else []
        return r.choice(["s", 0, 1, -5, 2.5, True, False, "", "x y"])

    def reference(self):
        return {"$ref": self.pick(REFS)}

    def model(self, cname, depth=3, p=None, tries=40):
        """a valid raw object"""
        for _ in range(tries):
            raw = self.rough(cname, depth, p)
            try:
                if oracle.accepts(cname, raw)[0]:
                    return raw
            except oracle.Undefined:
                pass
        return self.least(cname)

    def rough(self, cname, depth=3, p=None):
        r = self.r
        e = TABLE[cname]
        if "root" in e:
            n = r.choice([0, 1, 1, 2, 3]) if depth > 0 else r.choice([0, 0, 1])
            out = {}
            for _ in range(n):
                out[r.choice(KEYS)] = self.value(e["root"][2], depth - 1)
            return out
        if p is None:
            p = r.choice([0.15, 0.4, 0.8, 1.0]) if depth > 0 else 0.12
        out = {}
        names = list(e["fields"])
        for n in names:
            f = e["fields"][n]
            if f["type"][0] == "subclass" or n in ("extra_converters", "extra_validators"):
                continue
            if f["required"] or r.random() < p:
                v = self.value(f["type"], depth - 1)
                if n == "asyncapi":
                    v = r.choice(["3.0.0", "3.1.7", "3.0.0-rc1"])
                if n == "address" and cname == "Channel":
                    v = r.choice([None, "a", "a/{b}", "{c}", "{}", "{{}}", "a}b{c"])
                if n == "location" and cname == "CorrelationID":
                    v = r.choice(["$message.header#/a", "$message.payload#/b/c", "$message."])
                out[f["alias"]] = v
        self.shape_rules(cname, out)
        if e["extra"] == "x" and r.random() < 0.25:
            out[r.choice(X_GOOD)] = self.any(2)
        if e["extra"] == "any" and r.random() < 0.4:
            for k in r.sample(["type", "extra", "properties", "y z", "$id", "format"], 2):
                out[k] = self.any(2)
        if r.random() < 0.3:
            ks = list(out)
            r.shuffle(ks)
            out = {k: out[k] for k in ks}
        return out

    def shape_rules(self, c, out):
        """steer towards the rule's accepting side"""
        r = self.r
        if r.random() < 0.1:
            return
        if c == "SecurityScheme":
            t = out["type"]
            if t == "apiKey":
                out["in"] = r.choice(["user", "password"])
            if t == "httpApiKey":
                out["in"] = r.choice(["query", "header", "cookie"])
                out.setdefault("name", "n")
            if t == "http":
                out.setdefault("scheme", "basic")
                if "bearerFormat" in out:
                    out["scheme"] = "bearer"
            else:
                out.pop("bearerFormat", None)
            if t == "oauth2" and out.get("flows") is None:
                out["flows"] = {}
            if t == "openIdConnect" and out.get("openIdConnectUrl") is None:
                out["openIdConnectUrl"] = oracle.GOOD_URLS[0]
            if t not in ("oauth2", "openIdConnect"):
                out.pop("scopes", None)
        elif c in ("AMQPChannelBindings", "SolaceDestination"):
            tag, other = ("is", "exchange") if c[0] == "A" else ("destinationType", "topic")
            want = "queue" if out[tag] == "queue" else other
            out.pop("queue", None)
            out.pop(other, None)
            cls = {"AMQPChannelBindings": {"queue": "AMQPQueue", "exchange": "AMQPExchange"},
                   "SolaceDestination": {"queue": "SolaceQueue", "topic": "SolaceTopic"}}[c][want]
            out[want] = self.model(cls, 1)
        elif c == "OAuthFlows":
            for k in ("implicit", "password", "clientCredentials", "authorizationCode"):
                if isinstance(out.get(k), dict):
                    out[k].setdefault("authorizationUrl", oracle.GOOD_URLS[0])
                    out[k].setdefault("tokenUrl", oracle.GOOD_URLS[0])
        elif c == "Channel":
            if out.get("parameters") is not None and not (isinstance(out.get("address"), str) and
                                                          rules.ADDRESS_EXPRESSION.search(out["address"])):
                out["address"] = "a/{b}"
        elif c == "MessageExample":
            if out.get("headers") is None and out.get("payload") is None:
                out["payload"] = self.any(1)
        elif c in ("IBMMQChannelBindings",):
            if out.get("queue") is not None and out.get("topic") is not None:
                out.pop(r.choice(["queue", "topic"]))
            if out.get("destinationType") == "queue" and out.get("queue") is None:
                out["destinationType"] = "topic"
        elif c == "IBMMQMessageBindings":
            if out.get("headers") is not None:
                out["type"] = "binary"
        elif c == "KafkaServerBindings":
            if out.get("schemaRegistryVendor") is not None:
                out["schemaRegistryUrl"] = "u"
        for k in ("expiration", "heartBeatInterval", "maxMsgLength", "expiry", "partitions", "replicas", "priority"):
            if isinstance(out.get(k), int) and c in rules.RULES:
                out[k] = r.choice([1, 2, 200, 255])

    def least(self, cname):
        from_ = {"SecurityScheme": {"type": "plain"}, "Info": {"title": "t", "version": "1"},
                 "MessageExample": {"payload": 1}, "CorrelationID": {"location": "$message.header#/a"},
                 "AMQPChannelBindings": {"is": "queue", "queue": {"name": "q"}},
                 "SolaceDestination": {"destinationType": "queue", "queue": {}},
                 "AsyncAPI3": {"info": {"title": "t", "version": "1"}}}
        if cname in from_:
            return copy.deepcopy(from_[cname])
        e = TABLE[cname]
        if "root" in e:
            return {}
        out = {}
        for n, f in e["fields"].items():
            if f["required"]:
                out[f["alias"]] = self.least_value(f["type"])
        return out

    def least_value(self, T):
        k = T[0]
        if k == "union":
            if ["none"] in T[1]:
                return None
            return self.least_value(T[1][0])
        if k == "model":
            return self.least(T[1])
        return {"str": "s", "any": "s", "int": 1, "float": 1.0, "bool": True, "url": oracle.GOOD_URLS[0],
                "email": "a@example.com", "list": [], "map": {}, "none": None}.get(k) if k != "enum" else T[1][0]

    # ------------------------------------------------------------ perturbation
    def wrong(self, T):
        """a value that is not of type T (usually)"""
        r = self.r
        k = T[0]
        pool = {"str": [5, [], {}, None], "enum": ["nope", "", None, [], "QUEUE"], "bool": ["maybe", [], {}, None],
                "int": ["abc", [], {}, None], "float": ["abc", [], None], "list": ["x", 5, {}, None],
                "map": [[], "x", 5, None], "model": [5, "x", [], None, {"$ref": "#/a"}, {}, {"$ref": 5},
                                                   {"$ref": "#/a", "x-b": 1}, {"$ref": None}, {"ref": "#/a"}],
                "url": oracle.BAD_URLS + [5, None] + oracle.OTHER_URLS,
                "email": ["a@b", "a..b@c.de", "@c.de", "a@c.de\n", 5, "a@c.d", "é@c.de", "a@b@c.de"],
                "any": [None], "none": [5]}
        if k == "union":
            return r.choice([self.wrong(r.choice(T[1])), [], {}, 5, "x", {"$ref": "#/a"}, {"zzz": 1}])
        return r.choice(pool.get(k, [None]))

    def near(self, T):
        """boundary values of type T"""
        r = self.r
        for a in (T[1] if T[0] == "union" else [T]):
            if a[0] == "int":
                return r.choice([0, -1, 1, 255, 256, 999999, 1000000, 104857600, 104857601, 2, 3])
            if a[0] == "str":
                m = a[1].get("max_length")
                return r.choice(["s" * m, "s" * (m + 1), "é" * m]) if m else r.choice(STRS)
            if a[0] == "email":
                return r.choice(["a@b.cc", "a.@b.cc", ".a@b.cc", "a@-.cc", "a@b.c1", "a@b..cc", "a%@b.cc", "a@b.cc\n",
                                 "a b@c.de", "a@c.éé", ""])
        return self.wrong(T)

    def objects(self, cname, raw, out, path=()):
        """all (class, raw object, path) inside a valid raw object"""
        out.append((cname, raw, path))
        e = TABLE[cname]
        if "root" in e:
            for k, v in raw.items():
                self._vals(e["root"][2], v, out, path + (k,))
            return out
        try:
            got, _ = oracle.split_members(cname, raw, ())
        except oracle.Undefined:
            return out
        for n, v in got.items():
            self._vals(e["fields"][n]["type"], v, out, path + (e["fields"][n]["alias"],))
        return out

    def _vals(self, T, v, out, path):
        k = T[0]
        if k == "union":
            for a in T[1]:
                try:
                    oracle.parse(a, v)
                except (oracle.Reject, oracle.Undefined):
                    continue
                self._vals(a, v, out, path)
                return
        elif k == "model" and isinstance(v, dict):
            self.objects(T[1], v, out, path)
        elif k == "list" and isinstance(v, list):
            for i, x in enumerate(v):
                self._vals(T[1], x, out, path + (i,))
        elif k == "map" and isinstance(v, dict):
            for kk, x in v.items():
                self._vals(T[2], x, out, path + (kk,))

    def perturb(self, cname, raw, n=1):
        """change raw in place in n random spots"""
        r = self.r
        for _ in range(n):
            objs = self.objects(cname, raw, [])
            c, o, _ = r.choice(objs)
            self.perturb_object(c, o)
        return raw

    def perturb_object(self, c, o):
        r = self.r
        e = TABLE[c]
        if "root" in e:
            k = r.randrange(3)
            if k == 0:
                o[r.choice(BAD_KEYS)] = self.value(e["root"][2], 1)
            elif k == 1:
                o[r.choice(KEYS)] = self.value(e["root"][2], 1)
            elif o:
                o[r.choice(list(o))] = self.wrong(e["root"][2])
            return
        k = r.randrange(7)
        fs = [f for n, f in e["fields"].items() if n not in ("extra_converters", "extra_validators")]
        if not fs:
            k = 2
        f = r.choice(fs) if fs else None
        if k == 0:
            o.pop(f["alias"], None)
        elif k == 1:
            o[f["alias"]] = self.wrong(f["type"])
        elif k == 2:
            o[r.choice(X_BAD + X_GOOD)] = r.choice([None, 1, "s", {}])
        elif k == 3:
            o[f["alias"]] = self.value(f["type"], 1)
        elif k == 4:
            o[f["alias"]] = self.near(f["type"])
        elif k == 5:
            o[f["alias"]] = None
        else:
            name = next(n for n, g in e["fields"].items() if g is f)
            if name != f["alias"] and f["alias"] in o and name not in o:
                o[name] = o.pop(f["alias"])         # member given under its Python name
            else:
                o[f["alias"]] = self.near(f["type"])
