"""Generators: Hypothesis strategies for documents and values, built from table.txt by construction."""
from __future__ import annotations
import re
import string

from hypothesis import strategies as st
from pydantic_core import Url

from .table import OBJS, PMAPS, ROOT, T, variants
from . import oracle, words

# ---------------------------------------------------------------- atoms
UNI = st.characters(exclude_categories=["Cs"])
NASTY_TEXT = ["", " ", "0", "1", "null", "~", "true", "false", "no", "1.0", "1e3", "-", "2020-01-01", "0x10", "#",
              "#/components/schemas/a", "$ref", "{}", "[]", "a: b", "- a", "a\nb", "\n", "trailing\n", "\ttab", "\r\n",
              "é", "ß", "日本語", "\U0001f600", "e\u0301", "\u200b", "\x00", "\x85", "\u2028", "\ufeff", "'", '"', "\\",
              "%20", "x-ext", "None", "application/json", "a" * 300, "é" * 1100, "long text. " * 520, "y" * 33000]
TEXT = st.one_of(st.sampled_from(NASTY_TEXT), st.text(string.ascii_letters + string.digits + " _-./{}", max_size=12),
                 st.text(UNI, max_size=8))


def also(strategy, *more):
    """The strategy, and others that exist only when the library has new constants."""
    more = [m for m in more if m is not None]
    return st.one_of(strategy, *more) if more else strategy


def twin(v, typed=True):
    """A value Python calls equal that is not the same document: other order of keys and, unless its place is typed, true for 1, 1.0 for 1 and so on."""
    if isinstance(v, dict):
        return {k: twin(v[k], typed) for k in reversed(list(v))}
    if isinstance(v, list):
        return [twin(x, typed) for x in v]
    if typed or not isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else float(v) if abs(v) < 2**53 else v
    return int(v) if v.is_integer() and abs(v) < 2**53 else v


def pick(xs):
    return st.sampled_from(xs) if xs else None


def normal(urls):
    """Those of the URLs that are in normal form."""
    out = []
    for u in urls:
        try:
            if str(Url(u)) == u:
                out.append(u)
        except ValueError:
            pass
    return out


if words.TEXTS:
    _some = st.sampled_from(words.TEXTS + words.NAMES)
    _near = st.one_of(st.tuples(_some, st.text(UNI, max_size=4)).map("".join), st.tuples(st.text(UNI, max_size=4), _some).map("".join), st.tuples(_some, st.sampled_from([".", "/", ":", "-", " ", "://"]), _some).map("".join),
                      _some.map(str.upper), _some.map(str.lower))
    TEXT = st.one_of(TEXT, _some, _near)
if words.sizes(100000):
    TEXT = also(TEXT, st.tuples(st.sampled_from(["a", "ab ", "é", "0"]), st.sampled_from(words.sizes(100000))).map(lambda t: (t[0] * t[1])[:t[1]]))
WORD = st.text(string.ascii_letters, min_size=1, max_size=8)
NASTY_KEYS = ["0", "1", "-", "_", "--", "123", "tags", "channel", "channels", "root", "messages", "schemas",
              "components", "servers", "operations", "reply", "replies", "traits", "bindings", "external_docs",
              "externalDocs", "security", "headers", "payload", "parameters", "items", "keys", "values", "get", "copy",
              "class", "self", "model_fields", "model_config", "__init__", "null", "true", "x-foo", "X", "x", "a-b_c",
              "K" * 120, "k-" * 65, "a" * 256, "Z_" * 700, "spec", "address", "variables", "correlation_id", "correlationId", "schema", "info", "key"]
KEY = st.one_of(st.sampled_from(NASTY_KEYS), st.text(string.ascii_letters + string.digits + "_-", min_size=1, max_size=10))
if words.NAMES:
    _name = st.sampled_from(words.NAMES)
    _tail = st.text(string.ascii_letters + string.digits + "_-", max_size=4)
    KEY = st.one_of(KEY, _name, st.tuples(_tail, _name, _tail).map("".join), _name.map(str.upper), _name.map(str.lower))
if words.sizes(5000):
    KEY = also(KEY, st.tuples(st.sampled_from(["k", "K-", "0", "_"]), st.sampled_from(words.sizes(5000))).map(lambda t: (t[0] * t[1])[:t[1]]))
ANYKEY = st.one_of(KEY, TEXT)
EXTNAME = st.one_of(st.sampled_from(["x-a", "x-0", "x-.", "x-_", "x--", "x-x-", "x-A.B", "x-foo_bar-1.2", "x-title", "x-$"[:2] + "ref",
                                     "x-" + "n" * 100, "x-" + "n" * 254, "x-" + "long.name_" * 120]),
                    st.text(string.ascii_letters + string.digits + "_-.", min_size=1, max_size=8).map(lambda s: "x-" + s))
if words.NAMES:
    EXTNAME = st.one_of(EXTNAME, KEY.map(lambda k: "x-" + k), st.sampled_from(words.NAMES).map(lambda k: k if re.fullmatch(r"x-[A-Za-z0-9_.-]+", k) else "x-" + k))
INTS = st.one_of(st.sampled_from([0, 1, 2, -1, 10, 255, 256, 1000, 2**31 - 1, 2**31, 2**53 + 1, 2**63, 10**18]), st.integers(-50, 10**6))
INTS = also(INTS, pick([m for n in words.NUMBERS for m in (n - 1, n, n + 1)]))
NONNEG = st.one_of(st.sampled_from([0, 1, 2, 255, 2**31, 2**63]), st.integers(0, 10**6))
NONNEG = also(NONNEG, pick([m for n in words.NUMBERS for m in (n - 1, n, n + 1) if m >= 0]))
FLOATS = st.one_of(st.sampled_from([0.0, 1.0, -1.5, 0.1, 1e16, 1e-7, 1e300, 3.0]), st.floats(allow_nan=False, allow_infinity=False))
SCALARS = st.one_of(st.none(), st.booleans(), INTS, FLOATS, TEXT)
JSON = st.recursive(SCALARS, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(ANYKEY, c, max_size=3)), max_leaves=6)
NONNULL_JSON = JSON.filter(lambda v: v is not None)
SEG = st.text(string.ascii_lowercase + string.digits + "-_", min_size=1, max_size=8)
HOST = st.sampled_from(["example.com", "a.b-c.example.org", "localhost", "127.0.0.1", "api.example.com:8443", "user@example.com",
                        "[::1]", "xn--e1afmkfd.com"])
PATHQ = st.one_of(st.just("/"), st.lists(SEG, min_size=1, max_size=3).map(lambda p: "/" + "/".join(p)),
                  st.tuples(SEG, SEG).map(lambda p: f"/{p[0]}?q={p[1]}"), st.tuples(SEG, SEG).map(lambda p: f"/{p[0]}/#{p[1]}"),
                  st.sampled_from(["/a%20b", "/?a=1&b=2", "/a/", "/a//b", "//", "/b?", "/b#", "/?", "/a?#", "/b/?", "/a;b", "/?a=b?", "/a?b#c?d"]))
HTTPURL = st.tuples(st.sampled_from(["http", "https"]), HOST, PATHQ).map(lambda t: f"{t[0]}://{t[1]}{t[2]}")
URL = st.one_of(HTTPURL, SEG.map(lambda s: "urn:example:" + s), st.sampled_from(["ftp://files.example.com/x", "mailto:a@example.com",
                "urn:com:smartylighting:streetlights:server", "ws://example.com/chat", "tag:example.com,2020:x", "custom+x.y-1:opaque",
                "file:///tmp/doc.json", "mqtt://broker.example.com"]))
HTTPURL = also(HTTPURL, pick(normal([u for w in words.LABELS for u in (f"https://{w}/", f"http://{w}.com/a", f"https://example.{w}/", f"https://example.com/{w}", f"https://example.com/a/{w}.yaml", f"https://example.com/?{w}=1")])))
URL = also(URL, HTTPURL if words.LABELS else None, pick(normal([u for w in words.LABELS for u in (f"urn:{w}:x", f"urn:example:{w}", f"{w}:opaque", f"{w}://example.com/a")])))
EMAIL = st.one_of(st.sampled_from(["a@b.co", "A.b%+-_9@x-y.z.example.COM", "%@a.bb", "x@-.-.org", "1@1.aa"]),
                  st.tuples(st.text("abzAZ09._%+-", min_size=1, max_size=6), st.text("abzAZ09-", min_size=1, max_size=6),
                            st.text(string.ascii_letters, min_size=2, max_size=5)).map(lambda t: f"{t[0]}@{t[1]}.{t[2]}")
                  .filter(lambda s: ".." not in s))
EMAIL = also(EMAIL, pick([e for w in words.LABELS for e in (f"{w}@example.com", f"a@{w}.com", f"a@example.{w}") if oracle.email_ok(e)]))
REFSTR = st.one_of(st.sampled_from(["", "#", "#/", "#/components/schemas/a", "#/channels/a", "#/components/tags/t", "https://example.com/x#/y",
                                    "./other.yaml#/a", "other.json"]), KEY.map(lambda k: "#/components/messages/" + k), TEXT)
REFSTR = also(REFSTR, st.tuples(st.sampled_from(["#/components/messages/", "#/", "https://example.com/", "https://", "./", "#/components/tags/"]), st.sampled_from(words.TEXTS)).map("".join) if words.TEXTS else None)
SCHEMA_WORDS = ["type", "properties", "items", "required", "enum", "const", "allOf", "oneOf", "anyOf", "not", "if", "then", "else", "title",
                "description", "default", "examples", "format", "minimum", "maximum", "pattern", "additionalProperties", "$id", "$schema",
                "$comment", "definitions", "copy", "json", "dict", "model_fields", "model_dump", "self", "name", "root", "x-ext",
                "nullable", "minLength", "example", "readOnly", "data", "validate", "__class__", "__dict__", "headers", "payload"]
SCHEMA_BAD_KEYS = {"$ref", "ref", "schema", "schemaFormat", "schema_format", "external_docs", "discriminator", "deprecated", "externalDocs"}
SCHEMA_KEY = st.one_of(st.sampled_from(SCHEMA_WORDS), ANYKEY).filter(lambda k: k not in SCHEMA_BAD_KEYS)
MFS_KEY = st.one_of(st.sampled_from(["x-a", "name", "type", "title", "payload", "x-b.c", "model_dump", "copy"]), ANYKEY).filter(lambda k: k not in SCHEMA_BAD_KEYS)
KAFKA_KEY = ANYKEY.filter(lambda k: k not in {f.name for f in OBJS["KafkaTopicConfiguration"].fields} | {f.py for f in OBJS["KafkaTopicConfiguration"].fields})
LONGCHAR = st.sampled_from(["a", "é", "日", "\U0001f600", " ", "0"])
BITS = {}


def bits(n):
    if n not in BITS:
        BITS[n] = st.integers(0, 2**n - 1)
    return BITS[n]


UPTO = {n: st.integers(0, n) for n in range(0, 12)}
ADDRESSES = st.one_of(st.sampled_from(["{a}", "a/{b}/c", "{ }", "x{user-id}", "{{}}", "}{a}", "{\n}"]),
                      st.tuples(TEXT, WORD, TEXT).map(lambda t: f"{t[0]}{{{t[1]}}}{t[2]}"))
ADDRESSES = also(ADDRESSES, pick([a for w in words.NAMES for a in (f"{{{w}}}", f"{w}/{{a}}", f"{{a}}/{w}", f"a/{{{w}}}/b")]))
VERSIONS = st.one_of(st.sampled_from(["3.0.0", "3.1.0", "3.0.1-rc.1", "3.10.200", "3.0.0--", "3.0.0-next.1_a"]),
                     st.tuples(st.integers(0, 99), st.integers(0, 9999)).map(lambda t: f"3.{t[0]}.{t[1]}"))
VERSIONS = also(VERSIONS, pick([f"3.0.0-{w}" for w in words.NAMES]), pick([f"3.{n}.{n}" for n in words.NUMBERS if n >= 0]))
LOCATIONS = st.one_of(st.sampled_from(["$message.header#/correlationId", "$message.payload#/a/b", "$message."]), TEXT.map(lambda s: "$message." + s))
INT_RULES = {
    ("AMQPOperationBindings", "expiration"): NONNEG,
    ("IBMMQServerBindings", "heartBeatInterval"): st.one_of(st.sampled_from([0, 1, 999998, 999999]), st.integers(0, 999999)),
    ("IBMMQChannelBindings", "maxMsgLength"): st.one_of(st.sampled_from([0, 1, 104857599, 104857600]), st.integers(0, 104857600)),
    ("IBMMQMessageBindings", "expiry"): NONNEG,
    ("KafkaChannelBindings", "partitions"): NONNEG.map(lambda n: n + 1),
    ("KafkaChannelBindings", "replicas"): NONNEG.map(lambda n: n + 1),
}
PRIORITY = st.one_of(st.sampled_from([0, 1, 254, 255]), st.integers(0, 255))


def affordable(n, one):
    """So many copies of an entry that they do not hold more text than a case can afford."""
    return min(n, max(9, 1_500_000 // len(repr(one))))


MANY_N = words.sizes(1100, [9, 17, 33, 65, 101, 130, 257])
LONG = True        # whether lists and maps are long now and then; checks that trace every line switch it off


class G:
    """Draws values of table types. Sizes shrink with `budget` (number of typed nodes)."""

    def __init__(self, draw, budget=40, density=None, refs=None, extras=True, text=TEXT):
        self.draw, self.left, self.refs, self.extras, self.text = draw, budget, refs, extras, text
        self.big = False
        self.density = draw(UPTO[3]) if density is None else density

    def mask(self, n):
        """Which of n optional things to include; shrinks to none."""
        if n == 0 or self.left <= 0:
            return 0
        d = self.draw
        m = d(bits(n))
        if self.density == 3 and self.left > 30:
            m |= d(bits(n))
        if self.density <= 1 or self.left < 10:
            m &= d(bits(n))
        if self.density == 0:
            m &= d(bits(n))
        return m

    def count(self, lo, hi):
        return lo + self.draw(UPTO[hi - lo]) if self.left > 0 else lo

    def keys(self, lo=0, hi=3, strat=KEY):
        n = self.count(lo, hi)
        out = []
        for _ in range(n):
            k = self.draw(strat)
            if k not in out:
                out.append(k)
        return out

    def value(self, t, maxlen=None, owner=None):
        d, k = self.draw, t.kind
        self.left -= 1
        if k == "UNION":
            vs = t.args
            simple = [v for v in vs if v.kind in ("REF", "STR", "INT")]
            if self.left <= 0 and simple:
                return self.value(simple[0])
            return self.value(vs[d(UPTO[len(vs) - 1])], owner=owner)
        if k == "STR":
            if maxlen is not None and d(UPTO[1]):
                c = d(LONGCHAR)
                n = d(st.sampled_from([maxlen, maxlen - 1, 1, 0]))
                if owner == "SolaceServerBindings":
                    n = min(n, maxlen // len(c.encode()))
                return c * n
            s = d(self.text)
            if maxlen is not None and len(s.encode()) > maxlen:
                s = s[: maxlen // 4]
            return s
        if k == "INT":
            return d(INTS)
        if k == "BOOL":
            return d(st.booleans())
        if k == "ANY":
            return d(JSON)
        if k == "URL":
            return d(URL)
        if k == "HTTPURL":
            return d(HTTPURL)
        if k == "EMAIL":
            return d(EMAIL)
        if k == "REF":
            return {"$ref": d(self.refs or REFSTR)}
        if k == "LIT":
            return t.args[d(st.integers(0, len(t.args) - 1))]
        if k == "LIST":
            left = self.left
            out = [self.value(t.args[0]) for _ in range(self.count(0, 3))]
            if out and self.many():
                out += [out[0]] * self.many_n(left - self.left, out[0]) + [self.value(t.args[0])]
            return out
        if k == "MAP":
            return {key: self.value(t.args[0]) for key in self.keys(0, 3, ANYKEY if t.args[0].kind in ("ANY", "STR", "UNION") else KEY)}
        if k == "PMAP":
            left = self.left
            out = {key: self.value(PMAPS[t.args[0]].value) for key in self.keys(0, 3)}
            if out and self.many():
                one = out[min(out)]
                out = {**{f"n{i}": one for i in range(self.many_n(left - self.left, one))}, **out}
            return out
        assert k == "OBJ", t
        return self.obj(t.args[0])

    def many(self):
        """Now and then, once per value, a list or map is far longer than usual."""
        if not LONG or self.big or self.left <= 0 or self.density == 0 or self.draw(UPTO[11]) != 11:
            return False
        self.big = True
        return True

    def many_n(self, size, one):
        """How many copies of an entry, from entries that together hold `size` nodes."""
        n = self.draw(st.sampled_from(MANY_N))
        return affordable(min(n, max(9, (500 if n in (9, 17, 33, 65, 101, 130, 257) else 4000) // size)), one)

    def obj(self, name, force=None, only=False):
        """An object of the given type; `force` fixes some fields, `only` adds just what is required."""
        o, force, d = OBJS[name], dict(force or {}), self.draw
        if name == "KafkaMessageBindings":
            pass
        opt = [f for f in o.fields if not f.req and f.name not in force]
        m = 0 if only else self.mask(len(opt))
        chosen = {f.name for i, f in enumerate(opt) if m >> i & 1}
        v = {}
        for f in o.fields:
            if f.name in force:
                v[f.name] = force[f.name]
            elif f.req or f.name in chosen:
                v[f.name] = self.field(name, f)
        if name == "Channel" and not only and "address" not in v and d(UPTO[5]) == 5:
            v["address"] = None
        if o.ext != "CLOSED" and self.extras and not only:
            strat = EXTNAME if o.ext == "EXT" else {"Schema": SCHEMA_KEY, "MultiFormatSchema": MFS_KEY}.get(name, KAFKA_KEY)
            hi = 3 if name == "Schema" else 1
            if self.left > 0 and (name == "Schema" or d(UPTO[3]) == 3):
                for key in self.keys(0, hi, strat):
                    v.setdefault(key, d(JSON))
        for key in force:
            v[key] = force[key]
        repair(name, v, force, self)
        return v

    def field(self, name, f):
        d = self.draw
        if (name, f.name) in INT_RULES:
            return d(INT_RULES[name, f.name])
        if name == "SolaceOperationBindings" and f.name == "priority":
            i = d(UPTO[2])
            if i == 0 or self.left <= 0:
                return d(PRIORITY)
            return self.value(f.type.args[i])
        if name == "CorrelationID" and f.name == "location":
            return d(LOCATIONS)
        if name == "AsyncAPI3" and f.name == "asyncapi":
            return d(VERSIONS)
        if name == "MessageExample" and f.name == "payload":
            return d(NONNULL_JSON)
        if name == "KafkaMessageBindings" and f.name == "key":
            return self.value(T("UNION", f.type.args[:2]))
        return self.value(f.type, f.maxlen, name)


def repair(name, v, force, g):
    """Adjusts unforced fields so that the cross-field rules hold."""
    d = g.draw

    def need(field, strat=None):
        if field not in v:
            v[field] = d(strat) if strat is not None else g.field(name, OBJS[name].f(field))

    def drop(*fields):
        for f in fields:
            if f not in force:
                v.pop(f, None)

    if name == "SecurityScheme":
        if "type" not in force:
            if "bearerFormat" in force:
                v["type"] = "http"
            elif "scopes" in force:
                v["type"] = d(st.sampled_from(["oauth2", "openIdConnect"]))
            elif "in" in force and v["type"] in ("apiKey", "httpApiKey"):
                v["type"] = "apiKey" if force["in"] in ("user", "password") else "httpApiKey"
        t = v["type"]
        if t == "apiKey" and v.get("in") not in ("user", "password"):
            v["in"] = d(st.sampled_from(["user", "password"]))
        if t == "httpApiKey":
            need("name")
            if v.get("in") not in ("query", "header", "cookie"):
                v["in"] = d(st.sampled_from(["query", "header", "cookie"]))
        if t == "http":
            need("scheme")
            if "bearerFormat" in force and "scheme" not in force:
                v["scheme"] = "bearer"
            elif "scheme" not in force and d(UPTO[1]):
                v["scheme"] = "bearer"
        if not (t == "http" and v.get("scheme") == "bearer"):
            drop("bearerFormat")
        if t == "oauth2":
            need("flows")
        if t == "openIdConnect":
            need("openIdConnectUrl")
        if t not in ("oauth2", "openIdConnect"):
            drop("scopes")
    elif name == "OAuthFlows":
        for flow, urls in {"implicit": ["authorizationUrl"], "password": ["tokenUrl"], "clientCredentials": ["tokenUrl"],
                           "authorizationCode": ["authorizationUrl", "tokenUrl"]}.items():
            if flow in v:
                for u in urls:
                    if u not in v[flow]:
                        v[flow] = {**v[flow], u: d(URL)}
    elif name == "AMQPChannelBindings":
        if "is" not in force:
            if "exchange" in force:
                v["is"] = "routingKey"
            elif "queue" in force:
                v["is"] = "queue"
        if v["is"] == "routingKey":
            need("exchange")
            drop("queue")
        else:
            need("queue")
            drop("exchange")
    elif name == "IBMMQChannelBindings":
        if "queue" in force:
            v["destinationType"] = force.get("destinationType", "queue")
            drop("topic")
        elif "topic" in force:
            if force.get("destinationType") != "queue":
                v["destinationType"] = "topic"
            drop("queue")
        if v.get("destinationType") == "queue":
            need("queue")
            drop("topic")
        else:
            drop("queue")
    elif name == "IBMMQMessageBindings":
        if "headers" in force and "type" not in force:
            v["type"] = "binary"
        if v.get("type", "string") != "binary":
            drop("headers")
    elif name == "KafkaServerBindings":
        if "schemaRegistryVendor" in v and "schemaRegistryUrl" not in v:
            if "schemaRegistryVendor" in force:
                need("schemaRegistryUrl")
            else:
                drop("schemaRegistryVendor")
    elif name == "SolaceDestination":
        if "destinationType" not in force:
            if "queue" in force:
                v["destinationType"] = "queue"
            elif "topic" in force:
                v["destinationType"] = "topic"
        a, b = ("queue", "topic") if v["destinationType"] == "queue" else ("topic", "queue")
        need(a)
        drop(b)
    elif name == "Channel":
        if "parameters" in v and (not v.get("address") or not oracle.has_expression(v["address"])):
            if "parameters" in force or d(UPTO[1]):
                if "address" in force:
                    drop("parameters")
                else:
                    v["address"] = d(ADDRESSES)
            else:
                drop("parameters")
    elif name == "MessageExample":
        if v.get("headers") is None and v.get("payload") is None:
            v["payload"] = d(NONNULL_JSON)


# ---------------------------------------------------------------- contexts
def _parents():
    """parents[repr(T)] -> list of (parent T, edge). Edges: ('field', obj, field) | list | map | pmap | union."""
    out = {}
    seen = set()
    todo = [ROOT]
    while todo:
        t = todo.pop()
        if repr(t) in seen:
            continue
        seen.add(repr(t))
        kids = []
        if t.kind == "OBJ":
            kids = [(f.type, ("field", t.args[0], f.name)) for f in OBJS[t.args[0]].fields]
        elif t.kind == "PMAP":
            kids = [(PMAPS[t.args[0]].value, ("pmap",))]
        elif t.kind == "LIST":
            kids = [(t.args[0], ("list",))]
        elif t.kind == "MAP":
            kids = [(t.args[0], ("map",))]
        elif t.kind == "UNION":
            kids = [(a, ("union",)) for a in t.args]
        for k, e in kids:
            out.setdefault(repr(k), []).append((t, e))
            todo.append(k)
    return out


PARENTS = _parents()


def field_contexts(tname):
    """All (object, field) whose type mentions the named object/pmap type."""
    def mentions(t):
        return any((v.kind in ("OBJ", "PMAP") and v.args[0] == tname) or (v.kind in ("LIST", "MAP") and mentions(v.args[0])) or
                   (v.kind == "PMAP" and mentions(PMAPS[v.args[0]].value)) for v in variants(t))
    return [(o.name, f.name) for o in OBJS.values() for f in o.fields if mentions(f.type)]


AMBIGUOUS = repr(OBJS["KafkaMessageBindings"].f("key").type)     # a free-form map: takes any object


def embed(g, t, value, sparse=True, strict=False):
    """A root document holding value at some position of type t; returns (doc, path).

    strict: only positions where nothing but t (or a reference) can be meant."""
    path = []
    cur = T("REF") if t == T("OBJ", ("Reference",)) else t
    ctx = G(g.draw, budget=0 if sparse else g.left, density=0, refs=g.refs, extras=False, text=g.text)
    while repr(cur) != repr(ROOT):
        ps = PARENTS[repr(cur)]
        if strict:
            ps = [x for x in ps if repr(x[0]) != AMBIGUOUS]
        p, e = ps[g.draw(st.integers(0, len(ps) - 1))] if len(ps) > 1 else ps[0]
        if e[0] == "field":
            value = ctx.obj(e[1], {e[2]: value}, only=sparse)
            path.insert(0, e[2])
        elif e[0] == "list":
            n = g.draw(UPTO[1])
            value = [ctx.value(p.args[0]) for _ in range(n)] + [value]
            path.insert(0, n)
        elif e[0] in ("map", "pmap"):
            k = g.draw(KEY)
            value = {k: value}
            path.insert(0, k)
        cur = p
    return value, path


@st.composite
def documents(draw, budget=60, refs=None, extras=True, density=None, text=TEXT):
    return G(draw, budget, density=density, refs=refs, extras=extras, text=text).obj("AsyncAPI3")


@st.composite
def objects(draw, name, budget=25, force=None, density=None, extras=True):
    return G(draw, budget, density=density, extras=extras).obj(name, force)


@st.composite
def values(draw, t, budget=20):
    return G(draw, budget).value(t)


def anyof(name, budget=25):
    """Values of a table object or patterned map, by name."""
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    return values(t, budget)


FREE = [(o.name, f.name) for o in OBJS.values() for f in o.fields if f.type.kind == "ANY" or f.type.kind in ("LIST", "MAP") and f.type.args[0].kind == "ANY"]
OPENED = [o.name for o in OBJS.values() if o.ext != "CLOSED"]


@st.composite
def deep_values(draw):
    """A value nested up to 150 levels deep (pydantic's own JSON reader stops at about 200)."""
    n = draw(st.sampled_from(words.sizes(150, [20, 60, 100, 150])))
    rings = draw(st.lists(st.one_of(st.none(), KEY), min_size=1, max_size=3))
    v = draw(SCALARS)
    for i in range(n):
        k = rings[i % len(rings)]
        v = [v] if k is None else {k: v}
    return v


@st.composite
def deep_documents(draw):
    """A document with a deep value at a free-form place."""
    g = G(draw, 8)
    v = draw(deep_values())
    if draw(UPTO[1]):
        name, f = FREE[draw(st.integers(0, len(FREE) - 1))]
        k = OBJS[name].f(f).type.kind
        force = {f: [v] if k == "LIST" else {draw(KEY): v} if k == "MAP" else v}
    else:
        name = OPENED[draw(st.integers(0, len(OPENED) - 1))]
        force = {draw(EXTNAME): v}
    return embed(g, T("OBJ", (name,)), g.obj(name, force))[0] if name != "AsyncAPI3" else g.obj(name, force)
