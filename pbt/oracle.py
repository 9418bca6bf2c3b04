"""Independent oracle: what the documents mean, computed from table.txt and the rules below only.

Nothing in this module imports the library under test.
"""
from __future__ import annotations
import math
import re
import string

from .table import OBJS, PMAPS, T, variants

KEY_CHARS = set(string.ascii_letters + string.digits + "_-")
EXT_CHARS = set(string.ascii_letters + string.digits + "_-.")


class Reject(Exception):
    """The oracle says the library must reject the value; where, why."""

    def __init__(self, path, why):
        super().__init__(f"{path or '/'}: {why}")
        self.path, self.why = path, why


def key_ok(k):
    return isinstance(k, str) and len(k) > 0 and all(c in KEY_CHARS for c in k)


def ext_ok(k):
    return k.startswith("x-") and len(k) > 2 and all(c in EXT_CHARS for c in k[2:])


def email_ok(s):
    if s.count("@") != 1 or ".." in s:
        return False
    local, dom = s.split("@")
    letters, digits = string.ascii_letters, string.digits
    if not local or any(c not in letters + digits + "._%+-" for c in local):
        return False
    head, dot, tld = dom.rpartition(".")
    if not dot or not head or any(c not in letters + digits + ".-" for c in head):
        return False
    return len(tld) >= 2 and all(c in letters for c in tld)


def version_ok(s):
    """major.minor.patch with an optional non-empty '-suffix' of [A-Za-z0-9_.-], major 3."""
    core, dash, suffix = s.partition("-")
    if dash and (not suffix or any(c not in EXT_CHARS for c in suffix)):
        return False
    parts = core.split(".")
    if len(parts) != 3 or any(not p or any(c not in string.digits for c in p) for p in parts):
        return False
    return int(parts[0]) == 3


def has_expression(addr):
    """True when the address holds a '{...}' expression with at least one character inside."""
    i = 0
    while True:
        i = addr.find("{", i)
        if i < 0:
            return False
        j = addr.find("}", i + 1)
        if j > i + 1:
            return True
        i += 1


# ---------------------------------------------------------------- cross-field rules
def rule_violation(o, v):
    """v: dict of document names -> values (absent = unset). The broken rule, or None."""
    g = v.get
    if o == "SecurityScheme":
        t = g("type")
        if t == "apiKey" and g("in") not in ("user", "password"):
            return "apiKey needs in=user|password"
        if t == "httpApiKey" and (g("name") is None or g("in") not in ("query", "header", "cookie")):
            return "httpApiKey needs name and in=query|header|cookie"
        if t == "http" and g("scheme") is None:
            return "http needs scheme"
        if g("bearerFormat") is not None and not (t == "http" and g("scheme") == "bearer"):
            return "bearerFormat needs type=http, scheme=bearer"
        if t == "oauth2" and g("flows") is None:
            return "oauth2 needs flows"
        if t == "openIdConnect" and g("openIdConnectUrl") is None:
            return "openIdConnect needs openIdConnectUrl"
        if g("scopes") is not None and t not in ("oauth2", "openIdConnect"):
            return "scopes only for oauth2/openIdConnect"
    elif o == "OAuthFlows":
        need = {"implicit": ["authorizationUrl"], "password": ["tokenUrl"], "clientCredentials": ["tokenUrl"],
                "authorizationCode": ["authorizationUrl", "tokenUrl"]}
        for flow, urls in need.items():
            if g(flow) is not None:
                for u in urls:
                    if g(flow).get(u) is None:
                        return f"{flow} needs {u}"
    elif o == "AMQPChannelBindings":
        ex, q = g("exchange") is not None, g("queue") is not None
        if g("is") == "routingKey" and (not ex or q):
            return "routingKey needs exchange and no queue"
        if g("is") == "queue" and (ex or not q):
            return "queue needs queue and no exchange"
    elif o == "AMQPOperationBindings":
        if g("expiration") is not None and g("expiration") < 0:
            return "expiration >= 0"
    elif o == "IBMMQServerBindings":
        if g("heartBeatInterval") is not None and not 0 <= g("heartBeatInterval") <= 999999:
            return "heartBeatInterval 0-999999"
    elif o == "IBMMQChannelBindings":
        if g("maxMsgLength") is not None and not 0 <= g("maxMsgLength") <= 104857600:
            return "maxMsgLength 0-104857600"
        if g("queue") is not None and g("topic") is not None:
            return "queue and topic must not coexist"
        if g("destinationType") == "queue" and g("queue") is None:
            return "destinationType=queue needs queue"
    elif o == "IBMMQMessageBindings":
        if g("expiry") is not None and g("expiry") < 0:
            return "expiry >= 0"
        if g("headers") is not None and v.get("type", "string") in ("string", "jms"):
            return "headers not allowed for string/jms"
    elif o == "KafkaServerBindings":
        if g("schemaRegistryVendor") is not None and g("schemaRegistryUrl") is None:
            return "schemaRegistryVendor needs schemaRegistryUrl"
    elif o == "KafkaChannelBindings":
        for f in ("partitions", "replicas"):
            if g(f) is not None and g(f) <= 0:
                return f"{f} positive"
    elif o == "SolaceServerBindings":
        if g("clientName") is not None and len(g("clientName").encode()) > 160:
            return "clientName <= 160 bytes"
    elif o == "SolaceDestination":
        d, q, t = g("destinationType"), g("queue") is not None, g("topic") is not None
        if d == "queue" and (not q or t):
            return "queue destination needs queue and no topic"
        if d == "topic" and (not t or q):
            return "topic destination needs topic and no queue"
    elif o == "SolaceOperationBindings":
        p = g("priority")
        if isinstance(p, int) and not 0 <= p <= 255:
            return "priority 0-255"
    elif o == "Channel":
        if g("parameters") is not None and (g("address") is None or not has_expression(g("address"))):
            return "parameters need an address expression"
    elif o == "CorrelationID":
        if not g("location").startswith("$message."):
            return "location must start with $message."
    elif o == "MessageExample":
        if g("headers") is None and g("payload") is None:
            return "headers or payload required"
    elif o == "AsyncAPI3":
        if "asyncapi" in v and not version_ok(v["asyncapi"]):
            return "asyncapi version"
    return None


# ---------------------------------------------------------------- variant choice
def select(t, v):
    """The variant of type t that document value v denotes (None when none does)."""
    vs = variants(t)
    if len(vs) == 1:
        return vs[0]
    kinds = {x.kind: x for x in vs}
    objs = {x.args[0]: x for x in vs if x.kind == "OBJ"}
    if isinstance(v, bool):
        return kinds.get("BOOL")
    if isinstance(v, int):
        return kinds.get("INT")
    if isinstance(v, str):
        return kinds.get("STR")
    if isinstance(v, list):
        return kinds.get("LIST")
    if isinstance(v, dict):
        if "REF" in kinds and set(v) == {"$ref"} and isinstance(v["$ref"], str):
            return kinds["REF"]
        if "MultiFormatSchema" in objs and "schema" in v:
            return objs["MultiFormatSchema"]
        if "Schema" in objs:
            return objs["Schema"]
        if objs:
            return next(iter(objs.values()))
        return kinds.get("MAP")
    return None


def expected(t, v, path=""):
    """The document the library must dump for v; raises Reject when v does not conform to t."""
    s = select(t, v)
    if s is None:
        raise Reject(path, f"no variant of {t} takes {v!r}")
    k = s.kind
    if k == "OBJ" and t.kind == "UNION" and s.args[0] in ("Schema", "MultiFormatSchema"):
        # an open or free-form variant takes whatever the more specific one refuses
        try:
            return expected_obj(s.args[0], v, path)
        except Reject:
            rest = [a for a in t.args if a.kind == "MAP" or (a == T("OBJ", ("Schema",)) and a != s)]
            if not rest:
                raise
            return expected(rest[0], v, path)
    if k == "ANY":
        return v
    if k in ("STR", "URL", "HTTPURL", "EMAIL"):
        if not isinstance(v, str):
            raise Reject(path, f"{k} expected, got {v!r}")
        if k == "EMAIL" and not email_ok(v):
            raise Reject(path, f"bad email {v!r}")
        return v
    if k == "INT":
        if isinstance(v, bool) or not isinstance(v, int):
            raise Reject(path, f"INT expected, got {v!r}")
        return v
    if k == "BOOL":
        if not isinstance(v, bool):
            raise Reject(path, f"BOOL expected, got {v!r}")
        return v
    if k == "LIT":
        if not any(type(v) is type(a) and v == a for a in s.args):
            raise Reject(path, f"one of {s.args} expected, got {v!r}")
        return v
    if k == "REF":
        if not (isinstance(v, dict) and set(v) == {"$ref"} and isinstance(v["$ref"], str)):
            raise Reject(path, f"reference expected, got {v!r}")
        return v
    if k == "LIST":
        if not isinstance(v, list):
            raise Reject(path, "list expected")
        return [expected(s.args[0], x, f"{path}/{i}") for i, x in enumerate(v)]
    if k == "MAP":
        if not isinstance(v, dict):
            raise Reject(path, "map expected")
        return {key: expected(s.args[0], x, f"{path}/{key}") for key, x in v.items()}
    if k == "PMAP":
        if not isinstance(v, dict):
            raise Reject(path, "map expected")
        for key in v:
            if not key_ok(key):
                raise Reject(path, f"bad key {key!r}")
        vt = PMAPS[s.args[0]].value
        return {key: expected(vt, x, f"{path}/{key}") for key, x in v.items()}
    assert k == "OBJ", s
    return expected_obj(s.args[0], v, path)


def expected_obj(name, v, path=""):
    o = OBJS[name]
    if not isinstance(v, dict):
        raise Reject(path, f"{name} object expected")
    out = {}
    known = {f.name for f in o.fields}
    for f in o.fields:
        p = f"{path}/{f.name}"
        if f.name in v:
            x = v[f.name]
            if x is None and f.type.kind != "ANY" and not (name == "Channel" and f.name == "address"):
                raise Reject(p, "null")
            if not (name == "Channel" and f.name == "address" and x is None):
                x = expected(f.type, x, p)
            if f.maxlen is not None and len(x) > f.maxlen:
                raise Reject(p, f"longer than {f.maxlen}")
            out[f.name] = x
        elif f.req:
            raise Reject(p, "required")
        elif f.default is not None:
            out[f.name] = f.default
        elif name == "Channel" and f.name == "address":
            out["address"] = None
    for k, x in v.items():
        if k not in known:
            if o.ext == "CLOSED":
                raise Reject(path, f"unknown field {k!r}")
            if o.ext == "EXT" and not ext_ok(k):
                raise Reject(path, f"unknown field {k!r}")
            out[k] = x
    r = rule_violation(name, out)
    if r:
        raise Reject(path, r)
    return out


def conforms(t, v):
    try:
        expected(t, v)
    except Reject as e:
        return str(e)
    return None


# ---------------------------------------------------------------- strict comparison
def diff(a, b, path="", order=False):
    """First difference between JSON values a (expected) and b (actual), type-strict; None if equal."""
    if type(a) is not type(b):
        return f"{path or '/'}: expected {short(a)} ({type(a).__name__}), got {short(b)} ({type(b).__name__})"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: missing, expected {short(a[k])}"
        for k in b:
            if k not in a:
                return f"{path}/{k}: unexpected, got {short(b[k])}"
        if order and list(a) != list(b):
            return f"{path or '/'}: order expected {list(a)}, got {list(b)}"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}", order)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path or '/'}: expected {len(a)} items, got {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}/{i}", order)
            if d:
                return d
        return None
    if isinstance(a, float):
        if a != b or math.copysign(1, a) != math.copysign(1, b):
            return f"{path or '/'}: expected {a!r}, got {b!r}"
        return None
    if a != b:
        return f"{path or '/'}: expected {short(a)}, got {short(b)}"
    return None


def short(v, n=120):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "…"


# ---------------------------------------------------------------- walking documents
def walk(t, v, path=(), decl=None):
    """Yields (path, declared type, selected variant, value) for every typed position, parents first."""
    s = select(t, v)
    yield path, t, s, v
    if s is None or (s.kind == "OBJ" and t.kind == "UNION" and any(a.kind == "MAP" for a in t.args)):
        return          # free-form
    if s.kind == "LIST" and isinstance(v, list):
        for i, x in enumerate(v):
            yield from walk(s.args[0], x, path + (i,))
    elif s.kind == "MAP" and isinstance(v, dict):
        for k, x in v.items():
            yield from walk(s.args[0], x, path + (k,))
    elif s.kind == "PMAP" and isinstance(v, dict):
        for k, x in v.items():
            yield from walk(PMAPS[s.args[0]].value, x, path + (k,))
    elif s.kind == "OBJ" and isinstance(v, dict):
        for f in OBJS[s.args[0]].fields:
            if f.name in v and v[f.name] is not None:
                yield from walk(f.type, v[f.name], path + (f.name,))


def get_at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def set_at(doc, path, value):
    """A copy of doc with the value at path replaced (only the spine is copied)."""
    if not path:
        return value
    if isinstance(doc, dict):
        out = dict(doc)
    else:
        out = list(doc)
    out[path[0]] = set_at(out[path[0]], path[1:], value)
    return out


def del_at(doc, path):
    if len(path) == 1:
        out = dict(doc) if isinstance(doc, dict) else list(doc)
        del out[path[0]]
        return out
    return set_at(doc, path[:1], del_at(doc[path[0]], path[1:]))
