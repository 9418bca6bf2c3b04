"""Any input is parsed or refused cleanly: a validation error, nothing else, and no trace left behind."""
import copy
import json

from hypothesis import strategies as st

from pbt import gen, mutate, oracle
from pbt.gen import G, JSON
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, cls, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T
from pbt.checks import c32
import asyncapi3.validators as V

ID = "C09"
RULE = ("Arbitrary JSON values for every class, structurally damaged documents, random text and damaged JSON text for the JSON entry point, and "
        "documents whose references hold arbitrary text with all reference validators on; strings of 150000 characters near the shapes of every rule (3 s at most). Every call must return or raise pydantic's ValidationError, "
        "leave its input untouched, give the same verdict when repeated, print its error, and not disturb a following valid parse. "
        "Non-trivial: the call was refused, or the document has references. Class = verdict:source.")
ASSUMES = ["texts and JSON text nest at most a few hundred levels; free content (extensions, untyped fields) is parsed nested up to 20000 levels, without dumping it"]
PROBE = {"info": {"title": "t", "version": "1"}, "channels": {"a": {"address": "b", "messages": {"m": {"payload": {"type": "string"}}}}},
         "operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/a"}}}}
PROBE_WANT = oracle.expected(ROOT, PROBE)
ALLV = [V.UnifiedReferencesValidator, V.TagsRefValidator, V.ExternalDocsRefValidator]

WILD = st.recursive(gen.SCALARS, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(
    st.one_of(st.sampled_from(sorted({f.name for o in OBJS.values() for f in o.fields} | {f.py for o in OBJS.values() for f in o.fields})), gen.ANYKEY), c, max_size=5)), max_leaves=20)


@st.composite
def near(draw, name):
    """An object of the right shape whose fields hold arbitrary values."""
    o = OBJS[name]
    g = G(draw, 20)
    v = g.obj(name)
    for f in draw(st.lists(st.sampled_from(o.fields), max_size=3)) if o.fields else []:
        v[f.name if draw(st.integers(0, 3)) else f.py] = draw(WILD)
    if draw(st.booleans()):
        v[draw(gen.ANYKEY)] = draw(WILD)
    return ["near", name, v]


def probe():
    m, err = attempt(AsyncAPI3.model_validate, copy.deepcopy(PROBE))
    if err is not None:
        raise Violation(f"after this input, a valid document is refused: {first(err)}")
    d = oracle.diff(PROBE_WANT, dump(m))
    if d:
        raise Violation(f"after this input, a valid document is read wrongly: {d}")


def outcome(fn, source):
    m, err = attempt(fn)
    if err is None:
        return "accepted", dump(m)
    text = str(err)
    if not text or err.error_count() < 1 or not err.errors(include_url=False, include_context=False, include_input=False):
        raise Violation("the validation error says nothing")
    return "refused", None


def prop(case):
    source, name, v = case
    c = cls(name)
    before = copy.deepcopy(v)
    kind, d1 = outcome(lambda: c.model_validate(v), source)
    x = oracle.diff(before, v, order=True)
    if x:
        raise Violation(f"{kind} input was modified: {x}")
    kind2, d2 = outcome(lambda: c.model_validate(copy.deepcopy(before)), source)
    if kind != kind2 or d1 != d2:
        raise Violation(f"same input, other verdict: {kind}, then {kind2}")
    probe()
    return f"{kind}:{source}" if kind == "refused" else None


def prop_refs(case):
    doc, which = case
    doc2 = {**doc, "extra_validators": [ALLV[i] for i in which]}
    before = copy.deepcopy(doc)
    kind, d1 = outcome(lambda: AsyncAPI3.model_validate(doc2), "refs")
    x = oracle.diff(before, {k: v for k, v in doc2.items() if k != "extra_validators"}, order=True)
    if x:
        raise Violation(f"{kind} input was modified: {x}")
    if [ALLV.index(c) for c in doc2["extra_validators"]] != list(which):
        raise Violation("the list of validators was modified")
    probe()
    has = any(s is not None and s.kind == "REF" for _, _, s, _ in oracle.walk(ROOT, doc))
    return f"{kind}:references" if has else None


def prop_text(case):
    name, text = case
    data = text.encode("utf-8", "surrogatepass") if isinstance(text, str) else bytes(text)
    kind, d1 = outcome(lambda: cls(name).model_validate_json(data), "text")
    kind2, d2 = outcome(lambda: cls(name).model_validate_json(data), "text")
    if kind != kind2 or d1 != d2:
        raise Violation("same text, other verdict")
    probe()
    return f"{kind}:text"


@st.composite
def text_case(draw):
    how = draw(st.integers(0, 4))
    name = draw(st.sampled_from(["AsyncAPI3", "AsyncAPI3", "Message", "Channels"]))
    if how == 0:
        return [name, draw(st.text(max_size=30))]
    if how == 1:
        return [name, list(draw(st.binary(max_size=30)))]
    base = json.dumps(draw(gen.documents(budget=20)) if name == "AsyncAPI3" else draw(gen.anyof(name)))
    i = draw(st.integers(0, len(base)))
    if how == 2:
        return [name, base[:i]]
    if how == 3:
        return [name, base[:i] + draw(st.sampled_from(["", ",", "}", "{", '"', "\x00", "\\", "NaN", "Infinity", "null", "\\ud800", "[", "]", "1e999", "-", "\xff"])) + base[i:]]
    j = draw(st.integers(0, len(base)))
    return [name, base[:min(i, j)] + base[max(i, j):]]


STRANGE = ["", "#", "#/", "##", "#/#", "#//", "#///a", "/", "a", ".", "..", "http://", "https://", "http:/x", "HTTP://x", "#/info", "#/info/title",
           "#/info/title/x", "#/channels", "#/components", "#/components/schemas", "#/components/schemas/", "#/channels/0", "#/channels/0/messages",
           "#/channels/0/", "#/asyncapi", "#/asyncapi/0", "#/extra_validators", "#/extra_validators/0", "#/model_fields", "#/__class__", "#/__dict__",
           "#/root", "#/channels/root", "#/components/model_config", "#/x-a", "#/servers/0/host/0", "#/id", "#/id/host", "#/info/x-a/b",
           "#/components/tags/", "#/components/tags", "#/components/externalDocs", "#/components/externalDocs/", "#/components/externalDocs/a/b",
           "#/components/tags/a/name", "#\x00", "#/\u2028", "#/components/tags/%20", "urn:x", "mailto:a@b", "file:///etc/passwd", "\n#/channels/a"]


@st.composite
def with_refs(draw):
    refs_ = st.one_of(st.sampled_from(STRANGE), gen.REFSTR, st.lists(st.sampled_from(
        ["components", "channels", "0", "1", "messages", "schemas", "tags", "externalDocs", "info", "servers", "operations", "traits", "x", "",
         "payload", "headers", "bindings", "kafka", "reply", "address", "$ref", "ref", "root", "items"]), max_size=6).map(lambda p: "#/" + "/".join(p)))
    return [draw(gen.documents(budget=100, refs=refs_)), draw(st.lists(st.integers(0, 2), max_size=3))]


@st.composite
def damaged(draw):
    doc = draw(gen.documents(budget=60))
    for _ in range(draw(st.integers(1, 3))):
        paths = [p for p, _, _, _ in oracle.walk(ROOT, doc) if p]
        if not paths:
            break
        p = draw(st.sampled_from(paths))
        try:
            doc = oracle.del_at(doc, p) if draw(st.booleans()) else oracle.set_at(doc, p, draw(WILD))
        except (KeyError, IndexError, TypeError):
            pass
    return ["damaged", "AsyncAPI3", doc]


def deep(n):
    v = {"type": "string"}
    for _ in range(n):
        v = {"properties": {"a": v}}
    return v


def deep_cases():
    out = []
    for n in (10, 60, 100):
        out.append(["deep", "Message", {"payload": deep(n), "zzz": 1}])
        out.append(["deep", "AsyncAPI3", {"info": {"title": "t", "version": "v"}, "components": {"schemas": {"a": deep(n)}}, "x-deep": [deep(n)], "bad": 1}])
    return out


OPEN = {o.name for o in OBJS.values() if o.ext == "OPEN"}
EXTENSIBLE = {o.name for o in OBJS.values() if o.ext != "CLOSED"}
FREE = sorted(EXTENSIBLE | {o.name for o in OBJS.values() if any(f.type.kind == "ANY" for f in o.fields)})


def nest(n, pattern):
    v = "leaf"
    for i in range(n):
        v = [v] if pattern[i % len(pattern)] == "[" else {pattern[i % len(pattern)]: v}
    return v


def same_nest(a, b):
    """Equality of two nests without recursion."""
    while True:
        if type(a) is not type(b) or not isinstance(a, (list, dict)):
            return a == b
        if len(a) != len(b) or isinstance(a, dict) and list(a) != list(b):
            return False
        a, b = (a[0], b[0]) if isinstance(a, list) else (next(iter(a.values())), next(iter(b.values())))


@st.composite
def bottomless(draw):
    """Free content (an extension or an untyped field) nested thousands of levels deep."""
    o = draw(st.sampled_from(FREE))
    anys = [f.name for f in OBJS[o].fields if f.type.kind == "ANY"]
    where = draw(st.sampled_from(anys + (["x-deep", "x-a.b"] if o in EXTENSIBLE else [])))
    g = G(draw, 8)
    v = g.obj(o)
    v.pop(where, None)
    pattern = draw(st.lists(st.sampled_from(["[", "a", "x-a", "$ref", "ext", "", "y z"]), min_size=1, max_size=3))
    return [o, v, where, draw(st.sampled_from([150, 900, 1100, 3000, 20000])), pattern, draw(st.booleans())]


def prop_deep(case):
    name, v, where, n, pattern, bad = case
    c = cls(name)
    deep_ = nest(n, pattern)
    data = {**v, where: deep_}
    if bad:
        data["not a field"] = deep_
    m, err = attempt(c.model_validate, data)
    if not same_nest(data[where], nest(n, pattern)):
        raise Violation("the input was modified")
    if bad and err is None and name not in OPEN:
        raise Violation("an unknown field is accepted")
    if err is not None:
        if not str(err) or err.error_count() < 1:
            raise Violation("the validation error says nothing")
        if not bad:
            raise Violation(f"valid apart from its depth, refused: {first(err)}")
        return "refused:deep"
    f = next((f for f in OBJS[name].fields if f.name == where), None)
    got = getattr(m, f.py) if f else m.model_extra[where]
    if not same_nest(got, deep_):
        raise Violation(f"{where} nested {n} levels is not kept")
    return "accepted:deep"


def prop_deepdoc(case):
    n, pattern, where, which = case
    doc = copy.deepcopy(PROBE)
    doc["info"]["tags"] = [{"name": "t"}]
    at = oracle.get_at(doc, [int(p) if p.isdigit() else p for p in where.split("/")[1:]])
    at["x-deep"] = nest(n, pattern)
    if where == "/channels/a/messages/m":
        at["payload"] = {"type": "object", "examples": [nest(n, pattern)]}
    doc["extra_validators"] = [ALLV[i] for i in which]
    m, err = attempt(AsyncAPI3.model_validate, doc)
    if err is not None:
        raise Violation(f"valid apart from its depth, refused: {first(err)}")
    m2, err = attempt(AsyncAPI3.model_validate, m)
    if err is not None:
        raise Violation(f"refused when validated again: {first(err)}")
    return "accepted:deepdoc"


def deepdocs():
    return st.tuples(st.sampled_from([150, 900, 1100, 3000, 20000]),
                     st.lists(st.sampled_from(["[", "a", "x-a", "$ref", "ext", "tags", "root"]), min_size=1, max_size=3),
                     st.sampled_from(["", "/info", "/info/tags/0", "/channels/a", "/channels/a/messages/m", "/operations/o"]),
                     st.lists(st.integers(0, 2), max_size=3)).map(list)


def tasks(tier):
    k = 1 if tier == "quick" else 25
    names = list(OBJS)
    return (foreach("near", prop, names, near, 16 * k, chunk=10)
            + foreach("wild", prop, names + list(PMAPS), lambda n: WILD.map(lambda v: ["wild", n, v]), 6 * k, chunk=12)
            + [Task(f"damaged{i}", prop, damaged(), n=120 * k, weight=2) for i in range(4)]
            + [Task(f"text{i}", prop_text, text_case(), n=200 * k) for i in range(4)]
            + [Task(f"references{i}", prop_refs, with_refs(), n=150 * k, weight=2) for i in range(6)]
            + foreach("long rule", c32.prop_long, c32.RULED, c32.long_string, 200 * k, chunk=4)
            + foreach("long text", c32.prop_long, c32.TEXTS, c32.long_string, 8 * k, chunk=40)
            + [Task("deep", prop, cases=deep_cases), Task("deepest", prop_deep, bottomless(), n=150 * k), Task("deepdoc", prop_deepdoc, deepdocs(), n=60 * k)])
