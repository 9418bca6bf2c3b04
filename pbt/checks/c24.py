"""Value rules of the core objects: version, e-mail, URLs, runtime expressions, channel parameters, message examples."""
import json

from hypothesis import strategies as st

from pbt import gen, grids, mutate, oracle, words
from pbt.gen import G
from pbt.grids import ABSENT
from pbt.harness import Task, Violation
from pbt.lib import at, attempt, check_model, cls, dump, first, must_parse, parse
from pbt.table import OBJS, ROOT, T

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C24"
RULE = ("Strings drawn near the edge of each rule (valid ones with characters inserted, deleted or replaced, and arbitrary text) for the AsyncAPI version, e-mail "
        "addresses, correlation locations and channel addresses with parameters, judged by a character-level oracle; decision tables for channel and message example; URL "
        "fields with good and bad URLs: by parsing, JSON, construction, assignment and inside documents. Non-trivial: always. Class = rule, verdict and route.")
ASSUMES = ["which URLs outside the listed good and bad ones are well-formed is pydantic's business; only stability of the accepted ones is decided"]

EDIT = st.sampled_from(list("ab0.-_@{}$ \n\t/+%:é٣²ａＡ３\u200b\x00\u2028A9z") + ["..", "@@", ".-", "\r\n", "3", "message.", "{}", "{a}"])
EDIT = gen.also(EDIT, gen.pick(words.TEXTS))


@st.composite
def near(draw, base):
    s = draw(base)
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        i = draw(st.integers(0, len(s)))
        how = draw(gen.UPTO[3])
        if how == 0:
            s = s[:i] + draw(EDIT) + s[i:]
        elif how == 1:
            s = s[:i] + s[i + 1:]
        elif how == 2:
            s = s[:i] + draw(EDIT) + s[i + 1:]
        else:
            j = draw(st.integers(0, len(s)))
            s = s[:min(i, j)] + s[max(i, j):] if draw(st.booleans()) else s + draw(EDIT)
    return s


VERSION = st.one_of(gen.VERSIONS, st.sampled_from(["2.6.0", "4.0.0", "3.0", "3", "30.0.0", "3.0.0.0", "3.0.0-", "v3.0.0", "3.0.0+b", "3.0.0-a+b", "33.0.0", "0.3.0", "-3.0.0",
                                                   "3.0.0 ", "3..0", "3.0.0-rc 1", "3_0_0", "３.0.0", "3.0.٣", "13.0.0", "3.-1.0"]))
EMAIL = st.one_of(gen.EMAIL, st.sampled_from([e for e in mutate.BAD_EMAILS if e] + ["a+b@c-d.e.fg", "a.@b.cc", ".a@b.cc", "a@.b.cc", "a@b-.cc", "a@b.c-c", "a@b.c.d"]))
LOCATION = st.one_of(gen.LOCATIONS, st.sampled_from(["$message", "message.", "$Message.header", " $message.header#/a", "$messages.x", "$message#/a", "$request.header", "", "$.message.",
                                                     "\n$message.a", "$$message.a", "$message\n."]))
ADDRESS = st.one_of(gen.ADDRESSES, gen.TEXT, st.sampled_from(["{}", "{", "}", "}{", "{}{a", "a{}b", "{}{a}", "{{}", "{a", "a}", "[a]", "(a)", "{}}", "{{}}", "${a}", "{\n}", "{ }", "{}x}"]))

RULES = {       # rule -> (object, field, other required fields, base, oracle)
    "version": ("AsyncAPI3", "asyncapi", {"info": {"title": "t", "version": "1"}}, VERSION, oracle.version_ok),
    "email": ("Contact", "email", {}, EMAIL, oracle.email_ok),
    "location": ("CorrelationID", "location", {}, LOCATION, lambda s: s.startswith("$message.")),
    "reply location": ("OperationReplyAddress", "location", {}, LOCATION, None),
    "address": ("Channel", "address", {"parameters": {"a": {}}}, ADDRESS, oracle.has_expression),
    "free address": ("Channel", "address", {}, ADDRESS, lambda s: True),
    "empty parameters": ("Channel", "address", {"parameters": {}}, ADDRESS, oracle.has_expression),
}


@st.composite
def strings(draw, rule):
    owner, field, rest, base, ok = RULES[rule]
    s = draw(near(base))
    if draw(gen.UPTO[2]):
        return [rule, s, None, None]
    g = G(draw, 10)
    t = T("OBJ", (owner,))
    good = {k: v for k, v in rest.items()}
    good[field] = draw({"version": gen.VERSIONS, "email": gen.EMAIL, "location": gen.LOCATIONS, "reply location": gen.LOCATIONS}.get(rule, gen.ADDRESSES))
    v = g.obj(owner, good)
    doc, path = (v, []) if t == ROOT else gen.embed(g, t, v, sparse=draw(st.booleans()), strict=True)
    return [rule, s, doc, path]


def string_prop(case):
    rule, s, doc, path = case
    owner, field, rest, base, ok = RULES[rule]
    if rule == "version" and any(len(p) > 1 and p[0] == "0" for p in s.split("-")[0].split(".")):
        return None                 # semantic versions have no leading zeros; the documentation leaves them open
    want = ok(s)
    f = OBJS[owner].f(field)
    C = cls(owner)
    if doc is not None:
        m = must_parse(ROOT, doc)
        bad = oracle.set_at(doc, tuple(path) + (field,), s)
        if rule == "free address":
            want = oracle.conforms(ROOT, bad) is None
        m2, err = parse(ROOT, bad)
        decide(want, err is None, f"document with {rule} {s!r}", err)
        node = at(m, path)
        before = dump(m)
        try:
            setattr(node, f.py, s)
            err = None
        except ValueError as e:
            err = e
        decide(want, err is None, f"assignment of {rule} {s!r}", err)
        d = oracle.diff(oracle.expected(ROOT, bad) if want else before, dump(m))
        if d:
            raise Violation(f"after the assignment of {rule} {s!r}: {d}")
        return f"{rule}:{'good' if want else 'bad'}:document"
    v = {**rest, field: s}
    for how, fn in (("parsing", lambda: C.model_validate(v)), ("JSON", lambda: C.model_validate_json(json.dumps(v))),
                    ("construction", lambda: C(**{OBJS[owner].f(k).py: x for k, x in v.items()}))):
        m, err = attempt(fn)
        decide(want, err is None, f"{how} of {rule} {s!r}", err)
        if want:
            check_model(T("OBJ", (owner,)), v, m)
            if dump(m)[field] != s:
                raise Violation(f"{rule} {s!r} dumps as {dump(m)[field]!r}")
    return f"{rule}:{'good' if want else 'bad'}:alone"


def decide(want, got, what, err):
    if want and not got:
        raise Violation(f"{what} refused: {err}"[:400])
    if got and not want:
        raise Violation(f"{what} accepted")


RULES["reply location"] = (*RULES["reply location"][:4], lambda s: True)
URLS = [(o.name, f.name) for o in OBJS.values() for f in o.fields if f.type.kind in ("URL", "HTTPURL")]


@st.composite
def urls(draw, where):
    kind = OBJS[where[0]].f(where[1]).type.kind
    bad = mutate.BAD_URLS if kind == "URL" else mutate.BAD_HTTP
    how = draw(gen.UPTO[2])
    u = draw(gen.URL if kind == "URL" else gen.HTTPURL) if how == 0 else draw(st.sampled_from(bad)) if how == 1 else draw(near(gen.URL))
    return [*where, ["good", "bad", "any"][how], u]


def url_prop(case):
    owner, field, how, u = case
    base = {f.name: "https://example.com/" if f.type.kind in ("URL", "HTTPURL") else {} for f in OBJS[owner].fields if f.req}
    if owner == "AsyncAPI3":
        base["info"] = {"title": "t", "version": "1"}
    if owner == "Info":
        base = {"title": "t", "version": "1"}
    if owner == "SecurityScheme":
        base["type"] = "openIdConnect"
    if owner == "License":
        base["name"] = "n"
    t = T("OBJ", (owner,))
    m, err = parse(t, {**base, field: u})
    if how != "any":
        decide(how == "good", err is None, f"{owner}.{field} {u!r}", err)
    m2, err2 = attempt(cls(owner).model_validate_json, json.dumps({**base, field: u}))
    m3, err3 = attempt(lambda: cls(owner)(**{OBJS[owner].f(k).py: x for k, x in {**base, field: u}.items()}))
    if not (err is None) == (err2 is None) == (err3 is None):
        raise Violation(f"{owner}.{field} {u!r}: parsing, JSON and construction disagree")
    if err is None:
        d = dump(m)
        if not (m == m2 == m3):
            raise Violation(f"{owner}.{field} {u!r}: parsing, JSON and construction give different objects")
        if how == "good" and d[field] != u:
            raise Violation(f"{owner}.{field} {u!r} dumps as {d[field]!r}")
        again = must_parse(t, d, "the dump")
        if again != m or dump(again) != d:
            raise Violation(f"{owner}.{field} {u!r}: not stable over a dump")
        if OBJS[owner].f(field).type.kind == "HTTPURL" and not d[field].startswith(("http://", "https://")):
            raise Violation(f"{owner}.{field} accepts the scheme of {u!r}")
        setattr(m, OBJS[owner].f(field).py, "https://example.com/other")
        try:
            setattr(m, OBJS[owner].f(field).py, u)
        except ValueError as e:
            raise Violation(f"{owner}.{field}: assignment of {u!r} refused: {e}"[:300])
        if m != again:
            raise Violation(f"{owner}.{field}: assignment of {u!r} gives {dump(m)[field]!r}")
    else:
        m4 = must_parse(t, {**base, field: "https://example.com/other"})
        before = dump(m4)
        try:
            setattr(m4, OBJS[owner].f(field).py, u)
        except ValueError:
            pass
        else:
            raise Violation(f"{owner}.{field}: assignment of {u!r} accepted")
        if dump(m4) != before:
            raise Violation(f"{owner}.{field}: refused assignment of {u!r} changed the object")
    return f"url:{owner}.{field}:{'good' if err is None else 'bad'}"


GRIDS = {
    "Channel": {"address": [ABSENT, None, "", "a", "{a}", "a/{b}/c", "{}", "{", "}{", "{\n}"], "parameters": [ABSENT, {}, {"a": {}}, {"b": {"$ref": "#/components/parameters/b"}}],
                "title": [ABSENT, "t"], "messages": [ABSENT, {}]},
    "MessageExample": {"headers": [ABSENT, {}, {"a": 1}], "payload": [ABSENT, 0, "", False, [], {}, {"a": None}], "name": [ABSENT, "n"], "summary": [ABSENT, ""], "x-a": [ABSENT, 1]},
}


def tasks(tier):
    k = 1 if tier == "quick" else 60
    out = [Task(f"{rule}{i}", string_prop, strings(rule), n=400 * k) for rule in RULES for i in range(2)]
    out += [Task(f"url {o}.{f}", url_prop, urls([o, f]), n=80 * k) for o, f in URLS]
    grid = {n: {k: v for k, v in g.items() if k != "x-a"} for n, g in GRIDS.items()}
    return out + grids.grid_tasks(grid, tier)
