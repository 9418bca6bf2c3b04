"""The work of reading, checking and writing a document grows with its size, not faster."""
import copy
import json
import time

from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.checks import c14, c23
from pbt.count import Counter
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, at, attempt, cls
from pbt.table import OBJS, PMAPS, ROOT, T, variants

import asyncapi3.validators as V
from asyncapi3.validators.utils import resolve_reference

QUICK = 1            # multiplies the drawn cases of a quick run
ID = "C32"
RULE = ("A drawn document with good references is grown in one direction: copies of an entry of a map or list (at every position of a reference; also with a target of its own for each copy), every list, map and free-form field of every object, extension fields, the size and nesting of free-form content, the length of a text or name, or the "
        "length of a chain of references. The library lines executed by parsing, each reference validator, dumping, copying, comparing, resolving and filling, reading and emptying a map entry by entry are counted at three sizes, each twice the former. "
        "The increase must double at most (1% and 60 lines of tolerance; 10% for lengths of texts), and quadruple at most where every entry of a chain is followed to its end. "
        "Also strings of 150000 characters, drawn near the shapes of every rule, in every text field, key, extension name and reference: no operation may take 3 s. Non-trivial: some operation's work grows by at least 100 lines. Class = direction.")
ASSUMES = ["work is counted in executed lines of the library's Python code; C code (Pydantic, regular expressions) is not counted, only limited for long strings"]
MAJOR = [V.UnifiedReferencesValidator, V.TagsRefValidator, V.ExternalDocsRefValidator]
COUNT = Counter()


def operations(doc):
    """(name, function) of the operations whose work is counted."""
    m, err = attempt(AsyncAPI3.model_validate, doc)
    if err is not None:
        return None
    other = copy.deepcopy(m)

    def check(v):
        def fn():
            try:
                v()(m)
            except ValueError:
                pass
        return fn
    ops = [("parsing", lambda: AsyncAPI3.model_validate(doc))]
    ops += [(v.__name__, check(v)) for v in MAJOR]
    ops += [("dumping", lambda: m.model_dump(mode="json")), ("dumping JSON", m.model_dump_json), ("copying", lambda: copy.deepcopy(m)),
            ("comparing", lambda: m == other), ("validating again", lambda: AsyncAPI3.model_validate(m))]
    return ops


def work(doc, more=()):
    ops = operations(doc)
    if ops is None:
        return None
    ops += more
    out = {}
    for name, fn in ops:
        out[name] = COUNT.lines(fn)
    return out


def judge(make, sizes, what, power=1, tolerance=0.01, slack=60, more=None):
    """make(n) gives the document of size n; sizes double. True when the work grew visibly."""
    ws = []
    for n in [sizes[0]] + sizes:           # the first, uncounted, fills caches
        w = work(make(n), more(n) if more else ())
        if w is None:
            return False
        ws.append(w)
    ws = ws[1:]
    grew = False
    for op in ws[0]:
        a, b, c = (w[op] for w in ws)
        d1, d2 = b - a, c - b
        grew = grew or d1 >= 100
        if d2 > 2 ** power * (1 + tolerance) * max(d1, 0) + slack:
            raise Violation(f"{op} takes {a}, {b}, {c} lines for {sizes} {what}: more than {'in proportion' if power == 1 else 'with its square'}")
    return grew


# ---------------------------------------------------------------- copies of an entry
def containers(doc):
    return [(p, s.kind) for p, t, s, v in oracle.walk(ROOT, doc) if s is not None and s.kind in ("PMAP", "MAP", "LIST") and v]


@st.composite
def copies_at(draw, pos):
    how, doc = draw(c14.at_position(pos))
    paths = [p for p, r, e in refs.slots(doc)]
    cs = containers(doc)
    if not cs:
        return None
    near = [c for c in cs if any(p[:len(c[0])] == c[0] for p in paths)]
    pick = near if near and draw(gen.UPTO[3]) else cs
    path, kind = pick[draw(st.integers(0, len(pick) - 1))]
    v = oracle.get_at(doc, path)
    ks = list(v) if kind != "LIST" else list(range(len(v)))
    holds = [k for k in ks if any(p[:len(path) + 1] == path + (k,) for p in paths)]
    ks = holds if holds and draw(gen.UPTO[3]) else ks
    return [doc, list(path), kind, ks[draw(st.integers(0, len(ks) - 1))]]


def prop_copies(case):
    if case is None:
        return None
    doc, path, kind, k = case
    v = oracle.get_at(doc, path)
    one = v[k]

    def make(n):
        if kind == "LIST":
            return oracle.set_at(doc, tuple(path), v + [copy.deepcopy(one) for _ in range(n)])
        return oracle.set_at(doc, tuple(path), {**v, **{f"copy{i:05}": copy.deepcopy(one) for i in range(n)}})

    def fill(n):
        m = AsyncAPI3.model_validate(doc)
        coll = at(m, tuple(path))

        def fn():
            for i in range(n):
                coll[f"copy{i:05}"] = one
                len(coll)
            for i, name in enumerate(list(coll)):
                coll[name]
                name in coll
            for i in range(n):
                del coll[f"copy{i:05}"]
        return [("filling, reading and emptying entry by entry", fn)]
    sizes = [8, 16, 32] if len(refs.slots(doc)) < 6 else [4, 8, 16]
    what = f"copies of an entry of /{'/'.join(map(str, path))}"
    return f"copies:{kind}" if judge(make, sizes, what, more=fill if kind == "PMAP" else None) else None


# ---------------------------------------------------------------- copies of an entry, each with a target of its own
@st.composite
def pairs_at(draw, pos):
    g = G(draw, 6, refs=refs.EXTERNAL)
    doc, path = refs.place(g, pos, {"$ref": "https://placeholder.invalid/"}, extra=draw(gen.UPTO[3]) == 0)
    holders = [c for c in containers(doc) if c[0] == path[:len(c[0])] and len(c[0]) < len(path)]
    if not holders:
        return None
    where, kind = holders[draw(st.integers(0, len(holders) - 1))]
    name = draw(st.sampled_from(sorted(pos.expected)))
    return [doc, list(path), list(where), kind, refs.HOMES[name][0], refs.simple(g, name)]


def prop_pairs(case):
    if case is None:
        return None
    doc, path, where, kind, coll, obj = case
    path, where = tuple(path), tuple(where)
    if where == ("components", coll):
        return None
    one = oracle.get_at(doc, where)[path[len(where)]]
    inner = path[len(where) + 1:]

    def make(n):
        copies_ = [oracle.set_at(one, inner, {"$ref": f"#/components/{coll}/target{i:05}"}) for i in range(n)]
        v = oracle.get_at(doc, where)
        out = oracle.set_at(doc, where, v + copies_ if kind == "LIST" else {**v, **{f"copy{i:05}": x for i, x in enumerate(copies_)}})
        comp = out.get("components") or {}
        return {**out, "components": {**comp, coll: {**(comp.get(coll) or {}), **{f"target{i:05}": obj for i in range(n)}}}}
    return f"pairs:{kind}" if judge(make, [8, 16, 32], f"entries of /{'/'.join(map(str, where))} each referring to an entry of its own of {coll}") else None


# ---------------------------------------------------------------- extensions, content, texts, names
@st.composite
def growing(draw):
    doc = draw(refs.good_documents(budget=draw(st.sampled_from([10, 20, 40]))))
    objs = [p for p, t, s, v in oracle.walk(ROOT, doc) if s is not None and s.kind == "OBJ" and OBJS[s.args[0]].ext == "EXT" and isinstance(v, dict)]
    how = draw(st.sampled_from(["extensions", "content", "text", "name"]))
    path = objs[draw(st.integers(0, len(objs) - 1))]
    if how == "name":
        maps = [p for p, t, s, v in oracle.walk(ROOT, doc) if s is not None and s.kind == "PMAP" and v]
        if not maps:
            return None
        path = maps[draw(st.integers(0, len(maps) - 1))]
        ks = list(oracle.get_at(doc, path))
        return [how, doc, list(path), ks[draw(st.integers(0, len(ks) - 1))]]
    return [how, doc, list(path), draw(gen.JSON) if how != "text" else draw(st.sampled_from(["a", "ab. ", "#/", ".", "\\", "$ref ", "é"]))]


def prop_growing(case):
    if case is None:
        return None
    how, doc, path, x = case
    at = oracle.get_at(doc, path)

    def make(n):
        if how == "extensions":
            new = {**at, **{f"x-more{i:05}": x for i in range(n)}}
        elif how == "content":
            new = {**at, "x-more": {f"k{i:05}": [x, {"$ref": "#/nowhere"}] for i in range(n)}}
        elif how == "text":
            new = {**at, "x-more": x * n}
        else:
            new = {k: v for k, v in at.items() if k != x}
            new["n" * n] = at[x]
        return oracle.set_at(doc, tuple(path), new)
    sizes = [40, 80, 160] if how == "name" else [64, 128, 256]
    return f"growing:{how}" if judge(make, sizes, how, tolerance=0.1 if how in ("text", "name") else 0.01) else None


# ---------------------------------------------------------------- every list, map and free-form field of every object
FIELDS = [(o.name, f.name, v.kind) for o in OBJS.values() for f in o.fields for v in variants(f.type) if v.kind in ("LIST", "MAP", "PMAP", "ANY")]


@st.composite
def filled(draw, item):
    o, f, kind = item
    g = G(draw, 8, refs=refs.EXTERNAL)
    t = next(v for v in variants(OBJS[o].f(f).type) if v.kind == kind)
    how = kind
    if kind == "ANY" or (kind == "MAP" and t.args[0].kind == "ANY"):
        one = draw(gen.JSON)
        how = draw(st.sampled_from(["content", "nesting"]))
    else:
        one = g.value(PMAPS[t.args[0]].value if kind == "PMAP" else t.args[0])
    start = {} if how != "LIST" else []
    doc, path = gen.embed(g, T("OBJ", (o,)), g.obj(o, {f: start}))
    return [doc, path + [f], how, one, draw(st.lists(st.sampled_from(["[", "a", "$ref", "x-a", "tags"]), min_size=1, max_size=3))]


def prop_filled(case):
    doc, path, how, one, rings = case

    def make(n):
        if how == "LIST":
            v = [copy.deepcopy(one) for _ in range(n)]
        elif how == "nesting":
            v = one
            for i in range(n):
                r = rings[i % len(rings)] if i < n - 1 else "a"
                v = [v] if r == "[" else {r: v, "b": i}
        elif how == "content":
            v = {f"k{i:05}": [one, {"$ref": "#/nowhere"}] for i in range(n)}
        else:
            v = {f"k{i:05}": copy.deepcopy(one) for i in range(n)}
        return oracle.set_at(doc, tuple(path), v)
    return f"field:{how}" if judge(make, [9, 18, 36], f"{how} of /{'/'.join(map(str, path))}") else None


# ---------------------------------------------------------------- chains of references
@st.composite
def chain(draw):
    g = G(draw, 5, refs=refs.EXTERNAL)
    name = draw(st.sampled_from(sorted(refs.HOMES)))
    return [refs.HOMES[name][0], refs.simple(g, name), draw(st.sampled_from(["good", "missing", "cycle", "fan"]))]


def prop_chain(case):
    coll, obj, end = case

    def make(n):
        if end == "fan":               # many references to the start of one chain
            comp = {f"c{i:05}": {"$ref": f"#/components/{coll}/c{i + 1:05}"} for i in range(20)}
            comp["c00020"] = obj
            comp |= {f"f{i:05}": {"$ref": f"#/components/{coll}/c00000"} for i in range(n)}
        else:
            comp = {f"c{i:05}": {"$ref": f"#/components/{coll}/c{i + 1:05}"} for i in range(n)}
            if end == "cycle":
                comp[f"c{n:05}"] = {"$ref": f"#/components/{coll}/c00000"}
            elif end == "good":
                comp[f"c{n:05}"] = obj
        return {"info": {"title": "t", "version": "1"}, "components": {coll: comp}}

    grew = judge(make, [16, 32, 64] if end == "fan" else [8, 16, 32], f"references in a chain ({end})", power=1 if end == "fan" else 2)
    lines = []
    for n in (40, 80, 160):                # one reference, followed to its end
        m = AsyncAPI3.model_validate(make(n))

        def follow():
            try:
                resolve_reference(f"#/components/{coll}/c00000", m)
            except ValueError:
                pass
        lines.append(COUNT.lines(follow))
    a, b, c = lines
    if end != "fan" and c - b > 2.02 * (b - a) + 60:
        raise Violation(f"resolving takes {a}, {b}, {c} lines for a chain of 40, 80, 160 references ({end})")
    return f"chain:{end}" if grew else None


# ---------------------------------------------------------------- long strings
LIMIT = 3.0         # seconds of CPU; what is linear takes milliseconds
UNITS = ["a", "-", "_", ".", "0", "a.", "a-", "@", "a@", "{", "{a}", "{a", "}{", "#", "/", "//", ":", "x-", "1.", ".0", "-a", " ", "\n", "\\", "~1", "$", "$message.", "$ref", "é", "[1]", "*", "%41", "root.", "a*"]
HEADS = ["", "", "a", "x-", "#/", "#/components/tags/", "https://example.com/", "$message.header#", "$message.payload#/", "3.0.0-", "a@", "{", "urn:"]
TAILS = ["", "", "!", "\n", " ", "@", "é", "}", "/", "#", "."]
TEXTS = [(o.name, f.name) for o in OBJS.values() for f in o.fields if any(v.kind in ("STR", "URL", "HTTPURL", "EMAIL") for v in variants(f.type))]
RULED = [("AsyncAPI3", "asyncapi"), ("AsyncAPI3", "id"), ("Contact", "email"), ("Contact", "url"), ("CorrelationID", "location"), ("OperationReplyAddress", "location"), ("Channel", "address"),
         ("Parameter", "location"), ("SecurityScheme", "scheme"), ("SecurityScheme", "openIdConnectUrl"), ("ExternalDocumentation", "url"), ("Server", "host"), ("SolaceServerBindings", "clientName"),
         ("@key", n := sorted(PMAPS)[0]), *(("@key", x) for x in sorted(PMAPS) if x != n), ("@extension", "Info"), ("@extension", "Channel"), ("@extension", "Server"), ("@ref", "Tag"), ("@ref", "Channel"), ("@ref", "Schema")]


@st.composite
def long_string(draw, where):
    return [list(where), draw(st.sampled_from(HEADS)), draw(st.sampled_from(UNITS)), draw(st.sampled_from(TAILS))]


def prop_long(case):
    (owner, name), head, unit, tail = case
    for n in (30, 400, 150_000):
        text = head + unit * (n // len(unit)) + tail
        for op, fn in long_operations(owner, name, text):
            t = time.process_time()
            try:
                fn()
            except ValueError:
                pass
            t = time.process_time() - t
            if t > LIMIT:
                raise Violation(f"{op} with a string of {n} characters ({head!r} + {unit!r} * {n // len(unit)} + {tail!r}) at {owner} {name} takes {t:.1f} s of CPU")
    return f"long:{owner}"


def long_operations(owner, name, text):
    info = {"title": "t", "version": "1"}
    if owner == "@key":
        C = cls(name)
        m = C.model_validate({})
        value = {"$ref": "#/a/b"}
        return [("reading a key", lambda: C.model_validate({text: value})), ("setting a key", lambda: m.__setitem__(text, value))]
    if owner == "@extension":
        C = cls(name)
        base = c23.minimal(name)
        m = C.model_validate(base)
        return [("reading an extension", lambda: C.model_validate({**base, text: 1})), ("setting an extension", lambda: setattr(m, text, 1))]
    if owner == "@ref":
        at_ = {"Tag": {"info": {**info, "tags": [{"$ref": text}]}}, "Channel": {"info": info, "channels": {"a": {"$ref": text}}},
               "Schema": {"info": info, "components": {"schemas": {"a": {"$ref": text}}}}}[name]
        m = AsyncAPI3.model_validate(at_)
        return [("reading a reference", lambda: AsyncAPI3.model_validate(at_))] + [(v.__name__, lambda v=v: v()(m)) for v in MAJOR]
    C = cls(owner)
    base = {**c23.minimal(owner), **({"parameters": {"a": {}}} if (owner, name) == ("Channel", "address") else {})}
    return [("reading", lambda: C.model_validate({**base, name: text})), ("reading JSON", lambda: C.model_validate_json(json.dumps({**base, name: text})))]


def tasks(tier):
    k = 1 if tier == "quick" else 12
    return (foreach("copies", prop_copies, refs.POSITIONS, copies_at, k, chunk=24)
            + foreach("pairs", prop_pairs, refs.POSITIONS, pairs_at, k, chunk=24)
            + foreach("filled", prop_filled, FIELDS, filled, 4 * k, chunk=16)
            + foreach("long rule", prop_long, RULED, long_string, 300 * k, chunk=4)
            + foreach("long text", prop_long, TEXTS, long_string, 12 * k, chunk=40)
            + [Task(f"growing{i}", prop_growing, growing(), n=60 * k, weight=2) for i in range(4)]
            + [Task(f"chain{i}", prop_chain, chain(), n=24 * k) for i in range(2)])
