"""The same document read from a dict, JSON text, YAML, keyword arguments or model instances gives the same object."""
import json

import yaml
from hypothesis import strategies as st
from pydantic import AnyUrl, HttpUrl

from pbt import gen, oracle
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, cls, dump, first, must_parse, parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

QUICK = 9            # multiplies the drawn cases of a quick run
ID = "C08"
RULE = ("Valid documents and objects of every table type are given to the library as a dict, as JSON text (two encodings, str and bytes), as the "
        "YAML load of a YAML dump, as keyword arguments, and built bottom-up from instances of the library's own classes; all results must be equal "
        "and dump alike. Malformed ones must be refused by every route alike, and instances of a class that may not stand in a field refused there, however alike. Non-trivial: at least 4 typed nodes (valid), or refused by the dict "
        "route. Class = verdict:object.")
ASSUMES = ["an object given where a list is expected is not decided (Pydantic takes any iterable)", "YAML is compared only when PyYAML itself round-trips the document"]


def build(t, v, path=""):
    """v as a tree of library instances, constructed leaf first with keyword arguments."""
    s = oracle.select(t, v)
    k = s.kind
    if k == "OBJ":
        if any(x.kind == "MAP" for x in variants(t)):
            return v
        kw = {}
        fs = {f.name: f for f in OBJS[s.args[0]].fields}
        for a, x in v.items():
            if a in fs and x is not None:
                kw[fs[a].py] = build(fs[a].type, x, f"{path}/{a}")
            else:
                kw[a] = x
        if "self" in kw:
            return cls(s.args[0]).model_validate(kw)
        m, err = attempt(cls(s.args[0]), **kw)
    elif k == "PMAP":
        m, err = attempt(cls(s.args[0]), {a: build(PMAPS[s.args[0]].value, x, f"{path}/{a}") for a, x in v.items()})
    elif k == "REF":
        m, err = attempt(cls("Reference"), ref=v["$ref"])
    elif k == "LIST":
        return [build(s.args[0], x, f"{path}/{i}") for i, x in enumerate(v)]
    elif k == "MAP":
        return {a: build(s.args[0], x, f"{path}/{a}") for a, x in v.items()}
    elif k in ("URL", "HTTPURL"):
        return (AnyUrl if k == "URL" else HttpUrl)(v)
    else:
        return v
    if err is not None:
        raise Violation(f"building from instances fails at {path or '/'}: {first(err)}")
    return m


def routes(name, v):
    c = cls(name)
    yield "JSON text", lambda: c.model_validate_json(json.dumps(v))
    yield "JSON text, unescaped", lambda: c.model_validate_json(json.dumps(v, ensure_ascii=False, indent=1))
    yield "JSON bytes", lambda: c.model_validate_json(json.dumps(v, ensure_ascii=False).encode())
    try:
        y = yaml.safe_load(yaml.safe_dump(v, allow_unicode=True, sort_keys=False))
        if oracle.diff(v, y) is None:
            yield "YAML", lambda: c.model_validate(y)
    except (yaml.YAMLError, ValueError):
        pass
    if name in OBJS and isinstance(v, dict) and "self" not in v:
        yield "keyword arguments", lambda: c(**v)


def prop(case):
    name, v = case
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    m = must_parse(t, v)
    d0 = dump(m)
    for how, fn in routes(name, v):
        m2, err = attempt(fn)
        if err is not None:
            raise Violation(f"accepted as a dict, refused as {how}: {first(err)}")
        d = oracle.diff(d0, dump(m2))
        if d:
            raise Violation(f"{how} gives another object than the dict: {d}")
        if not m2 == m:
            raise Violation(f"{how} gives an unequal object")
    b = build(t, v)
    d = oracle.diff(d0, dump(b))
    if d:
        raise Violation(f"built from instances: {d}")
    if not b == m:
        raise Violation("the object built from instances is not equal to the parsed one")
    n = sum(1 for _ in oracle.walk(t, v))
    return f"accepted:{name}" if n >= 4 else None


def prop_bad(case):
    name, v = case
    if oracle.conforms(T("OBJ", (name,)), v) is None:
        return None
    m, err = parse(name, v)
    if err is None:
        return None                    # decided by other properties
    for how, fn in routes(name, v):
        m2, err = attempt(fn)
        if err is None:
            raise Violation(f"refused as a dict, accepted as {how}")
    return f"refused:{name}"


def lookalikes():
    """type -> other types, those that could be taken for it (all fields it needs) first."""
    out = {}
    names = [o.name for o in OBJS.values() if o.name != "AsyncAPI3"]
    for e in names:
        need = {f.py for f in OBJS[e].fields if f.req}
        have = {f.py for f in OBJS[e].fields}
        same = [n for n in names if n != e and need <= {f.py for f in OBJS[n].fields}]
        same.sort(key=lambda n: -len(have & {f.py for f in OBJS[n].fields}))
        out[e] = (same[:6], [n for n in names if n != e and n not in same])
    return out


LOOK = lookalikes()
HOLDERS = [(o.name, f.name) for o in OBJS.values() for f in o.fields
           if any(v.kind in ("OBJ", "PMAP", "REF", "LIST", "MAP") for v in variants(f.type)) and not any(v.kind == "ANY" for v in variants(f.type))]


@st.composite
def foreign_cases(draw, holder):
    """An instance of a class that may not stand in a field, given there all the same."""
    owner, fname = holder
    f = OBJS[owner].f(fname)
    g = gen.G(draw, 10)
    base = {k: v for k, v in g.obj(owner).items() if k != fname}
    vs, how = variants(f.type), "field"
    v = vs[draw(st.integers(0, len(vs) - 1))]
    if v.kind in ("LIST", "MAP") and variants(v.args[0])[0].kind != "ANY" and (v.kind == "LIST" or draw(st.booleans())):
        how = v.kind
        vs = variants(v.args[0])
    elif v.kind == "PMAP" and draw(st.booleans()):
        how = "PMAP"
        vs = variants(PMAPS[v.args[0]].value)
    fits = {x.args[0] for x in vs if x.kind == "OBJ"} | ({"Reference"} if any(x.kind == "REF" for x in vs) else set())
    near = [n for e in sorted(fits) if e in LOOK for n in LOOK[e][0] if n not in fits]
    rest = sorted(set(OBJS) - fits - {"AsyncAPI3"})
    pick = near if near and draw(gen.UPTO[2]) else rest
    name = pick[draw(st.integers(0, len(pick) - 1))]
    x = gen.G(draw, 6).value(T("OBJ", (name,))) if name != "Reference" else {"$ref": draw(gen.REFSTR)}
    if draw(gen.UPTO[5]) == 0 and not any(y.kind == "LIST" for y in vs):       # a map is an iterable: lists take its keys
        maps = sorted(n for n in PMAPS if not any(y.kind == "PMAP" and y.args[0] == n for y in vs))
        name = maps[draw(st.integers(0, len(maps) - 1))]
        x = gen.G(draw, 6).value(T("PMAP", (name,)))
    return [owner, fname, base, how, name, x]


def foreign(case):
    owner, fname, base, how, name, x = case
    f = OBJS[owner].f(fname)
    made, err = attempt(cls(name).model_validate, x)
    if err is not None:
        return None
    vs = [v for v in variants(f.type) if how == "field" or v.kind == how]
    if how != "field":
        vs = variants(PMAPS[vs[0].args[0]].value if how == "PMAP" else vs[0].args[0])
    if any(v.kind == "LIST" for v in vs):
        return None                    # a list takes any iterable, and models are
    ok = tuple(cls(v.args[0]) for v in vs if v.kind in ("OBJ", "PMAP")) + ((cls("Reference"),) if any(v.kind == "REF" for v in vs) else ())
    if isinstance(made, ok):
        return None
    put = {"field": made, "LIST": [made], "MAP": {"k": made}, "PMAP": {"k": made}}[how]
    c = cls(owner)
    what = f"an instance of {name} is accepted as {fname} of {owner} ({how})"
    _, err = attempt(c.model_validate, {**base, fname: put})
    if err is None:
        raise Violation(f"parsing: {what}")
    if "self" not in base:
        _, err = attempt(c, **{**base, f.py: put})
        if err is None:
            raise Violation(f"construction: {what}")
    m, err = attempt(c.model_validate, base)
    if err is None:
        before = dump(m)
        try:
            setattr(m, f.py, put)
        except ValueError:
            pass
        else:
            raise Violation(f"assignment: {what}")
        if oracle.diff(before, dump(m)):
            raise Violation(f"the refused assignment of a {name} to {fname} changed the {owner}")
    if how == "PMAP":
        coll = cls(next(v for v in variants(f.type) if v.kind == "PMAP").args[0]).model_validate({})
        try:
            coll["k"] = made
        except ValueError:
            pass
        else:
            raise Violation(f"item assignment: {what}")
        if len(coll):
            raise Violation("a refused item stays")
    return f"foreign:{how}"


def tasks(tier):
    from pbt import mutate
    k = 1 if tier == "quick" else 25
    names = list(OBJS) + list(PMAPS)

    def bad(n):
        return mutate.bad_object(n).map(lambda v: [n, v]).filter(lambda c: c[1] is not None)
    hasbad = [o.name for o in OBJS.values() if o.fields and o.name not in ("KafkaTopicConfiguration",)]
    return ([Task(f"documents{i}", prop, gen.documents(budget=b).map(lambda d: ["AsyncAPI3", d]), n=100 * k, weight=2) for i, b in enumerate([60, 60, 100, 150, 250])]
            + foreach("objects", prop, names, lambda n: gen.anyof(n).map(lambda v: [n, v]), 10 * k, chunk=12)
            + foreach("foreign", foreign, HOLDERS, foreign_cases, 2 * k, chunk=30)
            + foreach("refused", prop_bad, hasbad, bad, 5 * k, chunk=20))
