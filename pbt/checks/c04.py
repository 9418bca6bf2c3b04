"""Structural rejection: unknown fields, missing required fields, wrong types, values outside enumerations."""
from hypothesis import strategies as st

from pbt import gen, mutate, oracle, words
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import must_parse, must_reject, parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

ID = "C04"
RULE = ("One defect (unknown field, missing or null required field, value of a wrong type, of the right meaning in the wrong shape, or outside the enumeration) is put into a generated "
        "valid object at every (object, field, defect) of the reference table; the object is parsed alone and inside a whole valid document at a "
        "random position, or as one entry of a long list or large map. Non-trivial: the reference oracle (or, for URLs, the list of malformed URLs) says the value is invalid, and the same "
        "document without the defect is accepted. Class = defect:where.")
ASSUMES = ["wrong-type values are ones pydantic's documented lax coercions do not accept"]


def targets():
    out = []
    for o in OBJS.values():
        if o.ext != "OPEN":
            out.append((o.name, None, "unknown"))
        for f in o.fields:
            if f.req:
                out.append((o.name, f.name, "missing"))
                if f.type.kind != "ANY":
                    out.append((o.name, f.name, "null"))
            if f.type.kind != "ANY" and not (o.name == "KafkaMessageBindings" and f.name == "key"):
                out.append((o.name, f.name, "wrong"))
                if f.type.kind not in ("STR", "INT", "BOOL", "LIT", "URL", "HTTPURL", "EMAIL"):
                    out.append((o.name, f.name, "shape"))
    out += [(p, None, "pmap") for p in PMAPS]
    return out


@st.composite
def bad(draw, target, whole):
    name, fname, how = target
    if how == "pmap":
        t = T("PMAP", (name,))
        v = draw(mutate.bad_value(t))
    else:
        t = T("OBJ", (name,))
        v = draw(mutate.bad_object(name, how=how, fname=fname))
    if not whole:
        return [name, how, "self", None, v]
    g = G(draw, budget=20)
    if t == ROOT:
        return [name, how, "doc", [], v]
    good = g.value(t)
    doc, path = gen.embed(g, t, good, sparse=draw(st.booleans()), strict=True)
    return [name, how, "doc", path, oracle.set_at(doc, path, v)]


def crowds():
    out = []
    for o in OBJS.values():
        for f in o.fields:
            for v in variants(f.type):
                if v.kind in ("LIST", "MAP", "PMAP") and not (v.kind != "PMAP" and v.args[0].kind == "ANY") and o.name != "KafkaMessageBindings":
                    out.append((o.name, f.name, v))
    return out


@st.composite
def crowded(draw, target):
    """An object with one long list or large map, one entry of which is invalid."""
    name, fname, v = target
    g = G(draw, 6)
    vt = PMAPS[v.args[0]].value if v.kind == "PMAP" else v.args[0]
    good = G(draw, 2, density=0).value(vt)
    n = gen.affordable(draw(st.sampled_from(words.sizes(2500, [10, 40, 70, 130, 260]))), good)
    at = draw(st.sampled_from([0, n // 2, n - 1, n]))
    bad = draw(mutate.bad_value(vt))
    items = [good] * n
    items.insert(at, bad)
    if v.kind != "LIST":
        items = {f"k{i}": x for i, x in enumerate(items)}
    return [name, "crowd", "self", None, g.obj(name, {fname: items})]


def has_bad_url(t, v):
    for _, _, s, x in oracle.walk(t, v):
        if s is not None and s.kind in ("URL", "HTTPURL") and (not isinstance(x, str) or x in mutate.BAD_URLS or
                                                               s.kind == "HTTPURL" and x in mutate.BAD_HTTP):
            return True
    return False


def prop(case):
    name, how, where, path, v = case
    t = ROOT if where == "doc" else T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    why = oracle.conforms(t, v) or (has_bad_url(t, v) and "malformed URL")
    if not why:
        return None
    must_reject(t, v, why)
    return f"{how}:{where}"


def tasks(tier):
    k = 1 if tier == "quick" else 25
    ts = targets()
    return (foreach("crowded", prop, crowds(), crowded, 10 * k, chunk=12) + foreach("alone", prop, ts, lambda t: bad(t, False), 8 * k, chunk=30)
            + foreach("in-document", prop, ts, lambda t: bad(t, True), 5 * k, chunk=30))
