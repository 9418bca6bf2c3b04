"""Document names and Python names are interchangeable on input; dumps always use document names."""
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import attempt, check_model, cls, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C07"
RULE = ("Valid objects/documents in which a drawn subset of the fields whose document name differs from the Python name is written under the Python "
        "name, at every depth; each aliased field of the table is focused in turn. The result must equal that of the document spelling, and be the "
        "same through keyword arguments. Non-trivial: at least one field was renamed. Class = object:renamed fields, bucketed.")
ASSUMES = ["one spelling per field (giving both is not decided)"]
ALIASED = [(o.name, f.name) for o in OBJS.values() for f in o.fields if f.name != f.py]


def rename(t, v, pick):
    """v with fields respelt where pick() says so."""
    s = oracle.select(t, v)
    if s is None:
        return v
    k = s.kind
    if k == "REF":
        return {"ref": v["$ref"]} if pick() and not any(x.kind == "MAP" for x in variants(t)) else v
    if k == "LIST":
        return [rename(s.args[0], x, pick) for x in v]
    if k == "MAP":
        return {a: rename(s.args[0], x, pick) for a, x in v.items()}
    if k == "PMAP":
        return {a: rename(PMAPS[s.args[0]].value, x, pick) for a, x in v.items()}
    if k == "OBJ":
        if any(x.kind == "MAP" for x in variants(t)):
            return v
        out = {}
        fs = {f.name: f for f in OBJS[s.args[0]].fields}
        for a, x in v.items():
            if a in fs and x is not None:
                y = rename(fs[a].type, x, pick)
                out[fs[a].py if fs[a].py != a and pick() else a] = y
            else:
                out[a] = x
        return out
    return v


@st.composite
def focused(draw, target):
    name, fname = target
    g = G(draw, 15)
    v = g.obj(name, {fname: g.field(name, OBJS[name].f(fname))})
    always = draw(st.booleans())
    pick = (lambda: True) if always else (lambda: draw(st.booleans()))
    if draw(st.booleans()) or name in ("Reference",):
        return [name, "self", v, rename(T("OBJ", (name,)), v, pick)]
    doc, path = gen.embed(g, T("OBJ", (name,)), v, strict=True)
    return ["AsyncAPI3", "doc", doc, rename(ROOT, doc, pick) if always else
            oracle.set_at(doc, path, rename(T("OBJ", (name,)), oracle.get_at(doc, path), pick))]


@st.composite
def whole(draw):
    doc = draw(gen.documents(budget=150))
    return ["AsyncAPI3", "doc", doc, rename(ROOT, doc, (lambda: True) if draw(st.booleans()) else (lambda: draw(st.booleans())))]


def prop(case):
    name, where, v, new = case
    t = T("OBJ", (name,))
    m1 = must_parse(t, v)
    m2 = must_parse(t, new, "document with Python field names")
    check_model(t, v, m2)
    d1, d2 = dump(m1), dump(m2)
    d = oracle.diff(d1, d2)
    if d:
        raise Violation(f"Python field names give another object: {d}")
    d = oracle.diff(oracle.expected(t, v), d2)
    if d:
        raise Violation(f"dump does not use the document names: {d}")
    if not m1 == m2:
        raise Violation("Python field names give an unequal object")
    m3, err = attempt(cls(name), **new) if "self" not in new else (m2, None)
    if err is not None:
        raise Violation(f"keyword arguments rejected: {first(err)}")
    d = oracle.diff(d1, dump(m3))
    if d:
        raise Violation(f"keyword arguments give another object: {d}")
    if v == new:
        return None
    return f"{where}:{name}"


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return foreach("field", prop, ALIASED, focused, 14 * k, chunk=10) + [Task(f"documents{i}", prop, whole(), n=120 * k) for i in range(4)]
