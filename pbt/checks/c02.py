"""Faithful parsing: attributes and dump say exactly what the document says, plus documented defaults."""
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import check_faithful
from pbt.table import OBJS, PMAPS, ROOT, T, variants

ID = "C02"
RULE = ("For every (object, field, union variant) of the reference table, values are drawn for that field and placed in an object that is "
        "either parsed on its own or embedded in a whole document along a random path; plus whole random documents. The oracle is the table. "
        "Non-trivial: the case sets the focused field, or the document has at least 5 typed nodes. Class = object name (focused) or 'document'.")
ASSUMES = ["URLs are generated in the normal form pydantic prints", "no lone surrogates, NaN or infinities",
           "a {'$ref': s} with siblings is outside the domain"]


def targets():
    out = []
    for o in OBJS.values():
        for f in o.fields:
            vs = variants(f.type)
            for i, v in enumerate(vs):
                if o.name == "KafkaMessageBindings" and f.name == "key" and i == 2:
                    continue
                out.append((o.name, f.name, i))
        if not o.fields:
            out.append((o.name, None, 0))
    for p in PMAPS.values():
        for i, v in enumerate(variants(p.value)):
            out.append((p.name, "*", i))
    return out


@st.composite
def focused(draw, target, whole):
    name, fname, i = target
    g = G(draw, budget=25)
    if fname is None:
        v, t = g.obj(name), T("OBJ", (name,))
    elif fname == "*":
        t = T("PMAP", (name,))
        vt = variants(PMAPS[name].value)[i]
        v = {k: g.value(vt if n == 0 else PMAPS[name].value) for n, k in enumerate(g.keys(1, 3))}
    else:
        t = T("OBJ", (name,))
        f = OBJS[name].f(fname)
        vs = variants(f.type)
        if len(vs) > 1:
            if name == "SolaceOperationBindings" and fname == "priority" and i == 0:
                x = draw(gen.PRIORITY)
            else:
                x = g.value(vs[i], f.maxlen, name)
        else:
            x = g.field(name, f)
        v = g.obj(name, {fname: x}, only=draw(st.booleans()))
    if whole:
        doc, path = gen.embed(g, t, v, sparse=draw(st.booleans()))
        return [name, "doc", doc]
    return [name, "self", v]


def prop(case):
    name, where, v = case
    t = ROOT if where == "doc" else T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    why = oracle.conforms(t, v)
    if why:
        raise RuntimeError(f"generator made an invalid case: {why}: {v!r}")
    check_faithful(t, v)
    return f"{where}:{name}"


def prop_doc(case):
    why = oracle.conforms(ROOT, case)
    if why:
        raise RuntimeError(f"generator made an invalid case: {why}: {case!r}")
    check_faithful(ROOT, case)
    n = sum(1 for _ in oracle.walk(ROOT, case))
    return "document" if n >= 5 else None


def tasks(tier):
    k = 1 if tier == "quick" else 25
    ts = targets()
    return (foreach("field", prop, ts, lambda t: focused(t, False), 5 * k, chunk=25)
            + foreach("field-in-document", prop, ts, lambda t: focused(t, True), 5 * k, chunk=25)
            + [Task(f"documents{i}", prop_doc, gen.documents(budget=b), n=150 * k) for i, b in enumerate([60, 100, 150, 250, 400])]
            + [Task("deep", prop_doc, gen.deep_documents(), n=60 * k)])
