"""Reference or inline object: decided by the document, in every position."""
import json

from hypothesis import strategies as st

from pbt import gen, mutate, oracle
from pbt.gen import G, REFSTR
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, at, attempt, check_faithful, check_model, cls, dump, first, must_parse, must_reject
from pbt.table import OBJS, PMAPS, ROOT, T, accepts_ref, variants

QUICK = 7            # multiplies the drawn cases of a quick run
ID = "C12"
RULE = ("For every field and map of the reference table that may hold a reference: {'$ref': s} with arbitrary s, the Python spelling, a Reference "
        "instance, every inline variant, and reference look-alikes (siblings, non-string $ref) - alone and in whole documents; for every field that may "
        "not hold one: {'$ref': s} is refused. Non-trivial: always. Class = form:verdict.")
ASSUMES = ["a {'$ref': s} with siblings where a Schema may stand is not decided"]


def positions():
    """(owner kind, owner, field, element type) with the type of one slot (list/map elements are slots of their own)."""
    out = []

    def slots(owner, fname, t, wrap):
        out.append((owner, fname, t, wrap))
        for v in variants(t):
            if v.kind in ("LIST", "MAP"):
                slots(owner, fname, v.args[0], wrap + [v.kind])
    for o in OBJS.values():
        if o.name == "Reference":
            continue
        for f in o.fields:
            slots(o.name, f.name, f.type, [])
    for p in PMAPS.values():
        slots(p.name, None, p.value, ["PMAP"])
    return [x for x in out if x[2].kind in ("UNION", "REF", "OBJ", "PMAP") and repr(x[2]) != gen.AMBIGUOUS
            and not (x[2].kind == "UNION" and any(v.kind == "MAP" for v in variants(x[2])))]


def wrapped(g, wrap, x, t):
    path = []
    v = x
    for w in reversed(wrap):
        if w == "LIST":
            n = g.draw(st.integers(0, 2))
            v = [g.value(t) for _ in range(n)] + [v]
            path.insert(0, n)
        else:
            k = g.draw(gen.KEY)
            others = {kk: g.value(t) for kk in g.keys(0, 1) if kk != k}
            v = {**others, k: v}
            path.insert(0, k)
    return v, path


@st.composite
def case_for(draw, pos):
    owner, fname, t, wrap = pos
    g = G(draw, 15)
    forms = ["ref", "ref", "lookalike"]
    inl = [v for v in variants(t) if v.kind != "REF"]
    if inl:
        forms.append("inline")
    form = draw(st.sampled_from(forms))
    if form == "inline":
        i = draw(st.integers(0, len(inl) - 1))
        x = g.value(inl[i])
        if owner == "SolaceOperationBindings" and fname == "priority" and inl[i].kind == "INT":
            x = draw(gen.PRIORITY)
    elif form == "ref":
        x = {"$ref": draw(REFSTR)}
    else:
        schema = any(v.kind == "OBJ" and v.args[0] in ("Schema", "MultiFormatSchema") for v in variants(t))
        x = draw(st.sampled_from([{"$ref": 5}, {"$ref": None}, {"$ref": []}, {"$ref": True}, {"$ref": {}}] + ([] if schema else [
            {"$ref": "#/a/b", "description": "d"}, {"$ref": "#/a/b", "x-a": 1}, {"$ref": "#/a", "name": "n"}, {"$ref": "#/a", "summary": "s"},
            {"$ref": "#/a", "url": "https://example.com/"}, {"$REF": "#/a"}, {"$ref ": "#/a"}, {"_ref": "#/a"}])))
    inner, p2 = wrapped(g, wrap if fname else wrap[1:], x, t)
    if fname:
        # start from an object with a valid value there, then put the drawn one in
        base = g.obj(owner, {fname: g.field(owner, OBJS[owner].f(fname))})
        v = {**base, fname: inner}
        path = [fname] + p2
        ot = T("OBJ", (owner,))
    else:
        k = draw(gen.KEY)
        v, path, ot = {k: inner}, [k] + p2, T("PMAP", (owner,))
    if draw(st.booleans()):
        doc, p = gen.embed(g, ot, {} if not fname else base, sparse=True, strict=True)
        doc = oracle.set_at(doc, tuple(p), v)
        return [form, "doc", None, doc, list(p) + path]
    return [form, "self", owner, v, path]


def prop(case):
    form, where, owner, v, path = case
    t = ROOT if where == "doc" else T("PMAP", (owner,)) if owner in PMAPS else T("OBJ", (owner,))
    why = oracle.conforms(t, v)
    if why:
        must_reject(t, v, why)
        if form == "ref":
            # the Python spelling must not slip through either
            x = oracle.get_at(v, path)
            v2 = oracle.set_at(v, tuple(path), {"ref": x["$ref"]})
            if oracle.conforms(t, v2):
                must_reject(t, v2, why)
        return f"{form}:refused"
    m = check_faithful(t, v)
    x = oracle.get_at(v, path)
    got = at(m, path)
    if form == "ref":
        R = cls("Reference")
        if type(got) is not R and not isinstance(got, (cls("Schema"), cls("KafkaTopicConfiguration"))):
            raise Violation(f"reference parsed as {type(got).__name__}")
        if type(got) is R:
            text = m.model_dump_json()
            d = oracle.diff(x, oracle.get_at(json.loads(text), path))
            if d:
                raise Violation(f"JSON text of the reference differs: {d}")
            for how, alt in (("ref spelling", {"ref": x["$ref"]}), ("Reference instance", R(ref=x["$ref"]))):
                m2 = must_parse(t, oracle.set_at(v, tuple(path), alt), how)
                if type(at(m2, path)) is not R or not m2 == m:
                    raise Violation(f"{how} parsed differently")
    elif form == "inline" and isinstance(got, cls("Reference")):
        raise Violation("inline object parsed as a reference")
    return f"{form}:accepted"


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return foreach("positions", prop, positions(), case_for, 26 * k, chunk=8)
