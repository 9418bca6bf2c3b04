"""Validators only observe: they never change a document, remember one, or fail otherwise than by refusing it."""
import copy

from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.gen import G
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, dump, first, must_parse
from pbt.table import OBJS, ROOT

import asyncapi3.validators as V
from asyncapi3.protocols import ProcessorProtocol

NAMES = sorted(n for n in V.__all__ if isinstance(getattr(V, n), type) and n.endswith("Validator"))

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C19"
RULE = ("Histories of up to 8 applications of drawn shipped validators (all of them, fresh or reused instances) to drawn documents with good, bad and "
        "arbitrary references, to near copies of them, and to documents edited (a component entry removed or put back) in between. Each application must return the very document or raise ValueError, leave it unchanged, and answer like a fresh instance on a "
        "fresh copy; a list of validators given to the parser refuses exactly when one of them does, in any order. Non-trivial: two or more applications "
        "with different answers. Class = answers.")
ASSUMES = ["what each validator refuses is decided by C13-C17"]


@st.composite
def document(draw):
    how = draw(gen.UPTO[3])
    if how == 0:
        return draw(gen.documents(budget=30))
    doc = draw(refs.good_documents(budget=draw(st.sampled_from([10, 30, 60]))))
    if how == 1:
        return doc
    g = G(draw, 10, refs=refs.EXTERNAL)
    ss = refs.slots(doc)
    # tags and external documentation carry most validators
    pref = [s for s in ss if s[2] & {"Tag", "ExternalDocumentation"}] if how == 2 else ss
    if pref:
        path, ref, exp = pref[draw(st.integers(0, len(pref) - 1))]
        doc, new, _ = refs.bad_ref(g, doc, exp, path)
        doc = oracle.set_at(doc, path + ("$ref",), new)
    else:
        p = refs.POSITIONS[draw(st.integers(0, len(refs.POSITIONS) - 1))]
        doc2, path = refs.place(g, p, {"$ref": draw(gen.REFSTR)})
        doc2 = refs.merge(doc2, doc)
        if oracle.conforms(ROOT, doc2) is None:
            doc = doc2
    return doc


def entries(doc):
    """Component entries of a document, those that something refers to first."""
    comp = doc.get("components") or {}
    used = {tuple(s.split("/")[2:]) for p, s, e in refs.slots(doc) if s.startswith("#/components/")}
    every = [(c, k) for c in refs.COLLECTIONS for k in comp.get(c) or {}]
    return [e for e in every if e in used] or every


@st.composite
def variant(draw, doc):
    """The same document but for one reference, or for the entry one leads to."""
    g = G(draw, 10, refs=refs.EXTERNAL)
    ss = [s for s in refs.slots(doc)]
    if ss and draw(st.booleans()):
        path, ref, exp = ss[draw(st.integers(0, len(ss) - 1))]
        new, how = draw(st.sampled_from(refs.near_misses(ref) + refs.BAD_FORMATS + refs.MISSING)) if ref.startswith("#/") else "#/nope", None
        return oracle.set_at(doc, path + ("$ref",), new)
    keys = entries(doc)
    if not keys:
        return doc
    coll, k = keys[draw(st.integers(0, len(keys) - 1))]
    part = doc["components"][coll]
    return {**doc, "components": {**doc["components"], coll: {x: v for x, v in part.items() if x != k}}}


@st.composite
def cases(draw):
    docs = [draw(document()) for _ in range(draw(st.integers(1, 3)))]
    if draw(gen.UPTO[1]):
        docs.append(draw(variant(docs[0])))         # as like the first as can be, with another answer
    major = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        if draw(gen.UPTO[3]) == 0:
            i = draw(st.integers(0, len(docs) - 1))
            keys = entries(docs[i])
            if keys:
                coll, k = keys[draw(st.integers(0, len(keys) - 1))]
                ops.append([None, i, [coll, k]])
                continue
        ops.append([draw(st.sampled_from(major + major + NAMES)), draw(st.integers(0, len(docs) - 1)), draw(st.booleans())])
    chosen = draw(st.lists(st.sampled_from(major + NAMES), min_size=1, max_size=4))
    return [docs, ops, chosen, draw(st.permutations(list(range(len(chosen)))))]


def answer(v, m):
    try:
        out = v(m)
    except ValueError as e:
        return "no", str(e)
    if out is not m:
        raise Violation(f"{type(v).__name__} returned {oracle.short(out)}, not the document it was given")
    return "yes", None


def toggle(m, doc, away, coll, k):
    comp = doc["components"]
    entry = getattr(m.components, OBJS["Components"].f(coll).py)
    if k in comp[coll]:
        away[coll, k] = comp[coll][k]
        del entry[k]
        return {**doc, "components": {**comp, coll: {x: v for x, v in comp[coll].items() if x != k}}}
    v = away.pop((coll, k))
    entry[k] = v
    return {**doc, "components": {**comp, coll: {**comp[coll], k: v}}}


def prop(case):
    docs, ops, chosen, order = case
    models = [must_parse(ROOT, d) for d in docs]
    before = [dump(m) for m in models]
    keep, away = {}, {}
    answers = []
    docs = list(docs)
    for name, i, reuse in ops:
        if name is None:            # the document is edited: an entry goes, or comes back
            docs[i] = toggle(models[i], docs[i], away.setdefault(i, {}), *reuse)
            before[i] = dump(models[i])
            continue
        cls = getattr(V, name)
        v = keep.setdefault(name, cls()) if reuse else cls()
        got = answer(v, models[i])
        d = oracle.diff(before[i], dump(models[i]), order=True)
        if d:
            raise Violation(f"{name} changed the document: {d}")
        want = answer(cls(), must_parse(ROOT, docs[i]))
        if got != want:
            raise Violation(f"{name} says {got} on a document, {want} on a fresh copy of it")
        answers.append(got[0])
    for m, d in zip(models, docs):
        if not m == must_parse(ROOT, d):
            raise Violation("validators changed the document: it no longer equals a fresh parse")
    m, doc = models[0], docs[0]
    single = [answer(getattr(V, n)(), m)[0] for n in chosen]
    for names in (chosen, [chosen[i] for i in order]):
        _, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [getattr(V, n) for n in names]})
        if (err is None) != ("no" not in single):
            raise Violation(f"validators {chosen} say {single}, parsing with {names}: {'accepted' if err is None else 'refused'}")
    return "+".join(sorted(set(answers))) if len(set(answers)) > 1 or "no" in single and "yes" in single else None


def interface(case):
    cls = getattr(V, case)
    if not issubclass(cls, ProcessorProtocol):
        raise Violation(f"{case} is not a processor")
    m, err = attempt(AsyncAPI3.model_validate, {"info": {"title": "t", "version": "1"}, "extra_validators": [cls]})
    if err is not None:
        raise Violation(f"{case} refuses the empty document: {first(err)}")
    if m.extra_validators != [cls]:
        raise Violation(f"extra_validators is {m.extra_validators}")
    return case


def tasks(tier):
    k = 1 if tier == "quick" else 40
    return [Task(f"observe{i}", prop, cases, n=120 * k, weight=5) for i in range(8)] + [Task("interface", interface, cases=lambda: NAMES)]
