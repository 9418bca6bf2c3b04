"""Reference validation accepts every document whose references are good and changes nothing."""
from hypothesis import strategies as st

from pbt import gen, oracle, refs, words
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, capture_warnings, dump, first, must_parse, share
from pbt.table import OBJS, ROOT

import asyncapi3.validators as V

ID = "C14"
RULE = ("For every position where a reference may stand and for drawn whole documents: every reference leads, directly or through a chain of references "
        "(up to 2000 long), to an object of a type that may stand there inline, or is an http(s) reference. The independent resolver confirms it. Parsing "
        "with the validator, calling it, assigning it and re-validating must all be accepted, leave the document unchanged and log every http(s) "
        "reference as a warning. Non-trivial: the document holds a local reference. Class = kind of target.")
ASSUMES = ["pointers through lists, references or free-form values, with escapes or Python names are not generated"]
U = V.UnifiedReferencesValidator


@st.composite
def at_position(draw, pos):
    g = G(draw, 10, refs=refs.EXTERNAL)
    doc, path = refs.place(g, pos, {"$ref": "https://placeholder.invalid/"}, extra=draw(st.booleans()), many=draw(refs.MANY))
    if draw(gen.UPTO[3]) == 0:
        doc, labels = refs.assign_good(g, doc)
        return ["any", doc]
    names = sorted(n for n in pos.expected)
    name = names[draw(gen.UPTO[len(names) - 1])]
    how = draw(st.sampled_from(["component", "chain", "in-place", "in-place", "external-chain"]))
    if how == "external-chain":
        doc, ref = refs.into_chain(g, doc, {name}, draw(refs.EXTERNAL))
    elif how == "in-place":
        # an object of the right type standing anywhere a pointer can reach
        fits = [p for p in refs.POSITIONS if name in p.expected and all(s[0] != "list" for s in p.steps)]
        p = fits[draw(st.integers(0, len(fits) - 1))]
        other, opath = refs.place(g, p, refs.simple(g, name))
        out = refs.merge(doc, other)
        ok = refs.addressable(opath)
        try:
            ok = ok and oracle.get_at(out, path) == {"$ref": "https://placeholder.invalid/"} and oracle.conforms(ROOT, out) is None
        except (KeyError, IndexError, TypeError):
            ok = False
        r = refs.resolve(out, refs.pointer(opath)) if ok else None
        if ok and r[0] == "ok" and r[2] == name:
            doc, ref = out, refs.pointer(opath)
        else:
            doc, ref = refs.good_target(g, doc, pos.expected, 0, name)
            how = "component"
    else:
        doc, ref = refs.good_target(g, doc, pos.expected, draw(st.integers(1, 5)) if how == "chain" else 0, name)
    doc = oracle.set_at(doc, path + ("$ref",), ref)
    if draw(st.booleans()):
        doc2 = refs.with_decoy(g, doc, ref, name)
        if oracle.get_at(doc2, path) == {"$ref": ref}:
            doc = doc2
    return [how, doc]


@st.composite
def in_document(draw):
    return ["document", draw(refs.good_documents(budget=draw(st.sampled_from([20, 50, 90, 150]))))]


@st.composite
def long_chain(draw):
    g = G(draw, 5, refs=refs.EXTERNAL)
    pos = refs.POSITIONS[draw(st.integers(0, len(refs.POSITIONS) - 1))]
    doc, path = refs.place(g, pos, {"$ref": "https://placeholder.invalid/"})
    names = sorted(n for n in pos.expected)
    name = names[draw(gen.UPTO[len(names) - 1])]
    coll = refs.HOMES[name][0]
    n = draw(st.sampled_from(words.sizes(2500, [10, 50, 100, 400, 1200, 2000])))
    return ["long", doc, list(path), coll, n, refs.simple(g, name)]


def prop_long(case):
    how, doc, path, coll, n, obj = case
    chain = {f"c{i}": {"$ref": f"#/components/{coll}/c{i + 1}"} for i in range(n)}
    chain[f"c{n}"] = obj
    # only the slot enters the chain from its start: the validator must follow all of it
    comp = doc.get("components") or {}
    doc = {**doc, "components": {**comp, coll: {**(comp.get(coll) or {}), **chain}}}
    doc = oracle.set_at(doc, tuple(path) + ("$ref",), f"#/components/{coll}/c0")
    m = must_parse(ROOT, doc)
    from asyncapi3.validators.utils import resolve_reference
    r = resolve_reference(f"#/components/{coll}/c0", m)
    if r is None or oracle.diff(dump(r.resolved_object), dump(getattr(m.components, OBJS["Components"].f(coll).py)[f"c{n}"])):
        raise Violation(f"chain of {n} references resolved to {r}")
    if n <= 100:
        accepted(doc)
    return f"long{n}"


def prop(case):
    how, doc = case
    verdict, detail = refs.verdict(doc)
    if verdict != "good":
        return None
    accepted(doc)
    return how if how == "deep" or any(not s.startswith("http") for p, s, e in refs.slots(doc)) else None


def accepted(doc):
    plain = must_parse(ROOT, doc)
    before = dump(plain)
    ext = {r[1] for r in (refs.resolve(doc, s) for p, s, e in refs.slots(doc)) if r[0] == "external"}
    with capture_warnings() as logs:
        m, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [U]})
    if err is not None:
        raise Violation(f"good references refused: {first(err)}")
    d = oracle.diff(before, dump(m))
    if d:
        raise Violation(f"validation changed the document: {d}")
    for s in ext:
        if not any(s in r for r in logs):
            raise Violation(f"no warning about the external reference {s!r}")
    with capture_warnings() as logs:
        try:
            out = U()(plain)
        except ValueError as e:
            raise Violation(f"validator refuses good references: {str(e)[:300]}")
    if out is not plain or oracle.diff(before, dump(plain)):
        raise Violation("the validator changed or replaced the document")
    for s in ext:
        if not any(s in r for r in logs):
            raise Violation(f"no warning about the external reference {s!r} when called")
    try:
        plain.extra_validators = [U]
    except ValueError as e:
        raise Violation(f"assigning the validator refused: {str(e)[:300]}")
    for sec in ("components", "channels"):
        if getattr(plain, sec) is not None:
            try:
                setattr(plain, sec, getattr(plain, sec))
            except ValueError as e:
                raise Violation(f"assigning {sec} to itself refused: {str(e)[:300]}")
    if share(m):
        try:
            U()(m)
        except ValueError as e:
            raise Violation(f"validator refuses good references when equal ones are one instance: {str(e)[:300]}")
        if oracle.diff(before, dump(m)):
            raise Violation("the validator changed a document with shared instances")
    again, err = attempt(AsyncAPI3.model_validate, plain)
    if err is not None:
        raise Violation(f"re-validation refused: {first(err)}")
    d = oracle.diff(before, dump(again)) or oracle.diff(before, dump(plain))
    if d:
        raise Violation(f"assignment or re-validation changed the document: {d}")


def tasks(tier):
    k = 1 if tier == "quick" else 30
    return (foreach("positions", prop, refs.POSITIONS, at_position, 14 * k, chunk=12)
            + [Task(f"documents{i}", prop, in_document, n=60 * k, weight=6) for i in range(8)]
            + [Task("deep", prop, lambda: gen.deep_documents().map(lambda d: ["deep", d]), n=40 * k)]
            + [Task(f"long{i}", prop_long, long_chain, n=4 * k, weight=30) for i in range(4)])
