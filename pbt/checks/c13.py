"""Reference validation refuses every document with a bad reference, wherever it stands and however it is bad."""
from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, dump, must_parse, share
from pbt.table import OBJS, ROOT

import asyncapi3.validators as V

ID = "C13"
RULE = ("For every one of the positions where a reference may stand (enumerated from the reference table), and for references of drawn whole documents: "
        "one reference is made bad (near miss of an existing key, component of every other type, leaf value, unsupported format, missing path, self "
        "reference, cycle of 1-4, chain ending in one of these), often with a correct use of the same string elsewhere. The independent resolver confirms "
        "that the document is bad. Then parsing with the validator, calling it, assigning it and assigning the section must all be refused, and so must calling it when equal references and objects are one instance. "
        "Non-trivial: always. Class = how:via.")
ASSUMES = ["pointers through lists, references or free-form values, with escapes or Python names are not decided and not generated",
           "references inside free-form schema content are not part of the validated positions"]
U = V.UnifiedReferencesValidator


@st.composite
def at_position(draw, pos):
    g = G(draw, 10, refs=refs.EXTERNAL)
    doc, path = refs.place(g, pos, {"$ref": "https://placeholder.example/"}, extra=draw(st.booleans()), many=draw(refs.MANY))
    doc, ref, how = refs.bad_ref(g, doc, pos.expected, path)
    if how in ("type", "leaf") and draw(st.booleans()):
        r = refs.resolve(doc, ref)
        if r[0] == "ok" and not r[2].startswith("@"):
            doc2 = refs.with_decoy(g, doc, ref, r[2])
            if oracle.get_at(doc2, path) == {"$ref": "https://placeholder.example/"}:
                doc, how = doc2, how + "+decoy"
    doc = oracle.set_at(doc, path + ("$ref",), ref)
    return [how, doc, list(path)]


@st.composite
def in_document(draw):
    doc = draw(refs.good_documents(budget=draw(st.sampled_from([20, 50, 90]))))
    g = G(draw, 10, refs=refs.EXTERNAL)
    ss = refs.slots(doc)
    if not ss:
        p = refs.POSITIONS[draw(st.integers(0, len(refs.POSITIONS) - 1))]
        return draw(at_position(p))
    path, ref, exp = ss[draw(st.integers(0, len(ss) - 1))]
    doc, new, how = refs.bad_ref(g, doc, exp, path)
    # often the bad string is one another slot uses rightly
    if draw(gen.UPTO[2]) == 0:
        others = sorted({s for p, s, e in ss if not s.startswith("http") and not (e & exp) and refs.resolve(doc, s)[0] == "ok"})
        if others:
            new, how = others[draw(st.integers(0, len(others) - 1))], "reused"
    doc = oracle.set_at(doc, path + ("$ref",), new)
    return [how, doc, list(path)]


def refused(fn, what):
    try:
        fn()
    except ValueError:
        return
    raise Violation(what)


def prop(case):
    how, doc, path = case
    verdict, detail = refs.verdict(doc)
    if verdict != "bad":
        return None
    p, ref, why = detail
    where = f"{ref!r} at {refs.pointer(map(str, p))} ({why})"
    m = must_parse(ROOT, doc)
    before = before_all = dump(m)
    refused(lambda: U()(m), f"validator accepts {where}")
    _, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [U]})
    if err is None:
        raise Violation(f"parsing with the validator accepts {where}")
    _, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [V.SchemasRefValidator, U]})
    if err is None:
        raise Violation(f"parsing with two validators accepts {where}")

    def assign():
        m.extra_validators = [U]
    refused(assign, f"assigning the validator accepts {where}")
    if m.extra_validators is not None or oracle.diff(before, dump(m)):
        raise Violation("refused assignment of the validator changed the document")
    via = "parse"
    sec = p[0]
    rest = {k: v for k, v in doc.items() if k != sec}
    if sec == "info":
        rest["info"] = {"title": "t", "version": "1"}
    if refs.verdict(rest)[0] == "good":
        via = "assign"
        m2, err = attempt(AsyncAPI3.model_validate, {**rest, "extra_validators": [U]})
        if err is not None:
            raise Violation("good document refused")
        before = dump(m2)
        refused(lambda: setattr(m2, OBJS["AsyncAPI3"].f(sec).py, doc[sec]), f"assigning {sec} accepts {where}")
        if oracle.diff(before, dump(m2)):
            raise Violation(f"refused assignment of {sec} changed the document")
    if share(m):
        if oracle.diff(before_all, dump(m)):
            raise Violation("replacing equal objects by one instance changed the dump")
        via += "+shared"
        refused(lambda: U()(m), f"with one instance for all equal references and objects, the validator accepts {where}")
    return f"{how}:{via}"


def tasks(tier):
    k = 1 if tier == "quick" else 30
    return (foreach("positions", prop, refs.POSITIONS, at_position, 14 * k, chunk=12)
            + [Task(f"documents{i}", prop, in_document, n=60 * k, weight=6) for i in range(8)])
