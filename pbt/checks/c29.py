"""A refusal says where and what: the errors name the place of every defect, and reference errors a bad reference."""
import re

from hypothesis import strategies as st

from pbt import collrefs, gen, mutate, oracle, refs
from pbt.checks import c04, c13, c16, c17
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, cls, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T

import asyncapi3.validators as V

ID = "C29"
RULE = ("One to three defects (unknown, missing or null field, wrong type or value, bad key) are put at drawn places of a document, every (object, field, defect) of the reference table in turn; the "
        "validation error must have an entry whose location holds the path to each of them (in order, between the names of union members), and name unknown fields and bad keys. Documents with "
        "bad references at every position: the refusal names the keys and list indices on the path of a bad reference (unified validation), or the reference or its last segment (tags, external documentation). "
        "Non-trivial: refused. Class = kind of defect.")
ASSUMES = ["the wording of messages is not decided, nor which of several bad references is named"]


@st.composite
def one(draw, target):
    """[how, path to the defect, word the error must hold, document]"""
    name, fname, how = target
    g = G(draw, budget=12)
    word = None
    if how == "pmap":
        t = T("PMAP", (name,))
        v = {k: g.value(PMAPS[name].value) for k in g.keys(0, 2)}
        word = draw(mutate.BAD_KEYS)
        v[word] = g.value(PMAPS[name].value)
        tail = []
    else:
        t = T("OBJ", (name,))
        v = draw(mutate.bad_object(name, how=how, fname=fname, depth=0))
        tail = [fname] if fname else []
        if how == "unknown":
            extra = [k for k in v if k not in {f.name for f in OBJS[name].fields}]
            bad = [k for k in extra if OBJS[name].ext == "CLOSED" or not oracle.ext_ok(k)]
            word = bad[0] if bad else None
    if t == ROOT:
        return [how, tail, word, v]
    doc, path = gen.embed(g, t, g.value(t), sparse=draw(st.booleans()), strict=True)
    return [how, path + tail, word, oracle.set_at(doc, path, v)]


@st.composite
def several(draw):
    """Defects in different sections of one document."""
    doc, defects = {}, []
    for _ in range(draw(st.integers(2, 4))):
        target = TARGETS[draw(st.integers(0, len(TARGETS) - 1))]
        how, path, word, d = draw(one(target))
        if not path or path[0] in doc or target[0] == "AsyncAPI3":
            continue
        if oracle.conforms(ROOT, d) is None:
            continue
        doc[path[0]] = d[path[0]]
        defects.append([how, path, word])
    if "info" not in doc:
        doc["info"] = {"title": "t", "version": "1"}
    return ["several", defects, doc]


TARGETS = c04.targets()


def within(path, loc):
    it = iter(loc)
    return all(any(type(x) is type(p) and x == p for x in it) for p in path)


def located(err, how, path, word, doc):
    es = err.errors(include_url=False, include_context=False, include_input=False)
    hits = [e for e in es if within(path, e["loc"])]
    if not hits:
        raise Violation(f"{how} at {refs.pointer(map(str, path))}: no error is located there, only {[list(e['loc']) for e in es][:6]}")
    if word and not any(word in e["loc"][len(path):] or word in e["msg"] or repr(word) in e["msg"] for e in hits):
        raise Violation(f"{how} {word!r} at {refs.pointer(map(str, path))}: no error names it: {[(list(e['loc']), e['msg'][:100]) for e in hits][:4]}")


def prop(case):
    how, path, word, doc = case
    if oracle.conforms(ROOT, doc) is None:
        return None
    m, err = attempt(AsyncAPI3.model_validate, doc)
    if err is None:
        return None             # decided by C04
    located(err, how, path, word, doc)
    return how


def prop_several(case):
    _, defects, doc = case
    if not defects:
        return None
    m, err = attempt(AsyncAPI3.model_validate, doc)
    if err is None:
        return None
    for how, path, word in defects:
        located(err, how, path, word, doc)
    return f"several:{len(defects)}"


def prop_unified(case):
    how, doc, path = case
    bad = [(p, s) for p, s, exp in refs.slots(doc) for r in [refs.resolve(doc, s)] if r[0] == "bad" or r[0] == "ok" and r[2] not in exp]
    if not bad or any(refs.resolve(doc, s)[0] == "undecided" for _, s, _ in refs.slots(doc)):
        return None
    m = must_parse(ROOT, doc)
    try:
        V.UnifiedReferencesValidator()(m)
        return None             # decided by C13
    except ValueError as e:
        text = str(e)
    _, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [V.UnifiedReferencesValidator]})
    for msg in [text] + ([str(err)] if err is not None else []):
        if not any(all(names(k, msg) for k in p if isinstance(k, int) or k not in FIELDS) for p, _ in bad):
            raise Violation(f"the refusal names no place of a bad reference {[(list(p), s) for p, s in bad][:4]}: {msg[:300]}")
    return "unified"


FIELDS = {f.name for o in OBJS.values() for f in o.fields}


def names(key, msg):
    if isinstance(key, int):
        return re.search(rf"(?<!\d){key}(?!\d)", msg) is not None
    return key in msg or key.replace("\\", "\\\\").replace(".", "\\.") in msg or repr(key)[1:-1] in msg


def prop_coll(fam):
    def prop(case):
        how, doc, path = case
        if fam.status(doc) != "bad":
            return None
        bad = [s for p, s, exp in refs.slots(doc) if exp == {fam.typename} and fam.verdict_ref(doc, s) == "bad"]
        m = must_parse(ROOT, doc)
        try:
            fam.validator()(m)
            return None
        except ValueError as e:
            text = str(e)
        _, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [fam.validator]})
        for msg in [text] + ([str(err)] if err is not None else []):
            if not any(s in msg or s[len(fam.prefix):] in msg and s.startswith(fam.prefix) for s in bad):
                raise Violation(f"the refusal names no bad reference {bad[:4]}: {msg[:300]}")
        return fam.coll
    return prop


def tasks(tier):
    k = 1 if tier == "quick" else 30
    out = (foreach("defect", prop, TARGETS, one, 6 * k, chunk=30) + [Task(f"several{i}", prop_several, several, n=100 * k, weight=2) for i in range(4)]
           + foreach("unified", prop_unified, refs.POSITIONS, c13.at_position, 3 * k, chunk=24))
    for fam in (c16.FAM, c17.FAM):
        out += foreach(fam.coll, prop_coll(fam), fam.positions, fam.case, 6 * k, chunk=max(1, len(fam.positions) // 8))
    return out
