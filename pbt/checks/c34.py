"""Document classes of the user's own, derived from AsyncAPI3, keep every guarantee."""
import copy
import json
from typing import Any, Optional

from hypothesis import strategies as st
from pydantic import Field, create_model, model_validator

from pbt import gen, oracle, refs
from pbt.checks import c19
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, dump, first, must_parse
from pbt.table import OBJS, ROOT

import asyncapi3.validators as V
from asyncapi3.protocols import ProcessorProtocol

QUICK = 2            # multiplies the drawn cases of a quick run
ID = "C34"
RULE = ("A class derived from AsyncAPI3 (once or twice), with drawn fields of its own (typed, with or without alias, default or required), a rule of its own, and lists of processors set as defaults of the class or given, reads drawn "
        "documents with good and bad references and defects by every route; it is built, assigned to, copied and dumped. Types, verdicts, dumps and calls of processors must be those of AsyncAPI3, with the own "
        "fields added; the base class must stay as it is. Non-trivial: refused, or accepted with own fields and an assignment then refused. Class = routes.")
ASSUMES = ["own fields have names that are neither specification fields nor extensions"]
MAJOR = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
OWN = {"owner_name": (str, ["me", "", "é"], 5), "level_no": (int, [0, 3, -1], "x"), "parts_": (list[str], [[], ["a", "b"]], [1]), "extra_map": (dict[str, int], [{}, {"a": 1}], {"a": "b"}),
       "flagged": (bool, [True, False], "perhaps"), "anything": (Any, [None, [1], {"$ref": "#/nowhere"}, "t"], None)}
SECTIONS = ["components", "channels", "operations", "servers", "info", "id", "default_content_type", "asyncapi"]


@st.composite
def cases(draw):
    doc = draw(c19.document())
    if draw(gen.UPTO[5]) == 0:
        p = [(p, s) for p, t, s, v in oracle.walk(ROOT, doc) if s is not None and s.kind == "OBJ" and isinstance(v, dict) and s.args[0] != "Schema"]
        at, _ = p[draw(st.integers(0, len(p) - 1))]
        doc = oracle.set_at(doc, at, {**oracle.get_at(doc, at), draw(st.sampled_from(["nonsense", "X-a", "$ref2"])): 1})
    fields = {}
    for name in draw(st.lists(st.sampled_from(sorted(OWN)), max_size=3, unique=True)):
        good = OWN[name][1]
        fields[name] = [draw(st.sampled_from([None, "ownAlias-" + name])), draw(st.sampled_from(["required", "default"])), draw(st.sampled_from([True, True, False])),
                        good[draw(st.integers(0, len(good) - 1))]]
    procs = draw(st.lists(st.sampled_from(MAJOR + ["Witness"]), max_size=3))
    return [doc, fields, draw(st.booleans()), procs, draw(st.sampled_from(["class", "given", "both"])), draw(st.sampled_from(["dict", "json", "keywords", "instance", "base"])),
            draw(st.lists(st.tuples(st.sampled_from(SECTIONS + sorted(OWN)), gen.UPTO[3]), min_size=1, max_size=5)), draw(c19.document())]


def make(fields, rule, procs, how, calls, twice):
    class Witness(ProcessorProtocol):
        def __call__(self, spec):
            calls.append(spec)
            return spec
    kinds = [Witness if p == "Witness" else getattr(V, p) for p in procs]
    own = {}
    for name, (alias, need, present, value) in fields.items():
        kw = {} if alias is None else {"alias": alias}
        own[name] = (OWN[name][0], Field(**kw)) if need == "required" else (Optional[OWN[name][0]], Field(default=None, **kw))

    class Mine(AsyncAPI3):
        if rule:
            @model_validator(mode="after")
            def no_forbidden_title(self):
                if self.info.title == "forbidden":
                    raise ValueError("no such title")
                return self
    sub = create_model("Company", __base__=Mine, **own)
    if how != "given":
        at = "extra_converters" if how == "class" and procs[:1] == ["Witness"] else "extra_validators"
        ann = AsyncAPI3.model_fields[at].annotation
        sub = create_model("Company2", __base__=sub, **{at: (ann, Field(default=list(kinds), exclude=True))})
    return sub, kinds


def prop(case):
    doc, fields, rule, procs, how, route, history, other = case
    calls = []
    sub, kinds = make(fields, rule, procs, how, calls, True)
    base_fields = {n: repr(f) for n, f in AsyncAPI3.model_fields.items()}
    own = {}
    missing = False
    for name, (alias, need, present, value) in fields.items():
        if present:
            own[alias or name] = value
        elif need == "required":
            missing = True
        else:
            own[alias or name] = None
    given = {k: v for k, v in own.items() if v is not None or fields[k.removeprefix("ownAlias-")][2]}
    plain, err = attempt(AsyncAPI3.model_validate, {**copy.deepcopy(doc), **({"extra_validators": [k for k in kinds if k.__name__ != "Witness"]})})
    bad = err is not None
    lists = {"extra_validators": kinds} if how != "class" else {}
    full = {**copy.deepcopy(doc), **given}
    if route == "dict":
        m, err = attempt(sub.model_validate, {**full, **lists})
    elif route == "json":
        if how != "class":
            lists = {}
            bad = attempt(AsyncAPI3.model_validate, {**copy.deepcopy(doc), "extra_validators": [k for k in kinds if k.__name__ != "Witness"] if how == "both" else []})[1] is not None
        m, err = attempt(sub.model_validate_json, json.dumps(full))
    elif route == "keywords":
        if any(k in ("self", "cls") for k in full):
            return None
        m, err = attempt(lambda: sub(**full, **lists))
    elif route == "instance":
        m, err = attempt(sub.model_validate, {**full, **lists})
        if err is None:
            m, err = attempt(sub.model_validate, m)
    else:
        m, err = attempt(sub.model_validate, {**full, **lists})
        if err is None and not fields:          # what the derived class made is a document for the base class
            b, err2 = attempt(AsyncAPI3.model_validate, m)
            if err2 is not None:
                raise Violation(f"AsyncAPI3 refuses an instance of a derived class: {first(err2)}")
    want_bad = bad or missing or (rule and doc["info"].get("title") == "forbidden")
    if (err is not None) != want_bad:
        raise Violation(f"{route}: the derived class {'refuses' if err is not None else 'accepts'} a document that {'is bad' if want_bad else 'AsyncAPI3 accepts'}"
                        + (f": {first(err)}" if err is not None else ""))
    if {n: repr(f) for n, f in AsyncAPI3.model_fields.items()} != base_fields:
        raise Violation("deriving a class changed AsyncAPI3")
    if err is not None:
        return f"refused:{route}"
    if type(m) is not sub:
        raise Violation(f"{route}: the derived class gives a {type(m).__name__}")
    cur = {**oracle.expected(ROOT, doc), **own}
    d = oracle.diff(cur, dump(m))
    if d:
        raise Violation(f"{route}: the dump is wrong: {d}")
    active = kinds if lists or how != "given" else []
    if route == "json" and how == "given":
        active = []
    n = sum(k.__name__ == "Witness" for k in active)
    rounds = 2 if route == "instance" else 1
    if route != "base" and len(calls) != n * rounds:
        raise Violation(f"{route}: a processor of the derived class ran {len(calls)} times, not {n * rounds}")
    if any(type(s) is not sub for s in calls) and route != "base":
        raise Violation(f"a processor was given a {type(calls[0]).__name__}")
    refused = change(m, sub, doc, other, cur, fields, rule, active, n, history, calls)
    build(sub, fields, calls, n if how != "given" else 0, rule)
    return f"{route}:{how}" if own and refused else None


def change(m, sub, doc, other, cur, fields, rule, active, n, history, calls):
    refused = 0
    for sec, how in history:
        before = dump(m)
        if sec in OWN:
            if sec not in fields:
                continue
            good = how != 0 or sec == "anything"
            value = OWN[sec][1][how % len(OWN[sec][1])] if good else OWN[sec][2]
            py, key = sec, fields[sec][0] or sec
            new, fine = {**cur, key: value}, good
        else:
            py = OBJS["AsyncAPI3"].f({"default_content_type": "defaultContentType"}.get(sec, sec)).py
            name = {"default_content_type": "defaultContentType"}.get(sec, sec)
            if sec in ("id", "default_content_type", "asyncapi"):
                value = {"id": "https://example.com/x", "default_content_type": "a/b", "asyncapi": "3.0.1"}[sec] if how else 5
            else:
                value = other.get(name)
            if name == "info" and how == 0:
                value = {"title": "forbidden", "version": "1"}
            new = {k: v for k, v in cur.items() if k != name}
            if value is not None:
                new[name] = value
            elif sec == "info":
                continue
            docpart = {k: v for k, v in new.items() if k not in [fields[f][0] or f for f in fields]}
            fine = attempt(AsyncAPI3.model_validate, {**copy.deepcopy(docpart), "extra_validators": [k for k in active if k.__name__ != "Witness"]})[1] is None
            if rule and new["info"]["title"] == "forbidden":
                fine = False
            if fine:
                new = {**oracle.expected(ROOT, docpart), **{k: v for k, v in new.items() if k in [fields[f][0] or f for f in fields]}}
        calls.clear()
        try:
            setattr(m, py, copy.deepcopy(value))
            ok = True
        except ValueError:
            ok = False
        if ok != fine:
            raise Violation(f"the derived class {'accepts' if ok else 'refuses'} the assignment {sec} = {oracle.short(value)}")
        if ok and len(calls) != n:
            raise Violation(f"an assignment to {sec} runs a processor {len(calls)} times, not {n}")
        d = oracle.diff(new if ok else before, dump(m))
        if d:
            raise Violation(f"after an assignment to {sec} the dump is wrong: {d}")
        cur = new if ok else cur
        refused += not ok
    for c in (copy.deepcopy(m), m.model_copy(deep=True), copy.copy(m)):
        if type(c) is not sub or not c == m or oracle.diff(dump(m), dump(c)):
            raise Violation("a copy of an instance of a derived class differs")
    again = must_parse_as(sub, m.model_dump(), fields, active)
    if type(again) is not sub or oracle.diff(dump(again), dump(m)):
        raise Violation("the dump of an instance of a derived class does not parse back")
    return refused


def must_parse_as(sub, data, fields, active):
    m, err = attempt(sub.model_validate, {**data, "extra_validators": active})
    if err is not None:
        raise Violation(f"the dump of an instance of a derived class is refused: {first(err)}")
    return m


def build(sub, fields, calls, n, rule):
    calls.clear()
    need = {name: value for name, (alias, need_, present, value) in fields.items() if need_ == "required"}
    m, err = attempt(lambda: sub.as_builder(title="a builder", version="2", **need))
    if err is not None:
        raise Violation(f"the builder of the derived class refuses its arguments: {first(err)}")
    if type(m) is not sub or m.info.title != "a builder" or any(getattr(m, k) != v for k, v in need.items()):
        raise Violation(f"the builder of the derived class made a {type(m).__name__} {oracle.short(dump(m))}")
    if rule and attempt(lambda: sub.as_builder(title="forbidden", version="2", **need))[1] is None:
        raise Violation("the builder ignores a rule of the derived class")


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return [Task(f"derived{i}", prop, cases(), n=120 * k) for i in range(8)]
