"""Documents handled at the same time, in threads or nested within processors, do not affect one another."""
import copy

from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.checks import c19
from pbt.gen import G
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, dump, must_parse
from pbt.sched import Interleave
from pbt.table import OBJS, ROOT

import asyncapi3.validators as V
from asyncapi3.protocols import ProcessorProtocol
from asyncapi3.validators.utils import resolve_reference

gen.LONG = False          # every line is traced
ID = "C27"
RULE = ("Two or three programs of up to 4 operations (parse with drawn validators, parse JSON text, apply a validator, dump, resolve a reference, assign, build, copy) on drawn documents with good, bad and "
        "arbitrary references run in threads under a drawn schedule: control passes from thread to thread after drawn numbers of library lines. Others run nested: a processor of one "
        "document performs operations on others while it is being validated. Every operation must give what it gives alone. Non-trivial: control passed at least 4 times "
        "(threads), or the nested operations ran. Class = kind of program.")
ASSUMES = ["control passes at lines of the library's Python code only", "documents that two threads use at once are only read"]
MAJOR = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]


@st.composite
def operation(draw, docs):
    i = draw(st.integers(0, len(docs) - 1))
    how = draw(st.sampled_from(["parse", "parse", "parse", "json", "apply", "apply", "dump", "resolve", "assign", "build", "copy"]))
    if how in ("parse", "json"):
        return [how, i, draw(st.lists(st.sampled_from(MAJOR), max_size=2, unique=True))]
    if how == "apply":
        return [how, i, draw(st.sampled_from(MAJOR))]
    if how == "resolve":
        cands = sorted({s for p, s, e in refs.slots(docs[i])} | set(refs.targets(docs[i]))) or ["#/info"]
        return [how, i, cands[draw(st.integers(0, len(cands) - 1))]]
    if how == "assign":
        j = draw(st.integers(0, len(docs) - 1))
        return [how, i, draw(st.sampled_from(["components", "channels", "operations", "servers", "info"])), j, draw(st.sampled_from(MAJOR))]
    return [how, i]


@st.composite
def threads(draw):
    docs = [draw(c19.document()) for _ in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):
        docs.append(draw(c19.variant(docs[0])))
    programs = [draw(st.lists(operation(docs), min_size=1, max_size=4)) for _ in range(draw(st.integers(2, 3)))]
    lengths = draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 400)), min_size=1, max_size=8))
    return [docs, programs, lengths]


@st.composite
def nested(draw):
    docs = [draw(c19.document()) for _ in range(2)]
    docs.append(draw(c19.variant(docs[0])))
    ops = draw(st.lists(operation(docs), min_size=1, max_size=4))
    return [docs, ops, draw(st.sampled_from(MAJOR)), draw(st.sampled_from(["converter", "before", "after"])), draw(st.integers(1, 2))]


def perform(op, docs, models):
    """The observable outcome of one operation."""
    how, i = op[:2]
    if how == "parse":
        m, err = attempt(AsyncAPI3.model_validate, {**docs[i], **({"extra_validators": [getattr(V, n) for n in op[2]]} if op[2] else {})})
        return dump(m) if err is None else str(err)
    if how == "json":
        import json
        m, err = attempt(AsyncAPI3.model_validate_json, json.dumps(docs[i]))
        return dump(m) if err is None else str(err)
    if how == "apply":
        try:
            return getattr(V, op[2])()(models[i]) is models[i]
        except ValueError as e:
            return str(e)
    if how == "dump":
        return [dump(models[i]), models[i].model_dump_json()]
    if how == "copy":
        c = copy.deepcopy(models[i])
        return [c == models[i], dump(c)]
    if how == "resolve":
        try:
            r = resolve_reference(op[2], models[i])
        except ValueError as e:
            return str(e)
        return None if r is None else [str(r.resolved_type), r.path, oracle.short(r.resolved_object, 2000)]
    if how == "build":
        m = AsyncAPI3.as_builder(title=f"t{i}")
        for sec in ("channels", "operations", "components", "servers"):
            try:
                if getattr(models[i], sec) is not None:
                    setattr(m, sec, getattr(models[i], sec))
            except ValueError as e:
                return [dump(m), str(e)]
        return dump(m)
    _, _, sec, j, name = op
    m = must_parse(ROOT, docs[i])
    out = []
    try:
        m.extra_validators = [getattr(V, name)]
    except ValueError as e:
        out.append(str(e))
    try:
        setattr(m, sec, docs[j].get(sec))
    except ValueError as e:
        out.append(str(e))
    return out + [dump(m)]


def same(want, got):
    return type(want) is type(got) and oracle.diff({"x": want}, {"x": got}, order=True) is None


def prop_threads(case):
    docs, programs, lengths = case
    models = [must_parse(ROOT, d) for d in docs]
    inputs = copy.deepcopy(docs)
    want = [[perform(op, docs, models) for op in p] for p in programs]
    got = [[] for _ in programs]

    def body(i):
        def fn():
            for op in programs[i]:
                try:
                    got[i].append(perform(op, docs, models))
                except Exception as e:      # noqa: BLE001 - judged below, in the main thread
                    got[i].append(e)
        return fn
    switches = Interleave().run([body(i) for i in range(len(programs))], lengths)
    for p, w, g in zip(programs, want, got):
        for op, a, b in zip(p, w, g):
            if isinstance(b, Exception):
                raise Violation(f"{op} alone gives {oracle.short(a)}; at the same time as others, {type(b).__name__}: {str(b)[:300]}")
            if not same(a, b):
                raise Violation(f"{op} alone gives {oracle.short(a, 300)}; at the same time as others, {oracle.short(b, 300)}")
    if [len(g) for g in got] != [len(p) for p in programs]:
        raise Violation("an operation never finished")
    if oracle.diff(inputs, docs, order=True):
        raise Violation("an input was modified")
    for d, m in zip(docs, models):
        if not m == must_parse(ROOT, d):
            raise Violation("a document that was only read has changed")
    return f"threads:{len(programs)}" if switches >= 4 else None


def prop_nested(case):
    docs, ops, name, where, times = case
    models = [must_parse(ROOT, d) for d in docs]
    want = [perform(op, docs, models) for op in ops]
    got = []

    class Nest(ProcessorProtocol):
        def __call__(self, spec):
            for _ in range(times):
                for op in ops:
                    try:
                        got.append(perform(op, docs, models))
                    except Exception as e:      # noqa: BLE001 - judged below
                        got.append(e)
            return spec

    alone, err1 = attempt(AsyncAPI3.model_validate, {**docs[0], "extra_validators": [getattr(V, name)]})
    procs = {"converter": {"extra_converters": [Nest], "extra_validators": [getattr(V, name)]}, "before": {"extra_validators": [Nest, getattr(V, name)]},
             "after": {"extra_validators": [getattr(V, name), Nest]}}[where]
    m, err2 = attempt(AsyncAPI3.model_validate, {**docs[0], **procs})
    if (err1 is None) != (err2 is None):
        raise Violation(f"{name} {'accepts' if err1 is None else 'refuses'} the document; with work on other documents in between, {'refused' if err1 is None else 'accepted'}")
    if err1 is not None:
        a, b = ([e["msg"] for e in x.errors(include_url=False, include_context=False, include_input=False)] for x in (err1, err2))
        if a != b:
            raise Violation(f"refused with {a}; with work on other documents in between, with {b}")
    elif oracle.diff(dump(alone), dump(m), order=True):
        raise Violation("work on other documents in between changed the result")
    ran = where != "after" or err1 is None
    if len(got) != (times * len(ops) if ran else 0):
        raise Violation(f"the nested processor ran {len(got)} operations")
    for k, g in enumerate(got):
        w = want[k % len(ops)]
        if isinstance(g, Exception):
            raise Violation(f"{ops[k % len(ops)]} alone gives {oracle.short(w)}; inside a processor, {type(g).__name__}: {str(g)[:300]}")
        if not same(w, g):
            raise Violation(f"{ops[k % len(ops)]} alone gives {oracle.short(w, 300)}; inside a processor, {oracle.short(g, 300)}")
    return f"nested:{where}" if ran else None


def tasks(tier):
    k = 1 if tier == "quick" else 40
    return ([Task(f"threads{i}", prop_threads, threads, n=80 * k, weight=5) for i in range(8)]
            + [Task(f"nested{i}", prop_nested, nested, n=80 * k, weight=2) for i in range(8)])
