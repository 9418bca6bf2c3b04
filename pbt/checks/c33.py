"""An operation that fails half-way leaves everything as it was and can be done again."""
import copy
import json

from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.checks import c19, c27
from pbt.fault import KINDS, Calls
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, cls, dump, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

import asyncapi3.validators as V
from asyncapi3.protocols import ProcessorProtocol

ID = "C33"
RULE = ("A drawn operation on a drawn document (parse with validators, JSON text, apply a validator, dump, copy, resolve, build, assign a root field or a field of an inner object, set an item) is made to "
        "fail on entry to a drawn call of a library function, by an ordinary error, KeyboardInterrupt, MemoryError and others, as a signal handler, exhausted memory or stack would. Then the document, "
        "all others and the inputs must be as before, and the same operation with the same objects, and further ones, must give what they give alone. Non-trivial: the fault "
        "fired and the operation failed. Class = operation:kind of error.")
ASSUMES = ["faults arise on entry to Python functions of the library, or in a processor of the user; ValueError and AssertionError are refusals and decided by C18"]
MAJOR = c27.MAJOR
CALLS = Calls()


class Odd(Exception):
    pass


@st.composite
def cases(draw):
    docs = [draw(c19.document())]
    docs.append(draw(c19.variant(docs[0])) if draw(st.booleans()) else draw(c19.document()))
    how = draw(st.sampled_from(["parse", "json", "apply", "dump", "resolve", "build", "copy", "assign", "assign", "assign", "inner", "inner", "item"]))
    kind = draw(st.sampled_from(sorted(KINDS)))
    frac = draw(st.sampled_from([0, 1000])) if draw(gen.UPTO[5]) == 0 else draw(st.integers(0, 1000))
    if how in ("inner", "item"):
        nodes = [(p, s) for p, t, s, v in oracle.walk(ROOT, docs[0]) if s is not None and p and
                 (s.kind == "OBJ" and OBJS[s.args[0]].fields and s.args[0] != "Schema" if how == "inner" else s.kind == "PMAP")]
        if not nodes:
            return None
        path, s = nodes[draw(st.integers(0, len(nodes) - 1))]
        g = gen.G(draw, 8)
        if how == "item":
            return [docs, [how, 0, list(path), draw(gen.KEY), g.value(PMAPS[s.args[0]].value)], kind, frac]
        f = draw(st.sampled_from(OBJS[s.args[0]].fields))
        return [docs, [how, 0, list(path), f.name, g.value(f.type)], kind, frac]
    if how in ("parse", "json"):
        op = [how, 0, draw(st.lists(st.sampled_from(MAJOR), max_size=2, unique=True))]
    elif how == "apply":
        op = [how, 0, draw(st.sampled_from(MAJOR))]
    elif how == "resolve":
        cands = sorted({s for p, s, e in refs.slots(docs[0])} | set(refs.targets(docs[0]))) or ["#/info"]
        op = [how, 0, cands[draw(st.integers(0, len(cands) - 1))]]
    elif how == "assign":
        op = [how, 0, draw(st.sampled_from(["components", "channels", "operations", "servers", "info", "extra_validators"])), 1,
              draw(st.lists(st.sampled_from(MAJOR), max_size=2, unique=True))]
    else:
        op = [how, 0]
    return [docs, op, kind, frac]


def state(m):
    """What the document holds, and what of it counts as set."""
    return [dump(m), m.model_dump(mode="json", exclude_unset=True)]


def node(m, path):
    from pbt.lib import at
    return at(m, path)


def prepare(op, docs):
    """(models, function performing the operation, model it changes or None)."""
    models = [must_parse(ROOT, d) for d in docs]
    how = op[0]
    if how == "assign":
        _, _, sec, j, names = op
        m = models[0]
        try:
            m.extra_validators = [getattr(V, n) for n in names]
        except ValueError:
            m = must_parse(ROOT, docs[0])
        value = docs[j].get(sec) if sec != "extra_validators" else [getattr(V, n) for n in MAJOR]
        return models, lambda: setattr(m, sec, copy.deepcopy(value)), m
    if how in ("inner", "item"):
        _, _, path, name, x = op
        target = node(models[0], tuple(path))
        if how == "item":
            return models, lambda: target.__setitem__(name, copy.deepcopy(x)), models[0]
        py = OBJS[type(target).__name__].f(name).py
        return models, lambda: setattr(target, py, copy.deepcopy(x)), models[0]
    if how == "apply":
        v = getattr(V, op[2])()

        def fn():
            try:
                return v(models[0]) is models[0]
            except ValueError as e:
                return str(e)
        return models, fn, None
    return models, lambda: c27.perform(op, docs, models), None


def outcome(fn):
    """('value', x) | ('refused', text) of an undisturbed operation."""
    try:
        return ["value", fn()]
    except ValueError as e:
        return ["refused", str(e)]


def prop(case):
    if case is None:
        return None
    docs, op, kind, frac = case
    models, fn, changed = prepare(op, docs)
    clean = copy.deepcopy(docs)
    res = []
    CALLS.run(lambda: res.append(outcome(fn)))
    want, n = res[0], CALLS.count
    after = dump(changed) if changed is not None else None
    if not n:
        return None
    models, fn, changed = prepare(op, docs)
    before = [state(m) for m in models] + ([state(changed)] if changed is not None else [])
    attrs = None if changed is None else [changed.extra_validators, changed.extra_converters]
    k = 1 + frac * (n - 1) // 1000
    what = f"{op[0]} failing with {kind} at call {k} of {n}"
    failed = True
    try:
        got = CALLS.run(fn, k, kind)
        failed = False
    except BaseException as e:          # noqa: BLE001 - whatever became of the injected error
        if CALLS.fired is None:
            if isinstance(e, ValueError):
                failed, got = None, None
            else:
                raise
    if CALLS.fired is None:
        return None                      # the operation took another way this time
    what += f" ({CALLS.fired})"
    now = [state(m) for m in models] + ([state(changed)] if changed is not None else [])
    if failed:
        for a, b in zip(before, now):
            d = oracle.diff(a, b, order=True)
            if d:
                raise Violation(f"{what} leaves a document changed: {d}")
        if attrs is not None and [changed.extra_validators, changed.extra_converters] != attrs:
            raise Violation(f"{what} leaves the lists of processors changed")
    elif changed is not None and oracle.diff(after, dump(changed)):
        raise Violation(f"{what} succeeds with another result than undisturbed")
    if oracle.diff(clean, docs, order=True):
        raise Violation(f"{what} changed its input")
    again = outcome(fn)
    if again[0] != want[0] or not c27.same(want[1], again[1]):
        raise Violation(f"after {what}, the same operation gives {oracle.short(again, 300)}, alone it gives {oracle.short(want, 300)}")
    if changed is not None:
        d = oracle.diff(after, dump(changed))
        if d:
            raise Violation(f"after {what}, the same operation leaves another document than alone: {d}")
        if op[0] == "assign":
            alive(changed, what)
    for m, d in zip(models[1:], docs[1:]):
        if not m == must_parse(ROOT, d):
            raise Violation(f"{what} changed another document")
    return f"{op[0]}:{kind}" if failed else None


def alive(m, what):
    """The document's processors still run."""
    calls = []

    class Witness(ProcessorProtocol):
        def __call__(self, spec):
            calls.append(1)
            return spec
    m.extra_validators = [Witness]
    m.id = "https://example.com/probe"
    if len(calls) != 2:
        raise Violation(f"after {what}, the processors of the document ran {len(calls)} times in 2 validations")


# ---------------------------------------------------------------- a failing processor of the user
@st.composite
def programs(draw):
    doc = draw(c19.document())
    place = draw(st.sampled_from(["converter", "first", "last"]))
    sec = draw(st.sampled_from(["components", "channels", "operations", "servers", "info", "id"]))
    return [doc, draw(st.sampled_from(sorted(KINDS))), place, draw(st.integers(0, 2)), sec, draw(c19.document())]


def prop_processor(case):
    doc, kind, place, at_call, sec, other = case
    calls, fail = [], [False]

    class Fragile(ProcessorProtocol):
        def __call__(self, spec):
            calls.append(dump(spec))
            if fail[0]:
                raise KINDS[kind]("injected")
            return spec

    class Steady(ProcessorProtocol):
        def __call__(self, spec):
            return spec
    lists = {"converter": {"extra_converters": [Steady, Fragile], "extra_validators": [Steady]}, "first": {"extra_validators": [Fragile, Steady]},
             "last": {"extra_converters": [Steady], "extra_validators": [Steady, Fragile]}}[place]
    fail[0] = at_call == 0
    if fail[0]:
        try:
            AsyncAPI3.model_validate({**copy.deepcopy(doc), **lists})
        except BaseException as e:          # noqa: BLE001
            if not isinstance(e, KINDS[kind]):
                raise Violation(f"{kind} of a processor comes out of parsing as {type(e).__name__}: {e}")
        else:
            raise Violation(f"{kind} of a processor is swallowed by parsing")
        fail[0] = False
    m = must_parse(ROOT, {**doc, **lists})
    before = state(m)
    value = other.get(sec) if sec != "id" else "https://example.com/other"
    want = must_parse(ROOT, doc)
    _, err = attempt(setattr, want, sec, copy.deepcopy(value))
    if err is not None:
        return None
    for _ in range(at_call):
        fail[0] = True
        try:
            setattr(m, sec, copy.deepcopy(value))
        except BaseException as e:          # noqa: BLE001
            if not isinstance(e, KINDS[kind]):
                raise Violation(f"{kind} of a processor comes out of an assignment as {type(e).__name__}: {e}")
        else:
            raise Violation(f"{kind} of a processor is swallowed by an assignment")
        fail[0] = False
        d = oracle.diff(before, state(m), order=True)
        if d:
            raise Violation(f"an assignment to {sec} that failed with {kind} in a processor changed the document: {d}")
    calls.clear()
    setattr(m, sec, copy.deepcopy(value))
    if len(calls) != 1 or oracle.diff(dump(want), dump(m)):
        raise Violation(f"after {kind} in a processor, an assignment to {sec} calls it {len(calls)} times and gives {oracle.diff(dump(want), dump(m)) or 'the right document'}")
    return f"processor:{kind}"


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return ([Task(f"calls{i}", prop, cases(), n=130 * k, weight=2) for i in range(8)]
            + [Task(f"processor{i}", prop_processor, programs(), n=60 * k) for i in range(3)])
