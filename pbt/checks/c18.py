"""The processor pipeline: converters, then validators, in order, once per validation; their refusals refuse the document."""
import copy
import json
import pickle

from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.gen import G
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, check_model, dump, first
from pbt.table import OBJS, ROOT

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C18"
RULE = ("Drawn documents with drawn lists of converters and validators (observing, assigning root fields or nested values, refusing on a condition), then a "
        "history of root assignments, changes of the lists and re-validations. A model predicts every call, its order and what it sees, the verdict and the "
        "state after every step. Copies that a processor takes of the document (five ways) must be documents like any other; so must other documents that processors handle, up to four deep. Non-trivial: at least two processors and two runs. Class = behaviours:outcomes.")
ASSUMES = ["what a processor returns, and nested changes made by converters of a refused run, are not decided",
           "how often processors run again because one of them assigns a field is not decided beyond termination; their effects are"]
FIELDS = {"default_content_type": "defaultContentType", "id": "id"}


class Trace:
    def __init__(self):
        self.calls = []         # (kind, id, snapshot)
        self.made = 0
        self.reused = False
        self.specs = []


def make(trace, kind, spec):
    """A processor class for one behaviour description."""
    what, pid = spec[0], spec[1]

    class Processor:
        def __init__(self):
            trace.made += 1
            self.used = False

        def __call__(self, spec_obj):
            if self.used:
                trace.reused = True
            self.used = True
            if len(trace.calls) > 400:
                raise RuntimeError("processors never come to an end")
            trace.calls.append([kind, pid, spec_obj.default_content_type, None if spec_obj.id is None else str(spec_obj.id), spec_obj.info.title])
            trace.specs.append(spec_obj)
            if what == "set":
                setattr(spec_obj, spec[2], spec[3])
            elif what == "append":
                spec_obj.default_content_type = (spec_obj.default_content_type or "")[:20] + spec[2]
            elif what == "title":
                spec_obj.info.title = spec[2]
            elif what == "fail" and spec_obj.default_content_type == spec[2]:
                raise ValueError(f"refused by {pid}")
            elif what == "assert" and spec_obj.default_content_type == spec[2]:
                raise AssertionError(f"refused by {pid}")
            return spec_obj

    Processor.__name__ = f"{kind}{pid}"
    return Processor


DCT = st.sampled_from(["boom", "application/json", "x", ""])


@st.composite
def behaviours(draw, converters, nested, n=4):
    out = []
    for i in range(draw(st.integers(0, n))):
        if out and draw(gen.UPTO[3]) == 0:
            out.append(out[draw(st.integers(0, len(out) - 1))])
            continue
        pid = draw(st.integers(0, 9))
        how = draw(st.sampled_from(["note", "note", "fail", "assert"] + (["set", "set", "append"] + (["title"] if nested else []) if converters else [])))
        if nested and how in ("fail", "assert"):
            how = "note"
        if how == "set":
            f = draw(st.sampled_from(sorted(FIELDS)))
            out.append([how, pid, f, draw(DCT) if f != "id" else draw(gen.URL)])
        elif how in ("fail", "assert"):
            out.append([how, pid, draw(DCT)])
        elif how == "append":
            out.append([how, pid, draw(st.sampled_from(["a", "b"]))])
        elif how == "title":
            out.append([how, pid, draw(st.sampled_from(["t1", "t2"]))])
        else:
            out.append([how, pid])
    return out


@st.composite
def cases(draw):
    doc = G(draw, draw(st.sampled_from([0, 10, 40]))).obj("AsyncAPI3")
    if draw(st.booleans()):
        doc = {**doc, "defaultContentType": draw(DCT)}
    nested = draw(st.booleans())
    conv = draw(behaviours(True, nested))
    val = draw(behaviours(False, nested))
    given_as = draw(st.sampled_from(["list", "list", "none", "absent"]))
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        op = draw(st.sampled_from(["dct", "dct", "id", "bad", "revalidate", "conv", "val", "same", "section"]))
        if op == "dct":
            ops.append([op, draw(DCT)])
        elif op == "id":
            ops.append([op, draw(gen.URL)])
        elif op == "bad":
            ops.append([op, draw(st.sampled_from([["default_content_type", 5], ["asyncapi", "2.0.0"], ["info", None], ["servers", {"a b": {}}], ["id", "no url"]]))])
        elif op in ("conv", "val"):
            ops.append([op, draw(behaviours(op == "conv", nested))])
        elif op == "section":
            f = draw(st.sampled_from(["servers", "channels", "operations", "components"]))
            ops.append([op, f, G(draw, 6).value(OBJS["AsyncAPI3"].f(f).type)])
        else:
            ops.append([op])
    return [doc, conv, val, given_as, ops]


def run(doc, conv, val):
    """(document after the run or None, calls)"""
    calls = []
    for kind, specs in (("conv", conv), ("val", val)):
        for s in specs:
            calls.append([kind, s[1], doc.get("defaultContentType"), doc.get("id"), doc["info"]["title"]])
            if s[0] == "set":
                doc = {**doc, FIELDS[s[2]]: s[3]}
            elif s[0] == "append":
                doc = {**doc, "defaultContentType": (doc.get("defaultContentType") or "")[:20] + s[2]}
            elif s[0] == "title":
                doc = {**doc, "info": {**doc["info"], "title": s[2]}}
            elif s[0] in ("fail", "assert") and doc.get("defaultContentType") == s[2]:
                return None, calls
    return doc, calls


def prop(case):
    doc, conv, val, given_as, ops = case
    trace = Trace()
    runs = 0

    def classes(kind, specs):
        made = {}           # the same description twice in a list is the same class twice
        return [made.setdefault(json.dumps(s), make(trace, kind, s)) for s in specs]

    def judge(step, want_calls, assigns):
        got = trace.calls
        if trace.reused:
            raise Violation(f"{step}: a processor instance was called twice")
        if trace.made < len(got):
            raise Violation(f"{step}: {trace.made} processors made, {len(got)} called")
        if not assigns:
            if got != want_calls:
                raise Violation(f"{step}: calls {got}, expected {want_calls}")
        else:
            it = iter(got)
            if not all(any(c[:2] == w[:2] for c in it) for w in want_calls):
                raise Violation(f"{step}: calls {got}, expected at least {want_calls}")
        trace.calls, trace.made, trace.specs = [], 0, []

    def state(step, m, cur):
        d = oracle.diff(oracle.expected(ROOT, cur), dump(m))
        if d:
            raise Violation(f"{step}: the document is wrong: {d}")
        for text in (m.model_dump(), json.loads(m.model_dump_json()), m.model_dump(by_alias=False)):
            if "extra_converters" in text or "extra_validators" in text or "extraConverters" in text:
                raise Violation(f"{step}: processors show up in the dump")

    kw = {}
    if given_as == "list":
        kw = {"extra_converters": classes("conv", conv), "extra_validators": classes("val", val)}
    else:
        conv, val = [], []
        if given_as == "none":
            kw = {"extra_converters": None, "extra_validators": None}
    assigning = lambda: any(s[0] in ("set", "append") for s in conv)
    want, calls = run(doc, conv, val)
    if want is not None and oracle.conforms(ROOT, want):
        return None
    m, err = attempt(AsyncAPI3.model_validate, {**doc, **kw})
    runs += 1
    last = trace.specs[-1] if trace.specs else None
    judge("parse", calls, assigning())
    if want is None:
        if err is None:
            raise Violation("parse accepted although a processor refused")
        m2, err = attempt(AsyncAPI3.model_validate, doc)
        if err is not None:
            raise Violation(f"the same document without processors refused: {first(err)}")
        return "refused" if len(conv) + len(val) > 1 else None
    if err is not None:
        raise Violation(f"parse refused: {first(err)}")
    if last is not None and last is not m:
        raise Violation("processors were given another object than the parsed document")
    cur = want
    state("parse", m, cur)
    outcomes = {"parsed"}
    for i, op in enumerate(ops):
        step = f"step {i} {op[0]}"
        new, nc, nv = cur, conv, val
        if op[0] == "revalidate":
            want, calls = run(cur, conv, val)
            m2, err = attempt(AsyncAPI3.model_validate, m)
            runs += 1
            # the run may assign, on the new object only
            judge(step, calls, assigning())
            if (err is None) != (want is not None):
                raise Violation(f"{step}: {'accepted' if err is None else 'refused'}, expected the opposite")
            if want is not None and not any(s[0] == "title" for s in conv):
                state(step + " (original)", m, cur)
            if want is not None:
                m, cur = m2, want
                state(step, m, cur)
            continue
        if op[0] == "bad":
            f, x = op[1]
            try:
                setattr(m, f, x)
            except ValueError:
                pass
            else:
                raise Violation(f"{step}: {f} = {x!r} accepted")
            judge(step, [], False)
            state(step, m, cur)
            continue
        if op[0] in ("dct", "id"):
            f = "default_content_type" if op[0] == "dct" else "id"
            x = op[1]
            new = {**cur, FIELDS[f]: x}
        elif op[0] == "section":
            f, x = op[1], op[2]
            new = {**cur, f: x}
        elif op[0] == "same":
            f, x = "info", m.info
        else:
            f = "extra_converters" if op[0] == "conv" else "extra_validators"
            nc, nv = (op[1], val) if op[0] == "conv" else (conv, op[1])
            x = classes(op[0], op[1])
        want, calls = run(new, nc, nv)
        try:
            setattr(m, f, x)
            ok = True
        except ValueError:
            ok = False
        runs += 1
        last = trace.specs[-1] if trace.specs else None
        judge(step, calls, any(s[0] in ("set", "append") for s in nc))
        if ok != (want is not None):
            raise Violation(f"{step}: {'accepted' if ok else 'refused'}, expected the opposite")
        if ok:
            if last is not None and last is not m:
                raise Violation(f"{step}: processors were given another object than the document")
            cur, conv, val = want, nc, nv
            outcomes.add("assigned")
        else:
            outcomes.add("refused")
        state(step, m, cur)
    kinds = sorted({s[0] for s in conv + val})
    return "/".join(kinds) + ":" + "+".join(sorted(outcomes)) if len(conv) + len(val) > 1 and runs > 1 else None


def not_processors(case):
    """Only classes that implement the protocol are accepted as processors."""
    field, what = case
    bad = {"str": ["x"], "int": [1], "none": [None], "object": [object], "int type": [int], "instance": [make(Trace(), "val", ["note", 1])()],
           "no call": [type("NoCall", (), {})], "dict": [{}], "text": "x", "mapping": {"a": 1}}[what]
    for route in ("parse", "assign"):
        if route == "parse":
            _, err = attempt(AsyncAPI3.model_validate, {"info": {"title": "t", "version": "1"}, field: bad})
        else:
            m = AsyncAPI3.model_validate({"info": {"title": "t", "version": "1"}})
            try:
                setattr(m, field, bad)
                err = None
            except ValueError as e:
                err = e
            if getattr(m, field) is not None:
                raise Violation(f"{field} holds {getattr(m, field)!r} after a refused assignment")
        if err is None:
            raise Violation(f"{field} = {bad!r} accepted by {route}")
    return what


WAYS = {"model_copy": lambda m: m.model_copy(), "model_copy deep": lambda m: m.model_copy(deep=True), "copy": copy.copy, "deepcopy": copy.deepcopy,
        "pickle": lambda m: pickle.loads(pickle.dumps(m))}          # noqa: S301


@st.composite
def copied(draw):
    doc = G(draw, draw(st.sampled_from([0, 10, 30]))).obj("AsyncAPI3")
    doc = {k: v for k, v in doc.items() if k != "defaultContentType"}
    return [doc, draw(st.sampled_from(sorted(WAYS))), draw(st.sampled_from(["conv", "val"])), draw(st.integers(0, 1)), draw(st.booleans()), draw(st.booleans())]


class Keeper:
    """Takes a copy of the first document it sees. Module level, so that documents with it can be pickled."""
    way, kept, calls, equal = None, [], 0, []

    def __call__(self, spec):
        Keeper.calls += 1
        if not Keeper.kept:
            c = WAYS[Keeper.way](spec)
            Keeper.kept.append(c)
            Keeper.equal.append(c == spec)
        return spec


class Judge:
    """Refuses the documents with a certain content type."""
    boom, calls = "boom", 0

    def __call__(self, spec):
        Judge.calls += 1
        if spec.default_content_type == Judge.boom:
            raise ValueError("refused by the judge")
        return spec


def taken_copies(case):
    """A copy a processor takes of the document is a document like any other."""
    doc, way, kind, pos, refuse, assign = case
    Keeper.way, Keeper.kept, Keeper.equal, Keeper.calls, Judge.calls = way, [], [], 0, 0
    Judge.boom = "boom"
    lists = {"extra_converters": [Keeper] if kind == "conv" else None, "extra_validators": [Judge] if kind == "conv" else [Judge, Keeper] if pos else [Keeper, Judge]}
    if refuse:
        doc = {**doc, "defaultContentType": "boom"}
    m, err = attempt(AsyncAPI3.model_validate, {**doc, **lists})
    if (err is not None) != refuse:
        raise Violation(f"{'refused' if err is not None else 'accepted'}, expected the opposite")
    if not Keeper.kept:
        return None                     # the judge spoke first
    c = Keeper.kept[0]
    if not Keeper.equal[0]:
        raise Violation(f"a copy ({way}) taken by a processor is not equal to the document it was given")
    if refuse:
        doc = {k: v for k, v in doc.items() if k != "defaultContentType"}
        Judge.calls = 0
        try:
            c.default_content_type = None
        except ValueError as e:
            raise Violation(f"a copy ({way}) of a refused document cannot be mended: {e}")
        if Judge.calls != 1:
            raise Violation(f"an assignment to a copy ({way}) taken by a processor ran the validators {Judge.calls} times")
        m = AsyncAPI3.model_validate({**doc, **lists})
    d = oracle.diff(oracle.expected(ROOT, doc), dump(c))
    if d:
        raise Violation(f"a copy ({way}) taken by a processor is wrong: {d}")
    if not c == m:
        raise Violation(f"a copy ({way}) taken by a processor is not equal to the document afterwards")
    first_, second = (c, m) if assign else (m, c)
    for one in (first_, second):
        Keeper.calls = Judge.calls = 0
        one.default_content_type = "fine"
        if [Keeper.calls, Judge.calls] != [1, 1]:
            raise Violation(f"an assignment to {'the copy' if one is c else 'the document'} ({way}) ran the processors {[Keeper.calls, Judge.calls]} times")
        try:
            one.default_content_type = "boom"
        except ValueError:
            pass
        else:
            raise Violation(f"{'a copy' if one is c else 'the document'} ({way}) taken by a processor accepts what its validators refuse")
        d = oracle.diff(oracle.expected(ROOT, {**doc, "defaultContentType": "fine"}), dump(one))
        if d:
            raise Violation(f"after a refused assignment to {'the copy' if one is c else 'the document'}: {d}")
    return f"copies:{way}"


# ---------------------------------------------------------------- documents handled by the processors of others
HANDLING = ["parse", "builder", "assign list", "edit", "revalidate"]


@st.composite
def families(draw, depth=0):
    """A document whose processor handles further documents, that have processors of their own."""
    kids = [draw(families(depth + 1)) for _ in range(draw(gen.UPTO[2 if depth == 0 else 1]) + (depth == 0))] if depth < 4 else []
    return [draw(st.sampled_from(["extra_converters", "extra_validators"])), draw(st.sampled_from(HANDLING)), draw(gen.UPTO[3]) == 0, draw(gen.UPTO[2]) > 0, kids]


def handle(node, log, path, told):
    """Brings the document of a node through its processors; returns it."""
    field, way, fails, catch, kids = node
    quiet = [way in ("edit", "revalidate")]

    class Handler:
        def __call__(self, spec):
            if quiet[0]:
                return spec
            log.append(["in", path])
            for i, kid in enumerate(kids):
                try:
                    handle(kid, log, path + [i], told)
                    log.append(["fine", path + [i]])
                except ValueError:
                    log.append(["refused", path + [i]])
                    if not catch:
                        raise
            if fails:
                raise ValueError("refused")
            return spec

    base = {"info": {"title": "same for all", "version": "1"}}
    if way == "parse":
        m = AsyncAPI3.model_validate({**base, field: [Handler]})
    elif way == "builder":
        m = AsyncAPI3.as_builder(**{field: [Handler]})
    elif way == "assign list":
        m = AsyncAPI3.model_validate(base)
        setattr(m, field, [Handler])
    else:
        m = AsyncAPI3.model_validate({**base, field: [Handler]})
        quiet[0] = False
        if way == "edit":
            m.default_content_type = "x"
        else:
            m = AsyncAPI3.model_validate(m)
    told.append((m, field, path, quiet))
    return m


def foresee(node, log, path):
    field, way, fails, catch, kids = node
    log.append(["in", path])
    for i, kid in enumerate(kids):
        ok = foresee(kid, log, path + [i])
        log.append(["fine" if ok else "refused", path + [i]])
        if not ok and not catch:
            return False
    return not fails


def family(case):
    """Documents handled inside the processors of another are processed like any other, and so is that one afterwards."""
    want, log, told = [], [], []
    ok = foresee(case, want, [])
    try:
        handle(case, log, [], told)
        got = True
    except ValueError:
        got = False
    if got != ok:
        raise Violation(f"documents handled by processors: {'accepted' if got else 'refused'}, expected the opposite; {log}")
    if log != want:
        raise Violation(f"documents handled by processors: calls {log}, expected {want}")
    for m, field, path, quiet in told[-3:]:
        node = case
        for i in path:
            node = node[4][i]
        again = []
        ok = foresee(node, again, path)
        log.clear()
        try:
            m.id = "urn:example:later"
            got = True
        except ValueError:
            got = False
        if got != ok or log != again:
            raise Violation(f"a later assignment to a document handled by a processor: calls {log}, expected {again}")
    return f"family:{len(want)}" if len(want) > 3 else None


@st.composite
def backward(draw):
    fields = draw(st.lists(st.sampled_from(["extra_converters", "extra_validators"]), min_size=2, max_size=4))
    return [fields, draw(st.integers(0, len(fields) - 1)), draw(st.sampled_from(["default_content_type", "id", "info"]))]


def reaches_back(case):
    """The processor of a document that another's processor handles assigns a field of that other: it comes to an end, and the field is assigned."""
    fields, target, f = case
    stack, calls = {}, [0]
    value = {"default_content_type": "below", "id": "urn:example:below", "info": {"title": "below", "version": "2"}}[f]

    def make_one(i):
        class Handler:
            def __call__(self, spec):
                calls[0] += 1
                if calls[0] > 300:
                    raise RuntimeError("processors never come to an end")
                stack[i] = spec
                if i + 1 < len(fields):
                    make_one(i + 1)
                else:
                    setattr(stack[target], f, value)
                return spec
        return AsyncAPI3.model_validate({"info": {"title": "t", "version": "1"}, fields[i]: [Handler]})

    m = make_one(0)
    if stack[0] is not m:
        raise Violation("the processor was given another object than the document")
    d = oracle.diff(oracle.expected(ROOT, {"info": {"title": "t", "version": "1"}, OBJS["AsyncAPI3"].f({"default_content_type": "defaultContentType"}.get(f, f)).name: value}), dump(stack[target]))
    if d:
        raise Violation(f"an assignment from the processor of another document was lost: {d}")
    return f"back:{len(fields)}"


def tasks(tier):
    k = 1 if tier == "quick" else 40
    return ([Task(f"pipeline{i}", prop, cases, n=350 * k, weight=3) for i in range(8)]
            + [Task("copies", taken_copies, copied(), n=40 * k)]
            + [Task("families", family, families(), n=60 * k), Task("back", reaches_back, backward(), n=10 * k)]
            + [Task("not_processors", not_processors, cases=lambda: [[f, w] for f in ("extra_converters", "extra_validators") for w in
                                                                      ("str", "int", "none", "object", "int type", "instance", "no call", "dict", "text", "mapping")])])
