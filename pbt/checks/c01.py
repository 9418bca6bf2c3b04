"""Round trip: parse -> dump -> parse is the identity, in every dump form."""
import json

from pbt import gen, oracle
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, cls, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T

ID = "C01"
RULE = ("Documents and single objects are built from the reference table by construction (Hypothesis); a case is non-trivial "
        "when it sets at least one field beyond the minimal document; classes are <kind>:<number of typed nodes, bucketed>.")
ASSUMES = ["URLs are generated in the normal form pydantic prints", "no lone surrogates, NaN or infinities"]


def plain(x):
    """A python-mode dump as JSON data (URL objects as their text)."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return str(x) if type(x) is not str and isinstance(x, str) else x
    return str(x)


def roundtrip(name, doc):
    m = must_parse(name, doc)
    d1 = dump(m)
    m2, err = attempt(cls(name).model_validate, d1)
    if err:
        raise Violation(f"its own dump is rejected: {first(err)}")
    x = oracle.diff(d1, dump(m2))
    if x:
        raise Violation(f"dump of the re-parsed dump differs: {x}")
    if not m == m2:
        raise Violation("re-parsed dump is not equal to the original object")
    text = m.model_dump_json()
    x = oracle.diff(d1, json.loads(text))
    if x:
        raise Violation(f"model_dump_json differs from model_dump(mode='json'): {x}")
    m3, err = attempt(cls(name).model_validate_json, text)
    if err:
        raise Violation(f"its own JSON text is rejected: {first(err)}")
    x = oracle.diff(d1, dump(m3))
    if x:
        raise Violation(f"JSON text round trip differs: {x}")
    py = m.model_dump()
    x = oracle.diff(d1, plain(py))
    if x:
        raise Violation(f"python-mode dump differs from the JSON-mode dump: {x}")
    m4, err = attempt(cls(name).model_validate, py)
    if err:
        raise Violation(f"its own python-mode dump is rejected: {first(err)}")
    if not m4 == m:
        raise Violation("re-parsed python-mode dump is not equal to the original object")
    m5, err = attempt(cls(name).model_validate, m)
    if err:
        raise Violation(f"the object itself is rejected on re-validation: {first(err)}")
    x = oracle.diff(d1, dump(m5))
    if x:
        raise Violation(f"re-validating the object changes it: {x}")
    if not m5 == m:
        raise Violation("re-validating the object gives an unequal one")
    for kw in ({"exclude_unset": True}, {"exclude_defaults": True}, {"by_alias": False}, {"by_alias": True, "exclude_unset": True}, {"round_trip": True}):
        d = m.model_dump(mode="json", **kw)
        m6, err = attempt(cls(name).model_validate, d)
        if err:
            raise Violation(f"its dump with {kw} is rejected: {first(err)}")
        x = oracle.diff(d1, dump(m6))
        if x:
            raise Violation(f"dump with {kw} loses data: {x}")
        if not m6 == m:
            raise Violation(f"re-parsed dump with {kw} is not equal to the original object")
        x = oracle.diff(d, json.loads(m.model_dump_json(indent=2, **kw)))
        if x:
            raise Violation(f"JSON text with {kw} differs from the dump with it: {x}")
    cp = m.model_copy(deep=True)
    if not cp == m or oracle.diff(d1, dump(cp)):
        raise Violation("a deep copy differs")
    x = oracle.diff(d1, dump(m))
    if x:
        raise Violation(f"dumping or re-parsing changed the original object: {x}")


def bucket(n):
    for b in (5, 20, 60, 150, 400):
        if n <= b:
            return f"<={b}"
    return ">400"


def prop(case):
    name, doc = case
    roundtrip(name, doc)
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    n = sum(1 for _ in oracle.walk(t, doc))
    if doc in ({}, []):
        return None
    return ("document:" if name == "AsyncAPI3" else "object:") + bucket(n)


def tasks(tier):
    k = 1 if tier == "quick" else 25
    docs = [Task(f"documents{i}", prop, gen.documents(budget=b).map(lambda d: ["AsyncAPI3", d]), n=150 * k)
            for i, b in enumerate([20, 60, 100, 150, 150, 250, 400, 400])]
    names = [n for n in list(OBJS) + list(PMAPS)]
    docs += [Task("deep", prop, gen.deep_documents().map(lambda d: ["AsyncAPI3", d]), n=60 * k)]
    return docs + foreach("objects", prop, names, lambda n: gen.anyof(n).map(lambda v: [n, v]), 12 * k)
