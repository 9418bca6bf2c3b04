"""Looking at a document changes nothing: neither the document, nor what later looks show."""
import copy
import json
import pickle

from hypothesis import strategies as st
from pydantic import BaseModel

from pbt import gen, oracle, refs
from pbt.checks import c19
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, cls, dump, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T

import asyncapi3.validators as V
from asyncapi3.validators.utils import resolve_reference

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C36"
RULE = ("Histories of up to 12 looks (dumps with drawn options, JSON text, repr, attributes, map lookups present and absent, iteration, equality with others, hashes, copies of every kind, pickling, parsing the "
        "object again, its JSON Schema, resolving references, shipped validators) at objects of every type and at documents with good and bad references. After each look the object "
        "must be, piece by piece, the very one it was: same stored objects, same fields set, same order; each look must show what it shows on a fresh parse of the same data. "
        "Non-trivial: three or more different looks. Class = kinds of looks.")
ASSUMES = ["what the looks show is decided by the other properties; here only that they do not depend on earlier looks"]
NAMES = c19.NAMES
OPTIONS = ["by_alias", "exclude_unset", "exclude_defaults", "exclude_none", "round_trip"]
SCHEMAS = {}
BOUND = sorted(o.name for o in OBJS.values() if any(f.name == "bindingVersion" for f in o.fields))
LOOKS = ["dump", "dump", "json", "repr", "attrs", "items", "eq", "hash", "copy", "deepcopy", "model_copy", "pickle", "again", "schema", "fields_set"]


@st.composite
def look(draw, isdoc, doc):
    how = draw(st.sampled_from(LOOKS + (["resolve", "resolve", "validator", "validator"] if isdoc else [])))
    if how == "dump":
        opts = {k: draw(st.booleans()) for k in draw(st.lists(st.sampled_from(OPTIONS), max_size=3, unique=True))}
        return [how, draw(st.sampled_from(["python", "json"])), opts]
    if how == "resolve":
        cands = sorted({s for p, s, e in refs.slots(doc)} | set(refs.targets(doc))) + ["#/nope", "#/info"]
        if draw(st.booleans()):
            # also fields the document does not have: some have a default
            known = [(p, k) for p, (tp, k) in sorted(refs.targets(doc).items()) if k in OBJS and OBJS[k].fields]
            versioned = [p + "/bindingVersion" for p, k in known if any(f.name == "bindingVersion" for f in OBJS[k].fields)]
            p, k = known[draw(st.integers(0, len(known) - 1))] if known else ("#", "AsyncAPI3")
            cands = versioned or [f"{p}/{f.name}" for f in OBJS[k].fields]
        return [how, cands[draw(st.integers(0, len(cands) - 1))]]
    if how == "validator":
        return [how, draw(st.sampled_from(["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"] + NAMES))]
    if how in ("attrs", "items", "hash", "copy", "repr", "deepcopy"):
        return [how, draw(st.integers(0, 1000))]
    return [how]


@st.composite
def documents(draw):
    doc = draw(c19.document())
    other = draw(gen.UPTO[3])
    if other == 0:
        doc = draw(refs.good_documents(budget=30))
    elif other == 1:
        g = G(draw, 10)
        name = draw(st.sampled_from(BOUND))
        doc, _ = gen.embed(g, T("OBJ", (name,)), g.obj(name), sparse=True, strict=True)
    return ["AsyncAPI3", doc, [draw(look(True, doc)) for _ in range(draw(st.integers(3, 12)))]]


@st.composite
def objects(draw, name):
    v = G(draw, 12).value(T("PMAP" if name in PMAPS else "OBJ", (name,)))
    return [name, v, [draw(look(False, None)) for _ in range(draw(st.integers(3, 12)))]]


def picture(x, out, path=""):
    """What the library keeps of an object, by identity: {path: (id, kind, what it counts as set)}. Holds every object alive."""
    if isinstance(x, BaseModel):
        out.append((path, x, type(x), sorted(x.model_fields_set), list(x.model_extra or ())))
        for f in type(x).model_fields:
            picture(getattr(x, f), out, f"{path}/{f}")
        for k, v in (x.model_extra or {}).items():
            picture(v, out, f"{path}/{k}")
    elif isinstance(x, dict):
        out.append((path, x, type(x), list(x), None))
        for k, v in x.items():
            picture(v, out, f"{path}/{k}")
    elif isinstance(x, list):
        out.append((path, x, type(x), len(x), None))
        for i, v in enumerate(x):
            picture(v, out, f"{path}/{i}")
    else:
        out.append((path, x, type(x), None, None))
    return out


def compare(a, b, what):
    for x, y in zip(a, b):
        if x[0] != y[0]:
            raise Violation(f"{what} changed the object: {x[0] or '/'} stood where {y[0] or '/'} stands now")
        if x[2:] != y[2:]:
            raise Violation(f"{what} changed {x[0] or '/'} from {x[2:]} to {y[2:]}")
        if x[1] is not y[1] and (isinstance(x[1], (BaseModel, dict, list)) or type(x[1]) is not type(y[1]) or x[1] != y[1]):
            raise Violation(f"{what} put another object at {x[0] or '/'}")
    if len(a) != len(b):
        raise Violation(f"{what} changed the object: it has {len(b)} parts, not {len(a)}")


def parts(m):
    """The models inside one, itself first."""
    return [p[1] for p in picture(m, []) if isinstance(p[1], BaseModel)]


def show(m, op):
    """What a look shows, as something that can be compared."""
    how = op[0]
    if how == "dump":
        d = m.model_dump(mode=op[1], **op[2])
        return d if op[1] == "json" else repr(d)
    if how == "json":
        return [m.model_dump_json(), m.model_dump_json(indent=2, by_alias=True)]
    if how == "repr":
        ps = parts(m)
        x = ps[op[1] % len(ps)]
        return [repr(x), str(x)]
    if how == "attrs":
        ps = parts(m)
        x = ps[op[1] % len(ps)]
        return [[f, repr(getattr(x, f))] for f in type(x).model_fields] + [hasattr(x, "no_such_field"), repr(x.model_extra)]
    if how == "items":
        ms = [p for p in parts(m) if type(p).__name__ in PMAPS]
        if not ms:
            return None
        x = ms[op[1] % len(ms)]
        out = [list(x), len(x), "absent" in x, "" in x, [k in x for k in x], [repr(x[k]) for k in x]]
        try:
            x["absent"]
        except KeyError:
            out.append("KeyError")
        return out + [bool(x)]
    if how == "eq":
        ps = parts(m)
        return [m == m, m == dump(m), m != ps[-1], m == None, [p == ps[0] for p in ps[:20]]]      # noqa: E711
    if how == "hash":
        rs = [p for p in parts(m) if type(p).__name__ == "Reference"]
        return [hash(r) == hash(r.ref) for r in rs]
    if how in ("copy", "deepcopy"):
        ps = parts(m)
        x = m if op[1] % 2 else ps[op[1] % len(ps)]
        c = getattr(copy, how)(x)
        return [c == x, type(c).__name__, dump(c)]
    if how == "model_copy":
        return [dump(m.model_copy()), dump(m.model_copy(deep=True))]
    if how == "pickle":
        return dump(pickle.loads(pickle.dumps(m)))
    if how == "again":
        a, err = attempt(type(m).model_validate, m)
        b, err2 = attempt(type(m).model_validate, dump(m))
        return [str(err), a is not None and a == m, str(err2), b is not None and dump(b)]
    if how == "schema":
        return [json.dumps(type(m).model_json_schema(mode=x)) for x in ("validation", "serialization")]
    if how == "fields_set":
        return [sorted(m.model_fields_set), list(m.model_extra or ()), [[k, repr(v)] for k, v in (dict.items(dict(m)) if type(m).__name__ not in PMAPS else m.root.items())]]
    if how == "resolve":
        try:
            r = resolve_reference(op[1], m)
        except ValueError as e:
            return str(e)
        return None if r is None else [r.resolved_type.__name__, r.path, repr(r.resolved_object)]
    if how == "validator":
        try:
            return getattr(V, op[1])()(m) is m
        except ValueError as e:
            return str(e)
    raise KeyError(how)


def prop(case):
    name, v, ops = case
    m, err = attempt(cls(name).model_validate, copy.deepcopy(v))
    if err is not None:
        return None
    before = picture(m, [])
    for op in ops:
        what = f"{'-'.join(map(str, op))}"
        got = show(m, op)
        compare(before, picture(m, []), what)
        want = SCHEMAS.get(name) if op[0] == "schema" else None
        if want is None:
            want = show(attempt(cls(name).model_validate, copy.deepcopy(v))[0], op)
            if op[0] == "schema":
                SCHEMAS[name] = want
        if type(got) is not type(want) or oracle.diff({"x": want}, {"x": got}, order=True):
            raise Violation(f"{what} shows {oracle.short(got, 300)} after {[o[0] for o in ops[:ops.index(op)]]}, on a fresh parse {oracle.short(want, 300)}")
    kinds = sorted({op[0] for op in ops})
    return "+".join(kinds)[:60] if len(kinds) > 2 else None


def tasks(tier):
    k = 1 if tier == "quick" else 25
    names = sorted(set(OBJS) | set(PMAPS))
    return ([Task(f"documents{i}", prop, documents(), n=40 * k, weight=3) for i in range(4)]
            + foreach("objects", prop, names, objects, 6 * k))
