"""The JSON Schemas the models publish describe the documents they accept and produce."""
import copy
import functools

import jsonschema
from hypothesis import strategies as st

from pbt import gen, mutate, oracle
from pbt.checks.c04 import has_bad_url
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import cls, dump, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

ID = "C26"
RULE = ("For every object and patterned object, the schema it publishes (both modes) must accept drawn valid documents and their dumps, and refuse drawn documents with a missing "
        "field, a wrong type, a value outside an enumeration or length limit, or an unknown field of a closed object, alone and inside whole documents; properties and required "
        "fields are the documented ones. Non-trivial: every valid document and every defect JSON Schema can express. Class = object kind and verdict.")
ASSUMES = ["rules JSON Schema leaves to the library (patterned keys, extension names, cross-field rules, URL and e-mail syntax) are not expected of the schemas"]


@functools.lru_cache(None)
def validator(name, mode):
    s = cls(name).model_json_schema(mode=mode)
    jsonschema.Draft202012Validator.check_schema(s)
    return jsonschema.Draft202012Validator(s)


def named(name):
    return T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))


def shape(t, v, maxlen=None):
    """Why v has the wrong shape for t as far as JSON Schema can say, or None."""
    if t.kind == "UNION":
        whys = [shape(a, v) for a in t.args]
        return whys[0] if all(whys) else None
    k = t.kind
    if k == "ANY":
        return None
    if k in ("STR", "URL", "HTTPURL", "EMAIL"):
        if not isinstance(v, str):
            return f"{v!r} is no string"
        return f"longer than {maxlen}" if maxlen is not None and len(v) > maxlen else None
    if k == "INT":
        ok = isinstance(v, int) and not isinstance(v, bool) or isinstance(v, float) and v == int(v)
        return None if ok else f"{v!r} is no integer"
    if k == "BOOL":
        return None if isinstance(v, bool) else f"{v!r} is no boolean"
    if k == "LIT":
        return None if any(type(a) is type(v) and a == v for a in t.args) or isinstance(v, float) else f"{v!r} not in {t.args}"
    if k == "LIST":
        if not isinstance(v, list):
            return f"{oracle.short(v)} is no list"
        return next((w for w in (shape(t.args[0], x) for x in v) if w), None)
    if not isinstance(v, dict):
        return f"{oracle.short(v)} is no object"
    if k in ("MAP", "PMAP"):
        vt = t.args[0] if k == "MAP" else PMAPS[t.args[0]].value
        return next((w for w in (shape(vt, x) for x in v.values()) if w), None)
    if k == "REF":
        if set(v) - {"$ref"}:
            return "a reference has no other fields"
        return None if isinstance(v.get("$ref"), str) else "no $ref string"
    o = OBJS[t.args[0]]
    for f in o.fields:
        if f.name not in v:
            if f.req:
                return f"{f.name} is missing"
        elif v[f.name] is None and not f.req:
            continue
        else:
            w = shape(f.type, v[f.name], f.maxlen)
            if w:
                return f"{f.name}: {w}"
    if o.ext == "CLOSED" and set(v) - {f.name for f in o.fields}:
        return "unknown field"
    return None


def errors(name, mode, v):
    return next((f"{e.json_path}: {e.message}"[:300] for e in validator(name, mode).iter_errors(v)), None)


def prop(case):
    name, v = case
    t = named(name)
    why = shape(t, v)
    bad = oracle.conforms(t, v)
    if bad and not why:
        return None
    if why and not bad or not why and has_bad_url(t, v):
        return None
    before = copy.deepcopy(v)
    for mode in ("validation", "serialization"):
        e = errors(name, mode, v)
        if why and e is None:
            raise Violation(f"the {mode} schema of {name} accepts {oracle.short(v, 300)} although {why}")
        if not why and e is not None and mode == "validation":      # the other one speaks of dumps, where defaults are filled in
            raise Violation(f"the {mode} schema of {name} refuses a valid document: {e}")
    if not why:
        d = dump(must_parse(t, v))
        for mode in ("validation", "serialization"):
            e = errors(name, mode, d)
            if e is not None:
                raise Violation(f"the {mode} schema of {name} refuses a dump: {e}")
    if v != before:
        raise Violation("schema validation changed the document")
    return f"{'root' if name == 'AsyncAPI3' else name if name in PMAPS else OBJS[name].ext}:{'bad' if why else 'good'}"


def surface(case):
    name = case
    for mode in ("validation", "serialization"):
        s = cls(name).model_json_schema(mode=mode)
        if s != cls(name).model_json_schema(mode=mode):
            raise Violation(f"{name}: the {mode} schema differs between calls")
        s = resolve(s)
        if name in OBJS and name != "Reference":
            want = {f.name for f in OBJS[name].fields}
            if set(s.get("properties", {})) != want:
                raise Violation(f"{name}: schema properties {sorted(set(s.get('properties', {})) ^ want)} differ from the documented fields")
            req = {f.name for f in OBJS[name].fields if f.req}
            if mode == "validation" and set(s.get("required", [])) != req:
                raise Violation(f"{name}: required {sorted(s.get('required', []))}, documented {sorted(req)}")
            for f in OBJS[name].fields:
                if f.default is not None and s["properties"][f.name].get("default") != f.default:
                    raise Violation(f"{name}.{f.name}: default {s['properties'][f.name].get('default')!r}, documented {f.default!r}")
    return "surface:" + name


def resolve(s):
    return s["$defs"][s["$ref"].rsplit("/", 1)[1]] if "$ref" in s and "$defs" in s else s


@st.composite
def good(draw, name):
    return [name, G(draw, 25).value(named(name))]


@st.composite
def bad(draw, name):
    if name in PMAPS:
        return [name, draw(mutate.bad_value(named(name)))]
    return [name, draw(mutate.bad_object(name)) or {}]


@st.composite
def whole(draw):
    doc = draw(gen.documents(budget=40))
    if draw(gen.UPTO[1]):
        return ["AsyncAPI3", doc]
    names = [o.name for o in OBJS.values() if o.fields and o.name != "AsyncAPI3"] + list(PMAPS)
    name = names[draw(st.integers(0, len(names) - 1))]
    g = G(draw, 12)
    t = named(name)
    v = draw(mutate.bad_value(t))
    doc, path = gen.embed(g, t, g.value(t), sparse=draw(st.booleans()), strict=True)
    return ["AsyncAPI3", oracle.set_at(doc, tuple(path), v)]


def tasks(tier):
    k = 2 if tier == "quick" else 50
    names = list(OBJS) + list(PMAPS)
    return ([Task(f"surface{i}", surface, cases=lambda i=i: names[i::8], weight=900) for i in range(8)]
            + [Task(f"documents{i}", prop, whole, n=60 * k, weight=8) for i in range(8)]
            + foreach("good", prop, names, good, 10 * k)
            + foreach("bad", prop, names, bad, 10 * k))
