"""Thin access to the library under test, and comparison of its models with documents."""
from __future__ import annotations
import copy
import importlib
import logging

from . import env  # noqa: F401
from . import oracle
from .harness import Violation
from .table import OBJS, PMAPS, ROOT, T, variants

import asyncapi3
import asyncapi3.models as _models
import asyncapi3.models.bindings as _bindings
from asyncapi3.models.helpers import EmailStr
from pydantic import AnyUrl, BaseModel, TypeAdapter, ValidationError

AsyncAPI3 = asyncapi3.AsyncAPI3
_cls = {}


def cls(name):
    """The library's class for a table name."""
    if name not in _cls:
        info = OBJS.get(name) or PMAPS[name]
        found = None
        if info.module != "components" or name == "Components":
            for mod in (_models, _bindings):
                found = found or getattr(mod, name, None)
        if found is None:
            found = getattr(importlib.import_module("asyncapi3.models." + info.module), name)
        _cls[name] = found
    return _cls[name]


_adapters = {}


def pytype(t):
    """The Python type a table type stands for (only used to parse bare values)."""
    from typing import Any, Literal, Union
    from pydantic import AnyUrl, HttpUrl
    k = t.kind
    if k in ("OBJ", "PMAP"):
        return cls(t.args[0])
    if k == "REF":
        return cls("Reference")
    if k == "LIST":
        return list[pytype(t.args[0])]
    if k == "MAP":
        return dict[str, pytype(t.args[0])]
    if k == "UNION":
        return Union[tuple(pytype(a) for a in t.args)]
    raise KeyError(k)


def attempt(fn, /, *a, **k):
    """(result, None) or (None, ValidationError). Any other exception escapes: it is never a clean answer."""
    try:
        return fn(*a, **k), None
    except ValidationError as e:
        return None, e


def parse(t, v):
    name = t if isinstance(t, str) else t.args[0]
    return attempt(cls(name).model_validate, v)


def must_parse(t, v, what="valid input"):
    m, err = parse(t, v)
    if err is not None:
        raise Violation(f"{what} rejected: {first(err)}")
    return m


def must_reject(t, v, what):
    m, err = parse(t, v)
    if err is None:
        raise Violation(f"accepted although {what}")
    return err


def first(err):
    try:
        e = err.errors(include_url=False, include_context=False, include_input=False)[0]
        return f"at {'.'.join(map(str, e['loc']))}: {e['msg']}"[:300]
    except Exception:
        return str(err)[:300]


def dump(m):
    return m.model_dump(mode="json")


def check_model(t, v, m, path=""):
    """The parsed value m carries exactly what document value v says; raises Violation otherwise."""
    s = oracle.select(t, v)
    k = s.kind
    here = path or "/"
    if k == "OBJ" and isinstance(m, dict) and any(x.kind == "MAP" for x in variants(t)):
        d = oracle.diff(v, m, path)      # Kafka key: a free-form map and a schema look the same
        if d:
            raise Violation(d)
        return
    if k == "OBJ":
        name = s.args[0]
        if type(m) is not cls(name):
            raise Violation(f"{here}: parsed as {type(m).__name__}, the document says {name}")
        o = OBJS[name]
        for f in o.fields:
            try:
                got = getattr(m, f.py)
            except AttributeError as e:
                raise Violation(f"{here}: {name} has no attribute {f.py}: {e}")
            if v.get(f.name) is not None or (f.name in v and f.type.kind == "ANY"):
                check_model(f.type, v[f.name], got, f"{path}/{f.name}")
            else:
                want = None if f.name in v else f.default
                d = oracle.diff(want, got)
                if d:
                    raise Violation(f"{path}/{f.name}: unset, so {want!r} expected, got {got!r}")
        extra = {k2: x for k2, x in v.items() if k2 not in {f.name for f in o.fields}}
        d = oracle.diff(extra, dict(m.model_extra or {}))
        if d:
            raise Violation(f"{here}: extra fields: {d}")
    elif k == "PMAP":
        if type(m) is not cls(s.args[0]):
            raise Violation(f"{here}: parsed as {type(m).__name__}, expected {s.args[0]}")
        if list(m) != list(v) or len(m) != len(v):
            raise Violation(f"{here}: keys {list(m)!r}, expected {list(v)!r}")
        for key, x in v.items():
            if key not in m:
                raise Violation(f"{here}: {key!r} not in the map")
            check_model(PMAPS[s.args[0]].value, x, m[key], f"{path}/{key}")
    elif k == "REF":
        if type(m) is not cls("Reference"):
            raise Violation(f"{here}: parsed as {type(m).__name__}, the document has a reference")
        if m.ref != v["$ref"]:
            raise Violation(f"{here}: reference {m.ref!r}, expected {v['$ref']!r}")
    elif k == "LIST":
        if not isinstance(m, list) or len(m) != len(v):
            raise Violation(f"{here}: list of {len(v)} expected, got {oracle.short(m)}")
        for i, (x, y) in enumerate(zip(v, m)):
            check_model(s.args[0], x, y, f"{path}/{i}")
    elif k == "MAP" and s.args[0].kind != "ANY":
        if not isinstance(m, dict) or list(m) != list(v):
            raise Violation(f"{here}: map with keys {list(v)!r} expected, got {oracle.short(m)}")
        for key, x in v.items():
            check_model(s.args[0], x, m[key], f"{path}/{key}")
    elif k in ("URL", "HTTPURL"):
        if not isinstance(m, AnyUrl) or str(m) != v:
            raise Violation(f"{here}: {str(m)!r}, expected {v!r}")
    elif k == "EMAIL":
        if not isinstance(m, EmailStr) or str(m) != v:
            raise Violation(f"{here}: {m!r}, expected {v!r}")
    else:
        d = oracle.diff(v, m, path)
        if d:
            raise Violation(d)


def check_faithful(t, v, order=False):
    """v conforms: the library must accept it, carry it faithfully and dump it with the documented defaults."""
    before = copy.deepcopy(v)
    m = must_parse(t, v)
    d = oracle.diff(before, v, order=True)
    if d:
        raise Violation(f"parsing modified its input: {d}")
    check_model(t, v, m)
    want = oracle.expected(t, v)
    d = oracle.diff(want, dump(m))
    if d:
        raise Violation(f"dump differs from the document: {d}")
    return m


def at(m, path):
    """The model value at a document path, following attributes by their Python names."""
    cur = m
    for p in path:
        name = type(cur).__name__
        if isinstance(cur, BaseModel) and name in OBJS:
            cur = getattr(cur, OBJS[name].f(p).py)
        else:
            cur = cur[p]
    return cur


def share(m):
    """Puts one and the same instance wherever equal objects stand in the lists and maps of a document, as a program
    that fills them in place with one object does. Returns how many items were replaced."""
    kept, n = {}, 0

    def items(x):
        if isinstance(x, list):
            return list(enumerate(x))
        if isinstance(x, dict):
            return list(x.items())
        return []

    def rec(x):
        nonlocal n
        if isinstance(x, BaseModel):
            for f in type(x).model_fields:
                rec(getattr(x, f))
            return
        for k, v in items(x):
            if isinstance(v, BaseModel):
                one = kept.setdefault((type(v), v.model_dump_json()), v)
                if one is not v:
                    x[k] = one
                    n += 1
                    continue
            rec(v)
    rec(m)
    return n


class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


class capture_warnings:
    """Collects WARNING+ messages the library logs."""

    def __enter__(self):
        self.h = LogCapture()
        logging.getLogger().addHandler(self.h)
        return self.h.records

    def __exit__(self, *a):
        logging.getLogger().removeHandler(self.h)
