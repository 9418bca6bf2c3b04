"""Decision tables of the documented cross-field and value rules, visited cell by cell.

GRIDS maps an object type to candidate values per field (ABSENT included); the verdict of a cell is oracle.conforms.
Shared by C22 (security), C23 (bindings) and C24 (core objects).
"""
from __future__ import annotations
import itertools
import json
import zlib

from hypothesis import strategies as st

from . import gen, oracle
from .gen import G
from .harness import Task, Violation
from .lib import at, attempt, check_model, cls, dump, first, parse
from .table import OBJS, ROOT, T

ABSENT = "\0absent"
URL1, URL2 = "https://example.com/a", "urn:example:b"


def cells(grid):
    names = list(grid)
    for combo in itertools.product(*grid.values()):
        yield {k: v for k, v in zip(names, combo) if v != ABSENT or not isinstance(v, str)}


def undecided(name, v):
    if name == "IBMMQChannelBindings":
        return v.get("destinationType", "topic") == "topic" and v.get("queue") is not None and v.get("topic") is None
    return False


def verdict(name, v):
    return oracle.conforms(T("OBJ", (name,)), v)


def cell(case):
    """One cell by three routes: document names, JSON text, constructor with Python names."""
    name, v = case
    if undecided(name, v):
        return None
    why = verdict(name, v)
    o = OBJS[name]
    C = cls(name)
    for route, fn in (("parsing", lambda: C.model_validate(v)), ("JSON", lambda: C.model_validate_json(json.dumps(v))),
                      ("construction", lambda: C(**{o.f(k).py: x for k, x in v.items()}))):
        m, err = attempt(fn)
        if why and err is None:
            raise Violation(f"{route} {name} {oracle.short(v, 300)} accepted although {why}")
        if not why and err is not None:
            raise Violation(f"{route} {name} {oracle.short(v, 300)} refused: {first(err)}")
        if m is not None:
            check_model(T("OBJ", (name,)), v, m)
            d = oracle.diff(oracle.expected(T("OBJ", (name,)), v), dump(m))
            if d:
                raise Violation(f"{route} {name}: dump {d}")
    return f"{name}:{why or 'ok'}"


def move(case):
    """From a valid cell, one assignment to a neighbour: accepted exactly when the neighbour is valid; refused without effect."""
    name, v, fname, x = case
    o = OBJS[name]
    f = o.f(fname)
    unset = isinstance(x, str) and x == ABSENT
    new = {k: y for k, y in v.items() if k != fname}
    if not unset:
        new[fname] = x
    if undecided(name, v) or undecided(name, new) or verdict(name, v):
        return None
    if unset and (f.default is not None or f.req):
        return None
    why = verdict(name, new)
    t = T("OBJ", (name,))
    m, err = parse(t, v)
    if err is not None:
        raise Violation(f"{name} {oracle.short(v, 300)} refused: {first(err)}")
    try:
        setattr(m, f.py, None if unset else x)
        ok = True
    except ValueError:
        ok = False
    what = f"{name} {oracle.short(v, 300)}: assignment {f.py} = {'None' if unset else oracle.short(x)}"
    if ok and why:
        raise Violation(f"{what} accepted although {why}")
    if not ok and not why:
        raise Violation(f"{what} refused")
    d = oracle.diff(oracle.expected(t, new if ok else v), dump(m))
    if d:
        raise Violation(f"{what}: dump {d}")
    return f"{name}:{fname}:{why or 'ok'}"


def inside(case):
    """A cell standing somewhere in a whole document decides the document's fate."""
    name, doc, path, v = case
    if undecided(name, v):
        return None
    why = verdict(name, v)
    doc = oracle.set_at(doc, tuple(path), v)
    if not why and oracle.conforms(ROOT, doc):
        return None                 # the surroundings are broken by this cell only through their own rules
    m, err = parse(ROOT, doc)
    if why and err is None:
        raise Violation(f"document accepted although at {path} {name} {oracle.short(v, 300)}: {why}")
    if not why and err is not None:
        raise Violation(f"document refused: {first(err)}")
    if m is not None:
        check_model(T("OBJ", (name,)), v, at(m, path))
    return f"{name}:{path[0]}:{why or 'ok'}"


@st.composite
def inside_cases(draw, name, grid):
    v = draw_cell(draw, grid)
    if draw(gen.UPTO[2]):
        for _ in range(20):         # half of the cells valid
            if not verdict(name, v):
                break
            v = draw_cell(draw, grid)
    g = G(draw, 12)
    good = g.obj(name)
    doc, path = gen.embed(g, T("OBJ", (name,)), good, sparse=draw(st.booleans()), strict=True)
    return [name, doc, path, v]


def draw_cell(draw, grid):
    v = {}
    for k, xs in grid.items():
        x = xs[draw(st.integers(0, len(xs) - 1))]
        if not (isinstance(x, str) and x == ABSENT):
            v[k] = x
    return v


def pick(items, n):
    """About n of the items, chosen by content (all when there are fewer)."""
    items = list(items)
    if len(items) <= n:
        return items
    step = len(items) / n
    return sorted(items, key=lambda c: zlib.crc32(json.dumps(c, default=repr).encode()))[:n] if step > 1 else items


def split(name, prop, make, parts):
    return [Task(f"{name}/{i}", prop, cases=(lambda i=i: (c for j, c in enumerate(make()) if j % parts == i)), weight=500) for i in range(parts)]


def grid_tasks(grids, tier):
    out = []
    quick = tier == "quick"
    for name, grid in grids.items():
        size = 1
        for xs in grid.values():
            size *= len(xs)
        parts = 1 + size // 3000
        out += split(f"cells {name}", cell, lambda name=name, grid=grid: ([name, v] for v in cells(grid)), parts)

        def moves(name=name, grid=grid):
            for v in cells(grid):
                if verdict(name, v):
                    continue
                for k, xs in grid.items():
                    for x in xs:
                        if v.get(k, ABSENT) != x or type(v.get(k, ABSENT)) is not type(x):
                            yield [name, v, k, x]
        out += split(f"moves {name}", move, moves, parts * 2 if size > 3000 else parts)
        out.append(Task(f"inside {name}", inside, inside_cases(name, grid), n=40 if quick else 3000))
    return out
