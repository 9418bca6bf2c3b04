"""Copies, repeated parses and dumps are equal and independent; equality tells different documents apart."""
import copy
import pickle

from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.checks.c10 import assignable
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import at, attempt, check_model, cls, dump, first, must_parse, parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

ID = "C25"
RULE = ("A drawn object and another made from it (deepcopy, deep model_copy, pickle, second parse of the same input, parse of the dump), then a history of changes (assignments, "
        "items of maps, list operations, changes of a dump) on either; after each step both are compared with their own model documents. Shallow copies: assignments on the copy. "
        "Equality: pairs of documents that differ in one place are unequal and equal ones equal. Non-trivial: changes on both sides, or a differing pair. Class = kind of copy.")
ASSUMES = ["lists and maps inside free-form values are not changed in place: whether they are shared with the input is not documented"]
MAKE = {
    "deepcopy": lambda m, d: copy.deepcopy(m),
    "model_copy deep": lambda m, d: m.model_copy(deep=True),
    "pickle": lambda m, d: pickle.loads(pickle.dumps(m)),
    "second parse": lambda m, d: type(m).model_validate(d),
    "parse of dump": lambda m, d: type(m).model_validate(dump(m)),
    "parse of instance": lambda m, d: type(m).model_validate(m),
    "construction from its parts": lambda m, d: type(m)(**{k: getattr(m, k) for k in type(m).model_fields} | (m.model_extra or {})),
    "assignment to a parent": lambda m, d: embed(m, "assign"),
    "construction of a parent": lambda m, d: embed(m, "construct"),
    "item of a collection": lambda m, d: embed(m, "item"),
    "parse of a parent": lambda m, d: embed(m, "parse"),
}


def parents():
    """type -> [(parent type, field)] where an instance may be put directly, and [(collection)] that may hold it."""
    fields, colls = {}, {}
    for o in OBJS.values():
        for f in o.fields:
            for v in variants(f.type):
                if v.kind in ("OBJ", "PMAP"):
                    fields.setdefault(v.args[0], []).append((o.name, f))
    for n, p in PMAPS.items():
        for v in variants(p.value):
            if v.kind == "OBJ":
                colls.setdefault(v.args[0], []).append(n)
    return fields, colls


FIELDS, COLLS = parents()
FREE = ("Components", "Message", "MessageTrait", "Operation", "OperationTrait", "Server", "Tag", "Info", "AsyncAPI3", "Channel", "Schema", "OperationReply")
BASE = {"Operation": {"action": "send", "channel": {"$ref": "#/channels/a"}}, "Server": {"host": "h", "protocol": "p"}, "Tag": {"name": "t"},
        "Info": {"title": "t", "version": "1"}, "AsyncAPI3": {"info": {"title": "t", "version": "1"}}, "Channel": {"address": "{a}"}}


def embed(m, how):
    """The object found in a parent after the instance itself was put there by one of the library's routes; None where there is no such parent."""
    n = type(m).__name__
    if type(m) is not cls(n):
        return None
    if how == "item":
        if not COLLS.get(n):
            return None
        coll = cls(COLLS[n][0]).model_validate({})
        coll["k"] = m
        return coll["k"]
    for owner, f in FIELDS.get(n, []):
        if owner not in FREE or (owner, f.name) == ("AsyncAPI3", "info") and how == "nothing":
            continue
        base = BASE.get(owner, {})
        if how == "assign":
            parent = cls(owner).model_validate(base)
            setattr(parent, f.py, m)
        elif how == "construct":
            parent = cls(owner)(**{k: v for k, v in base.items() if k != f.name}, **{f.py: m})
        else:
            parent = cls(owner).model_validate({**base, f.name: m})
        return getattr(parent, f.py)
    return None


def typed(t, doc):
    """Typed positions of a document where changes are made: (path, kind, type)."""
    out = []
    for p, d, s, v in oracle.walk(t, doc):
        if s is None or any(x.kind == "MAP" for x in variants(d)) and s.kind == "OBJ":
            continue
        if s.kind == "OBJ" and s.args[0] != "Reference" and OBJS[s.args[0]].fields or s.kind == "REF":
            out.append((p, s))
        elif s.kind == "PMAP" or s.kind == "LIST" or s.kind == "MAP" and s.args[0].kind != "ANY":
            out.append((p, s))
    return out


@st.composite
def change(draw, t, doc):
    """One valid change: [path, op, key, value] and the resulting document, or None."""
    spots = typed(t, doc)
    p, s = spots[draw(st.integers(0, len(spots) - 1))]
    cur = oracle.get_at(doc, p)
    if s.kind == "OBJ":
        fs = [f for f in OBJS[s.args[0]].fields if assignable(s.args[0], f)]
        f = fs[draw(st.integers(0, len(fs) - 1))]
        x = G(draw, 6).field(s.args[0], f)
        new = {**cur, f.name: x}
        op, key = "assign", f.name
    elif s.kind == "REF":
        x = draw(gen.REFSTR)
        new, op, key = {"$ref": x}, "assign", "$ref"
    elif s.kind == "PMAP":
        key = draw(st.sampled_from(sorted(cur))) if cur and draw(st.booleans()) else draw(gen.KEY)
        if key in cur and draw(st.booleans()):
            op, x, new = "del", None, {k: v for k, v in cur.items() if k != key}
        else:
            op, x = "item", G(draw, 6).value(PMAPS[s.args[0]].value)
            new = {**cur, key: x}
    elif s.kind == "LIST":
        if not cur:
            return None
        key, x = None, None
        op = draw(st.sampled_from(["pop", "reverse", "dup"]))
        new = cur[:-1] if op == "pop" else cur[::-1] if op == "reverse" else cur + [cur[0]]
    else:
        if not cur:
            return None
        op, key, x = "popkey", draw(st.sampled_from(sorted(cur))), None
        new = {k: v for k, v in cur.items() if k != key}
    after = oracle.set_at(doc, tuple(p), new)
    if oracle.conforms(t, after):
        return None
    return [list(p), op, key, x], after


@st.composite
def histories(draw, name):
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    doc = G(draw, 30).value(t)
    how = draw(st.sampled_from(sorted(MAKE)))
    cur = [doc, doc]
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if not typed(t, cur[0]) or not typed(t, cur[1]):
            break
        side = draw(gen.UPTO[1])
        r = draw(change(t, cur[side]))
        if r is not None:
            ops.append([side, *r[0]])
            cur[side] = r[1]
    return [name, doc, how, ops]


def apply(t, m, doc, op):
    p, op, key, x = op
    node = at(m, p)
    cur = oracle.get_at(doc, p)
    if op == "assign":
        n = type(node).__name__
        setattr(node, OBJS[n].f(key).py, copy.deepcopy(x))
        new = {**cur, key: x}
    elif op == "item":
        node[key] = copy.deepcopy(x)
        new = {**cur, key: x}
    elif op == "del":
        del node[key]
        new = {k: v for k, v in cur.items() if k != key}
    elif op == "pop":
        node.pop()
        new = cur[:-1]
    elif op == "reverse":
        node.reverse()
        new = cur[::-1]
    elif op == "dup":
        node.append(copy.deepcopy(node[0]))
        new = cur + [cur[0]]
    else:
        node.pop(key)
        new = {k: v for k, v in cur.items() if k != key}
    return oracle.set_at(doc, tuple(p), new)


def check(t, doc, m, what):
    d = oracle.diff(oracle.expected(t, doc), dump(m))
    if d:
        raise Violation(f"{what}: dump differs: {d}")
    try:
        check_model(t, doc, m)
    except Violation as e:
        raise Violation(f"{what}: {e}")


def prop(case):
    name, doc, how, ops = case
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    given = copy.deepcopy(doc)
    m = must_parse(t, given)
    if how == "construction from its parts" and (name in PMAPS or "self" in doc):
        how = "deepcopy"
    c = MAKE[how](m, given)
    if c is None:
        how = "parse of instance"
        c = MAKE[how](m, given)
    if type(c) is not type(m) or not c == m or c != m or c is m:
        raise Violation(f"{how} is not an equal object of its own")
    sides = [m, c]
    docs = [doc, doc]
    check(t, doc, c, how)
    touched = set()
    for i, (side, *op) in enumerate(ops):
        docs[side] = apply(t, sides[side], docs[side], op)
        touched.add(side)
        who = ("original", how)[side]
        check(t, docs[side], sides[side], f"step {i}: after {op[1]} on the {who}")
        check(t, docs[1 - side], sides[1 - side], f"step {i}: after {op[1]} on the {who}, the other one")
        same = oracle.expected(t, docs[0]) == oracle.expected(t, docs[1])
        if (m == c) != same or (m != c) == same:
            raise Violation(f"step {i}: objects are {'equal' if m == c else 'unequal'}, their documents are {'equal' if same else 'not'}")
    # a dump is the caller's own
    for mode in ("python", "json"):
        scribble(m.model_dump(mode=mode, by_alias=True))
        check(t, docs[0], m, f"after changing a {mode} dump")
    if oracle.diff(doc, given, order=True):
        raise Violation("the input was changed")
    return how if len(touched) == 2 else None


def scribble(v):
    if isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v.clear()
        v["scribble"] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribble")


@st.composite
def shallow_cases(draw, name):
    t = T("OBJ", (name,))
    doc = G(draw, 20).value(t)
    out = []
    cur = doc
    for _ in range(draw(st.integers(1, 4))):
        fs = [f for f in OBJS[name].fields if assignable(name, f)]
        f = fs[draw(st.integers(0, len(fs) - 1))]
        x = G(draw, 6).field(name, f)
        new = {**cur, f.name: x}
        if oracle.conforms(t, new):
            continue
        out.append([f.name, x])
        cur = new
    return [name, doc, draw(st.sampled_from(["copy", "model_copy"])), out]


def shallow(case):
    name, doc, how, ops = case
    t = T("OBJ", (name,))
    m = must_parse(t, doc)
    c = copy.copy(m) if how == "copy" else m.model_copy()
    if type(c) is not type(m) or c != m or c is m:
        raise Violation(f"{how} is not an equal object of its own")
    cur = doc
    for f, x in ops:
        setattr(c, OBJS[name].f(f).py, x)
        cur = {**cur, f: x}
        check(t, cur, c, f"the {how} after assigning {f}")
        check(t, doc, m, f"the original after assigning {f} on a {how}")
    return how if ops else None


@st.composite
def pairs(draw, name):
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    a = G(draw, 25).value(t)
    b = a
    for _ in range(draw(gen.UPTO[2])):
        if typed(t, b):
            r = draw(change(t, b))
            if r:
                b = r[1]
    if draw(gen.UPTO[3]) == 0 and name in OBJS and OBJS[name].ext != "CLOSED":
        b = {**b, "x-" + draw(gen.WORD): draw(gen.JSON)}
    if draw(gen.UPTO[3]) == 0:
        b = reordered(draw, b)
    return [name, a, b]


def reordered(draw, v):
    """The same document with its keys in another order."""
    if isinstance(v, dict):
        out = [(k, reordered(draw, x)) for k, x in v.items()]
        if len(out) > 1 and draw(st.booleans()):
            n = draw(st.integers(1, len(out) - 1))
            out = out[n:] + out[:n]
        return dict(out)
    return [reordered(draw, x) for x in v] if isinstance(v, list) else v


def equality(case):
    name, a, b = case
    t = T("PMAP", (name,)) if name in PMAPS else T("OBJ", (name,))
    ma, mb = must_parse(t, a), must_parse(t, b)
    same = oracle.expected(t, a) == oracle.expected(t, b)
    if (ma == mb) is not same or (ma != mb) is same or (mb == ma) is not same:
        raise Violation(f"documents are {'equal' if same else 'different'}, objects compare {'equal' if ma == mb else 'unequal'}: {oracle.diff(oracle.expected(t, a), oracle.expected(t, b))}")
    if ma == a or ma == None or not ma != "x":     # noqa: E711
        raise Violation("an object is equal to something that is none")
    return "unequal pair" if not same else "reordered" if oracle.diff(a, b, order=True) else None


def tasks(tier):
    k = 5 if tier == "quick" else 150
    names = [o.name for o in OBJS.values() if o.fields and o.name != "Reference"]
    return ([Task(f"documents{i}", prop, histories("AsyncAPI3"), n=60 * k, weight=5) for i in range(8)]
            + foreach("objects", prop, names + list(PMAPS), histories, 5 * k)
            + foreach("shallow", shallow, names, shallow_cases, 5 * k)
            + [Task(f"equal documents{i}", equality, pairs("AsyncAPI3"), n=60 * k, weight=3) for i in range(4)]
            + foreach("equal objects", equality, names + list(PMAPS), pairs, 5 * k))
