"""Patterned objects behave as a dict restricted to valid keys and values, over any history of operations."""
import copy

from hypothesis import strategies as st

from pbt import gen, mutate, oracle, words
from pbt.gen import G, KEY
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, at, attempt, check_model, cls, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants
from pbt.checks.c04 import has_bad_url

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C11"
RULE = ("Histories of up to 15 operations (set with valid/invalid key and value, given as data or as an instance, of the wrong class or unvalidated too, or equal in Python to the entry there; get; edits of entries read before; delete; contains; len; iterate; lookups with keys that are no text) "
        "on each patterned object, standing alone or inside a document, checked step by step against a Python dict. Non-trivial: at least one set took "
        "effect and one lookup or deletion hit. Class = object.")
ASSUMES = ["keys are hashable"]
ALIENS = [None, 0, 1, 123, -1, True, False, 1.0, b"a", ("a",), frozenset(), float("nan")]


@st.composite
def histories(draw, name):
    g = G(draw, 10)
    vt = PMAPS[name].value
    keys = [draw(KEY) for _ in range(3)]
    init = {k: g.value(vt) for k in keys[: draw(st.integers(0, 2))]}
    ops = []
    if draw(gen.UPTO[9]) == 0:
        one = G(draw, 1, density=0).value(vt)
        init = {**{f"k{i}": one for i in range(gen.affordable(draw(st.sampled_from(words.sizes(2500, [20, 65, 130, 300]))), one))}, **init}
    last = dict(init)
    for _ in range(draw(st.integers(1, 15))):
        op = draw(st.sampled_from(["set", "set", "set", "setinst", "settwin", "setbadkey", "setbadvalue", "setbadinst", "get", "edit", "edithold", "del", "in", "len", "iter", "root", "alien"]))
        k = keys[draw(st.integers(0, 2))]
        if op in ("set", "setinst"):
            x = G(draw, 5).value(vt)
            if draw(gen.UPTO[2]) == 0 and list(x) != ["$ref"] and not oracle.conforms(vt, {**x, "x-twin": 1}):
                x = {**x, "x-twin": draw(st.sampled_from([1, True, 0.0, [False, 1], {"a": 1, "b": 0}]))}
            ops.append([op, k, x])
            last[k] = x
        elif op == "settwin":
            # equal in Python to what was there, but another document
            if k in last:
                last[k] = {n: gen.twin(v, n != "x-twin") for n, v in reversed(last[k].items())}
                ops.append(["set", k, last[k]])
        elif op == "setbadinst":
            ops.append([op, k, draw(st.sampled_from(["class", "class", "spoilt"]))])
        elif op == "setbadkey":
            ops.append([op, draw(st.one_of(mutate.BAD_KEYS, st.sampled_from([1, None]))), G(draw, 5).value(vt)])
        elif op == "setbadvalue":
            b = draw(mutate.bad_value(vt))
            ops.append([op, k, b])
        elif op == "edit":
            ops.append([op, k, draw(gen.TEXT)])
        elif op == "alien":
            # a key that is no text, with an entry under what it prints as
            a = draw(st.integers(0, len(ALIENS) - 1))
            if oracle.key_ok(str(ALIENS[a])) and draw(st.booleans()):
                last[str(ALIENS[a])] = G(draw, 5).value(vt)
                ops.append(["set", str(ALIENS[a]), last[str(ALIENS[a])]])
            ops.append([op, a, draw(st.sampled_from(["in", "get", "del"]))])
        else:
            ops.append([op, k, None])
    inside = draw(st.booleans())
    if inside:
        doc, path = gen.embed(g, T("PMAP", (name,)), init, sparse=True)
        return [name, init, doc, path, ops]
    return [name, init, None, [], ops]


def wrong_instance(name):
    """An object of a type that may not stand in the map."""
    from asyncapi3.models.base import Tag
    from asyncapi3.models.info import Info
    return Info(title="t", version="1") if name in ("Tags", "TagsDict") else Tag(name="t")


def spoilt(vt):
    """An object of the right type, put together without validation, that holds no data at all in one field."""
    v = next(v for v in variants(vt) if v.kind == "OBJ" and OBJS[v.args[0]].fields)
    o = OBJS[v.args[0]]
    f = next(f for f in o.fields if f.type.kind != "ANY")
    return cls(o.name).model_construct(**{f.py: object()})


def prop(case):
    name, init, doc, path, ops = case
    t = T("PMAP", (name,))
    vt = PMAPS[name].value
    cur = dict(init)
    if doc is None:
        top = m = must_parse(t, init)
    else:
        top = must_parse(ROOT, doc)
        m = at(top, path)
    took = hit = 0
    held = {}
    for i, (op, k, x) in enumerate(ops):
        say = f"step {i} ({op} {k!r})"
        if op == "setbadinst":
            bad = wrong_instance(name) if x == "class" else spoilt(vt)
            try:
                m[k] = bad
            except (ValueError, TypeError):
                pass
            else:
                raise Violation(f"{say}: accepted {oracle.short(bad)}")
        elif op == "alien":
            a = ALIENS[k]
            say = f"step {i} ({x} {a!r})"
            try:
                found = a in m if x == "in" else m[a] is not None if x == "get" else m.__delitem__(a) is None
            except KeyError:
                found = False
            if found:
                raise Violation(f"{say}: a key that is no text is found")
        elif op == "edithold":
            # an entry read earlier is still the one in the mapping
            if k in held and k in cur:
                hit += 1
                f, new = ("$ref", f"#/{i}") if cur[k].keys() == {"$ref"} else ("x-edited", i)
                setattr(held[k], f.replace("$", ""), new)
                cur[k] = {**cur[k], f: new}
            elif k in cur:
                held[k] = m[k]
        elif op.startswith("set"):
            why = None if oracle.key_ok(k) else "bad key"
            why = why or oracle.conforms(vt, x) or (has_bad_url(vt, x) and "malformed URL")
            val = copy.deepcopy(x)
            if op in ("setinst", "setbadkey"):
                val = must_parse(t, {"k": x})["k"]
            try:
                m[k] = val
                ok = True
            except (ValueError, TypeError):
                ok = False
            if ok and why:
                raise Violation(f"{say}: accepted although {why}")
            if not ok and not why:
                raise Violation(f"{say}: valid entry refused: {oracle.short(x)}")
            if ok:
                cur[k] = x
                took += 1
                held.pop(k, None)
        elif op == "get":
            try:
                got, ok = m[k], True
            except KeyError:
                got, ok = None, False
            if ok != (k in cur):
                raise Violation(f"{say}: {'found' if ok else 'KeyError'}")
            if ok:
                hit += 1
                check_model(vt, cur[k], got, f"[{k}]")
                if got is not m[k] or got is not m.root[k]:
                    raise Violation(f"{say}: two reads give two different objects")
        elif op == "edit":
            # a read hands out the stored entry itself: what is done to it shows in the mapping
            if k in cur:
                hit += 1
                m[k].__setattr__("ref" if cur[k].keys() == {"$ref"} else "x-edited", x)
                cur[k] = {**cur[k], "$ref" if cur[k].keys() == {"$ref"} else "x-edited": x}
        elif op == "del":
            try:
                del m[k]
                ok = True
            except KeyError:
                ok = False
            if ok != (k in cur):
                raise Violation(f"{say}: {'deleted' if ok else 'KeyError'}")
            hit += ok
            cur.pop(k, None)
            held.pop(k, None)
        elif op == "in":
            if (k in m) is not (k in cur):
                raise Violation(f"{say}: {k in m}")
        elif op == "len":
            if len(m) != len(cur):
                raise Violation(f"{say}: {len(m)}, expected {len(cur)}")
        elif op == "iter":
            if [*m] != list(cur):
                raise Violation(f"{say}: {[*m]}, expected {list(cur)}")
        elif op == "root":
            if list(m.root) != list(cur):
                raise Violation(f"{say}: root has {list(m.root)}")
        check_model(t, cur, m)
        d = oracle.diff(oracle.expected(t, cur), dump(m), order=True)
        if d:
            raise Violation(f"{say}: dump differs: {d}")
        if doc is not None:
            d = oracle.diff(oracle.expected(ROOT, oracle.set_at(doc, tuple(path), cur)), dump(top))
            if d:
                raise Violation(f"{say}: the enclosing document differs: {d}")
    again, err = attempt(cls(name).model_validate, dump(m))
    if err is not None:
        raise Violation(f"the history leads to an invalid object: {first(err)}")
    if not again == m:
        raise Violation("the object after the history is not equal to the one parsed from its dump")
    return name if took and hit else None


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return foreach("histories", prop, list(PMAPS), histories, 90 * k, chunk=1)
