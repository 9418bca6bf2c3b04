"""Assignment histories: after every step the object is valid; accepted assignments take full effect, refused ones none."""
import copy

from hypothesis import strategies as st

from pbt import gen, mutate, oracle
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, at, attempt, check_model, cls, dump, first, must_parse, parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants
from pbt.checks.c04 import has_bad_url

QUICK = 3            # multiplies the drawn cases of a quick run
ID = "C10"
RULE = ("Histories of up to 12 attribute assignments (valid value, invalid value, value breaking a cross-field rule, None, extension, a value Python calls equal to the present one) to drawn objects "
        "anywhere inside a drawn document or single object. A model document predicts the verdict of each; after each step the dump, the attributes and "
        "a re-parse are compared with it, and objects met before must still be the same ones. Non-trivial: at least one accepted and one refused assignment, or an accepted None. Class = root object:steps.")
ASSUMES = ["assignments that put the object into a state the reference rules do not decide (None for a defaulted field, two spellings) are not generated",
           "values that break a rule of an enclosing object only are not generated: rules are per object"]


def assignable(name, f):
    return not (name == "KafkaMessageBindings" and f.name == "key")


@st.composite
def histories(draw, name, nops):
    g = G(draw, 40)
    t = T("OBJ", (name,))
    doc = g.obj(name)
    cur = doc
    ops = []
    for _ in range(draw(st.integers(1, nops))):
        nodes = [(p, s.args[0]) for p, d, s, v in oracle.walk(t, cur) if s is not None and s.kind == "OBJ" and s.args[0] != "Reference"
                 and not any(x.kind == "MAP" for x in variants(d)) and OBJS[s.args[0]].fields]
        if not nodes:
            break
        p, n = nodes[draw(st.integers(0, len(nodes) - 1))]
        obj = oracle.get_at(cur, p)
        fs = [f for f in OBJS[n].fields if assignable(n, f)]
        f = fs[draw(st.integers(0, len(fs) - 1))]
        how = draw(st.sampled_from(["good", "good", "good", "bad", "bad", "none", "fresh", "instance", "twin", "ext", "badext"]))
        if how == "badext":
            if OBJS[n].ext != "OPEN":
                ops.append([list(p), draw(st.sampled_from(["foo", "x-", "x-a b", "Title", "x-a/b", "$ref"])), how, draw(gen.JSON)])
            continue
        if how == "ext":
            if OBJS[n].ext == "EXT":
                k = draw(st.sampled_from(["x-a", "x-0", "x-twin"]))
                x = gen.twin(obj[k], False) if k in obj and draw(st.booleans()) else draw(st.one_of(st.sampled_from([1, True, 0.0, [False, 1], {"a": 1, "b": 0}]), gen.JSON))
                ops.append([list(p), k, how, x])
                cur = oracle.set_at(cur, tuple(p), {**obj, k: x})
            continue
        if how == "twin":
            # what is there already, in another spelling that Python calls equal
            f = next((f for f in fs if f.name in obj), f)
            if f.name not in obj:
                continue
        if how == "none":
            if f.default is not None or f.type.kind == "ANY":
                continue
            x = None
        elif how == "bad":
            if f.type.kind == "ANY":
                continue
            x = draw(mutate.bad_value(f.type))
        else:
            x = gen.twin(obj[f.name], f.type.kind != "ANY") if how == "twin" else G(draw, 8).field(n, f) if how != "fresh" else G(draw, 8).value(f.type)
            if how == "fresh" and f.type.kind == "ANY":
                continue
        new, why = step(cur, p, n, f, x)
        if why is None and oracle.conforms(t, new):
            continue                    # breaks a rule of an enclosing object only
        ops.append([list(p), f.name, how, x])
        if why is None:
            cur = new
    return [name, doc, ops]


@st.composite
def single(draw, target):
    """A valid object with the field's neighbours present, then one or two assignments to that field."""
    name, fname = target
    o = OBJS[name]
    f = o.f(fname)
    t = T("OBJ", (name,))
    g = G(draw, 30, density=draw(st.sampled_from([1, 3, 3])))
    base = {}
    if draw(st.booleans()):
        base[fname] = g.field(name, f)
    doc = g.obj(name, base)
    if oracle.conforms(t, doc):
        doc = g.obj(name)
    cur, ops = doc, []
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(["none", "fresh", "good", "bad"]))
        if f.type.kind == "ANY" and how != "good" or how == "none" and f.default is not None:
            how = "good"
        x = None if how == "none" else draw(mutate.bad_value(f.type)) if how == "bad" else G(draw, 8).value(f.type) if how == "fresh" else G(draw, 8).field(name, f)
        new, why = step(cur, (), name, f, x)
        ops.append([[], fname, how, x])
        if why is None:
            cur = new
    return [name, doc, ops]


def step(cur, p, n, f, x):
    """(document after the assignment, None) or (same, reason it must be refused)."""
    obj = oracle.get_at(cur, p)
    if x is None and f.type.kind != "ANY" and not (n == "Channel" and f.name == "address"):
        if f.req:
            return cur, "required field set to None"
        new = {k: v for k, v in obj.items() if k != f.name}
    else:
        new = {**obj, f.name: x}
    why = oracle.conforms(T("OBJ", (n,)), new)
    if not why and x is not None and has_bad_url(f.type, x):
        why = "malformed URL"
    if why:
        return cur, why
    return oracle.set_at(cur, tuple(p), new), None


def prop(case):
    name, doc, ops = case
    t = T("OBJ", (name,))
    m = must_parse(t, doc)
    cur = doc
    yes = no = 0
    held = {}
    for i, (p, fname, how, x) in enumerate(ops):
        sub = oracle.get_at(cur, p)
        node = at(m, p)
        n = type(node).__name__
        if n not in OBJS:
            raise Violation(f"step {i}: {p} holds a {n}")
        if held.setdefault(tuple(p), node) is not node:
            raise Violation(f"step {i}: the assignments before, to other places, put another object at {p}")
        ext = how in ("ext", "badext")
        f = None if ext else OBJS[n].f(fname)
        new, why = (oracle.set_at(cur, tuple(p), {**sub, fname: x}), None) if ext else step(cur, p, n, f, x)
        if how == "badext":
            new, why = cur, f"no field or extension is called {fname!r}"
        attr = fname if ext else f.py
        val = copy.deepcopy(x)
        if how == "instance" and x is not None and not why:
            holder, err = parse(n, {**sub, fname: x})
            if err is not None:
                raise Violation(f"step {i}: {n}.{fname}={x!r} refused by parsing: {first(err)}")
            val = getattr(holder, f.py)
        given = m.model_dump(mode="json", exclude_unset=True) if why else None
        try:
            setattr(node, attr, val)
            ok = True
        except ValueError:
            ok = False
        if ok and why:
            raise Violation(f"step {i}: assignment {n}.{fname} = {oracle.short(x)} accepted although {why}")
        if not ok and not why:
            raise Violation(f"step {i}: assignment {n}.{fname} = {oracle.short(x)} refused")
        yes, no = yes + ok, no + (not ok)
        cur = new
        if ok:
            below = (*p, fname)
            held = {q: y for q, y in held.items() if q[:len(below)] != below}
        if ok and attr not in node.model_fields_set:
            raise Violation(f"step {i}: after the accepted assignment {n}.{fname} = {oracle.short(x)} the field counts as unset")
        d = oracle.diff(given, m.model_dump(mode="json", exclude_unset=True), order=True) if not ok else None
        if d:
            raise Violation(f"step {i}: the refused assignment {n}.{fname} = {oracle.short(x)} changed what counts as set: {d}")
        d = oracle.diff(oracle.expected(t, cur), dump(m))
        if d:
            raise Violation(f"step {i}: after {'accepted' if ok else 'refused'} assignment {n}.{fname} = {oracle.short(x)} the dump is wrong: {d}")
        try:
            check_model(t, cur, m)
        except Violation as e:
            raise Violation(f"step {i}: after {'accepted' if ok else 'refused'} assignment {n}.{fname}: {e}")
    m2, err = attempt(type(m).model_validate, dump(m))
    if err is not None:
        raise Violation(f"the history leads to an invalid object: {first(err)}")
    if ops:
        m3, err = attempt(type(m).model_validate, m)
        if err is not None:
            raise Violation(f"the object after the history is refused on re-validation: {first(err)}")
    return f"{name}:{'long' if len(ops) > 5 else 'short'}" if yes and no else f"{name}:none" if yes and any(op[2] == "none" for op in ops) else None


def tasks(tier):
    k = 3 if tier == "quick" else 60
    names = [o.name for o in OBJS.values() if o.fields and o.name != "Reference"]
    rules = ["SecurityScheme", "OAuthFlows", "AMQPChannelBindings", "AMQPOperationBindings", "IBMMQServerBindings", "IBMMQChannelBindings",
             "IBMMQMessageBindings", "KafkaServerBindings", "KafkaChannelBindings", "SolaceServerBindings", "SolaceDestination", "SolaceOperationBindings",
             "Channel", "CorrelationID", "MessageExample"]
    fields = [(o.name, f.name) for o in OBJS.values() if o.name != "Reference" for f in o.fields if assignable(o.name, f)]
    return (foreach("field", prop, [x for x in fields if x[0] not in rules], single, 5 * k, chunk=25)
            + foreach("rule field", prop, [x for x in fields if x[0] in rules], single, 60 * k, chunk=4)
            + [Task(f"documents{i}", prop, histories("AsyncAPI3", 12), n=100 * k, weight=3) for i in range(8)]
            + foreach("objects", prop, names, lambda n: histories(n, 8), 8 * k, chunk=8)
            + foreach("rules", prop, rules, lambda n: histories(n, 12), 50 * k, chunk=2))
