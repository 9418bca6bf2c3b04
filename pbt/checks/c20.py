"""The builder gives a valid, empty, independent document carrying exactly what it was given."""
import json

from hypothesis import strategies as st

from pbt import gen, mutate, oracle, refs
from pbt.gen import G
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, at, check_model, cls, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T

import asyncapi3.validators as V

QUICK = 12            # multiplies the drawn cases of a quick run
ID = "C20"
RULE = ("Drawn arguments of as_builder (each information argument and each root field, as plain data or model instances, valid or invalid). The result must "
        "equal the document written by hand: given information, empty collections, overrides. Then a history of adding components, channels, servers, messages and "
        "operations is compared with a model document, reference validation included, and a second builder must stay empty. "
        "Non-trivial: at least one argument and one addition. Class = arguments:verdict.")
ASSUMES = ["item assignment does not run processors; they run on root assignment and re-validation"]
INFO = {"title": "title", "version": "version", "description": "description", "terms_of_service": "termsOfService", "contact": "contact",
        "license": "license", "tags": "tags", "external_docs": "externalDocs"}
ROOTS = ["asyncapi", "id", "default_content_type", "servers", "channels", "operations", "components"]
COLLS = [f.name for f in OBJS["Components"].fields]


def empty():
    return {"asyncapi": "3.0.0", "info": {"title": "Sample APP", "version": "0.0.1"}, "servers": {}, "channels": {}, "operations": {},
            "components": {c: {} for c in COLLS}}


class Noop:
    def __call__(self, spec):
        return spec


PROC = {"U": V.UnifiedReferencesValidator, "T": V.TagsRefValidator, "Noop": Noop}


def put(doc, path, key, x):
    return oracle.set_at(doc, tuple(path), {**oracle.get_at(doc, path), key: x})


@st.composite
def cases(draw):
    g = G(draw, 12, refs=refs.EXTERNAL)
    args = {}
    for py, name in INFO.items():
        if draw(gen.UPTO[2]) == 0:
            f = OBJS["Info"].f(name)
            args[py] = [draw(st.sampled_from(["plain", "plain", "instance"])), g.field("Info", f)]
    for py in ROOTS:
        if draw(gen.UPTO[4]) == 0:
            f = next(f for f in OBJS["AsyncAPI3"].fields if f.py == py)
            args[py] = [draw(st.sampled_from(["plain", "instance"])), g.field("AsyncAPI3", f)]
    for py in ("extra_validators", "extra_converters"):
        if draw(gen.UPTO[5]) == 0:
            args[py] = ["processors", draw(st.sampled_from([None, [], ["U"], ["T"], ["T", "U"], ["U", "T"], ["Noop"], ["Noop", "Noop"]]))]
    if draw(gen.UPTO[5]) == 0:
        args["x_"] = ["plain", draw(gen.JSON)]
    if draw(gen.UPTO[3]) == 0:
        py = draw(st.sampled_from(sorted(INFO)))
        f = OBJS["Info"].f(INFO[py])
        args[py] = ["bad", draw(mutate.bad_value(f.type))]
    ops = []
    for _ in range(draw(gen.UPTO[6])):
        if draw(st.booleans()):
            f = OBJS["Components"].fields[draw(st.integers(0, len(COLLS) - 1))]
            path = ["components", f.name]
            vt = PMAPS[f.type.args[0]].value
        else:
            name = draw(st.sampled_from(["servers", "channels", "operations"]))
            path = [name]
            vt = PMAPS[OBJS["AsyncAPI3"].f(name).type.args[0]].value
        key = draw(gen.KEY)
        op = draw(st.sampled_from(["add", "add", "add", "badkey", "badref"]))
        if op == "badkey":
            ops.append([op, path, draw(st.sampled_from(["", "a b", "a.b", "a/b", "é", "a\n", "{a}"])), G(draw, 6, refs=refs.EXTERNAL).value(vt)])
        elif op == "badref":
            ops.append([op, path, key, {"$ref": draw(st.sampled_from(refs.MISSING + refs.BAD_FORMATS))}])
        else:
            ops.append([op, path, key, G(draw, 6, refs=refs.EXTERNAL).value(vt)])
    return [args, ops]


def prop(case):
    args, ops = case
    A = AsyncAPI3
    kw, want, bad = {}, empty(), None
    for py, (how, x) in args.items():
        if py == "x_":
            kw["x-extension"] = x
            want["x-extension"] = x
            continue
        if how == "processors":
            kw[py] = x and [PROC[n] for n in x]
            continue
        owner, name = ("Info", INFO[py]) if py in INFO else ("AsyncAPI3", next(f.name for f in OBJS["AsyncAPI3"].fields if f.py == py))
        f = OBJS[owner].f(name)
        val = x
        if how == "instance":
            base = {"title": "t", "version": "1"} if owner == "Info" else {"info": {"title": "t", "version": "1"}}
            val = getattr(must_parse(T("OBJ", (owner,)), {**base, name: x}), f.py)
        kw[py] = val
        target = want["info"] if owner == "Info" else want
        target[name] = x
        if how == "bad":
            if x is None and not f.req:
                target.pop(name)
            else:
                bad = py
    other = A.as_builder()
    m, err = attempt(A.as_builder, **kw)
    if bad:
        if err is None and (oracle.conforms(ROOT, want)):
            raise Violation(f"builder accepted {bad}={oracle.short(args[bad][1])}")
        if err is not None or oracle.conforms(ROOT, want):
            return f"bad {bad}"
    if err is not None:
        raise Violation(f"builder refused its arguments: {first(err)}")
    want = oracle.expected(ROOT, want)
    d = oracle.diff(want, dump(m))
    if d:
        raise Violation(f"built document differs: {d}")
    check_model(ROOT, want, m)
    procs = {"extra_validators": [V.UnifiedReferencesValidator], "extra_converters": []} | {k: v for k, v in kw.items() if k.startswith("extra_")}
    checked = any(V.UnifiedReferencesValidator in (v or []) for v in procs.values())
    if any(getattr(m, k) != v for k, v in procs.items() if k in kw or k == "extra_validators") or m.extra_converters and "extra_converters" not in kw:
        raise Violation(f"builder set up validators {m.extra_validators} and converters {m.extra_converters}")
    must_parse(ROOT, json.loads(m.model_dump_json()))
    added = 0
    for i, (op, path, key, x) in enumerate(ops):
        parent = oracle.get_at(want, path[:-1])
        if parent.get(path[-1]) is None:
            continue
        holder = at(m, path)
        step = f"step {i}: {'.'.join(path)}[{key!r}]"
        if op == "badkey":
            try:
                holder[key] = x
            except ValueError:
                pass
            else:
                raise Violation(f"{step} accepted")
        elif op == "badref":
            if args.get(path[0]):
                continue
            new = put(want, path, key, x)
            value = oracle.get_at(new, path[:1])
            if refs.verdict(new)[0] != "bad" or not checked:
                continue
            try:
                setattr(m, path[0], value)
            except ValueError:
                pass
            else:
                raise Violation(f"{step}: bad reference {x} accepted on assignment")
        else:
            holder[key] = x
            owner = "Components" if path[0] == "components" else "AsyncAPI3"
            vt = PMAPS[OBJS[owner].f(path[-1]).type.args[0]].value
            want = put(want, path, key, oracle.expected(vt, x))
            added += 1
        d = oracle.diff(want, dump(m))
        if d:
            raise Violation(f"{step}: document differs: {d}")
    again, err = attempt(A.model_validate, m)
    if (err is None) != (refs.verdict(want)[0] == "good" or not checked) and refs.verdict(want)[0] != "undecided":
        raise Violation(f"re-validation of the built document {'accepted' if err is None else 'refused: ' + first(err)}; references are {refs.verdict(want)}")
    d = oracle.diff(empty(), dump(other)) or oracle.diff(empty(), dump(A.as_builder()))
    if d:
        raise Violation(f"another builder's document changed: {d}")
    return ("args" if args else "default") + (":added" if added else ":plain") if args or added else None


def tasks(tier):
    k = 1 if tier == "quick" else 40
    return [Task(f"builder{i}", prop, cases, n=200 * k) for i in range(8)]
