"""Handling documents touches nothing outside of them: no files, connections, processes, output or settings."""
import copy
import json
import os
import pkgutil
import subprocess
import sys

from hypothesis import strategies as st

from pbt import env, gen, mutate, oracle, outside, refs, words
from pbt.checks import c19, c36
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, cls, dump
from pbt.table import OBJS, PMAPS, T

import asyncapi3
import asyncapi3.validators as V

QUICK = 10            # multiplies the drawn cases of a quick run
ID = "C37"
RULE = ("Histories over objects of every type and whole documents, valid and damaged, whose texts and references name files, addresses, commands, environment variables and format strings: parse (data, JSON text), "
        "look (as in C36), validate with every shipped validator, assign, set and delete entries, build. Around each history, as in a program that never set up logging, or only its level: audit events of the interpreter (files, sockets, processes, "
        "temporary files), output, and two dozen settings of the process (recursion limit, logging, warning filters, environment, directory, locale, random state, collector, threads, hooks, ...). None may show a trace. "
        "Every module of the package is imported alone in a fresh process under the same watch. Non-trivial: a tempting text stands in the document. Class = operations.")
ASSUMES = ["modules loaded late from the installation are allowed", "effects of the C parts of pydantic that raise no audit event are not seen"]
TEMPTING = ["/etc/hostname", "./check.py", "check.py", "file:///etc/hostname", "../verif/check.py", "/tmp/verif-c37", "~/.profile", "$HOME", "${PATH}", "%(x)s", "%s%n", "{0.__class__}", "{name}", "`id`", "$(id)", "; id",
            "__import__('os').getcwd()", "!!python/object/apply:os.getcwd []", "http://127.0.0.1:9/x.json#/a", "https://localhost:9/x.yaml", "ftp://localhost/x", "//localhost/x", "data:,x", "<!ENTITY x SYSTEM 'file:///etc/hostname'>",
            "file://localhost/etc/hostname#/components/tags/t", "components.yaml#/components/schemas/a", "asyncapi.json"]
TEXT = st.one_of(st.sampled_from(TEMPTING), gen.TEXT)
REFS = st.one_of(st.sampled_from(TEMPTING), st.sampled_from(TEMPTING).map(lambda s: "#/" + s), gen.REFSTR)
LEVEL = st.sampled_from([None, None, 0, 10, 50])        # of the root logger
VALIDATORS = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
OUTSIDE = st.sampled_from(["http://127.0.0.1:9/x.json#/a", "https://localhost:9/x.yaml", "http://localhost:9/", "https://example.invalid/a.yaml#/b"])


@st.composite
def op(draw, isdoc):
    how = draw(st.sampled_from(["parse", "parse", "json", "look", "look", "assign", "entry", "drop"] + (["validate", "validate", "builder", "with"] if isdoc else [])))
    if how == "look":
        return [how, draw(c36.look(False, None))]
    if how in ("assign", "entry", "drop"):
        return [how, draw(st.integers(0, 1000)), draw(st.integers(0, 1000)), draw(st.one_of(TEXT, gen.JSON))]
    if how in ("validate", "with"):
        return [how, draw(st.sampled_from(VALIDATORS + VALIDATORS + c19.NAMES))]
    if how == "builder":
        return [how, draw(TEXT)]
    return [how]


@st.composite
def documents(draw):
    how = draw(gen.UPTO[3])
    if how == 0:
        doc = draw(c19.document())
    elif how == 1:
        g = G(draw, 8, refs=OUTSIDE, text=TEXT)
        pos = refs.POSITIONS[draw(st.integers(0, len(refs.POSITIONS) - 1))]
        doc, _ = refs.place(g, pos, {"$ref": draw(st.one_of(OUTSIDE, REFS))}, extra=draw(st.booleans()), many=draw(refs.MANY))
    else:
        doc = G(draw, draw(st.sampled_from([10, 40])), refs=OUTSIDE if how == 2 else REFS, text=TEXT).obj("AsyncAPI3")
    if draw(gen.UPTO[3]) == 0:
        n = draw(st.sampled_from(words.sizes(400, [8, 30, 70, 150])))
        for coll in draw(st.one_of(st.just(refs.COLLECTIONS), st.lists(st.sampled_from(refs.COLLECTIONS), min_size=1, max_size=3, unique=True))):
            kinds = sorted(k for k, homes in refs.HOMES.items() if coll in homes)
            one = refs.simple(G(draw, 2, refs=OUTSIDE), kinds[0])
            doc = refs.merge(doc, {"components": {coll: {f"n{i}": one for i in range(gen.affordable(n, one))}}})
    if draw(gen.UPTO[5]) == 0:
        doc = draw(mutate.bad_object("AsyncAPI3")) or doc
    return ["AsyncAPI3", doc, [draw(op(True)) for _ in range(draw(st.integers(2, 9)))], draw(LEVEL)]


@st.composite
def objects(draw, name):
    v = G(draw, 12, refs=REFS, text=TEXT).value(T("PMAP" if name in PMAPS else "OBJ", (name,)))
    return [name, v, [draw(op(False)) for _ in range(draw(st.integers(2, 8)))], draw(LEVEL)]


def run(name, v, ops):
    m, err = attempt(cls(name).model_validate, copy.deepcopy(v))
    for o in ops:
        how = o[0]
        if how == "parse":
            m = attempt(cls(name).model_validate, copy.deepcopy(v))[0] or m
        elif how == "json":
            attempt(cls(name).model_validate_json, json.dumps(v))
        elif how == "builder":
            attempt(AsyncAPI3.as_builder, title=o[1], description=o[1])
        elif how == "with":
            attempt(AsyncAPI3.model_validate, {**v, "extra_validators": [getattr(V, o[1])]} if isinstance(v, dict) else v)
        elif m is None:
            continue
        elif how == "look":
            c36.show(m, o[1])
        elif how == "validate":
            try:
                getattr(V, o[1])()(m)
            except ValueError:
                pass
        else:
            ps = c36.parts(m)
            maps = [p for p in ps if type(p).__name__ in PMAPS]
            try:
                if how == "assign":
                    x = ps[o[1] % len(ps)]
                    fields = list(type(x).model_fields) or ["x-a"]
                    setattr(x, fields[o[2] % len(fields)], o[3])
                elif maps:
                    x = maps[o[1] % len(maps)]
                    keys = list(x)
                    if how == "entry":
                        x[keys[o[2] % len(keys)] if keys and o[2] % 2 else "new"] = o[3]
                    else:
                        del x[keys[o[2] % len(keys)] if keys and o[2] % 2 else "absent"]
            except (ValueError, KeyError, TypeError):
                pass


def prop(case):
    name, v, ops, level = case
    with outside.watched(level) as w:
        run(name, v, ops)
    said = w.complaint()
    if said:
        raise Violation(said)
    text = json.dumps(v, ensure_ascii=False)
    return "+".join(sorted({o[0] for o in ops}))[:60] if any(t in text for t in TEMPTING[:8]) or "http" in text or any(t in text for t in TEMPTING) else None


MODULES = sorted({"asyncapi3", *(m.name for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."))})


def imported(name):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    p = subprocess.run([sys.executable, "-B", os.path.join(env.VERIF, "pbt", "outside.py"), env.REPO, name], capture_output=True, text=True, env=e, cwd="/", timeout=100)
    if p.returncode:
        raise Violation(f"importing {name} fails: {p.stderr[-400:]}")
    said = json.loads(p.stdout)
    if said:
        raise Violation(f"importing {name}: {said}")
    return "import"


def tasks(tier):
    k = 1 if tier == "quick" else 25
    names = sorted(set(OBJS) | set(PMAPS))
    return ([Task(f"documents{i}", prop, documents(), n=40 * k, weight=3) for i in range(6)]
            + foreach("objects", prop, names, objects, 4 * k)
            + [Task(f"imports{i}", imported, cases=lambda i=i: MODULES[i::4], weight=30) for i in range(4)])
