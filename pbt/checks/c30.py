"""Every process gives the same answers: hash seed, optimisation, locale and import order do not matter."""
import os
import pkgutil
import json
import subprocess
import sys

from hypothesis import strategies as st

from pbt import env, gen, grids, mutate, oracle
from pbt.checks import c19, c22, c23, c24, c29
from pbt.harness import Task, Violation
from pbt.table import OBJS, PMAPS, ROOT
from pbt.worker import answers

import asyncapi3

QUICK = 1            # multiplies the drawn cases of a quick run
ID = "C30"
RULE = ("Batches of documents (valid, with defects, with good and bad references under drawn validators) and JSON Schema requests are answered in this process and in a fresh one with a drawn hash seed, "
        "with or without -O, with warnings as errors, with every log message written out, in another locale and working directory, having imported a drawn module of the package first (every module in turn, under -O, each with a share of the "
        "decision tables of all documented value and cross-field rules). Dumps, JSON text and its key order, verdicts, error texts, "
        "warnings and schemas must be the same, character by character. Non-trivial: the batch holds a refused and an accepted document. Class = settings.")
ASSUMES = ["one Python and one version of each dependency"]
MODULES = ["asyncapi3"] + sorted(m.name for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."))


@st.composite
def question(draw):
    how = draw(gen.UPTO[5])
    if how == 0:
        names = list(OBJS) + list(PMAPS)
        return ["schema", names[draw(st.integers(0, len(names) - 1))], draw(st.sampled_from(["validation", "serialization"])), []]
    if how == 1:
        target = c29.TARGETS[draw(st.integers(0, len(c29.TARGETS) - 1))]
        return [draw(st.sampled_from(["dict", "json"])), "AsyncAPI3", draw(c29.one(target))[3], []]
    if how == 2:
        return [draw(st.sampled_from(["dict", "json"])), "AsyncAPI3", draw(gen.documents(budget=draw(st.sampled_from([40, 150])))), []]
    major = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
    return ["dict", "AsyncAPI3", draw(c19.document()), draw(st.lists(st.sampled_from(major), min_size=1, max_size=3, unique=True))]


def batches(chunk):
    @st.composite
    def make(draw):
        return [{"seed": draw(st.integers(1, 10**6)), "optimize": draw(st.booleans()), "plain": draw(st.booleans()),
                 "loud": draw(st.booleans()), "strict": draw(st.booleans()), "first": chunk[draw(st.integers(0, len(chunk) - 1))]},
                draw(st.lists(question(), min_size=8, max_size=16))]
    return make()


def prop(case):
    conf, questions = case
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    e.update(PYTHONHASHSEED=str(conf["seed"]), VERIF_FIRST_IMPORT=conf["first"], PYTHONDONTWRITEBYTECODE="1",
             VERIF_LOUD="1" if conf["loud"] else "", **({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"} if conf["plain"] else {"PYTHONUTF8": "1"}))
    p = subprocess.run([sys.executable, *(["-O"] if conf["optimize"] else []), *(["-W", "error"] if conf["strict"] else []), os.path.join(env.VERIF, "pbt", "worker.py"), env.VERIF],
                       input=json.dumps(questions), capture_output=True, text=True, env=e, cwd="/tmp" if conf["plain"] else "/", timeout=200)
    if p.returncode:
        raise Violation(f"a process with {conf} fails: {p.stderr[-600:]}")
    if "--- Logging error ---" in p.stderr:
        raise Violation(f"a message to the log cannot be written: {p.stderr[-600:]}")
    there, here = json.loads(p.stdout), answers(questions)
    for q, a, b in zip(questions, here, there):
        a = json.loads(json.dumps(a))
        if a != b:
            raise Violation(f"{q[0]} {q[1]} {q[3]}: {oracle.diff(a, b)}")
    kinds = {a[0] for a in here if isinstance(a, list)}
    return f"{'-O' if conf['optimize'] else 'plain'}:{'C' if conf['plain'] else 'utf8'}" if len(kinds) == 2 else None


def rules():
    """Questions on both sides of every documented rule that is more than a type."""
    out = []
    for table in ({"SecurityScheme": c22.SCHEME}, {"SecurityScheme": c22.EDGE}, {"OAuthFlows": c22.FLOWS}, c23.GRIDS, {n: dict(g) for n, g in c24.GRIDS.items()},
                  *({o: g} for (o, f), g in c23.fields().items())):
        for name, grid in table.items():
            out += [["dict", name, v, []] for v in grids.pick(grids.cells(grid), 250)]
    for rule, values in {"version": ["3.0.0", "3.1.2-rc.1", "2.6.0", "3.0", "3.0.0\n", "3.0.\u0663", "v3.0.0", "x"], "email": ["a@b.co"] + mutate.BAD_EMAILS,
                         "location": ["$message.header#/a", "$message", "x", "", "$Message.a"]}.items():
        owner, field, rest = c24.RULES[rule][:3]
        out += [["json", owner, {**rest, field: s}, []] for s in values]
    keys = ["a", "A-b_c.d", "a b", "", "é", "a\n", "x-a", "x-", "x-é", "x- ", "X-a", "x-a/b", "\u0660", "x-\u0660"]
    out += [["dict", n, {k: {"$ref": "#/a/b"}}, []] for n in PMAPS for k in keys]
    out += [["dict", o.name, {**c23.minimal(o.name), k: 1}, []] for o in OBJS.values() for k in keys if o.name != "AsyncAPI3"]
    return out


def slices(i):
    qs = rules()
    n = len(MODULES)
    for j in range(i, n, 8):
        base = [["schema", "AsyncAPI3", "validation", []], ["dict", "AsyncAPI3", {"info": {"title": "t", "version": "1"}}, ["TagsRefValidator"]], ["dict", "Info", {}, []]]
        yield [{"seed": 5 + j, "optimize": True, "plain": j % 2 == 0, "loud": j % 3 == 0, "strict": j % 4 < 2, "first": MODULES[j]}, base + qs[j::n]]


def first(case):
    return prop(case) and f"first:{case[0]['first']}"


def tasks(tier):
    k = 1 if tier == "quick" else 30
    return ([Task(f"first import{i}", first, cases=lambda i=i: list(slices(i)), weight=20) for i in range(8)]
            + [Task(f"batches{i}", prop, (lambda: batches(MODULES)), n=14 * k, weight=5) for i in range(8)])
