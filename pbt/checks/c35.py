"""A document nobody uses any more is released: the library keeps no hold of it."""
import copy
import gc
import json

from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.checks import c19
from pbt.fault import KINDS
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, attempt, dump
from pbt.table import OBJS, ROOT

import asyncapi3.validators as V
from asyncapi3.protocols import ProcessorProtocol
from asyncapi3.validators.utils import resolve_reference

QUICK = 4            # multiplies the drawn cases of a quick run
ID = "C35"
RULE = ("Drawn histories over drawn documents: parsing with and without validators, by every route, refused ones too; every shipped validator; resolving; copies, dumps, comparison; assignments and item assignments, accepted, "
        "refused or ended by a failing processor; building; processors that read the document or change it. After the last use the garbage collector runs, and no object of a class of the library made in the history may be alive. "
        "Non-trivial: four or more operations, one of them refused. Class = operations.")
ASSUMES = ["objects are found by the garbage collector, which tracks every model instance"]
MAJOR = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
HOW = ["parse", "json", "keywords", "validate", "validate", "apply", "apply", "resolve", "copy", "dump", "equal", "assign", "assign", "validators", "failing", "convert", "convert", "item", "build", "again"]


@st.composite
def cases(draw):
    docs = [draw(c19.document()) for _ in range(draw(st.integers(1, 2)))]
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        how = draw(st.sampled_from(HOW))
        i = draw(st.integers(0, len(docs) - 1))
        x = None
        if how in ("validate", "apply", "validators"):
            x = draw(st.sampled_from(MAJOR + c19.NAMES)) if how == "apply" else draw(st.lists(st.sampled_from(MAJOR + MAJOR + c19.NAMES), min_size=1, max_size=3))
        elif how == "convert":
            x = draw(gen.UPTO[3])
        elif how == "resolve":
            cands = sorted({s for p, s, e in refs.slots(docs[i])} | set(refs.targets(docs[i]))) + ["#/nowhere"]
            x = cands[draw(st.integers(0, len(cands) - 1))]
        elif how in ("assign", "failing"):
            x = [draw(st.sampled_from(["components", "channels", "operations", "servers", "info"])), draw(st.sampled_from(sorted(KINDS))) if how == "failing" else draw(gen.UPTO[1])]
        ops.append([how, i, x])
    return [docs, ops]


def history(docs, ops):
    """How many operations were refused."""
    models = [AsyncAPI3.model_validate(copy.deepcopy(d)) for d in docs]
    refused = 0
    for how, i, x in ops:
        doc, m = copy.deepcopy(docs[i]), models[i]
        try:
            if how == "parse":
                AsyncAPI3.model_validate({**doc, "info": 5})
            elif how == "json":
                models[i] = AsyncAPI3.model_validate_json(json.dumps(doc))
            elif how == "keywords":
                AsyncAPI3(**{k: getattr(m, OBJS["AsyncAPI3"].f(k).py) for k in doc if k in ("info", "channels", "components", "id")})
            elif how == "validate":
                AsyncAPI3.model_validate({**doc, "extra_validators": [getattr(V, n) for n in x]})
            elif how == "apply":
                getattr(V, x)()(m)
            elif how == "resolve":
                resolve_reference(x, m)
            elif how == "copy":
                models.append(copy.deepcopy(m))
                copy.copy(m), m.model_copy()
            elif how == "dump":
                m.model_dump(), m.model_dump_json(), repr(m)
            elif how == "equal":
                m == models[0], models[-1] == m
            elif how == "assign":
                setattr(m, x[0], doc.get(x[0]) if x[1] else getattr(models[0], x[0]))
            elif how == "validators":
                m.extra_validators = [getattr(V, n) for n in x]
            elif how == "failing":
                class Failing(ProcessorProtocol):
                    def __call__(self, spec):
                        resolve_reference("#/info", spec)
                        raise KINDS[x[1]]("injected")
                AsyncAPI3.model_validate({**doc, "extra_converters": [Failing]})
            elif how == "convert":
                class Reading(ProcessorProtocol):
                    bit = x & 1

                    def __call__(self, spec):
                        if self.bit:
                            spec.info.description = f"{spec.info.title}!"
                        return spec
                if x & 2:
                    m.extra_converters = [Reading]
                else:
                    models[i] = AsyncAPI3.model_validate({**doc, "extra_converters": [Reading], "extra_validators": [Reading]})
            elif how == "item":
                if m.channels is not None:
                    m.channels["fresh"] = {"address": "a"}
                    m.channels["a b"] = {}
            elif how == "build":
                b = AsyncAPI3.as_builder(title="t")
                b.components = m.components
            else:
                models[i] = AsyncAPI3.model_validate(m)
        except ValueError:
            refused += 1
        except tuple(KINDS.values()):
            refused += 1
    return refused


def prop(case):
    docs, ops = case
    attempt(lambda: None)
    gc.collect()
    gc.freeze()
    try:
        refused = history(docs, ops)
        gc.collect()
        left = [o for o in gc.get_objects() if type(o).__module__.startswith("asyncapi3")]
        if left:
            raise Violation(f"after the last use, {len(left)} objects of the library are still alive, among them a {type(left[0]).__name__}")
    finally:
        left = None
        gc.unfreeze()
    return "+".join(sorted({o[0] for o in ops})[:2]) if len(ops) >= 4 and refused else None


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return [Task(f"history{i}", prop, cases(), n=100 * k) for i in range(8)]
