"""The documented hooks of the tag and external documentation validators receive every reference, and decide."""
import collections

from hypothesis import strategies as st

from pbt import gen, lib, oracle, refs
from pbt.checks import c16, c17
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, dump, first, must_parse
from pbt.table import ROOT

QUICK = 7            # multiplies the drawn cases of a quick run
ID = "C31"
RULE = ("Documents with one to three tag (external documentation) references, good, bad and external, at every position in turn, are given to subclasses of the validators that override the hook "
        "for external references, for local ones, or both: recording, accepting or refusing. Each hook must receive exactly the references of its sort, each position once, with the document; "
        "its answer must decide; the rule not overridden must stay in force. Non-trivial: a hook received a reference. Class = validator:overridden:answer.")
ASSUMES = ["order of the calls and the context text are not decided", "positions of external documentation the validator does not document (see C17) may be visited or not"]
SORTS = {"tags": ("validate_external_tag_ref", "validate_internal_tag_ref"), "externalDocs": ("validate_external_external_doc_ref", "validate_internal_external_doc_ref")}


class Refusal(ValueError):
    pass


def subclass(fam, which, how, calls):
    ext, internal = SORTS[fam.coll]

    def take(sort, spec, ref, context):
        calls.append((sort, spec, ref, context))
        if how == "refuse":
            raise Refusal("refused by hook")

    body = {}
    if fam.coll == "tags":
        def external(self, spec, tag_ref, context):
            take("external", spec, tag_ref, context)

        def local(self, spec, tag_ref, context):
            take("local", spec, tag_ref, context)
    else:
        def external(self, spec, ref, context):
            take("external", spec, ref, context)

        def local(self, spec, ref, context):
            take("local", spec, ref, context)
    if which in ("external", "both"):
        body[ext] = external
    if which in ("local", "both"):
        body[internal] = local
    return type("Custom", (fam.validator,), body)


def prop_of(fam):
    def prop(case):
        how_doc, doc, path, which, how = case
        slots = [(p, s, fam.position_of(p, doc) in fam.names) for p, s, e in refs.slots(doc) if e == {fam.typename}]
        m = must_parse(ROOT, doc)
        before = dump(m)
        calls = []
        cls = subclass(fam, which, how, calls)
        try:
            out, refused = cls()(m), None
        except ValueError as e:
            out, refused = None, e
        if oracle.diff(before, dump(m)):
            raise Violation("a validator with overridden hooks changed the document")
        mine = {"external": [x for x in slots if not x[1].startswith("#")], "local": [x for x in slots if x[1].startswith("#")]}
        over = ["external", "local"] if which == "both" else [which]
        got = collections.Counter()
        paths = {id(lib.at(m, p)): (p, s, d) for p, s, d in slots}
        for sort, spec, ref, context in calls:
            if spec is not m or id(ref) not in paths:
                raise Violation(f"the hook for {sort} references received {oracle.short(ref)} of {oracle.short(spec, 40)}: not a reference of the document")
            if not isinstance(context, str):
                raise Violation(f"the hook received the context {context!r}")
            p, s, d = paths[id(ref)]
            if (sort == "local") != s.startswith("#"):
                raise Violation(f"the hook for {sort} references received {s!r}")
            got[p] += 1
            if got[p] > 1:
                raise Violation(f"the hook for {sort} references received {s!r} at {refs.pointer(map(str, p))} twice")
        bad_rest = which == "external" and any(d and fam.verdict_ref(doc, s) == "bad" for p, s, d in slots)
        open_rest = which == "external" and any(not d and fam.verdict_ref(doc, s) == "bad" for p, s, d in slots)
        if how == "accept" and not bad_rest and not open_rest:
            if refused is not None:
                raise Violation(f"hooks {over} accept everything, the document is refused: {str(refused)[:300]}")
            if out is not m:
                raise Violation("the validator does not return its document")
            for sort in over:
                for p, s, d in mine[sort]:
                    if d and not got[p]:
                        raise Violation(f"the hook for {sort} references never received {s!r} at {refs.pointer(map(str, p))}")
        must = bad_rest or how == "refuse" and any(d for sort in over for p, s, d in mine[sort])
        if must and refused is None:
            raise Violation(f"{'the rule for local references is lost' if bad_rest else 'the refusal of a hook is lost'} when {over} is overridden")
        if not must and refused is not None and not open_rest and not any(mine[s] for s in over):
            raise Violation(f"refused although no reference is bad: {str(refused)[:300]}")
        parsed, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [cls]})
        if (err is None) != (refused is None):
            raise Violation(f"called, the validator {'refuses' if refused else 'accepts'}; parsing {'refuses' if err else 'accepts'}")
        return f"{fam.coll}:{which}:{how}" if calls else None
    return prop


def cases(fam):
    def make(pos):
        return st.tuples(fam.case(pos), st.sampled_from(["external", "local", "both"]), st.sampled_from(["accept", "accept", "refuse"])).map(lambda t: t[0] + [t[1], t[2]])
    return make


def tasks(tier):
    k = 1 if tier == "quick" else 40
    out = []
    for fam in (c16.FAM, c17.FAM):
        out += foreach(fam.coll, prop_of(fam), fam.positions, cases(fam), 40 * k, chunk=max(1, len(fam.positions) // 8))
    return out
