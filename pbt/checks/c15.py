"""Resolving a reference gives exactly the object the pointer denies or denotes."""
from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.gen import G
from pbt.harness import Task, Violation
from pbt.lib import AsyncAPI3, at, capture_warnings, cls, must_parse
from pbt.table import OBJS, ROOT, T

from asyncapi3.validators.utils import resolve_reference

QUICK = 14            # multiplies the drawn cases of a quick run
ID = "C15"
RULE = ("Drawn documents with local, chained, external and broken references; queries: pointers to every addressable node, the references the document "
        "holds, near misses, missing paths, unsupported formats, cycles. An independent resolver over the document says what each must give: the identical "
        "object of the model with its type, None for http(s), ValueError otherwise. Non-trivial: at least one query resolved to an object and one was "
        "refused. Class = shapes met.")
ASSUMES = ["pointers through lists, references or free-form values, with escapes or Python names are not decided"]

OBJNAMES = sorted(o for o in OBJS if o != "AsyncAPI3")


@st.composite
def cases(draw):
    doc = draw(refs.good_documents(budget=draw(st.sampled_from([15, 40, 80]))))
    g = G(draw, 10, refs=refs.EXTERNAL)
    for _ in range(draw(gen.UPTO[2])):
        names = sorted(refs.HOMES)
        name = names[draw(st.integers(0, len(names) - 1))]
        doc, _, _ = refs.bad_ref(g, doc, {name})
    if draw(gen.UPTO[1]):
        # an object of a drawn type somewhere, with what it may hold
        name = OBJNAMES[draw(st.integers(0, len(OBJNAMES) - 1))]
        t = T("OBJ", (name,))
        other = gen.embed(g, t, G(draw, 8, density=3, refs=refs.EXTERNAL).value(t))[0]
        out = refs.merge(doc, other)
        if oracle.conforms(ROOT, out) is None:
            doc = out
    every = refs.targets(doc)
    ts = sorted(every)
    empty = [t for t in ts if not oracle.get_at(doc, every[t][0])]
    scalars = [t for t in ts if not isinstance(oracle.get_at(doc, every[t][0]), dict)]
    qs = []
    for _ in range(draw(st.integers(1, 12))):
        how = draw(gen.UPTO[9])
        if how <= 3 and ts:
            qs.append(ts[draw(st.integers(0, len(ts) - 1))])
        elif how == 8 and empty:
            qs.append(empty[draw(st.integers(0, len(empty) - 1))])
        elif how == 9 and scalars:
            qs.append(scalars[draw(st.integers(0, len(scalars) - 1))])
        elif how == 4 and ts:
            qs += refs.near_misses(ts[draw(st.integers(0, len(ts) - 1))])
        elif how == 5:
            qs.append(draw(st.sampled_from(refs.BAD_FORMATS + refs.MISSING)))
        elif how == 6:
            qs.append(draw(refs.EXTERNAL))
        else:
            ss = refs.slots(doc)
            if ss:
                qs.append(ss[draw(st.integers(0, len(ss) - 1))][1])
    return [doc, qs]


def prop(case):
    doc, qs = case
    m = must_parse(ROOT, doc)
    shapes = set()
    for q in qs:
        want = refs.resolve(doc, q)
        if want[0] == "undecided":
            continue
        with capture_warnings() as logs:
            try:
                got, err = resolve_reference(q, m), None
            except ValueError as e:
                got, err = None, e
        if want[0] == "bad":
            if err is None:
                raise Violation(f"{q!r} resolved to {oracle.short(got)} although it is {want[1]}")
            shapes.add("circular" if want[1] == "circular" else "bad")
            continue
        if err is not None:
            raise Violation(f"{q!r} refused: {str(err)[:200]}; expected {want[:3]}")
        if want[0] == "external":
            if got is not None:
                raise Violation(f"external {q!r} resolved to {oracle.short(got)}")
            if not any(want[1] in r for r in logs):
                raise Violation(f"no warning about the external reference {want[1]!r}")
            shapes.add("external")
            continue
        _, path, kind, hops = want
        if got is None:
            raise Violation(f"{q!r} treated as external")
        try:
            target = at(m, path)
        except (KeyError, AttributeError, IndexError) as e:
            raise Violation(f"{q!r}: {path} is not in the model: {e!r}")
        if got.resolved_object is not target:
            raise Violation(f"{q!r} resolved to {oracle.short(got.resolved_object)}, not to the object at {refs.pointer(path)}")
        if got.resolved_type is not type(target):
            raise Violation(f"{q!r}: type {got.resolved_type} for a {type(target).__name__}")
        if not kind.startswith("@") and got.resolved_type is not cls(kind):
            raise Violation(f"{q!r}: type {got.resolved_type.__name__}, the document has a {kind}")
        shapes.add("chain" if hops > 1 else "direct")
        # a reference already being visited is a cycle
        try:
            again = resolve_reference(q, m, {q})
        except ValueError:
            again = "refused"
        if again != "refused":
            raise Violation(f"{q!r} resolved although it is already being visited")
        again = resolve_reference(q, m, set())
        if again is None or again.resolved_object is not target:
            raise Violation(f"{q!r} resolved differently the second time")
        again = resolve_reference(q, m, {"#/components/schemas/unrelated-zz"})
        if again is None or again.resolved_object is not target:
            raise Violation(f"{q!r} resolved differently with an unrelated reference visited")
    return "+".join(sorted(shapes)) if "bad" in shapes and shapes & {"direct", "chain"} or "circular" in shapes else None


def tasks(tier):
    k = 1 if tier == "quick" else 30
    return [Task(f"resolve{i}", prop, cases, n=150 * k) for i in range(8)]
