"""Reference verdicts depend on what a document says, not on order, naming, unrelated content or where an object is written down."""
from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.checks import c16, c17, c19
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, attempt, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T, variants

import asyncapi3.validators as V

ID = "C28"
RULE = ("A drawn document (good, bad or arbitrary references, or a reference at a drawn position) is rewritten in one to three ways that do not change what it means: keys of maps and objects "
        "reordered, an entry renamed together with all references to it, unrelated content added, an entry duplicated or a neighbour put before or after the entries of a map or list, an object moved into the reusable components and referred to, a reference lengthened "
        "through one more component. All reference validators must give the rewritten document the verdict of the original, parsed and called alike. Non-trivial: the rewrite changed the document and "
        "it holds a local reference. Class = verdicts:rewrites.")
ASSUMES = ["moving objects and lengthening references are judged with unified validation only", "documents with references through lists, free-form values or escapes are only reordered and extended"]
MAJOR = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
ONLY_U = MAJOR[:1]


def reorder(draw, t, v):
    """v with the keys of its typed maps and objects in another order."""
    s = oracle.select(t, v)
    if s is None or s.kind == "OBJ" and any(x.kind == "MAP" for x in variants(t)):
        return v
    if s.kind == "LIST":
        return [reorder(draw, s.args[0], x) for x in v]
    if s.kind in ("MAP", "PMAP", "OBJ"):
        ks = list(v)
        if len(ks) > 1:
            how = draw(gen.UPTO[2])
            ks = ks[::-1] if how == 0 else sorted(ks) if how == 1 else list(draw(st.permutations(ks)))
        if s.kind == "OBJ":
            fs = {f.name: f.type for f in OBJS[s.args[0]].fields}
            return {k: reorder(draw, fs[k], v[k]) if k in fs and v[k] is not None else v[k] for k in ks}
        vt = s.args[0] if s.kind == "MAP" else PMAPS[s.args[0]].value
        return {k: reorder(draw, vt, v[k]) for k in ks}
    return v


def decided(doc):
    return all(refs.lookup(doc, s)[0] != "undecided" for p, s, e in refs.slots(doc))


def maps_of(doc):
    """Paths of the patterned maps of a document that a pointer can spell, with their entries."""
    return [(p, sel.args[0], v) for p, t, sel, v in oracle.walk(ROOT, doc) if sel is not None and sel.kind == "PMAP" and v and refs.addressable(p)]


def rename(draw, doc, prefer=None):
    ms = maps_of(doc)
    if not ms or not decided(doc):
        return None
    used = [(p, n, v) for p, n, v in ms if any(s.startswith(refs.pointer(p) + "/") for _, s, _ in refs.slots(doc))]
    if used and draw(gen.UPTO[3]):
        ms = used
    path, name, v = ms[draw(st.integers(0, len(ms) - 1))]
    ks = [k for k in v if any(s == refs.pointer(path + (k,)) or s.startswith(refs.pointer(path + (k,)) + "/") for _, s, _ in refs.slots(doc))] or sorted(v)
    old = ks[draw(st.integers(0, len(ks) - 1))]
    text = str(doc)
    for _ in range(6):
        new = draw(gen.KEY)
        if new not in v and refs.pointer(path + (new,)) not in text:
            break
    else:
        return None
    a, b = refs.pointer(path + (old,)), refs.pointer(path + (new,))
    for p, s, e in refs.slots(doc):
        if s == a or s.startswith(a + "/"):
            doc = oracle.set_at(doc, p + ("$ref",), b + s[len(a):])
    return oracle.set_at(doc, path, {new if k == old else k: x for k, x in oracle.get_at(doc, path).items()})


def extend(draw, doc):
    g = G(draw, 6, refs=st.just("https://example.com/unrelated"))
    text = str(doc)
    how = draw(gen.UPTO[3])
    if how == 0:
        k = "x-" + draw(gen.WORD)
        return None if k in doc else {**doc, k: draw(gen.JSON)}
    if how == 1:
        comp = doc.get("components") or {}
        if "x-more" in comp:
            return None
        return {**doc, "components": {**comp, "x-more": 1}}
    coll = refs.COLLECTIONS[draw(st.integers(0, len(refs.COLLECTIONS) - 1))]
    types = [v.args[0] for v in variants(PMAPS[OBJS["Components"].f(coll).type.args[0]].value) if v.kind == "OBJ"]
    many = draw(st.sampled_from([1, 1, 2, 30]))
    for _ in range(many):
        k = draw(gen.KEY) if many < 5 else "zz" + str(_)
        if k in ((doc.get("components") or {}).get(coll) or {}) or f"#/components/{coll}/{k}" in text:
            return None
        doc = refs.add_component(g, doc, coll, k, refs.simple(g, types[0], st.just("https://example.com/unrelated")))
    return doc


def neighbour(draw, doc):
    """One more entry in a map or list: a reference to another document or a plain object, before or after the others."""
    if not decided(doc):
        return None
    text = str(doc)
    places = []
    for p, t, sel, v in oracle.walk(ROOT, doc):
        if sel is None or sel.kind not in ("PMAP", "LIST") or not v or not isinstance(v, (dict, list)):
            continue
        vt = PMAPS[sel.args[0]].value if sel.kind == "PMAP" else sel.args[0]
        if any(x.kind in ("REF", "OBJ") for x in variants(vt)) and not any(x.kind in ("MAP", "ANY") for x in variants(vt)):
            places.append((p, sel.kind, vt, v))
    holding = [c for c in places if "'$ref': '#" in str(c[3])]
    if holding and draw(gen.UPTO[3]):
        places = holding
    if not places:
        return None
    path, kind, vt, v = places[draw(st.integers(0, len(places) - 1))]
    kinds = {x.kind: x for x in variants(vt)}
    ext = {"$ref": "https://example.com/unrelated"}
    if "REF" in kinds and ("OBJ" not in kinds or draw(gen.UPTO[2])):
        new = ext
    else:
        new = refs.simple(G(draw, 5), kinds["OBJ"].args[0], st.just("https://example.com/unrelated"))
    front = draw(st.booleans())
    if kind == "LIST":
        return oracle.set_at(doc, path, [new] + v if front else v + [new])
    k = draw(gen.KEY)
    if k in v or refs.pointer(tuple(map(str, path)) + (k,)) in text:
        return None
    return oracle.set_at(doc, path, {k: new, **v} if front else {**v, k: new})


def duplicate(draw, doc):
    ms = [m for m in maps_of(doc)]
    if not ms or not decided(doc):
        return None
    path, name, v = ms[draw(st.integers(0, len(ms) - 1))]
    old = list(v)[draw(st.integers(0, len(v) - 1))]
    new = draw(gen.KEY)
    if new in v or refs.pointer(path + (new,)) in str(doc):
        return None
    return oracle.set_at(doc, path, {**v, new: v[old]})


def move(draw, doc):
    """An inline object where a reference may stand goes to the components."""
    if not decided(doc):
        return None
    ss = [s for _, s, _ in refs.slots(doc)]
    cands = []
    for p, t, sel, v in oracle.walk(ROOT, doc):
        if sel is not None and sel.kind == "OBJ" and any(x.kind == "REF" for x in variants(t)) and not any(x.kind == "MAP" for x in variants(t)) and sel.args[0] in refs.HOMES:
            if not (refs.addressable(p) and any(s.startswith(refs.pointer(p) + "/") for s in ss)):
                cands.append((p, sel.args[0], v))
    if not cands:
        return None
    holding = [c for c in cands if "$ref" in str(c[2])]
    if holding and draw(gen.UPTO[2]):
        cands = holding
    path, name, v = cands[draw(st.integers(0, len(cands) - 1))]
    coll = refs.HOMES[name][0]
    g = G(draw, 5)
    k = refs.fresh_key(g, doc, coll)
    if f"#/components/{coll}/{k}" in str(doc):
        return None
    doc = oracle.set_at(doc, path, {"$ref": f"#/components/{coll}/{k}"})
    return refs.add_component(g, doc, coll, k, v)


def lengthen(draw, doc):
    if not decided(doc):
        return None
    ss = [(p, s, e) for p, s, e in refs.slots(doc) if sorted(n for n in e if n in refs.HOMES)]
    if not ss:
        return None
    path, ref, exp = ss[draw(st.integers(0, len(ss) - 1))]
    g = G(draw, 5)
    coll = refs.HOMES[sorted(n for n in exp if n in refs.HOMES)[0]][0]
    k = refs.fresh_key(g, doc, coll)
    new = f"#/components/{coll}/{k}"
    if new in str(doc):
        return None
    # what led through this very slot must still do so
    doc = oracle.set_at(doc, path + ("$ref",), new)
    return refs.add_component(g, doc, coll, k, {"$ref": ref})


REWRITES = {"reorder": lambda draw, d: reorder(draw, ROOT, d), "rename": rename, "extend": extend, "duplicate": duplicate, "neighbour": neighbour, "move": move, "lengthen": lengthen}


@st.composite
def rewritten(draw, doc, hows=None):
    done, out = [], doc
    for how in draw(st.lists(st.sampled_from(hows or ["rename", "rename", "move", "move", "move", "reorder", "extend", "duplicate", "neighbour", "neighbour", "lengthen"]), min_size=1, max_size=3)):
        new = REWRITES[how](draw, out)
        if new is not None:
            out = new
            done.append(how)
    return [done, doc, out]


@st.composite
def documents(draw):
    return draw(rewritten(draw(c19.document())))


@st.composite
def at_position(draw, pos):
    g = G(draw, 10, refs=refs.EXTERNAL)
    doc, path = refs.place(g, pos, {"$ref": "https://placeholder.example/"}, extra=draw(st.booleans()))
    if draw(st.booleans()):
        doc, ref, how = refs.bad_ref(g, doc, pos.expected, path)
    else:
        doc, ref = refs.good_target(g, doc, pos.expected, draw(gen.UPTO[1]))
    doc = oracle.set_at(doc, path + ("$ref",), ref)
    return draw(rewritten(doc))


def family(fam):
    def make(pos):
        @st.composite
        def cases(draw):
            return draw(rewritten(draw(fam.case(pos))[1], ["neighbour", "neighbour", "neighbour", "reorder", "reorder", "rename", "extend", "duplicate"]))
        return cases()
    return make


def verdict(name, doc):
    m = must_parse(ROOT, doc)
    try:
        getattr(V, name)()(m)
        said = None
    except ValueError as e:
        said = str(e)
    _, err = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [getattr(V, name)]})
    if (said is None) != (err is None):
        raise Violation(f"{name} {'accepts' if said is None else 'refuses'} the document when called, not when parsing")
    return said


def prop(case):
    done, a, b = case
    if oracle.conforms(ROOT, b) is not None or not done:
        return None
    names = ONLY_U if {"move", "lengthen"} & set(done) else MAJOR
    says = []
    for name in names:
        x, y = verdict(name, a), verdict(name, b)
        if (x is None) != (y is None):
            raise Violation(f"{name} {'accepts' if x is None else 'refuses'} the document ({oracle.short(x, 200)}) but {'accepts' if y is None else 'refuses'} it ({oracle.short(y, 200)}) after {done}")
        says.append("yes" if x is None else "no")
    if a == b and list(a) == list(b) or not any(s.startswith("#") for _, s, _ in refs.slots(a)):
        return None
    return "+".join(sorted(set(says))) + ":" + "+".join(sorted(set(done)))


def tasks(tier):
    k = 1 if tier == "quick" else 40
    return (foreach("positions", prop, refs.POSITIONS, at_position, 6 * k, chunk=12)
            + foreach("tags", prop, c16.FAM.positions, family(c16.FAM), 12 * k, chunk=4) + foreach("docs", prop, c17.FAM.positions, family(c17.FAM), 8 * k, chunk=6)
            + [Task(f"documents{i}", prop, documents, n=100 * k, weight=5) for i in range(8)])
