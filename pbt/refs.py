"""References: where they may stand, what they must point to, and an independent resolver over documents."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen, oracle, words
from .gen import G
from .table import OBJS, PMAPS, ROOT, T, variants

# positions that hold nothing but references: what they must lead to
PURE = {("Channel", "servers"): "Server", ("Operation", "channel"): "Channel", ("Operation", "messages"): "Message",
        ("OperationReply", "channel"): "Channel", ("OperationReply", "messages"): "Message"}
COLLECTIONS = [f.name for f in OBJS["Components"].fields]


def collection_types():
    out = {}
    for f in OBJS["Components"].fields:
        for v in variants(PMAPS[f.type.args[0]].value):
            if v.kind == "OBJ":
                out.setdefault(v.args[0], []).append(f.name)
    return out


HOMES = collection_types()          # object type -> component collections that hold it


def expected_of(decl, owner):
    """Names of the object types a reference at a slot of this declared type must lead to."""
    names = {v.args[0] for v in variants(decl) if v.kind == "OBJ"}
    if not names:
        names = {PURE[owner]}
    return names


# ---------------------------------------------------------------- every position of the type graph
class Position:
    def __init__(self, steps, decl, owner):
        self.steps, self.decl, self.owner = steps, decl, owner
        self.expected = expected_of(decl, owner)
        self.name = "/".join(s[2] if s[0] == "field" else "*" if s[0] in ("map", "pmap") else "[]" for s in steps)
        self.via = [s[1] for s in steps if s[0] == "field"]

    def __repr__(self):
        return self.name


def _positions():
    out = []

    def rec(t, steps, owner):
        for v in variants(t):
            if v.kind == "REF":
                out.append(Position(tuple(steps), t, owner))
            elif v.kind == "OBJ":
                for f in OBJS[v.args[0]].fields:
                    rec(f.type, steps + [("field", v.args[0], f.name)], (v.args[0], f.name))
            elif v.kind == "LIST":
                rec(v.args[0], steps + [("list", v.args[0])], owner)
            elif v.kind == "MAP":
                rec(v.args[0], steps + [("map", v.args[0])], owner)
            elif v.kind == "PMAP":
                rec(PMAPS[v.args[0]].value, steps + [("pmap", PMAPS[v.args[0]].value)], (v.args[0], None))
    rec(ROOT, [], None)
    return out


KAFKA_KEY = ("field", "KafkaMessageBindings", "key")      # a free-form map: nothing below it is a typed position
POSITIONS = [p for p in _positions() if KAFKA_KEY not in p.steps or p.steps[-1] == KAFKA_KEY]
BY_NAME = {p.name: p for p in POSITIONS}
assert len(BY_NAME) == len(POSITIONS)


TWIN = {"$ref": "https://example.com/twin"}


def place(g, pos, value, extra=False, keys=None, many=0):
    """A root document with value at the position; (doc, path). Neighbours in lists and maps when extra; `many` in one of them.

    Neighbours are drawn small, or twins: alike down to the position, with a reference of their own there."""
    path = []
    holders = [i for i, s in enumerate(pos.steps) if s[0] != "field"]
    crowd = holders[g.draw(gen.UPTO[len(holders) - 1])] if many and holders else None
    twin = TWIN

    def neighbour(t):
        if g.draw(gen.UPTO[1]):
            return twin
        return G(g.draw, budget=3, density=0, refs=g.refs, extras=False, text=g.text).value(t)

    for i, s in reversed(list(enumerate(pos.steps))):
        if s[0] == "field":
            sparse = G(g.draw, budget=6 if extra else 0, density=0, refs=g.refs, extras=extra, text=g.text)
            value = sparse.obj(s[1], {s[2]: value}, only=not extra)
            if extra or many:
                twin = G(g.draw, budget=0, density=0, refs=g.refs, extras=False, text=g.text).obj(s[1], {s[2]: twin}, only=True)
            path.insert(0, s[2])
        elif s[0] == "list":
            n = g.draw(gen.UPTO[2]) if extra else 0
            before = [neighbour(s[1]) for _ in range(n)]
            after = [neighbour(s[1])] if extra and g.draw(gen.UPTO[3]) == 0 else []
            value = before + [value] + after
            if i == crowd:
                one = neighbour(s[1])
                many = gen.affordable(many, one)
                n += many
                value = [one] * many + value
            path.insert(0, n)
            twin = [twin]
        else:
            k = g.draw(keys or gen.KEY) if s[0] == "pmap" else g.draw(gen.ANYKEY)
            others = {}
            for _ in range(g.draw(gen.UPTO[2]) if extra else 0):
                k2 = g.draw(gen.KEY)
                if k2 != k:
                    others[k2] = neighbour(s[1])
            if i == crowd:
                one = neighbour(s[1])
                others = {**{x: one for x in (f"n{j}" for j in range(gen.affordable(many, one))) if x != k}, **others}
            value = {**others, k: value} if not extra or g.draw(gen.UPTO[1]) else {k: value, **others}
            path.insert(0, k)
            twin = {"t": twin}
    return value, tuple(path)


MANY = st.sampled_from([0] * 12 + words.sizes(1100, [12, 40, 70, 150, 300]))


# ---------------------------------------------------------------- slots and targets of a document
def slots(doc):
    """(path, ref string, expected type names) of every reference in a document."""
    out = []

    def owner_of(path):
        # nearest enclosing object and the field below it
        return owners.get(path)

    owners = {}
    for path, decl, sel, v in oracle.walk(ROOT, doc):
        if sel is None:
            continue
        own = owners.get(path)
        if sel.kind == "OBJ":
            for f in OBJS[sel.args[0]].fields:
                owners[path + (f.name,)] = (sel.args[0], f.name)
        elif sel.kind in ("LIST", "MAP", "PMAP") and isinstance(v, (list, dict)):
            for k in (range(len(v)) if isinstance(v, list) else v):
                owners[path + (k,)] = own
        elif sel.kind == "REF":
            out.append((path, v["$ref"], expected_of(decl, own)))
    return out


def pointer(path):
    return "#/" + "/".join(path)


def addressable(path):
    """Paths a plain '#/a/b' pointer can spell without list indexes or escapes."""
    return bool(path) and all(isinstance(p, str) and p and "/" not in p and "~" not in p and "%" not in p for p in path)


def targets(doc):
    """pointer -> (path, type name or '@ref' or '@value') for every typed node reachable without list indexes."""
    out = {}
    for path, decl, sel, v in oracle.walk(ROOT, doc):
        if sel is None or not addressable(path) or (sel.kind == "OBJ" and any(x.kind == "MAP" for x in variants(decl))):
            continue
        out[pointer(path)] = (path, sel.args[0] if sel.kind == "OBJ" else "@ref" if sel.kind == "REF" else "@value")
    return out


def lookup(doc, ref):
    """('node', path, kind) | ('missing',) | ('external',) | ('format',) | ('undecided', why) for one reference, one hop."""
    if ref.startswith(("http://", "https://")):
        return ("external",)
    if not ref.startswith("#"):
        return ("format",)
    if ref in ("#", "#/"):
        return ("format",)
    if not ref.startswith("#/"):
        return ("undecided", "no slash")
    parts = ref[2:].split("/")
    if any(not p or "~" in p or "%" in p for p in parts):
        return ("undecided", "empty segment or escape")
    t, v, path = ROOT, doc, ()
    for p in parts:
        sel = oracle.select(t, v)
        if sel is None or sel.kind in ("LIST", "ANY", "REF") or (sel.kind == "OBJ" and any(x.kind == "MAP" for x in variants(t))):
            return ("undecided", "through a list, a free-form value or a reference")
        if sel.kind == "OBJ":
            o = OBJS[sel.args[0]]
            names = {f.name: f for f in o.fields}
            if p not in names:
                if any(f.py == p for f in o.fields) or p in v or o.ext == "OPEN":
                    return ("undecided", "python name or extra field")
                return ("missing",)
            if p not in v or v[p] is None:
                if names[p].default is not None and names[p].type.kind != "OBJ":
                    return ("node", path + (p,), "@value") if p == parts[-1] else ("missing",)
                return ("missing",)
            t, v = names[p].type, v[p]
        elif sel.kind in ("MAP", "PMAP"):
            if p not in v:
                return ("missing",)
            t, v = (sel.args[0] if sel.kind == "MAP" else PMAPS[sel.args[0]].value), v[p]
        else:
            return ("missing",)
        path = path + (p,)
    sel = oracle.select(t, v)
    if sel is None or (sel.kind == "OBJ" and any(x.kind == "MAP" for x in variants(t))):
        return ("undecided", "free-form")
    return ("node", path, sel.args[0] if sel.kind == "OBJ" else "@ref" if sel.kind == "REF" else "@value")


def resolve(doc, ref):
    """('ok', path, kind, hops) | ('bad', why) | ('external', ref) | ('undecided', why), following chains."""
    seen = []
    while True:
        if ref in seen:
            return ("bad", "circular")
        seen.append(ref)
        r = lookup(doc, ref)
        if r[0] == "external":
            return ("external", ref)
        if r[0] == "format":
            return ("bad", "unsupported reference format")
        if r[0] == "missing":
            return ("bad", "dangling")
        if r[0] == "undecided":
            return r
        if r[2] != "@ref":
            return ("ok", r[1], r[2], len(seen))
        ref = oracle.get_at(doc, r[1])["$ref"]


def verdict(doc):
    """(status, detail) of a document's references: 'good' | 'bad' | 'undecided'."""
    worst = ("good", None)
    for path, ref, exp in slots(doc):
        r = resolve(doc, ref)
        if r[0] == "undecided":
            return ("undecided", (path, ref, r[1]))
        if r[0] == "bad":
            worst = ("bad", (path, ref, r[1]))
        elif r[0] == "ok" and r[2] not in exp:
            worst = ("bad", (path, ref, f"leads to {r[2]}, expected {'/'.join(sorted(exp))}"))
    return worst


# ---------------------------------------------------------------- documents with good references
def add_component(g, doc, coll, key, value):
    comp = dict(doc.get("components") or {})
    comp[coll] = {**comp.get(coll, {}), key: value}
    return {**doc, "components": comp}


def simple(g, name, refs=None):
    """A small object of the given type."""
    return G(g.draw, budget=4, density=0, refs=refs or EXTERNAL, extras=True, text=g.text).obj(name)


EXTERNAL = st.sampled_from(["https://example.com/spec.yaml#/components/schemas/a", "http://example.com/", "https://example.org/x.json", "http://", "https://#/a"])
if words.TEXTS:
    EXTERNAL = st.one_of(EXTERNAL, st.tuples(st.sampled_from(["https://", "http://example.com/", "https://example.com/a.yaml#/"]), st.sampled_from(words.TEXTS), st.sampled_from(["", "/a", "#/a"])).map("".join))


def fresh_key(g, doc, coll):
    have = (doc.get("components") or {}).get(coll, {})
    if have and g.draw(gen.UPTO[3]) == 0:
        twins = [k for h in have for k in key_twins(h) if k not in have and len(k) < 40]
        if twins:
            return twins[g.draw(st.integers(0, len(twins) - 1))]
    for _ in range(6):
        k = g.draw(gen.KEY)
        if k not in have:
            return k
    i = 0
    while f"k{i}" in have:
        i += 1
    return f"k{i}"


def good_target(g, doc, exp, chain=0, name=None):
    """Adds a component of an expected type (behind `chain` references); (doc, ref)."""
    names = sorted(n for n in exp if n in HOMES)
    name = name or names[g.draw(gen.UPTO[len(names) - 1])]
    homes = HOMES[name]
    coll = homes[g.draw(gen.UPTO[len(homes) - 1])] if len(homes) > 1 else homes[0]
    k = fresh_key(g, doc, coll)
    doc = add_component(g, doc, coll, k, simple(g, name))
    ref = pointer(("components", coll, k))
    for _ in range(chain):
        k = fresh_key(g, doc, coll)
        doc = add_component(g, doc, coll, k, {"$ref": ref})
        ref = pointer(("components", coll, k))
    return doc, ref


PLACEHOLDER = st.just("https://placeholder.invalid/")


def assign_good(g, doc, external=True):
    """Gives every placeholder reference of a document a good target; (doc, labels)."""
    labels = set()
    done = {}
    for path, ref, exp in slots(doc):
        if ref != "https://placeholder.invalid/":
            continue
        how = g.draw(gen.UPTO[5])
        if how == 0 and external:
            new = g.draw(EXTERNAL)
            labels.add("external")
        else:
            cands = []
            if how >= 3:
                # nodes of the document itself, and references already assigned that lead to the right type
                for p, (tp, kind) in targets(doc).items():
                    if kind in exp:
                        cands.append(p)
                    elif kind == "@ref" and tp != path and oracle.get_at(doc, tp)["$ref"] != "https://placeholder.invalid/":
                        r = resolve(doc, p)
                        if (r[0] == "ok" and r[2] in exp) or (r[0] == "external" and external):
                            cands.append(p)
                cands.sort()
            if cands:
                new = cands[g.draw(st.integers(0, len(cands) - 1))]
                labels.add("chain" if targets(doc)[new][1] == "@ref" else "in-place")
            else:
                chain = g.draw(gen.UPTO[2])
                doc, new = good_target(g, doc, exp, chain)
                labels.add("chain" if chain else "component")
        doc = oracle.set_at(doc, path + ("$ref",), new)
    return doc, labels


@st.composite
def good_documents(draw, budget=50, external=True):
    g = G(draw, budget, refs=PLACEHOLDER, extras=True)
    doc = g.obj("AsyncAPI3")
    doc, labels = assign_good(g, doc, external)
    return doc


# ---------------------------------------------------------------- bad references
# texts only the present source of the library has (none, usually); escapes are out of the domain
NOVEL = [w for w in dict.fromkeys(words.TEXTS + words.NAMES) if not set(w) & set("~%/")][:24]


def near_misses(ref):
    """References close to a good one that must not resolve to the same thing."""
    head, _, key = ref.rpartition("/")
    out = [head + "/" + key + "x", head + "/" + key[:-1] if len(key) > 1 else None, head + "/" + key.swapcase(), head + "/x" + key,
           ref + "/name", ref + "/" + key, head + "/" + key + " ", head + "/" + key + "\n", head + "/" + key.lower(), head + "/" + key.upper(),
           head + "/ " + key]
    out += [head + "/" + k for k in key_twins(key)]
    for w in NOVEL:
        out += [ref + w, head + "/" + w + key, head + "/" + w, head + w + "/" + key]
    parts = ref[2:].split("/")
    for i in range(len(parts) - 1):
        w = parts[i]
        out += ["#/" + "/".join(parts[:i] + [x] + parts[i + 1:]) for x in (w[:-1], w + "s", w.lower(), w.capitalize()) if x and x != w]
    if parts[0] == "components":
        out += ["#/" + "/".join(parts[1:])]
        if len(parts) == 3:
            out += [f"#/components/{c}/{key}" for c in COLLECTIONS if c != parts[1] and (c[:4] == parts[1][:4] or c[-6:] == parts[1][-6:])]
    else:
        out += ["#/components/" + "/".join(parts)]
    return [x for x in dict.fromkeys(out) if x and x != ref]


def key_twins(key):
    """Names that differ from a key in separators or letter case only."""
    out = {key.replace("_", "-"), key.replace("-", "_"), key.replace("_", ""), key.replace("-", ""), key.strip("-_"), key.swapcase(), key.lower(),
           key.upper(), key + "_", key + "-", "_" + key, key.replace("0", "O"), "0" + key, key + "0", key.lstrip("0")}
    return sorted(k for k in out if k and k != key)


ROOTISH = {x for o in ("AsyncAPI3", "Components") for f in OBJS[o].fields for x in (f.name, f.py)}
BAD_FORMATS = ["", "#", "#/", "./other.yaml#/a", "other.json", "/components/schemas/a", "components/schemas/a", "ftp://example.com/a",
               "urn:example:a", "file:///a", " #/components/schemas/a", "HTTPS", "http:/example.com", "https:example.com", "$/a", "x", " ",
               "asyncapi.yaml", "../a#/b", "httpx://a", "mailto:https://a"]
MISSING = ["#/components/schemas/does-not-exist-zz", "#/components/nope/a", "#/nope", "#/channels/does-not-exist-zz", "#/x", "#/servers/zz/zz",
           "#/components", "#/info/nope", "#/info/title/x", "#/definitions/a", "#/0"]


BAD_FORMATS += [r for w in words.TEXTS for r in (w, w + ":a", w + "://example.com/a", w + "/a") if not r.startswith("#") and not r.lower().startswith(("http:", "https:"))]
MISSING += [r for w in words.NAMES for r in (f"#/{w}", f"#/{w}/a", f"#/components/{w}/a") if not ROOTISH & {w}]


def bad_ref(g, doc, exp, path=None):
    """(doc, ref, label): a reference that must be refused at a slot expecting `exp`."""
    d = g.draw
    how = d(st.sampled_from(["near", "type", "type", "type", "leaf", "format", "missing", "cycle", "chain-type", "chain-missing", "chain-format", "self", "deep", "deep"]))
    if how == "deep":
        doc, ref = deep_bad(g, doc, exp)
        if ref is None:
            how, ref = "missing", d(st.sampled_from(MISSING))
    elif how == "near":
        doc, ref = good_target(g, doc, exp, d(gen.UPTO[1]))
        cands = near_misses(ref)
        ref = cands[d(st.integers(0, len(cands) - 1))]
    elif how in ("type", "chain-type"):
        wrong = [n for n in HOMES if n not in exp]
        name = wrong[d(st.integers(0, len(wrong) - 1))]
        doc, ref = good_target(g, doc, {name}, d(gen.UPTO[1]))
        if how == "chain-type":
            doc, ref = into_chain(g, doc, exp, ref)
    elif how == "leaf":
        cands = sorted(p for p, (tp, kind) in targets(doc).items() if kind not in exp and kind != "@ref")
        if not cands:
            ref = "#/info"
        else:
            ref = cands[d(st.integers(0, len(cands) - 1))]
    elif how in ("format", "chain-format"):
        ref = d(st.sampled_from(BAD_FORMATS))
        if how == "chain-format":
            doc, ref = into_chain(g, doc, exp, ref)
    elif how in ("missing", "chain-missing"):
        ref = d(st.sampled_from(MISSING))
        if how == "chain-missing":
            doc, ref = into_chain(g, doc, exp, ref)
    elif how == "self" and path is not None and addressable(path):
        ref = pointer(path)
    else:
        how = "cycle"
        n = d(st.integers(1, 4))
        names = sorted(x for x in exp if x in HOMES)
        coll = HOMES[names[0]][0]
        ks = []
        for _ in range(n):
            k = fresh_key(g, doc, coll)
            doc = add_component(g, doc, coll, k, {"$ref": "https://placeholder.example/"})
            ks.append(k)
        for i, k in enumerate(ks):
            doc = oracle.set_at(doc, ("components", coll, k, "$ref"), pointer(("components", coll, ks[(i + 1) % n])))
        ref = pointer(("components", coll, ks[0]))
    return doc, ref, how


def deep_target(g, doc, exp):
    """Adds an object of an expected type inside other objects, away from the reusable components; (doc, path or None)."""
    names = sorted(n for n in exp if n in HOMES)
    if not names:
        return doc, None
    name = names[g.draw(gen.UPTO[len(names) - 1])]
    for _ in range(3):
        other, path = gen.embed(g, T("OBJ", (name,)), simple(g, name), sparse=True, strict=True)
        out = merge(doc, other)
        try:
            if path and addressable(tuple(path)) and resolve(out, pointer(path))[0] == "ok" and resolve(out, pointer(path))[2] == name and oracle.conforms(ROOT, out) is None:
                return out, tuple(path)
        except (KeyError, IndexError, TypeError):
            pass
    return doc, None


def deep_bad(g, doc, exp):
    """A reference that misses an object inside other objects, or leads into it."""
    out, path = deep_target(g, doc, exp)
    if path is None:
        return doc, None
    ref = pointer(path)
    v = oracle.get_at(out, path)
    cands = [ref + "/" + k for k in v] + [ref + "/nope", pointer(path[:-1]), pointer(path[:-1]) + "/nope", pointer(path[:-1]) + "/" + str(path[-1]) + "x"]
    cands += [pointer(path[:i] + path[i + 1:]) for i in range(len(path)) if len(path) > 1]
    for k in [f.name for n in exp if n in OBJS for f in OBJS[n].fields if f.type.kind in ("OBJ", "UNION", "STR")]:
        cands.append(ref + "/" + k)
    good = []
    for c in dict.fromkeys(cands):
        r = resolve(out, c)
        if r[0] == "bad" or r[0] == "ok" and r[2] not in exp:
            good.append(c)
    return (out, good[g.draw(st.integers(0, len(good) - 1))]) if good else (doc, None)


def into_chain(g, doc, exp, ref):
    names = sorted(x for x in exp if x in HOMES)
    coll = HOMES[names[0]][0]
    for _ in range(g.draw(st.integers(1, 3))):
        k = fresh_key(g, doc, coll)
        doc = add_component(g, doc, coll, k, {"$ref": ref})
        ref = pointer(("components", coll, k))
    return doc, ref


# ---------------------------------------------------------------- combining documents
def merge(a, b):
    """Everything of a, plus what b adds to its maps (lists and scalars of a win)."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(out[k], v) if k in out else v
        return out
    return a


def with_decoy(g, doc, ref, kind):
    """Adds one more, correct, use of `ref` (leading to `kind`) elsewhere; the document unchanged when it does not fit."""
    fits = [p for p in POSITIONS if kind in p.expected]
    if not fits:
        return doc
    p = fits[g.draw(st.integers(0, len(fits) - 1))]
    other, path = place(g, p, {"$ref": ref})
    out = merge(doc, other)
    try:
        if oracle.get_at(out, path) != {"$ref": ref}:
            return doc
    except (KeyError, IndexError, TypeError):
        return doc
    return out if oracle.conforms(ROOT, out) is None else doc
