"""Patterned objects accept exactly the keys [A-Za-z0-9_-]+, by every route."""
import json

from hypothesis import strategies as st

from pbt import gen, mutate, oracle, words
from pbt.gen import G, KEY, UNI
from pbt.harness import Task, Violation, foreach
from pbt.lib import attempt, check_faithful, cls, dump, first, must_parse, must_reject
from pbt.table import PMAPS, ROOT, T

ID = "C06"
RULE = ("For each of the 19 patterned objects: maps of generated values under keys drawn on both sides of the key pattern, built by parsing, by the "
        "constructor, from JSON text, inside a whole document and by item assignment; every character of U+0000..U+02FF and other look-alikes is "
        "tried at the start, middle and end of a key. Non-trivial: the map is not empty. Class = verdict:route.")
ASSUMES = []
KEYS = st.one_of(KEY, KEY, mutate.BAD_KEYS, st.text(UNI, max_size=4), st.tuples(KEY, st.sampled_from(["\n", " ", ".", "/", "~", "é", "\x00", "\r", "\u2028", "$"]))
                 .map("".join), st.tuples(st.sampled_from(["\n", " ", ".", "/", "$"]), KEY).map("".join))


@st.composite
def case_for(draw, name):
    g = G(draw, 10)
    n = draw(st.integers(1, 3))
    v = {}
    for i in range(n):
        v[draw(KEYS if i == 0 else KEY)] = g.value(PMAPS[name].value)
    route = draw(st.sampled_from(["parse", "ctor", "json", "doc", "setitem"]))
    if route == "doc":
        doc, path = gen.embed(g, T("PMAP", (name,)), {}, sparse=True)
        return [name, route, oracle.set_at(doc, path, v)]
    return [name, route, v]


def prop(case):
    name, route, v = case
    t = T("PMAP", (name,))
    if route == "doc":
        t = ROOT
    why = oracle.conforms(t, v)
    tag = f"{'refused' if why else 'accepted'}:{route}"
    if route in ("parse", "doc"):
        if why:
            must_reject(t, v, why)
        else:
            check_faithful(t, v)
        return tag
    if route == "setitem":
        m, cur = must_parse(t, {}), {}
        for k, x in v.items():
            vt = PMAPS[name].value
            item = must_parse(t, {"k": x})["k"]
            ok, err = True, None
            try:
                m[k] = item
            except ValueError as e:
                ok = False
            if ok != oracle.key_ok(k):
                raise Violation(f"item assignment under key {k!r} {'accepted' if ok else 'refused'}")
            if ok:
                cur[k] = x
            d = oracle.diff(oracle.expected(t, cur), dump(m), order=False)
            if d:
                raise Violation(f"after item assignment under {k!r}: {d}")
            if list(m) != list(cur):
                raise Violation(f"keys {list(m)!r}, expected {list(cur)!r}")
        return tag
    m, err = attempt(cls(name), v) if route == "ctor" else attempt(cls(name).model_validate_json, json.dumps(v))
    if why:
        if err is None:
            raise Violation(f"accepted although {why}")
        return tag
    if err is not None:
        raise Violation(f"valid keys refused: {first(err)}")
    d = oracle.diff(oracle.expected(t, v), dump(m))
    if d:
        raise Violation(f"dump differs: {d}")
    return tag


@st.composite
def crowd(draw, name):
    """A large map with at most one key that is not allowed, anywhere in it."""
    small = G(draw, 3, density=0)
    item = small.value(PMAPS[name].value)
    n = gen.affordable(draw(st.sampled_from(words.sizes(5000, [15, 60, 130, 260, 520, 1030]))), item)
    at = draw(st.sampled_from([0, 1, n // 2, n - 1, n]))
    k = draw(KEYS)
    names = [f"k{i}" for i in range(n)]
    names.insert(at, k)
    return [name, draw(st.sampled_from(["parse", "ctor", "json"])), {x: item for x in dict.fromkeys(names)}]


LOOKALIKES = "\u0660\u0966\u00b2\u2460\uff21\uff41\uff10\u212a\u017f\u0131\u0130\u2028\u2029\u0085\u200b\u00ad\ufeff\u2010\u2011\u2013\u2212\u203f\uff3f\u0410\u0430\U0001d400\U0001f600"


def sweep(name):
    ref = {"$ref": "#/a"}
    chars = [chr(i) for i in range(0x300)] + list(LOOKALIKES)

    def cases():
        out = []
        for c in chars:
            for i, k in enumerate((c, c + "a", "a" + c, "a" + c + "b")):
                out.append([name, ["parse", "setitem", "ctor", "json"][(ord(c) + i) % 4], {k: ref}])
        return out
    return cases


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return (foreach("keys", prop, list(PMAPS), case_for, 120 * k, chunk=2)
            + foreach("crowd", prop, list(PMAPS), crowd, 8 * k, chunk=4)
            + [Task(f"characters[{n}]", prop, cases=sweep(n), weight=300) for n in (PMAPS if tier != "quick" else list(PMAPS)[:])])
