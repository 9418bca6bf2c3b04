"""Values that a field must refuse: wrong types that no coercion documented by pydantic's lax mode accepts."""
from hypothesis import strategies as st

from . import oracle, words
from .gen import G, JSON, KEY, TEXT, WORD, also, pick
from .table import OBJS, PMAPS, T, variants

BAD_URLS = ["", "x", "example.com", "not a url", "//example.com", "/a/b", "http://", ":foo", "1http://example.com", "http//example.com"]
BAD_HTTP = BAD_URLS + ["ftp://example.com/x", "urn:example:x", "mailto:a@b.co", "ws://example.com/"]
BAD_EMAILS = ["", "x", "@", "a@", "@b.co", "a@b", "a@b.c", "a b@c.de", "a@b..co", "a..b@c.de", "a@b@c.de", "a@b.c1", "é@b.co", "a@b.co\n",
              "a@b.co ", " a@b.co", "a@b_c.de", "a(b)@c.de", "a@.co.1", "a@b.", "a@-", "a@b.co.\n", "a,b@c.de", "<a@b.co>"]
NOT_STR = st.sampled_from([0, 5, -1, 1.5, True, False, [], {}, ["a"], {"a": "b"}, [[]]])
NOT_INT = st.sampled_from(["", "a", "1x", 1.5, -0.5, [], {}, [1], {"a": 1}, "0x10", "one"])
NOT_BOOL = st.sampled_from(["", "maybe", 2, -1, 0.5, [], {}, [True], "None", "2", "tr ue"])
NOT_LIST = st.sampled_from(["", "abc", 0, 5, True, 1.5, {}, {"0": "a"}, {"name": "a"}])
NOT_MAP = st.sampled_from(["", "abc", 0, 5, True, 1.5, [], ["a"], [["a", "b"]], [{}]])
NOT_OBJ = NOT_MAP
BAD_KEYS = st.sampled_from(["", " ", "a b", "a.b", "a/b", "é", "a\n", "\n", "$a", "a:b", "a*", "{a}", "a+b", "ключ", "a\x00", "a,b", "~", "a@b",
                            "k" * 65 + ".", "key" * 40 + "/x", " " + "k" * 300, "a ", " a", "\u0660", "ａ", "#", "..", "a\\b", "x.y", "\U0001f600", "²", "K\u212a"])
BAD_KEYS = also(BAD_KEYS, pick([k for w in words.TEXTS for k in (w, w + ".", w + "/a", " " + w) if set(k) - set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")]))


@st.composite
def bad_literal(draw, args):
    opts = [5, -7, 99, "", "nope", [], {}, 1.5]
    for a in args:
        if isinstance(a, str):
            opts += [a + " ", " " + a, a.upper(), a.lower(), a.capitalize(), a + "s", a[:-1], a + "\n", [a], {a: a}]
        else:
            opts += [str(a), a + 0.5, [a]]
    opts += words.TEXTS + words.NAMES + words.NUMBERS
    opts = [o for o in opts if not any(type(o) is type(a) and o == a for a in args)]
    return draw(st.sampled_from(opts))


def almost(draw, t):
    """A value that means what t holds, in the wrong shape: an entry without its list or map, an object in a list, a bare pointer; None when there is none."""
    g = G(draw, 5)
    if t.kind == "UNION":
        return almost(draw, t.args[draw(st.integers(0, len(t.args) - 1))])
    if t.kind == "LIST" and t.args[0].kind != "ANY":
        return g.value(t.args[0])
    if t.kind == "OBJ":
        return [g.value(t)]
    if t.kind in ("MAP", "PMAP"):
        v = g.value(t)
        return list(v.values()) if draw(st.booleans()) else [v]
    if t.kind == "REF":
        return "#/channels/a" if draw(st.booleans()) else [{"$ref": "#/channels/a"}]
    if t.kind in ("STR", "LIT", "URL", "HTTPURL", "EMAIL", "INT", "BOOL"):
        v = g.value(t)
        return [v] if draw(st.booleans()) else {"value": v}
    return None


@st.composite
def bad_value(draw, t, depth=2):
    """A value that conforms to no variant of t."""
    k = t.kind
    if draw(st.integers(0, 4)) == 4:
        v = almost(draw, t)
        if v is not None and oracle.conforms(t, v) is not None:
            return v
    if k == "STR":
        return draw(NOT_STR)
    if k == "INT":
        return draw(NOT_INT)
    if k == "BOOL":
        return draw(NOT_BOOL)
    if k == "URL":
        return draw(st.one_of(st.sampled_from(BAD_URLS), NOT_STR))
    if k == "HTTPURL":
        return draw(st.one_of(st.sampled_from(BAD_HTTP), NOT_STR))
    if k == "EMAIL":
        return draw(st.one_of(st.sampled_from(BAD_EMAILS), NOT_STR))
    if k == "LIT":
        return draw(bad_literal(t.args))
    if k == "REF":
        return draw(st.one_of(NOT_MAP, st.sampled_from([{}, {"$ref": 5}, {"$ref": None}, {"$ref": []}, {"$ref": "#/a/b", "x-a": 1},
                    {"$ref": "#/a/b", "description": "d"}, {"REF": "#/a"}, {"name": "a"}, {"$Ref": "#/a/b"}, {"$ref": {"$ref": "#/a"}}])))
    if k == "LIST":
        if depth and t.args[0].kind != "ANY" and draw(st.booleans()):
            g = G(draw, 5)
            good = [g.value(t.args[0]) for _ in range(draw(st.integers(0, 2)))]
            good.insert(draw(st.integers(0, len(good))), draw(bad_value(t.args[0], depth - 1)))
            return good
        return draw(NOT_LIST)
    if k in ("MAP", "PMAP"):
        vt = PMAPS[t.args[0]].value if k == "PMAP" else t.args[0]
        how = draw(st.integers(0, 2))
        if how and depth and vt.kind != "ANY":
            g = G(draw, 5)
            out = {}
            for key in g.keys(0, 2):
                out[key] = g.value(vt)
            if how == 1 and k == "PMAP":
                out[draw(BAD_KEYS)] = g.value(vt)
            else:
                out[draw(KEY)] = draw(bad_value(vt, depth - 1))
            return out
        return draw(NOT_MAP)
    if k == "OBJ":
        name = t.args[0]
        if depth and draw(st.booleans()):
            b = draw(bad_object(name, depth - 1))
            if b is not None:
                return b
        return draw(NOT_OBJ)
    if k == "UNION":
        kinds = {v.kind for v in t.args}
        objs = [v for v in t.args if v.kind == "OBJ"]
        opts = [5, 1.5, True, "", "abc", [], [1], {"$ref": 5}, {"$ref": "#/a/b", "zz": 1}, {}, {"zz": 1}, {"x-a": 1}, [{}]]
        if objs and depth and draw(st.booleans()):
            b = draw(bad_object(objs[-1].args[0], depth - 1))
            if b is not None:
                return b
        bad = {"INT": (int, float), "STR": (str,), "LIST": (list,), "MAP": (dict,), "BOOL": (bool,)}
        no = tuple(x for kk in kinds for x in bad.get(kk, ()))
        opts = [o for o in opts if not isinstance(o, no)]
        if any(v.args[0] in ("Schema", "MultiFormatSchema") for v in objs):
            opts = [o for o in opts if not isinstance(o, dict)]
        return draw(st.sampled_from(opts)) if opts else draw(NOT_OBJ)
    raise KeyError(k)


UNKNOWN = st.one_of(st.sampled_from(["foo", "Title", "titles", "x", "X-foo", "x_foo", "x-", "$ref", "$schema", "extension", "ref", "name ", " name",
                                     "descripton", "_x-foo", "y-foo", "", "x foo", "model_config", "root", "x-a b", "x-a/b", "x-\n", "x-a\n",
                                     "x-a:b", "x-a+", "x- ", "extra_fields", "__pydantic_extra__"]), WORD, KEY,
                    st.sampled_from(["unknown" * 9, "y" * 33, "x-" + "a" * 60 + "/", "longExtensionLikeName" * 20, "x" * 70000]))
UNKNOWN = also(UNKNOWN, pick([t for t in words.TEXTS if t.isascii()]))


@st.composite
def bad_object(draw, name, depth=2, how=None, fname=None):
    """An object of the named type with one defect, or None when the type has no such defect."""
    o = OBJS[name]
    g = G(draw, 12)
    names = {f.name for f in o.fields} | {f.py for f in o.fields}
    hows = []
    if o.ext != "OPEN":
        hows.append("unknown")
    if any(f.req for f in o.fields):
        hows.append("missing")
    fields = [f for f in o.fields if f.type.kind != "ANY"]
    if fields and depth >= 0:
        hows.append("wrong")
    if not hows:
        return None
    how = how or draw(st.sampled_from(hows))
    if how == "unknown":
        v = g.obj(name)
        key = draw(UNKNOWN)
        from .oracle import ext_ok
        if key in names or ext_ok(key) and o.ext == "EXT":
            key = "foo"
        if name in ("AsyncAPI3",) and key in ("extra_converters", "extra_validators"):
            key = "foo"
        return {**v, key: draw(JSON)}
    if how == "missing":
        req = [f for f in o.fields if f.req]
        f = o.f(fname) if fname else draw(st.sampled_from(req))
        v = g.obj(name)
        del v[f.name]
        return v
    if how == "null":
        f = o.f(fname)
        v = g.obj(name)
        v[f.name] = None
        return v
    f = o.f(fname) if fname else draw(st.sampled_from(fields))
    v = g.obj(name, {f.name: g.field(name, f)})
    v[f.name] = (almost(draw, f.type) if how == "shape" else None) or draw(bad_value(f.type, depth))
    return v
