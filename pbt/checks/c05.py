"""Specification extensions."""
from hypothesis import strategies as st

from pbt import gen, mutate, oracle
from pbt.gen import G, EXTNAME, JSON, ANYKEY
from pbt.harness import Task, Violation, foreach
from pbt.lib import attempt, check_faithful, cls, dump, first, must_parse, must_reject
from pbt.table import OBJS, ROOT, T

QUICK = 7            # multiplies the drawn cases of a quick run
ID = "C05"
RULE = ("For every object type: extension names (drawn around the x- pattern, including every ASCII character at every position) with arbitrary "
        "JSON values are added by parsing, by keyword arguments, by attribute assignment and inside whole documents; the object's kind "
        "(extensible/closed) and the name decide the verdict. Non-trivial: always (an additional property is set). Class = verdict:route.")
ASSUMES = ["non-ASCII letters in extension names are not decided (the pattern's \\w is ambiguous there)"]

BAD_EXT = st.one_of(st.sampled_from(["x-", "X-a", "x_a", "xa", "x", "-a", "x-a b", "x-a/b", "x-a\n", "x-\n", "x-a:", "x-a+b", "x- a", " x-a", "x-a ",
                                     "x-$ref", "x-{a}", "x-a,b", "x-#", "x-a\t", "x-\x00", "x-a@b", "x-(", "y-a", "ext-x-a", "a-x-b", "x–a",
                                     "foo", "extension", "x-a~", "x-a*", "x-a'", "_x-a", "xx-a", "\nx-a", "x-a\r", "x-a\n\n", "x-a=b", "x-[a]"]),
                    mutate.UNKNOWN, ANYKEY)
EXTOBJ = [o.name for o in OBJS.values() if o.ext == "EXT"]
CLOSED = [o.name for o in OBJS.values() if o.ext == "CLOSED" and o.name != "Reference"]
OPEN = {"Schema": gen.SCHEMA_KEY, "MultiFormatSchema": gen.MFS_KEY, "KafkaTopicConfiguration": gen.KAFKA_KEY}


def ascii_only(s):
    return all(ord(c) < 128 for c in s)


@st.composite
def case_for(draw, name):
    o = OBJS[name]
    g = G(draw, 12, extras=False)
    v = g.obj(name)
    taken = {f.name for f in o.fields} | {f.py for f in o.fields} | {"extra_converters", "extra_validators"}
    goodname = draw(st.integers(0, 2)) > 0
    n = draw(st.integers(1, 3)) if goodname or name in OPEN else 1
    names = [draw(EXTNAME) for _ in range(n)]
    if name in OPEN:
        names += [draw(OPEN[name]) for _ in range(n)]
        if not goodname:
            names.append(draw(BAD_EXT.filter(lambda k: k not in taken and k not in gen.SCHEMA_BAD_KEYS)))
    elif not goodname:
        names.append(draw(BAD_EXT.filter(lambda k: k not in taken and (not k.startswith("x-") or ascii_only(k)))))
    ext = {k: draw(JSON) for k in names}
    route = draw(st.sampled_from(["parse", "doc", "doc", "kwargs", "assign"]))
    if any(k in ("self", "cls") for k in ext) and route == "kwargs":
        route = "parse"
    if route == "doc":
        if name == "AsyncAPI3":
            return [name, "doc", {**v, **ext}, []]
        doc, path = gen.embed(g, T("OBJ", (name,)), v, sparse=draw(st.booleans()), strict=True)
        return [name, "doc", oracle.set_at(doc, path, {**v, **ext}), path]
    if route == "assign":
        # names that Python itself keeps for the class or for private attributes are no document fields
        ext = {k: x for k, x in ext.items() if not k.startswith("_") and not hasattr(cls(name), k)}
        return [name, "assign", v, ext]
    return [name, route, {**v, **ext}, None]


def prop(case):
    name, route, v, x = case
    t = T("OBJ", (name,))
    if route == "doc":
        why = oracle.conforms(ROOT, v)
        if why:
            must_reject(ROOT, v, why)
            return "refused:doc"
        check_faithful(ROOT, v)
        return "accepted:doc"
    if route == "parse":
        why = oracle.conforms(t, v)
        if why:
            must_reject(t, v, why)
            return "refused:parse"
        check_faithful(t, v)
        return "accepted:parse"
    if route == "kwargs":
        why = oracle.conforms(t, v)
        m, err = attempt(cls(name), **v)
        if why:
            if err is None:
                raise Violation(f"keyword arguments accepted although {why}")
            return "refused:kwargs"
        if err is not None:
            raise Violation(f"keyword arguments rejected: {first(err)}")
        d = oracle.diff(oracle.expected(t, v), dump(m))
        if d:
            raise Violation(f"dump differs: {d}")
        return "accepted:kwargs"
    m = must_parse(t, v)
    cur = dict(v)
    last = "accepted:assign" if x else None
    for k, val in x.items():
        new = {**cur, k: val}
        why = oracle.conforms(t, new)
        try:
            setattr(m, k, val)
            ok = True
        except ValueError:          # ValidationError is one
            ok = False
        if ok and why:
            raise Violation(f"assignment of {k!r} accepted although {why}")
        if not ok and not why:
            raise Violation(f"assignment of {k!r} refused")
        if ok:
            cur = new
        else:
            last = "refused:assign"
        d = oracle.diff(oracle.expected(t, cur), dump(m))
        if d:
            raise Violation(f"after assigning {k!r}: dump differs: {d}")
        if ok and oracle.diff(val, getattr(m, k)):
            raise Violation(f"attribute {k!r} reads {getattr(m, k)!r}")
    return last


def sweep():
    out = []
    for i in range(128):
        c = chr(i)
        for k in (f"x-{c}", f"x-a{c}b", f"x-a{c}", f"{c}-a", f"x{c}a", f"{c}x-a"):
            out.append(["Tag", "parse", {"name": "n", **{k: i}}, None] if k not in ("name",) else ["Tag", "parse", {"name": "n"}, None])
            out.append(["Channel", "doc", {"info": {"title": "t", "version": "v"}, "channels": {"c": {k: i}}}, None])
    return out


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return (foreach("extensible", prop, EXTOBJ, case_for, 80 * k, chunk=3) + foreach("closed", prop, CLOSED, case_for, 10 * k, chunk=20)
            + foreach("open", prop, sorted(OPEN), case_for, 60 * k, chunk=1)
            + [Task("ascii", prop, cases=sweep)])
