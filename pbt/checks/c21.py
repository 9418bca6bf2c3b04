"""Reference factories, equality and hashing."""
import copy
import pickle

from hypothesis import strategies as st

from pbt import gen, oracle, refs
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import AsyncAPI3, at, attempt, cls, dump, first, must_parse
from pbt.table import OBJS, PMAPS, ROOT, T

from asyncapi3.validators import UnifiedReferencesValidator
from asyncapi3.validators.utils import resolve_reference

QUICK = 12            # multiplies the drawn cases of a quick run
ID = "C21"
RULE = ("For each factory method: a drawn name, and a drawn document holding an object under that name in the collection the method speaks of (and other "
        "objects under the same name elsewhere). The reference must spell the collection's path, resolve to that very object, dump and re-parse to an equal "
        "reference and be accepted by reference validation where such an object is referenced; called on a derived class, the factory makes one of that class. References are equal, and hash equal, exactly when their strings are. "
        "Non-trivial: always. Class = method.")
METHODS = {"to_root_server_name": ("servers",), "to_root_channel_name": ("channels",), "to_root_operation_name": ("operations",)}
for name, coll in {"schema": "schemas", "server": "servers", "channel": "channels", "operation": "operations", "message": "messages",
                   "security_scheme": "securitySchemes", "server_variable": "serverVariables", "parameter": "parameters", "correlation_id": "correlationIds",
                   "reply": "replies", "reply_address": "replyAddresses", "external_doc": "externalDocs", "tag": "tags", "operation_trait": "operationTraits",
                   "message_trait": "messageTraits", "server_binding": "serverBindings", "channel_binding": "channelBindings",
                   "operation_binding": "operationBindings", "message_binding": "messageBindings"}.items():
    METHODS[f"to_component_{name}_name"] = ("components", coll)
R = cls("Reference")


class Own(R):
    """A user's own kind of reference."""


def element(path):
    o = OBJS["AsyncAPI3"] if len(path) == 1 else OBJS["Components"]
    return PMAPS[o.f(path[-1]).type.args[0]].value


@st.composite
def cases_for(draw, method):
    g = G(draw, 8, refs=refs.EXTERNAL)
    path = METHODS[method]
    key = draw(gen.KEY)
    names = sorted(v.args[0] for v in gen.variants(element(path)) if v.kind == "OBJ")
    kind = names[draw(st.integers(0, len(names) - 1))]
    obj = refs.simple(g, kind)
    doc = {"info": {"title": "t", "version": "1"}}
    for other in draw(st.lists(st.sampled_from(sorted(METHODS)), max_size=4)):
        p = METHODS[other]
        vals = [v.args[0] for v in gen.variants(element(p)) if v.kind == "OBJ"]
        doc = put(doc, p + (key,), refs.simple(g, vals[0]))
    doc = put(doc, path + (key,), obj)
    fits = [p for p in refs.POSITIONS if kind in p.expected]
    p = fits[draw(st.integers(0, len(fits) - 1))]
    return [method, key, doc, kind, p.name, draw(gen.TEXT)]


def put(doc, path, v):
    if len(path) == 1:
        return {**doc, path[0]: v}
    return {**doc, path[0]: put(doc.get(path[0]) or {}, path[1:], v)}


def prop(case):
    method, key, doc, kind, position, text = case
    path = METHODS[method] + (key,)
    r = getattr(R, method)(key)
    if type(r) is not R or r.ref != refs.pointer(path):
        raise Violation(f"{method}({key!r}) gives {r!r}, expected {refs.pointer(path)!r}")
    if oracle.diff({"$ref": refs.pointer(path)}, dump(r)):
        raise Violation(f"{method}({key!r}) dumps as {dump(r)}")
    m = must_parse(ROOT, doc)
    got = resolve_reference(r.ref, m)
    if got is None or got.resolved_object is not at(m, path):
        raise Violation(f"{method}({key!r}) does not lead to the object under that name: {got}")
    # any name: the string is the prefix and the name, verbatim
    r2 = getattr(R, method)(text)
    if r2.ref != refs.pointer(METHODS[method]) + "/" + text:
        raise Violation(f"{method}({text!r}) gives {r2.ref!r}")
    # usable where such an object may be referenced
    import random
    pos = refs.BY_NAME[position]
    host = minimal(pos, {"$ref": r.ref})
    both = refs.merge(doc, host[0])
    try:
        ok = oracle.get_at(both, host[1]) == {"$ref": r.ref} and oracle.conforms(ROOT, both) is None and refs.verdict(both)[0] == "good"
    except (KeyError, TypeError, IndexError):
        ok = False
    if ok:
        m2, err = attempt(AsyncAPI3.model_validate, {**both, "extra_validators": [UnifiedReferencesValidator]})
        if err is not None:
            raise Violation(f"{method}({key!r}) refused at {position}: {first(err)}")
        node = at(m2, host[1])
        if type(node) is not R or node != r or hash(node) != hash(r) or {node: 1}.get(r) != 1 or len({node, r}) != 1:
            raise Violation(f"{node!r} and {r!r} are not interchangeable")
    own = getattr(Own, method)(key)
    if type(own) is not Own or own.ref != r.ref:
        raise Violation(f"{method} of a derived class gives {own!r}")
    for other in METHODS:
        if other != method and getattr(R, other)(key) == r:
            raise Violation(f"{other} and {method} give equal references")
    return method


def minimal(pos, value):
    """The position's host document without drawing anything."""
    class D:
        def __call__(self, s):
            raise RuntimeError
    path = []
    for s in reversed(pos.steps):
        if s[0] == "field":
            value = {**REQ.get(s[1], {}), s[2]: value}
            if s[1] == "Channel" and s[2] == "parameters":
                value["address"] = "{a}"
            if s[1] == "IBMMQMessageBindings" and s[2] == "headers":
                value["type"] = "binary"
            path.insert(0, s[2])
        elif s[0] == "list":
            value = [value]
            path.insert(0, 0)
        else:
            value = {"host-key-zz": value}
            path.insert(0, "host-key-zz")
    return value, tuple(path)


REQ = {"AsyncAPI3": {"info": {"title": "t", "version": "1"}}, "Info": {"title": "t", "version": "1"}, "Server": {"host": "h", "protocol": "p"},
       "Operation": {"action": "send", "channel": {"$ref": "https://example.com/"}}, "Tag": {"name": "t"}}


def equality(case):
    a, b = case
    ra, rb = R(ref=a), R.model_validate({"$ref": b})
    if (ra == rb) != (a == b) or (ra != rb) != (a != b):
        raise Violation(f"references {a!r} and {b!r}: == says {ra == rb}")
    if a == b and hash(ra) != hash(rb):
        raise Violation(f"equal references {a!r} hash differently")
    if len({ra, rb, R(ref=a)}) != len({a, b}):
        raise Violation(f"a set of references {a!r}, {b!r} has {len({ra, rb})} members")
    if (rb in {ra: 1}) != (a == b) or (rb in [ra]) != (a == b):
        raise Violation("membership disagrees with equality")
    # a value stays one after its string was replaced, however it was used before
    for x, y, s in ((ra, R(ref=b), b), (rb, R(ref=a), a)):
        x in {y}
        x.ref = s
        if x != y or hash(x) != hash(y) or {y: 1}.get(x) != 1 or len({x, y}) != 1:
            raise Violation(f"a reference assigned the string {s!r} and a new one to it are not interchangeable")
    for x in (copy.copy(ra), copy.deepcopy(ra), ra.model_copy(), ra.model_copy(deep=True), pickle.loads(pickle.dumps(ra)), R.model_validate(ra)):
        if type(x) is not R or x != ra or hash(x) != hash(ra) or x.ref != ra.ref:
            raise Violation(f"a copy of the reference to {b!r} is not interchangeable with it")
    x = ra.model_copy(update={"ref": a})
    if x != rb or hash(x) != hash(rb):
        raise Violation(f"a copy of a reference with the string {a!r} is not interchangeable with another one to it")
    return "equal" if a == b else "different"


PAIR = st.one_of(gen.REFSTR.map(lambda s: [s, s]), st.tuples(gen.REFSTR, gen.REFSTR).map(list), gen.REFSTR.map(lambda s: [s, s + " "]),
                 gen.REFSTR.map(lambda s: [s, s.swapcase()]), gen.REFSTR.map(lambda s: [s, s + "\n"]))


def tasks(tier):
    k = 1 if tier == "quick" else 40
    return (foreach("factories", prop, sorted(METHODS), cases_for, 60 * k, chunk=2) + [Task("equality", equality, PAIR, n=400 * k)])
