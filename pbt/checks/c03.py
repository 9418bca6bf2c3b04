"""Protocol bindings: every protocol, every kind, everywhere bindings may stand."""
import json

from hypothesis import strategies as st

from pbt import gen, mutate, oracle
from pbt.gen import G
from pbt.harness import Task, Violation, foreach
from pbt.lib import check_faithful, cls, dump, must_reject
from pbt.table import OBJS, PROTOCOLS, ROOT, T, variants

QUICK = 8            # multiplies the drawn cases of a quick run
ID = "C03"
KINDS = ["Server", "Channel", "Operation", "Message"]
RULE = ("For each of 19 protocols x 4 binding kinds x each field of that binding: a generated binding alone, under its protocol name in a bindings "
        "object, and in a whole document at a random bindings position; refusals: content written for another protocol or kind, unknown protocol "
        "names, non-objects. Non-trivial: the reference table decides accept/refuse and the binding sets a field, or is one that has none. "
        "Class = kind:verdict.")
ASSUMES = ["URLs in normal form"]


def binding_type(kind, proto):
    return OBJS[f"{kind}BindingsObject"].f(proto).type.args[0]


def targets():
    out = []
    for kind in KINDS:
        for p in PROTOCOLS:
            o = OBJS[binding_type(kind, p)]
            for f in o.fields or [None]:
                out.append((kind, p, f.name if f else None))
    return out


@st.composite
def good(draw, target):
    kind, proto, fname = target
    g = G(draw, 20)
    name = binding_type(kind, proto)
    v = g.obj(name, {fname: g.field(name, OBJS[name].f(fname))} if fname else None)
    host = f"{kind}BindingsObject"
    where = draw(st.sampled_from(["binding", "object", "doc", "doc", "many"]))
    if where == "binding":
        return ["accept", kind, proto, name, v]
    if where == "many":
        b = g.obj(host, {proto: v})
    else:
        b = {proto: v}
    if where in ("object", "many"):
        return ["accept", kind, proto, host, b]
    doc, _ = gen.embed(g, T("OBJ", (host,)), b, sparse=draw(st.booleans()))
    return ["accept", kind, proto, "AsyncAPI3", doc]


@st.composite
def foreign(draw, target):
    """Content of another protocol/kind, a non-object, or an unknown protocol, under a bindings object."""
    kind, proto = target
    g = G(draw, 15)
    host = f"{kind}BindingsObject"
    how = draw(st.integers(0, 3))
    if how <= 1:
        k2, p2 = draw(st.sampled_from([(k, p) for k in KINDS for p in PROTOCOLS if OBJS[binding_type(k, p)].fields]))
        name = binding_type(k2, p2)
        f = draw(st.sampled_from([f.name for f in OBJS[name].fields]))
        b = {proto: g.obj(name, {f: g.field(name, OBJS[name].f(f))})}
    elif how == 2:
        b = {proto: draw(mutate.NOT_OBJ)}
    else:
        bad = draw(st.sampled_from([proto.upper() + "X", proto + " ", proto + "2", "x" + proto, proto[:-1] + "_", "http2", "rabbitmq", "grpc",
                                    "websockets", "bindings", "AMQP"]))
        b = {bad: g.obj(binding_type(kind, proto))}
    if draw(st.booleans()):
        return ["any", kind, proto, host, b]
    okay = {draw(st.sampled_from(PROTOCOLS)): {}}
    doc, path = gen.embed(g, T("OBJ", (host,)), {}, strict=True)
    return ["any", kind, proto, "AsyncAPI3", oracle.set_at(doc, path, b)]


def prop(case):
    want, kind, proto, name, v = case
    t = T("OBJ", (name,))
    why = oracle.conforms(t, v)
    if why and want == "accept":
        raise RuntimeError(f"generator made an invalid case: {why}: {v!r}")
    if why:
        must_reject(t, v, why)
        return f"{kind}:refused"
    m = check_faithful(t, v)
    if name.endswith("BindingsObject"):
        for p in PROTOCOLS:
            got = getattr(m, p)
            if (got is not None) != (p in v):
                raise Violation(f"{name}.{p} is {got!r}")
            if got is not None and type(got) is not cls(binding_type(kind, p)):
                raise Violation(f"{name}.{p} parsed as {type(got).__name__}")
    return f"{kind}:accepted"


def tasks(tier):
    k = 1 if tier == "quick" else 25
    return (foreach("accepted", prop, targets(), good, 12 * k, chunk=10)
            + foreach("refused", prop, [(a, b) for a in KINDS for b in PROTOCOLS], foreign, 25 * k, chunk=8))
