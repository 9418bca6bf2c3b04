"""Protocol bindings: documented limits, enumerations and combinations of fields, on both sides of every boundary."""
from pbt import gen, grids
from pbt.grids import ABSENT
from pbt.table import OBJS

ID = "C23"
RULE = ("Every cell of the decision tables of the binding objects with documented rules (AMQP, IBM MQ, Kafka, Solace), and for every enumerated or "
        "length-limited field of every binding object both sides of its limits and near misses of its values: by parsing, JSON and construction, by assignment from "
        "every valid cell, and inside whole documents at drawn positions. Non-trivial: always. Class = object and verdict.")
ASSUMES = ["IBM MQ destinationType=topic with only a queue is documented both ways and not visited",
           "numbers are integers; strings and floats in their place are C04's"]

AROUND = lambda *ns: [ABSENT] + sorted({n + d for n in ns for d in (-1, 0, 1)} | {-10**9, 2**31, 2**63, 10**20, 0, 1})
GRIDS = {
    "AMQPChannelBindings": {"is": ["queue", "routingKey"],
                            "exchange": [ABSENT, {"name": "", "type": "direct"}, {"name": "e" * 255, "type": "topic"}, {"name": "e" * 256, "type": "topic"},
                                         {"name": "e", "type": "headers", "durable": False}, {"name": "e", "type": "Direct"}, {"type": "direct"}],
                            "queue": [ABSENT, {}, {"name": "q"}, {"name": "q" * 255}, {"name": "q" * 256}, {"exclusive": True}],
                            "bindingVersion": [ABSENT, "0.2.0"]},
    "AMQPOperationBindings": {"expiration": AROUND(0), "priority": [ABSENT, -1, 0, 10], "deliveryMode": [ABSENT, 0, 1, 2, 3], "mandatory": [ABSENT, False]},
    "IBMMQServerBindings": {"heartBeatInterval": AROUND(0, 999999, 300), "groupId": [ABSENT, "g"], "multiEndpointServer": [ABSENT, False, True]},
    "IBMMQChannelBindings": {"destinationType": [ABSENT, "topic", "queue"],
                             "queue": [ABSENT, {"objectName": ""}, {"objectName": "o" * 48}, {"objectName": "o" * 49}, {}],
                             "topic": [ABSENT, {}, {"string": "s", "objectName": "é" * 48}, {"string": "s" * 10240}, {"string": "s" * 10241}, {"objectName": "o" * 49}],
                             "maxMsgLength": AROUND(0, 104857600)},
    "IBMMQMessageBindings": {"type": [ABSENT, "string", "jms", "binary"], "headers": [ABSENT, "", "h", "h1,h2"], "expiry": AROUND(0), "description": [ABSENT, "d"]},
    "KafkaServerBindings": {"schemaRegistryUrl": [ABSENT, "", "https://example.com/"], "schemaRegistryVendor": [ABSENT, "", "apicurio"], "bindingVersion": [ABSENT, "0.4.0"]},
    "KafkaChannelBindings": {"partitions": AROUND(0), "replicas": AROUND(0), "topic": [ABSENT, "t"],
                             "topicConfiguration": [ABSENT, {}, {"cleanup.policy": ["delete"], "retention.ms": -1}, {"cleanup.policy": ["keep"]}]},
    "SolaceServerBindings": {"clientName": [ABSENT, "", "a" * 159, "a" * 160, "a" * 161, "é" * 80, "é" * 81, "a" + "é" * 80, "日" * 53, "日" * 54, "\U0001f600" * 40,
                                            "\U0001f600" * 41, "a" * 157 + "日", "a" * 158 + "日"], "msgVpn": [ABSENT, "v" * 200]},
    "SolaceDestination": {"destinationType": ["queue", "topic"], "queue": [ABSENT, {}, {"name": "q"}, {"accessType": "exclusive"}, {"accessType": "x"}],
                          "topic": [ABSENT, {}, {"topicSubscriptions": ["a", "b"]}], "deliveryMode": [ABSENT, "direct", "persistent", "none"]},
    "SolaceOperationBindings": {"priority": AROUND(0, 255) + [{}, {"type": "integer", "minimum": 300}, {"$ref": "#/components/schemas/p"}],
                                "timeToLive": [ABSENT, 0, -1, 10**12, {}], "dmqEligible": [ABSENT, True], "destinations": [ABSENT, []]},
}


def minimal(name):
    class First:
        def __call__(self, s):
            raise RuntimeError
    v = {}
    for f in OBJS[name].fields:
        if f.req:
            v[f.name] = least(f.type)
    if name == "AMQPChannelBindings":
        v = {"is": "queue", "queue": {}}
    if name == "SolaceDestination":
        v = {"destinationType": "queue", "queue": {}}
    return v


def least(t):
    k = t.kind
    if k == "UNION":
        return least(t.args[0])
    if k == "LIT":
        return t.args[0]
    if k == "OBJ":
        return minimal(t.args[0])
    return {"STR": "s", "INT": 1, "BOOL": False, "ANY": 1, "URL": "https://example.com/", "HTTPURL": "https://example.com/", "LIST": [], "MAP": {}, "PMAP": {},
            "REF": {"$ref": "#/components/schemas/a"}}[k]


def fields():
    """One-field tables: every enumeration and length limit of every binding object."""
    out = {}
    for o in OBJS.values():
        if not o.module.startswith("bindings.") or o.name in GRIDS:
            continue
        base = minimal(o.name)
        for f in o.fields:
            vals = None
            if f.maxlen is not None:
                vals = [c * n for c in "aé\U0001f600" for n in (0, 1, f.maxlen - 1, f.maxlen, f.maxlen + 1, 2 * f.maxlen)]
            elif f.type.kind == "LIT":
                vals = list(f.type.args)
                for a in f.type.args:
                    vals += [a + " ", " " + a, a.upper(), a.lower(), a.swapcase(), a + "s", a[:-1], a + "\n", ""] if isinstance(a, str) else [a + 3, -1 - a, 99, str(a) + "x"]
                vals = [v for i, v in enumerate(vals) if v not in vals[:i]]
            if vals:
                if not f.req:
                    vals = [ABSENT] + vals
                out[o.name, f.name] = {**{k: [x] for k, x in base.items()}, f.name: vals}
    return out


def tasks(tier):
    out = grids.grid_tasks(GRIDS, tier)
    for (o, f), grid in fields().items():
        ts = grids.grid_tasks({o: grid}, tier)
        for t in ts:
            t.name = f"{f}: {t.name}"
            if t.n:
                t.n = max(t.n // 4, 8)
        out += ts
    return out
