"""Parses table.txt: the reference description of every object the library models."""
from __future__ import annotations
import ast, os, re
from dataclasses import dataclass, field

HERE = os.path.dirname(os.path.abspath(__file__))


@dataclass(frozen=True)
class T:
    """A type expression. kind in STR INT BOOL ANY URL HTTPURL EMAIL REF LIT LIST MAP OBJ PMAP UNION"""
    kind: str
    args: tuple = ()

    def __repr__(self):
        if self.kind == "OBJ" or self.kind == "PMAP":
            return self.args[0]
        if self.kind == "UNION":
            return " | ".join(map(repr, self.args))
        if self.args:
            return f"{self.kind}({', '.join(map(repr, self.args))})"
        return self.kind


@dataclass
class Field:
    name: str          # name in documents
    py: str            # python attribute
    type: T
    req: bool = False
    default: object = None
    maxlen: int | None = None


@dataclass
class Obj:
    name: str
    module: str
    ext: str                      # EXT CLOSED OPEN
    fields: list = field(default_factory=list)

    def f(self, name):
        for x in self.fields:
            if x.name == name:
                return x
        raise KeyError(name)


@dataclass
class PMap:
    name: str
    module: str
    value: T


OBJS: dict[str, Obj] = {}
PMAPS: dict[str, PMap] = {}
ATOMS = {"STR", "INT", "BOOL", "ANY", "URL", "HTTPURL", "EMAIL", "REF"}


def _split_top(s, sep):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([":
            depth += 1
        if c in ")]":
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out]


def parse_type(s):
    s = s.strip()
    parts = _split_top(s, "|")
    if len(parts) > 1:
        return T("UNION", tuple(parse_type(p) for p in parts))
    if s in ATOMS:
        return T(s)
    m = re.fullmatch(r"(LIT|LIST|MAP)\((.*)\)", s, re.S)
    if m:
        if m[1] == "LIT":
            return T("LIT", tuple(ast.literal_eval("(" + m[2] + ",)")))
        return T(m[1], (parse_type(m[2]),))
    assert re.fullmatch(r"\w+", s), s
    return T("NAMED", (s,))


def _load():
    cur = None
    for line in open(os.path.join(HERE, "table.txt"), encoding="utf-8"):
        line = line.rstrip("\n")
        if not line.strip() or line.startswith("#"):
            continue
        if not line.startswith(" "):
            if " = PMAP(" in line:
                full, rest = line.split(" = PMAP(", 1)
                mod, _, name = full.rpartition(".")
                PMAPS[name if name != "Tags" else "Tags"] = PMap(name, mod, parse_type(rest[:-1]))
                cur = None
            else:
                full, ext = line.split()
                mod, _, name = full.rpartition(".")
                assert name not in OBJS, name
                cur = OBJS[name] = Obj(name, mod, ext)
            continue
        name, py, rest = line.split(None, 2)
        f = Field(name, py, None)
        m = re.search(r" MAXLEN=(\d+)", rest)
        if m:
            f.maxlen = int(m[1])
            rest = rest.replace(m[0], "")
        m = re.search(r" DEF=(.*)$", rest)
        if m:
            f.default = ast.literal_eval(m[1])
            rest = rest[: m.start()]
        if rest.endswith(" REQ"):
            f.req = True
            rest = rest[:-4]
        f.type = parse_type(rest)
        cur.fields.append(f)

    def fix(t):
        if t.kind == "NAMED":
            n = t.args[0]
            if n in PMAPS:
                return T("PMAP", (n,))
            assert n in OBJS, n
            return T("OBJ", (n,))
        if t.kind in ("LIST", "MAP", "UNION"):
            return T(t.kind, tuple(fix(a) for a in t.args))
        return t

    for o in OBJS.values():
        for f in o.fields:
            f.type = fix(f.type)
    for p in PMAPS.values():
        p.value = fix(p.value)


_load()
ROOT = T("OBJ", ("AsyncAPI3",))
PROTOCOLS = [f.name for f in OBJS["ChannelBindingsObject"].fields]


def variants(t):
    return list(t.args) if t.kind == "UNION" else [t]


def accepts_ref(t):
    return any(v.kind == "REF" for v in variants(t))
