"""A fuzzing dictionary: the constants of the library's present source that its frozen original does not have, or has less often.

A change often shows only for the very text, name or size it mentions. These only steer the generators: what is right is decided by the oracle, and on a tree
without new constants nothing is drawn differently. words.json is the frozen list; `python -m pbt.words --freeze` wrote it once.
"""
import ast
import json
import os
import re
import string
from collections import Counter

from . import env

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "words.json")
NAME = re.compile(r"[A-Za-z0-9_-]+")
OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b if abs(a * b) < 1 << 70 else 0,
       ast.Pow: lambda a, b: a ** b if 0 <= b < 70 and abs(a) < 1000 else 0, ast.LShift: lambda a, b: a << b if 0 <= b < 70 else 0, ast.FloorDiv: lambda a, b: a // b if b else 0}


def number(node):
    if isinstance(node, ast.Constant) and type(node.value) is int:
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = number(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp) and type(node.op) in OPS:
        a, b = number(node.left), number(node.right)
        return None if a is None or b is None else OPS[type(node.op)](a, b)
    return None


def constants(root):
    """(texts, numbers) of every module below root, with how often each is there; docstrings left out."""
    texts, numbers = Counter(), Counter()
    for d, _, files in os.walk(root):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value.decode("latin-1") if isinstance(n.value, bytes) else n.value
                    if isinstance(v, str) and 0 < len(v) <= 80:
                        texts[v] += 1
                        numbers.update({int(x) for x in re.findall(r"\d{1,9}", v)})
                v = number(n) if isinstance(n, ast.expr) else None
                if v is not None:
                    numbers[v] += 1
    return texts, numbers


def _novel():
    try:
        old = json.load(open(FILE, encoding="utf-8"))
        texts, numbers = constants(os.path.join(env.REPO, "asyncapi3"))
    except (OSError, ValueError):
        return [], []
    had, hadn = dict(old["texts"]), dict(old["numbers"])
    texts = [t for t in texts if texts[t] > had.get(t, 0) and not any(0xD800 <= ord(c) < 0xE000 for c in t)]
    numbers = [n for n in numbers if numbers[n] > hadn.get(n, 0) and -2**63 < n < 2**63]
    return sorted(texts, key=lambda t: (t in had, t.count(" "), t))[:40], sorted(numbers, key=lambda n: (n in hadn, n))[:40]


TEXTS, NUMBERS = _novel()
NAMES = sorted({w for t in TEXTS if t.count(" ") < 3 for w in [*NAME.findall(t), "".join(NAME.findall(t))] if w})[:60]
LABELS = sorted({w for n in NAMES for w in [re.sub("[^a-z0-9]", "", n.lower())] if w and w[0] in string.ascii_lowercase})[:40]


def sizes(cap, base=()):
    """The given sizes and, as often, those about new numbers, up to cap."""
    new = sorted({m for n in [n for n in NUMBERS if 2 < n <= cap + 1][:5] for m in (n - 1, n, n + 1) if 2 < m <= cap})
    return list(base) + (new * max(1, len(base) // len(new)) if new else [])


if __name__ == "__main__":
    import sys
    if "--freeze" in sys.argv:
        texts, numbers = constants(os.path.join(env.REPO, "asyncapi3"))
        json.dump({"texts": sorted(texts.items()), "numbers": sorted(numbers.items())}, open(FILE, "w", encoding="utf-8"), ensure_ascii=True, separators=(",", ":"))
    print(TEXTS, NUMBERS, NAMES, LABELS)
