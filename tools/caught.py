"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    by = collections.defaultdict(list)
    d = os.path.join(HERE, "seeded")
    for i in sorted(os.listdir(d)):
        by[json.load(open(os.path.join(d, i, "meta.json")))["property"]].append(i)
    text = "".join(f"{p}: {', '.join(by[p])}\n" for p in sorted(by))
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    s = re.sub(r"(?s)(<!-- planted -->\n).*?(<!-- end -->)", lambda m: m[1] + "```\n" + text + "```\n" + m[2], s)
    open(path, "w").write(s)
    print(sum(map(len, by.values())))


main()
