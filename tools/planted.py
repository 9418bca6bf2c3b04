"""Development aid: apply each planted bug of /verif/seeded to /repo, run the tests, its demonstration and checks, undo it.

usage: tools/planted.py [--all] [--checks C01,C02] [id ...]     (--all: every check instead of the property's own)
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def failing(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    got = json.load(open(out))
    passed = set(got["passed"])
    return sorted(stable - passed)


def main(argv):
    every = "--all" in argv
    only = next((argv[i + 1].split(",") for i, a in enumerate(argv) if a == "--checks"), None)
    skip = {only and ",".join(only)}
    ids = [a for a in argv if not a.startswith("--") and a not in skip] or sorted(os.listdir(SEEDED))
    checks = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    assert not sh(["git", "-C", "/repo", "status", "--short"]).stdout.strip(), "/repo is not clean"
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        demo = ["bash", os.path.join(d, "demo.sh")]
        clean = sh(demo, cwd="/repo").returncode
        r = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            print(f"{i}: DOES NOT APPLY {r.stderr[:200]}")
            continue
        try:
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/planted.json"], cwd="/repo")
            try:
                bad = failing("/tmp/planted.json")
            except Exception as e:
                bad = [f"?{e}", t.stdout[-300:]]
            broken = sh(demo, cwd="/repo")
            caught, quiet, odd = [], [], []
            for c in (only or (checks if every else [meta["property"]])):
                r = sh([os.path.join(HERE, "check.py"), c], cwd=HERE)
                (caught if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else quiet if r.returncode == 0 else odd).append(c)
                if r.returncode not in (0, 1):
                    print(r.stderr[-600:])
                elif r.returncode == 1 and not every:
                    print("   ", r.stdout.strip().splitlines()[1][:200])
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        ok = clean == 0 and broken.returncode != 0 and not bad
        print(f"{i} [{meta['property']}]: {'counts' if ok else f'DOES NOT COUNT (demo {clean}/{broken.returncode}, tests failing {len(bad)}: {bad[:2]})'}; "
              f"caught by {','.join(caught) or 'NONE'}{'; no answer: ' + ','.join(odd) if odd else ''}{'' if every else '; quiet: ' + ','.join(quiet) if quiet else ''}", flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
