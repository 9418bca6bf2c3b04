"""Answers questions about documents; run in-process and in fresh processes with other settings (C30)."""
import json
import os
import sys


def answers(questions):
    from pbt import lib
    import asyncapi3.validators as V
    out = []
    for how, name, v, procs in questions:
        if how == "schema":
            out.append(json.dumps(lib.cls(name).model_json_schema(mode=v)))
            continue
        with lib.capture_warnings() as logs:
            given = {**v, "extra_validators": [getattr(V, n) for n in procs]} if procs else v
            m, err = lib.attempt(lib.cls(name).model_validate_json, json.dumps(v)) if how == "json" else lib.attempt(lib.cls(name).model_validate, given)
        if err is not None:
            out.append(["refused", "" if procs else str(err), [e["msg"] for e in err.errors(include_url=False, include_context=False, include_input=False)], list(logs)])
        else:
            out.append(["accepted", m.model_dump_json(), json.dumps(lib.dump(m)), list(logs)])
    return out


def main():
    sys.path.insert(0, sys.argv[1])
    if os.environ.get("VERIF_LOUD"):
        import logging
        logging.basicConfig(level=logging.DEBUG, stream=sys.stderr)
    questions = json.load(sys.stdin)
    json.dump(answers(questions), sys.stdout)


if __name__ == "__main__":
    main()
