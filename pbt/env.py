"""Puts the library under test (/repo's working tree) and Hypothesis on sys.path; imports the library."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)          # after the venv: only what the venv lacks (hypothesis, jsonschema)
warnings.simplefilter("ignore")

import logging  # noqa: E402

logging.getLogger().addHandler(logging.NullHandler())      # the library logs some warnings on the root logger

import importlib  # noqa: E402

if os.environ.get("VERIF_FIRST_IMPORT"):          # C30: the module a process imports first
    importlib.import_module(os.environ["VERIF_FIRST_IMPORT"])
import asyncapi3  # noqa: E402

_where = os.path.realpath(asyncapi3.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"harness error: asyncapi3 comes from {_where}, not {REPO}")
