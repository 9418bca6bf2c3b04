"""Counts the library lines an operation executes."""
import os
import sys

from . import env

LIB = (os.path.join(os.path.realpath(env.REPO), "asyncapi3") + os.sep, os.path.join(env.REPO, "asyncapi3") + os.sep)
TOOL = 4
MON = sys.monitoring
EV = MON.events


class Counter:
    """lines(fn): how many lines (and jumps within lines) of library code fn executes; exceptions of fn escape."""

    def __init__(self):
        self.n = 0

    def hit(self, code, *a):
        if not code.co_filename.startswith(LIB):
            return MON.DISABLE
        self.n += 1
        return None

    def lines(self, fn):
        self.n = 0
        MON.use_tool_id(TOOL, "count")
        try:
            for e in (EV.LINE, EV.JUMP, EV.PY_START, EV.PY_RESUME):
                MON.register_callback(TOOL, e, self.hit)
            MON.set_events(TOOL, EV.LINE | EV.JUMP | EV.PY_START | EV.PY_RESUME)
            fn()
        finally:
            MON.set_events(TOOL, 0)
            for e in (EV.LINE, EV.JUMP, EV.PY_START, EV.PY_RESUME):
                MON.register_callback(TOOL, e, None)
            MON.free_tool_id(TOOL)
        return self.n
