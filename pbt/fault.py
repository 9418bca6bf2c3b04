"""Runs an operation that fails at a chosen call of a library function."""
import ast
import functools
import sys

from .count import LIB


class Stop(Exception):
    """An error no library code can expect."""


class Halt(BaseException):
    """Like KeyboardInterrupt."""


KINDS = {"Stop": Stop, "Halt": Halt, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": TimeoutError, "RecursionError": RecursionError}


@functools.cache
def cleanup(filename):
    """Lines of a source file that undo something: bodies of finally and except."""
    with open(filename, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    return {n for t in ast.walk(tree) if isinstance(t, (ast.Try, ast.TryStar)) for part in t.finalbody + [x for h in t.handlers for x in h.body]
            for n in range(part.lineno, part.end_lineno + 1)}


def undoing(frame):
    """Does this call come from code that undoes something? No program can defend itself against failures there."""
    while frame is not None:
        code = frame.f_code
        if code.co_filename.startswith(LIB) and (code.co_name in ("__exit__", "__del__") or frame.f_lineno in cleanup(code.co_filename)):
            return True
        frame = frame.f_back
    return False


class Calls:
    """run(fn, k, kind): fn, with an exception raised on entry to the k-th library function called (k None: only counts).

    Calls made by code that undoes something (finally, except, __exit__) are left alone. fn's own exception escapes; .count is the number of calls, .fired where the fault came."""

    def run(self, fn, k=None, kind="Stop"):
        self.count, self.fired = 0, None

        def trace(frame, event, arg):
            code = frame.f_code
            if event != "call" or not code.co_filename.startswith(LIB) or code.co_name == "<module>" or undoing(frame):
                return None
            self.count += 1
            if k is not None and self.count == k:
                self.fired = f"{code.co_name} in {code.co_filename.rsplit('/', 1)[1]}"
                sys.settrace(None)
                raise KINDS[kind]("injected")
            return None
        sys.settrace(trace)
        try:
            return fn()
        finally:
            sys.settrace(None)
