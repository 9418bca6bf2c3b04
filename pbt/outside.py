"""What a library may not touch: settings of the process, and the world outside of it."""
import gc
import io
import json
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings

# events of the interpreter that mean reaching outside; the prefix is enough
FORBIDDEN = ("socket.", "subprocess.", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.putenv", "os.unsetenv", "os.chdir", "os.remove", "os.rename",
             "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.kill", "shutil.", "tempfile.", "urllib.", "http.client.",
             "ftplib.", "smtplib.", "imaplib.", "poplib.", "telnetlib.", "webbrowser.", "pty.", "mmap.", "signal.", "syslog.", "glob.", "pathlib.", "sqlite3.", "builtins.input",
             "ctypes.dlopen", "resource.", "fcntl.")
STATE = {"on": False, "events": []}
ROOTS = []


def _hook(event, args):
    if not STATE["on"]:
        return
    if event == "open":
        path, mode, flags = (args + (None, None, None))[:3]
        if isinstance(path, (str, bytes)):
            p = os.path.realpath(os.fsdecode(path))
            reading = not (mode and set(mode) & set("wax+")) and not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if reading and p.startswith(tuple(ROOTS)) and p.endswith((".py", ".pyc", ".so")):
                return          # a module loaded late
            STATE["events"].append(f"open {p!r} {mode!r}")
    elif event.startswith(FORBIDDEN):
        STATE["events"].append(f"{event} {args!r}"[:200])


def _install():
    """An audit hook stays for the life of a process: one, switched on only while the library works."""
    if not ROOTS:
        ROOTS.extend(os.path.realpath(p) + os.sep for p in [sys.prefix, sys.base_prefix, *sys.path] if p and p != "/" and os.path.isdir(p))
        sys.addaudithook(_hook)


def settings():
    """Settings of the process that a library has no business changing."""
    root = logging.getLogger()
    levels = {n: (lg.level, lg.disabled, lg.propagate, [type(h).__name__ for h in lg.handlers])
              for n, lg in sorted(logging.Logger.manager.loggerDict.items()) if isinstance(lg, logging.Logger) and (lg.level or lg.disabled or not lg.propagate)}
    return {
        "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": {s: repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM, signal.SIGPIPE)},
        "warning filters": [repr(f) for f in warnings.filters], "showwarning": id(warnings.showwarning),
        "root logger": (root.level, [id(h) for h in root.handlers], root.filters[:], logging.root.manager.disable, id(logging.lastResort), id(logging.getLoggerClass())),
        "loggers": levels, "random state": hash(random.getstate()), "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.name for t in threading.enumerate()), "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr)),
        "integer digits": sys.get_int_max_str_digits(), "sys.path": list(sys.path), "import hooks": [id(x) for x in sys.meta_path], "socket timeout": socket.getdefaulttimeout(),
        "umask": _umask(), "json": (id(json.JSONEncoder.default), id(json.dumps), id(json.loads)), "builtins": sorted(vars(__builtins__) if not isinstance(__builtins__, dict) else __builtins__),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _depth():
    n, f = 0, sys._getframe()
    while f:
        n, f = n + 1, f.f_back
    return n


class watched:
    """Records what happens outside of the library's own objects while the block runs."""

    def __init__(self, level=None):
        self.level = level

    def __enter__(self):
        _install()
        self.root = logging.getLogger()
        self.waslevel = self.root.level
        if self.level is not None:
            self.root.setLevel(self.level)
        self.handlers, self.root.handlers = self.root.handlers, []         # as in a program that never set up logging
        self.last, logging.lastResort = logging.lastResort, logging.NullHandler()
        self.streams = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        self.limit = sys.getrecursionlimit()
        sys.setrecursionlimit(1000 + _depth())          # as in an ordinary program; Hypothesis raises it
        self.before = settings()
        STATE["events"] = []
        STATE["on"] = True
        return self

    def __exit__(self, *a):
        STATE["on"] = False
        self.events = STATE["events"]
        try:
            now = settings()
            self.changed = [f"{k}: {str(self.before[k])[:120]} became {str(now[k])[:120]}" for k in now if now[k] != self.before[k]]
            self.printed = sys.stdout.getvalue() + sys.stderr.getvalue() if isinstance(sys.stdout, io.StringIO) and isinstance(sys.stderr, io.StringIO) else ""
        finally:
            sys.stdout, sys.stderr = self.streams
            self.root.handlers, logging.lastResort = self.handlers, self.last
            self.root.setLevel(self.waslevel)
            logging.disable(logging.NOTSET)
            sys.setrecursionlimit(self.limit)

    def complaint(self):
        if self.events:
            return f"reached outside: {self.events[0]}"
        if self.changed:
            return f"changed a setting of the process: {self.changed[0]}"
        if self.printed:
            return f"printed {self.printed[:200]!r}"
        return None


def main():
    """In a fresh process: import the module named, report what it touched."""
    import importlib

    sys.path.insert(0, sys.argv[1])
    import pydantic                     # noqa: F401    its own effects are not the library's
    import pydantic.networks            # noqa: F401
    import re, fnmatch, typing, contextvars          # noqa: F401,E401
    warnings.simplefilter("ignore")
    pydantic.create_model("Warm", x=(int, 1))(x=1)
    with watched() as w:
        importlib.import_module(sys.argv[2])
    print(json.dumps(w.complaint()))


if __name__ == "__main__":
    main()
