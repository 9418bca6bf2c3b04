"""Runs functions in threads under a drawn schedule: control passes from one thread to the next at chosen lines of the library."""
import os
import sys
import threading
import time

from . import env

LIB = os.path.join(os.path.realpath(env.REPO), "asyncapi3") + os.sep
MAX_SWITCHES = 2000
ALT = os.path.join(env.REPO, "asyncapi3") + os.sep


class Interleave:
    """run(fns, lengths): each fn in its own thread; after lengths[i] library lines control passes on (lengths repeat). Returns the switch count.

    Should the threads block each other outside this scheduler (a lock in the library), it lets them all run freely."""

    def run(self, fns, lengths):
        self.lengths = lengths or [1]
        self.n = len(fns)
        self.locks = [threading.Semaphore(0) for _ in fns]
        self.alive = [True] * self.n
        self.pos = 0
        self.left = max(1, self.lengths[0])
        self.switches = 0
        self.free = False
        self.beat = time.monotonic()
        threads = [threading.Thread(target=self.body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in threads:
            t.start()
        self.locks[0].release()
        for t in threads:
            while t.is_alive():
                t.join(0.5)
                if not self.free and time.monotonic() - self.beat > 5:
                    self.free = True
                    for s in self.locks:
                        s.release()
        return self.switches

    def body(self, i, fn):
        self.locks[i].acquire()
        sys.settrace(lambda frame, event, arg: self.trace(frame, i))
        try:
            fn()
        finally:
            sys.settrace(None)
            self.alive[i] = False
            self.pass_on(i, wait=False)

    def trace(self, frame, i):
        name = frame.f_code.co_filename
        if not (name.startswith(LIB) or name.startswith(ALT)):
            return None

        def local(frame, event, arg):
            if event == "line" and not self.free:
                self.left -= 1
                self.beat = time.monotonic()
                if self.left <= 0:
                    self.pass_on(i)
            return local
        return local

    def pass_on(self, i, wait=True):
        self.pos += 1
        self.left = max(1, self.lengths[self.pos % len(self.lengths)]) if self.switches < MAX_SWITCHES else 1 << 60
        for k in range(1, self.n + 1):
            j = (i + k) % self.n
            if self.alive[j]:
                break
        else:
            return
        if j == i:
            return
        self.switches += 1
        self.locks[j].release()
        if wait and not self.free:
            self.locks[i].acquire()
