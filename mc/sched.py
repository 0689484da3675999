"""A controlled scheduler for two threads running the real library: exactly one thread runs at a time, and control passes
from one to the other only before a source line of the library (or when a thread ends). A schedule says after how many
lines of its own each thread is preempted."""
import os
import sys
import threading
import traceback

import histbook

ROOT = os.path.dirname(os.path.abspath(histbook.__file__)) + os.sep


class Stop(BaseException):
    pass


class Run(object):
    """Runs ops[0] and ops[1]; schedule[i] is the sorted list of line counts at which thread i gives way. Thread `first` starts."""

    def __init__(self, ops, first, schedule, patience=5.0):
        self.ops, self.first, self.patience = ops, first, patience
        self.points = [set(s) for s in schedule]
        self.lines = [0, 0]
        self.done = [False, False]
        self.result = [None, None]
        self.where = [None, None]
        self.taken = 0
        self.blocked = False
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]

    def give(self, me):
        """Lets the other thread run; comes back when that one gives way or ends."""
        other = 1 - me
        if self.done[other] or self.blocked:
            return
        self.sem[other].release()
        while True:
            before = self.lines[other]
            if self.sem[me].acquire(timeout=self.patience):
                return
            if self.lines[other] == before:
                # the other one waits for something this thread holds: not a schedule that can happen; run freely
                self.blocked = True
                return

    def tracer(self, me):
        lines, points = self.lines, self.points[me]
        last = max(points)

        def local(frame, event, arg):
            if event == "line":
                n = lines[me]
                lines[me] = n + 1
                if n in points:
                    if not self.done[1 - me] and not self.blocked:
                        self.where[me] = "%s:%d" % (frame.f_code.co_filename[len(ROOT):], frame.f_lineno)
                        self.taken += 1
                        self.give(me)
                    if n == last:
                        sys.settrace(None)      # no more preemptions: run at full speed
                        return None
            return local

        def tracing(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                return local
            return None

        return tracing

    def body(self, me):
        self.sem[me].acquire()
        try:
            if self.points[me]:
                sys.settrace(self.tracer(me))
            try:
                self.result[me] = ("ok", self.ops[me]())
            finally:
                sys.settrace(None)
        except BaseException:
            self.result[me] = ("raised", traceback.format_exc()[-1500:])
        self.done[me] = True
        self.sem[1 - me].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,)) for i in (0, 1)]
        for t in threads:
            t.daemon = True
            t.start()
        self.sem[self.first].release()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise RuntimeError("deadlock under the schedule")
        return self
