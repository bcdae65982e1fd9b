"""
Controlled scheduler: runs real threads of the real code one at a time and decides at every
scheduling point (a line, opcode or function boundary of the library) who goes on.

A schedule is the thread that starts plus a list of preemptions (step, thread to switch to);
without a preemption a thread runs until it ends, then the most recently preempted one (or the
next in order) continues.  Exploring every step as a preemption point enumerates every schedule
within the preemption bound.
"""
import os
import sys
import threading
import time

POLL = 0.01
STUCK = 20.0


class Sched:
    def __init__(self, prefix, nthreads, first, preempt, grain, record=False):
        self.where = [] if record else None  # code location of every step
        self.prefix = prefix.rstrip(os.sep) + os.sep
        self.grain = grain
        self.cond = threading.Condition()
        self.step = 0
        self.active = first
        self.alive = list(range(nthreads))
        self.waiting = []  # preempted threads, most recent last
        self.preempt = dict((s, t) for s, t in preempt)
        self.ends = {}
        self.switches = 0
        self.forced = 0

    # -------------------------------------------------- called by the threads
    def point(self, tid):
        if self.active != tid:
            self.wait(tid)
        self.step += 1
        if self.step in self.preempt:
            to = self.preempt[self.step]
            if to in self.alive and to != tid:
                with self.cond:
                    self.waiting = [x for x in self.waiting if x != to] + [tid]
                    self.active = to
                    self.switches += 1
                    self.cond.notify_all()
                self.wait(tid)

    def wait(self, tid):
        with self.cond:
            while self.active != tid:
                self.cond.wait()

    def finish(self, tid):
        with self.cond:
            self.alive.remove(tid)
            self.ends[tid] = self.step
            self.waiting = [x for x in self.waiting if x in self.alive]
            if self.active == tid and self.alive:
                self.active = self.waiting.pop() if self.waiting else self.alive[0]
            self.cond.notify_all()

    # -------------------------------------------------- tracing
    def tracer(self, tid):
        prefix, point, grain, where = self.prefix, self.point, self.grain, self.where

        def local(frame, event, arg):
            if event == grain or event == "return":
                if where is not None:
                    where.append("%s:%d:%d%s" % (frame.f_code.co_filename[len(prefix):], frame.f_lineno, frame.f_lasti if grain == "opcode" else 0, event[0]))
                point(tid)
            return local

        def glob(frame, event, arg):
            if event != "call" or not frame.f_code.co_filename.startswith(prefix):
                return None
            if grain == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                sys.settrace(glob)  # needed for opcode events
            elif grain == "call":
                frame.f_trace_lines = False
            if where is not None:
                where.append("%s:%d:c" % (frame.f_code.co_filename[len(prefix):], frame.f_lineno))
            point(tid)
            return local

        return glob

    # -------------------------------------------------- one execution
    def run(self, fns):
        """Results of the functions, [("ok", value) or ("raised", type name, message)], or None: stuck."""
        results = [None] * len(fns)

        def body(tid, fn):
            self.wait(tid)
            sys.settrace(self.tracer(tid))
            try:
                try:
                    value = fn()
                finally:
                    sys.settrace(None)
                results[tid] = ("ok", value)
            except BaseException as e:  # noqa: BLE001
                results[tid] = ("raised", type(e).__name__, str(e)[:300])
            finally:
                self.finish(tid)

        ths = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        last, since, quiet = (-1, 0.0, -1), time.monotonic(), 0
        while self.alive:
            ths[self.alive[0]].join(POLL)
            now = (self.step, time.process_time(), len(self.alive))
            if now[0] != last[0] or now[1] - last[1] > 0.002 or now[2] != last[2]:
                quiet, since = 0, time.monotonic()
            else:
                quiet += 1
            last = now
            if quiet >= 3:  # the running thread waits for something: let another one go on
                with self.cond:
                    rest = [x for x in self.alive if x != self.active]
                    if rest:
                        i = self.alive.index(self.active) if self.active in self.alive else -1
                        self.active = self.alive[(i + 1) % len(self.alive)]
                        self.forced += 1
                        self.cond.notify_all()
                quiet = 0
                if time.monotonic() - since > STUCK:
                    return None
        return results
