"""Deterministic caller threads: real threads, exactly one of which runs; the simulator decides at every line
(or bytecode) boundary of the code under test whether and to whom control passes."""

import sys
import threading

from .core import REPO, HarnessError

WATCHDOG = 300.0


class Interleaver:
    def __init__(self, ctx, opcode=False, mean=None, max_switches=400):
        self.ctx = ctx
        self.opcode = opcode
        self.mean = mean or ctx.ch.pick([3, 10, 40])
        self.tasks = []
        self.left = max_switches
        self.prefix = REPO.rstrip("/") + "/"
        self.switches = 0
        self.kill = {}           # thread -> boundary at which kill_exc is raised in it; entries are removed when used
        self.kill_exc = None
        self.ticks = {}

    def add(self, fn):
        self.tasks.append(fn)

    def _burst(self):
        """Number of boundaries until the next decision."""
        if self.left <= 0:
            return 1 << 60
        self.left -= 1
        k = self.ctx.ch._draw(4 * self.mean + 1, lambda r: 1 + r.randrange(2 * self.mean) if r.random() < 0.8
                              else 1 + r.randrange(4 * self.mean))
        return k if k else 1 << 60      # 0, the simple choice: run on without switching

    def run(self):
        """Runs all tasks to completion; returns [(ok, value-or-exception)] in task order."""
        n = len(self.tasks)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.res = [None] * n
        self.main = threading.Semaphore(0)
        self.budget = 0
        self.err = None
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        first = self.ctx.ch.int(n)
        self.budget = self._burst()
        self.ctx.step("run", "t%d" % first)
        self.sems[first].release()
        if not self.main.acquire(timeout=WATCHDOG):
            raise HarnessError("threads did not finish")
        for t in ths:
            t.join(WATCHDOG)
        if self.err is not None:
            raise self.err
        self.ctx.probe("thread_switches", self.switches)
        return self.res

    def _switch(self, i, voluntary):
        """Thread i gives up control (or has finished)."""
        cand = [j for j in range(len(self.tasks)) if not self.done[j] and j != i]
        if not cand:
            if self.done[i]:
                self.main.release()
            else:
                self.budget = self._burst()
            return
        j = cand[self.ctx.ch.int(len(cand))]
        self.switches += 1
        self.ctx.step("switch", "t%d" % i, "t%d" % j, "end" if self.done[i] else "")
        self.budget = self._burst()
        self.sems[j].release()
        if not self.done[i]:
            if not self.sems[i].acquire(timeout=WATCHDOG):
                raise HarnessError("lost control")

    def _tick(self, i):
        self.budget -= 1
        if self.budget <= 0:
            self._switch(i, True)

    def point(self, i):
        """A point of the simulated environment at which task i may lose control."""
        self._tick(i)

    def _body(self, i):
        self.sems[i].acquire()
        ev = "opcode" if self.opcode else "line"

        def local(frame, event, arg):
            if event == ev:
                try:
                    self._tick(i)
                except BaseException as e:     # machinery failure, not the code under test
                    self.err = e
                    raise
                if i in self.kill:
                    self.ticks[i] = self.ticks.get(i, 0) + 1
                    if self.ticks[i] >= self.kill[i]:
                        del self.kill[i]
                        self.ctx.step("kill", "t%d" % i)
                        raise self.kill_exc
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefix):
                if self.opcode:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        sys.settrace(tracer)
        try:
            try:
                v = self.tasks[i]()
                r = (True, v)
            except BaseException as e:
                r = (False, e)
        finally:
            sys.settrace(None)
        self.res[i] = r
        self.done[i] = True
        try:
            self._switch(i, False)
        except BaseException as e:
            self.err = e
            self.main.release()
