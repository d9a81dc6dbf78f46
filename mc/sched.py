"""Cooperative scheduler for real threads running the real code.

Threads are traced (sys.settrace); before every source line (or bytecode instruction) of an
eth_abi frame a thread asks the chooser whether another thread goes on instead.  One thread
runs at a time; every switch at such a point is a deviation (a preemption), a switch when a
thread ends is free.  explore() thus enumerates every schedule with at most `bound`
preemptions.  A thread that makes no progress (it waits for a lock of the library that a
preempted thread holds) is left waiting and the others go on.
"""
import os
import sys
import threading

from mc import core

ROOT = os.path.join(os.path.realpath(core.REPO), "eth_abi") + os.sep


def _opcodes():
    """CPython 3.12 gives bytecode events from the settrace call after the one in which a frame
    first asks for them: let a frame ask now."""
    sys._getframe().f_trace_opcodes = True


_opcodes()
STALL = 0.1


class Sched:
    def __init__(self, ch, thunks, bound, fine=False, window=None):
        self.ch = ch
        self.thunks = thunks
        self.bound = bound
        self.fine = fine
        self.window = window
        n = len(thunks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.outcomes = [None] * n
        self.done = threading.Event()
        self.current = None
        self.points = 0
        self.preempted = 0
        self.switches = 0
        self.stalls = 0
        self.error = None
        self.over = False

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.thunks))]
        for t in threads:
            t.start()
        self.hand_to(self.ch.pick(list(self.alive), free=True))
        seen = -1
        while not self.done.wait(STALL):
            if self.points == seen and len(self.alive) > 1:
                # no step was made: the current thread waits for something another one holds
                self.stalls += 1
                cur = self.current
                rest = self.alive
                j = rest[(rest.index(cur) + 1) % len(rest)] if cur in rest else rest[0]
                self.hand_to(j)
            seen = self.points
        for t in threads:
            t.join()
        if self.error:
            raise self.error
        return self.outcomes

    def hand_to(self, j):
        self.current = j
        self.sem[j].release()

    def wait(self, i):
        while self.current != i:
            self.sem[i].acquire()

    def body(self, i):
        self.wait(i)
        sys.settrace(self.trace(i))
        try:
            r = ("returns", self.thunks[i]())
        except BaseException as e:
            r = ("raises", e)
        finally:
            sys.settrace(None)
        self.outcomes[i] = r
        self.alive.remove(i)
        try:
            if self.alive:
                if self.current == i:
                    self.hand_to(self.ch.pick(list(self.alive), free=True) if self.error is None else self.alive[0])
            else:
                self.done.set()
        except BaseException as e:
            self.error = e
            if self.alive:
                self.hand_to(self.alive[0])
            else:
                self.done.set()

    def trace(self, i):
        event_name = "opcode" if self.fine else "line"

        def local(frame, event, arg):
            if event == event_name:
                self.point(i)
            return None if self.over else local

        def start(frame, event, arg):
            if self.over or not frame.f_code.co_filename.startswith(ROOT):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return start

    def point(self, i):
        self.points += 1
        if self.current != i:
            self.wait(i)
        if self.preempted >= self.bound or len(self.alive) < 2 or self.error is not None:
            # no choice is left for the rest of this execution
            self.over = True
            return
        if self.window and not self.preempted and not self.window[0] <= self.points < self.window[1]:
            self.over = self.points >= self.window[1]
            return
        try:
            j = self.ch.pick([i] + [x for x in self.alive if x != i])
        except BaseException as e:
            self.error = e
            return
        if j != i:
            self.preempted += 1
            self.switches += 1
            self.hand_to(j)
            self.wait(i)
