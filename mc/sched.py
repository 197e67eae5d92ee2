"""A controlled scheduler for threads running the library's Python code.

Exactly one thread runs at a time.  Every line (or bytecode, or function call) of bloscpack that a thread is
about to execute is a scheduling point.  A schedule is a list of segments [thread, points]: let that
thread run for that many points (None: to its end), then switch.  After the listed segments the
remaining threads run to their end in order.
"""
import os
import sys
import threading
import time


class Stuck(Exception):
    pass


class Run(object):
    def __init__(self, fns, schedule, root, unit='line', patience=3.0):
        self.fns, self.root, self.unit = fns, root, unit
        self.n = len(fns)
        self.todo = [list(s) for s in schedule] + [[t, None] for t in range(self.n)]
        self.go = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.points = [0] * self.n
        self.switches = 0
        self.results = [None] * self.n
        self.free = False
        self.patience = patience
        self.finished = threading.Event()
        self.current = None
        self.left = None

    # called by the running thread (or to begin): hand over to the next segment's thread
    def advance(self, me):
        while self.todo:
            t, budget = self.todo.pop(0)
            if self.done[t] or budget == 0:
                continue
            self.current, self.left = t, budget
            if t != me:
                self.switches += 1
                self.go[t].release()
                if me is not None and not self.done[me]:
                    self.go[me].acquire()
            return
        self.current = None
        self.finished.set()

    def point(self, t):
        if self.free:
            return
        while self.left == 0 and not self.free:
            self.advance(t)
        self.points[t] += 1
        if self.left is not None:
            self.left -= 1

    def tracer(self, t):
        root, point, unit = self.root, self.point, self.unit

        def local(frame, event, arg):
            if event == unit:
                point(t)
            return local

        def trace(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(root):
                if unit == 'call':
                    point(t)
                    return None
                if unit == 'outer':         # calls at most four bloscpack frames deep
                    depth, f = 0, frame.f_back
                    while f is not None and depth < 4:
                        depth += f.f_code.co_filename.startswith(root)
                        f = f.f_back
                    if depth < 4:
                        point(t)
                    return None
                if unit == 'opcode':
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return trace

    def body(self, t):
        self.go[t].acquire()
        sys.settrace(self.tracer(t))
        try:
            self.results[t] = self.fns[t]()
        finally:
            sys.settrace(None)
            self.done[t] = True
            if self.free:
                if all(self.done):
                    self.finished.set()
            else:
                self.advance(t)

    def run(self):
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(self.n)]
        for th in threads:
            th.start()
        self.advance(None)
        last = None
        while not self.finished.wait(self.patience):
            # no progress: the running thread waits for something the others hold; let them all run
            now = tuple(self.points)
            if now == last:
                if self.free:
                    raise Stuck('threads do not finish: %s' % (self.points,))
                self.free = True
                for g in self.go:
                    g.release()
            last = now
        for th in threads:
            th.join(20)
        return self.results
