"""Ends a call with an exception at the k-th line of bloscpack it executes."""
import linecache
import os
import sys

from mc import core

ROOT = os.path.join(os.path.realpath(core.REPO), 'bloscpack') + os.sep

INSIDE = {}


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


class Shot(object):
    """Use as tracer: raises at line number `at` (counting from 0); None only counts."""

    def __init__(self, at=None, exc=Interrupt):
        self.at, self.exc = at, exc
        self.n = 0
        self.where = None
        self.closing = False
        self.lines = []

    def local(self, frame, event, arg):
        if event == 'line':
            n = self.n
            self.n += 1
            if self.at is None:
                self.lines.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            elif n == self.at:
                text = linecache.getline(frame.f_code.co_filename, frame.f_lineno).strip()
                # the closing itself is interrupted, or CPython loses a reference to the exception being handled
                self.closing = text.startswith('with ') or 'close(' in text or sys.exc_info()[0] is not None
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc('interrupted')
        return self.local

    def trace(self, frame, event, arg):
        if event == 'call' and (self.at is None or self.n <= self.at):
            name = frame.f_code.co_filename
            if name not in INSIDE:
                INSIDE[name] = os.path.realpath(name).startswith(ROOT)
            if INSIDE[name]:
                return self.local
        return None

    def run(self, fn):
        """(result, None) or (None, exception)."""
        sys.settrace(self.trace)
        try:
            return fn(), None
        except BaseException as e:
            sys.settrace(None)
            e.__traceback__ = None
            e.__context__ = e.__cause__ = None
            return None, e
        finally:
            sys.settrace(None)


def points(lines, dense, repeats=2):
    """Which of the executed lines to interrupt: the first `dense` ones, and every line of the source the first and last
    `repeats` times it is executed."""
    chosen = set(range(min(dense, len(lines))))
    seen = {}
    for i, l in enumerate(lines):
        seen.setdefault(l, []).append(i)
    for at in seen.values():
        chosen.update(at[:repeats] + at[-repeats:])
    return sorted(chosen)


def open_files():
    return sorted(os.readlink('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd')
                  if os.path.exists('/proc/self/fd/' + f) and os.path.isfile('/proc/self/fd/' + f))
