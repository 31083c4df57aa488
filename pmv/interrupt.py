# -*- coding: utf-8 -*-
"""Exceptions which come out of nowhere: Ctrl-C, a timeout, no memory.

The exception is raised at the n-th line (or the n-th instruction which stores
into an object) of the code under test.  It never is raised in a "finally" or
"except" block, nor at the head of "try" and "with" (there even the most
careful program can not release what it has just acquired), nor in a function
that is called from there.
"""
from __future__ import annotations

import ast
import os
import sys

from pmv import engine
from pmv.schedule import STORES


class Interruption(BaseException):
    pass


class Trouble(Exception):
    pass


KINDS = {
    'Interruption': lambda: Interruption('now'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt(),
    'MemoryError': lambda: MemoryError(),
    'AssertionError': lambda: AssertionError('now'),
    'Trouble': lambda: Trouble('now'),
    'IOError': lambda: IOError(5, 'now'),
}

_lines = {}


def protected_lines(filename):
    """Numbers of the lines at which nothing is raised."""
    if filename not in _lines:
        res = set()
        try:
            with open(filename, encoding='utf8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            blocks = []
            if isinstance(node, ast.Try):
                res.add(node.lineno)
                blocks = list(node.finalbody)
                for h in node.handlers:
                    res.add(h.lineno)
                    blocks += h.body
            elif isinstance(node, ast.With):
                res.update(range(node.lineno, node.body[0].lineno))
            for b in blocks:
                res.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        _lines[filename] = res
    return _lines[filename]


class Raiser(object):
    """Runs a program and raises an exception at one point of it."""

    def __init__(self, point=None, error=None, grain='line'):
        self.point = point
        self.error = error
        self.grain = grain
        self.events = 0
        self.raised = None
        self.places = None          # {function and its caller: [numbers of its events]}, if wanted
        self.prefix = os.path.join(engine.REPO, 'pymorphy2') + os.sep

    def eligible(self, frame):
        while frame is not None:
            fn = frame.f_code.co_filename
            if fn.startswith(self.prefix) and (frame.f_lineno in protected_lines(fn) or frame.f_code.co_name in ('__del__', '__exit__')):
                return False
            frame = frame.f_back
        return True

    def event(self, frame):
        self.events += 1
        if self.places is not None:
            places = [(f.f_code.co_filename, f.f_code.co_name) for f in (frame, frame.f_back) if f is not None]
            self.places.setdefault(tuple(places), []).append(self.events)
        if self.point is not None and self.raised is None and self.events >= self.point and self.eligible(frame):
            self.raised = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            raise self.error

    def by_line(self, frame, ev, arg):
        if ev == 'line':
            self.event(frame)
        return self.by_line

    def by_store(self, frame, ev, arg):
        if ev == 'opcode' and frame.f_code.co_code[frame.f_lasti] in STORES:
            self.event(frame)
        return self.by_store

    def trace(self, frame, ev, arg):
        if self.raised is None and frame.f_code.co_filename.startswith(self.prefix):
            if self.grain == 'store':
                frame.f_trace_opcodes = True
                return self.by_store
            return self.by_line
        return None

    def pick(self, numbers, files=None):
        """For every number a point: each function (as called from another one) is as likely as another one, however long it runs."""
        res = []
        names = sorted(n for n in self.places if files is None or os.path.basename(n[0][0]) in files) or sorted(self.places)
        for x in numbers:
            events = self.places[names[x % len(names)]]
            res.append(events[x // len(names) % len(events)])
        return res

    def run(self, program):
        """('did', result of the program) or ('raised', None) for the error of this object; other exceptions come through."""
        sys.settrace(self.trace)
        try:
            try:
                res = program()
            finally:
                sys.settrace(None)
        except BaseException as e:
            if self.error is not None and e is self.error and self.raised:
                return 'raised', None
            if self.raised and isinstance(self.error, OSError) and isinstance(e, Exception):
                # taken for the failure of a system call, which may be handled, and lead to another failure
                return 'raised', None
            raise
        return 'did', res
