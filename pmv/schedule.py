# -*- coding: utf-8 -*-
"""Threads whose interleaving is chosen by the harness.

Every thread runs under sys.settrace; before each line of the code under test
(or, with the finer grain, before each bytecode instruction that stores into an
object) it has to have the token.  The schedule is a list of (number of such
points, next thread): after that many the token goes to that thread.  A thread which
holds the token without making progress waits for a lock of the code under
test: the token goes to another one.
"""
from __future__ import annotations

import dis
import json
import os
import select
import sys
import threading
import time
import traceback

from pmv import engine

STORES = frozenset(dis.opmap[x] for x in ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR', 'LIST_APPEND') if x in dis.opmap)
STALL = 0.03            # no line executed for this long: the thread waits for a lock
DEADLOCK = 40.0


class Deadlock(Exception):
    pass


class Scheduler(object):
    def __init__(self, n, schedule, grain='line'):
        self.n = n
        self.grain = grain
        self.schedule = list(schedule)
        self.cond = threading.Condition()
        self.current = 0
        self.left = 10 ** 9
        self.done = [False] * n
        self.events = 0
        self.switches = 0
        self.stalls = 0
        self.prefix = os.path.join(engine.REPO, 'pymorphy2') + os.sep
        if self.schedule:
            self.left, self.current = self.schedule.pop(0)

    # ---- in the threads
    def step(self, i):
        self.events += 1
        if self.current == i:
            self.left -= 1
            if self.left > 0:
                return
            with self.cond:
                if self.current == i:
                    if self.schedule:
                        self.left, nxt = self.schedule.pop(0)
                        self.give(nxt)
                    else:
                        self.left = 10 ** 9
        if self.current != i:
            with self.cond:
                while self.current != i:
                    self.cond.wait()

    def give(self, nxt):
        """Pass the token to a thread which is not finished (self.cond is held)."""
        for k in range(self.n):
            j = (nxt + k) % self.n
            if not self.done[j]:
                if j != self.current:
                    self.switches += 1
                self.current = j
                break
        self.cond.notify_all()

    def tracer(self, i):
        step = self.step

        def by_line(frame, event, arg):
            if event == 'line':
                step(i)
            return by_line

        def by_store(frame, event, arg):
            if event == 'opcode' and frame.f_code.co_code[frame.f_lasti] in STORES:
                step(i)
            return by_store

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefix):
                if self.grain == 'store':
                    frame.f_trace_opcodes = True
                    return by_store
                step(i)
                return by_line
            return None
        return trace

    def run_thread(self, i, program, out):
        with self.cond:
            while self.current != i:
                self.cond.wait()
        sys.settrace(self.tracer(i))
        try:
            program(out)
        except BaseException as e:
            out.append('raises %s: %s' % (type(e).__name__, e))
            out.append(traceback.format_exc())
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[i] = True
                if self.current == i:
                    self.give(i + 1)

    # ---- in the main thread
    def run(self, programs):
        outs = [[] for _ in programs]
        threads = [threading.Thread(target=self.run_thread, args=(i, p, outs[i])) for i, p in enumerate(programs)]
        for t in threads:
            t.daemon = True
            t.start()
        last, since, t0 = -1, time.time(), time.time()
        progress = time.time()
        while not all(self.done):
            time.sleep(0.004)
            now = time.time()
            if self.events != last:
                last, since, progress = self.events, now, now
                continue
            if now - progress > DEADLOCK:
                raise Deadlock('the threads wait for each other')
            if now - since > STALL:
                with self.cond:
                    if self.events == last and not all(self.done):
                        self.stalls += 1
                        self.give(self.current + 1)
                since = now
        return outs


def gen_schedule(d, n, most=24):
    """[(lines, thread)]"""
    scale = d.choice([3, 12, 40, 150, 600, 2500])
    res = []
    for _ in range(d.integer(1, most)):
        s = d.choice([scale, scale, 4, 30])
        res.append([d.integer(1, s), d.draw(n)])
    return res


def in_child(fn, limit=100):
    """Run fn() in a forked process; returns its JSON result or {'error': ...}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                res = {'ok': fn()}
            except Deadlock as e:
                res = {'deadlock': str(e)}
            except BaseException as e:
                res = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc(),
                       'code': engine.from_code_under_test(sys.exc_info()[2])}
            data = json.dumps(res).encode('ascii')
            while data:
                k = os.write(w, data[:60000])
                data = data[k:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    end = time.time() + limit
    try:
        while True:
            ready = select.select([r], [], [], max(0, end - time.time()))[0]
            if not ready:
                os.kill(pid, 9)
                return {'error': 'timeout', 'trace': '', 'code': False}
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not data:
        return {'error': 'the process died', 'trace': '', 'code': False}
    return json.loads(data.decode('ascii'))


class Probe(object):
    """One thread works; at chosen points another one (which is not traced) asks one question to the end.

    If the other thread waits for a lock which the first one holds, the first goes on.
    """
    WAIT = 0.05

    def __init__(self, ask):
        self.ask = ask              # ask(point) is run in the other thread
        self.prefix = os.path.join(engine.REPO, 'pymorphy2') + os.sep
        self.answers = []           # [(point, answer)]
        self.stalls = 0

    def run(self, program, points=None, every=None, grain='line'):
        """points: set of numbers of events; every: (first, step). Returns the number of events."""
        self.go = threading.Semaphore(0)
        self.ready = threading.Semaphore(0)
        self.idle = True
        self.stop = False
        state = [0]
        lock = threading.Lock()

        def other():
            while True:
                self.go.acquire()
                if self.stop:
                    return
                try:
                    a = self.ask(self.point)
                except BaseException as e:
                    a = 'raises %s: %s' % (type(e).__name__, e)
                self.answers.append((self.point, a))
                with lock:
                    self.idle = True
                self.ready.release()

        def event():
            state[0] += 1
            n = state[0]
            if points is not None and n not in points:
                return
            if every is not None and (n < every[0] or (n - every[0]) % every[1]):
                return
            if points is None and every is None:
                return
            with lock:
                if not self.idle:
                    return
                self.idle = False
            while self.ready.acquire(False):
                pass
            self.point = n
            self.go.release()
            if not self.ready.acquire(timeout=self.WAIT):
                self.stalls += 1

        def by_line(frame, ev, arg):
            if ev == 'line':
                event()
            return by_line

        def by_store(frame, ev, arg):
            if ev == 'opcode' and frame.f_code.co_code[frame.f_lasti] in STORES:
                event()
            return by_store

        def trace(frame, ev, arg):
            if frame.f_code.co_filename.startswith(self.prefix):
                if grain == 'store':
                    frame.f_trace_opcodes = True
                    return by_store
                event()
                return by_line
            return None

        t = threading.Thread(target=other)
        t.daemon = True
        t.start()
        sys.settrace(trace)
        try:
            program()
        finally:
            sys.settrace(None)
            end = time.time() + DEADLOCK
            while True:
                with lock:
                    if self.idle:
                        break
                if time.time() > end:
                    raise Deadlock('the other thread does not come to an end')
                time.sleep(0.002)
            self.stop = True
            self.go.release()
            t.join()
        return state[0]
