"""Controlled execution of several optimizations in real threads.

Exactly one thread runs at a time (baton).  Scheduling points are (a) objective
calls and (b) line or opcode events inside fides' own sources, obtained with a
trace function, so every interleaving is deterministic and replayable."""

import io
import logging
import os
import re
import sys
import threading

from . import core

FIDES = os.path.join(os.path.realpath(core.REPO), 'fides') + os.sep
BLOCK = 20.0  # seconds after which a thread without progress counts as blocked


class Dispatch(io.TextIOBase):
    """stderr that keeps the output of concurrent runs apart"""

    def __init__(self):
        self.local = threading.local()

    def push(self, buf):
        st = getattr(self.local, 'stack', None)
        if st is None:
            st = self.local.stack = []
        st.append(buf)

    def pop(self):
        self.local.stack.pop()

    def write(self, s):
        st = getattr(self.local, 'stack', None)
        if st:
            st[-1].append(s)
        return len(s)

    def flush(self):
        pass


dispatch = Dispatch()


class captured:
    def __init__(self):
        self.buf = []

    def __enter__(self):
        dispatch.push(self.buf)
        return self

    def __exit__(self, *a):
        dispatch.pop()
        return False

    def lines(self):
        txt = ''.join(self.buf)
        return [re.sub(r'^.*? fides\(', 'fides(', ln)
                for ln in txt.splitlines()]


class stderr_dispatched:
    def __enter__(self):
        self.old = sys.stderr
        sys.stderr = dispatch
        # also messages of handlers that were created earlier
        self.emit = logging.StreamHandler.emit
        logging.StreamHandler.emit = lambda h, r: dispatch.write(
            h.format(r) + h.terminator)

    def __exit__(self, *a):
        sys.stderr = self.old
        logging.StreamHandler.emit = self.emit
        return False


_mine = {}


def in_fides(code):
    f = code.co_filename
    r = _mine.get(f)
    if r is None:
        r = _mine[f] = os.path.realpath(f).startswith(FIDES)
    return r


class Tracer:
    """counts events in fides' sources, calls `at[k]` at event k"""

    def __init__(self, at=None, opcodes=False, record=False):
        self.n = 0
        self.at = at or {}
        self.opcodes = opcodes
        self.log = [] if record else None

    def event(self, frame):
        k = self.n
        self.n += 1
        if self.log is not None:
            self.log.append((os.path.basename(frame.f_code.co_filename),
                             frame.f_lineno, frame.f_code.co_name))
        f = self.at.get(k)
        if f is not None:
            f()

    def glob(self, frame, ev, arg):
        if ev == 'call' and in_fides(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.local
        return None

    def local(self, frame, ev, arg):
        if ev in ('line', 'opcode'):
            self.event(frame)
        return self.local

    def run(self, f):
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(None)


def thread(f):
    """run f in a thread; returns (thread, box with 'ret'/'exc')"""
    box = {}

    def go():
        try:
            box['ret'] = f()
        except BaseException as e:  # noqa: BLE001
            box['exc'] = e

    t = threading.Thread(target=go, daemon=True)
    return t, box


def preempt(fa, fb, i, j=None, opcodes=False):
    """fa runs until event i, then fb (until its event j, if given), then fa to
    its end, then the rest of fb.  Returns (box a, box b, reached i)"""
    a_wait, b_wait = threading.Semaphore(0), threading.Semaphore(0)
    state = {}

    def to_b():
        state['hit'] = True
        tb.start()
        a_wait.acquire(timeout=BLOCK)

    def to_a():
        a_wait.release()
        b_wait.acquire(timeout=BLOCK)

    ta_tr = Tracer({i: to_b}, opcodes)

    def run_b():
        try:
            if j is None:
                return fb()
            return Tracer({j: to_a}, opcodes).run(fb)
        finally:
            a_wait.release()

    tb, bb = thread(run_b)

    def run_a():
        try:
            return ta_tr.run(fa)
        finally:
            b_wait.release()
            if not state.get('hit'):
                tb.start()

    ta, ba = thread(run_a)
    ta.start()
    ta.join(120)
    tb.join(120)
    if ta.is_alive() or tb.is_alive():
        ba['exc'] = ba.get('exc') or RuntimeError('runs do not end')
    return ba, bb, state.get('hit', False)


class Baton:
    """schedule over objective calls: `order` lists who may proceed next;
    each thread runs from one scheduling point to the next"""

    def __init__(self, order, k):
        self.order = list(order)
        self.cv = threading.Condition()
        self.turn = None
        self.done = set()
        self.pos = 0
        self.k = k
        self.trace = []

    def point(self, me):
        """called by thread `me` at a scheduling point"""
        with self.cv:
            self.advance()
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.turn == me, timeout=120)

    def advance(self):
        while self.pos < len(self.order):
            nxt = self.order[self.pos]
            self.pos += 1
            if nxt not in self.done:
                self.turn = nxt
                self.trace.append(nxt)
                return
        rest = [x for x in range(self.k) if x not in self.done]
        self.turn = rest[0] if rest else None

    def run(self, fs):
        ths = []
        for me, f in enumerate(fs):
            def go(me=me, f=f):
                with self.cv:
                    self.cv.wait_for(lambda: self.turn == me, timeout=120)
                try:
                    return f(lambda: self.point(me))
                finally:
                    with self.cv:
                        self.done.add(me)
                        self.advance()
                        self.cv.notify_all()

            ths.append(thread(go))
        with self.cv:
            self.advance()
        for t, _ in ths:
            t.start()
        for t, b in ths:
            t.join(120)
            if t.is_alive():
                b['exc'] = RuntimeError('run does not end')
        return [b for _, b in ths]
