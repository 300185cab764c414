"""Overlapping executions: several callables, each in its own thread, of which
exactly one runs at any moment.  Which one goes on is decided, from a seed, at
line (or bytecode) boundaries of the code under test, so an interleaving can
be repeated exactly.
"""
import hashlib
import os
import random
import sys
import threading

from . import core

ROOTS = (os.path.join(core.REPO, 'src') + os.sep, os.sep + 'blimpy' + os.sep)


class Stop(BaseException):
    """unwinds the threads of a run that is given up"""


def ours(code):
    f = code.co_filename
    return f.startswith(ROOTS[0]) or ROOTS[1] in f


class Overlap(object):
    def __init__(self, seed, burst, opcodes=False):
        self.rng = random.Random(seed)
        self.burst = burst
        self.opcodes = opcodes
        self.left = 0
        self.switches = 0
        self.inside = 0         # switches away from a call in progress
        self.trail = hashlib.blake2b(digest_size=8)
        self.dead = False
        self.events = {}
        self.alive = []
        self.errors = []

    # called by the running thread only
    def pick(self):
        self.left = self.rng.randint(1, self.burst)
        return self.rng.choice(self.alive)

    def hand(self, me, to):
        self.switches += 1
        self.trail.update(b'%d ' % to)
        self.events[to].set()
        if me is not None:
            self.events[me].wait()
            self.events[me].clear()
            if self.dead:
                raise Stop()

    def tracer(self, me):
        def local(frame, event, arg):
            if event in ('line', 'opcode'):
                if self.dead:
                    raise Stop()
                self.left -= 1
                if self.left <= 0:
                    to = self.pick()
                    if to != me:
                        self.inside += 1
                        self.hand(me, to)
            return local

        def enter(frame, event, arg):
            if not ours(frame.f_code):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return enter

    def body(self, me, job):
        self.events[me].wait()
        self.events[me].clear()
        try:
            if not self.dead:
                sys.settrace(self.tracer(me))
                try:
                    job()
                finally:
                    sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            self.errors.append(e)
        self.alive.remove(me)
        if self.alive and not self.dead:
            self.hand(None, self.pick())

    def run(self, jobs):
        ths = []
        for k, job in enumerate(jobs):
            self.events[k] = threading.Event()
            self.alive.append(k)
            ths.append(threading.Thread(target=self.body, args=(k, job),
                                        daemon=True))
        for t in ths:
            t.start()
        try:
            self.events[self.pick()].set()
            for t in ths:
                while t.is_alive():
                    t.join(1)
        finally:
            if any(t.is_alive() for t in ths):
                self.dead = True
                for e in self.events.values():
                    e.set()
                for t in ths:
                    t.join(5)
        if self.errors:
            raise self.errors[0]


class ThreadOut(object):
    """standard output that keeps what each thread prints apart"""

    def __init__(self):
        self.local = threading.local()

    def start(self):
        self.local.parts = []

    def take(self):
        p, self.local.parts = self.local.parts, []
        return ''.join(p)

    def write(self, s):
        parts = getattr(self.local, 'parts', None)
        if parts is not None:
            parts.append(s)
        return len(s)

    def flush(self):
        pass
