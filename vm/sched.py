"""Schedule perturbation: while active, every thread running ylearn code is paused at randomly chosen lines (which also hands
the interpreter to another thread), and the interpreter switches threads as often as it can. Counts what really happened:
lines traced, pauses, threads seen, and how often the running thread changed between traced lines."""
import random
import sys
import threading
import time


class Perturb:
    def __init__(self, seed, p=.05, pause=.0005, only="/ylearn/"):
        self.seed, self.p, self.pause, self.only = seed, p, pause, only
        self.lines = self.pauses = self.switches = 0
        self.threads = set()
        self.order = []
        self.last = None

    def _trace(self, frame, event, arg):
        if self.only not in frame.f_code.co_filename:
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            me = threading.get_ident()
            self.lines += 1
            if me != self.last:
                self.switches += 1
                self.last = me
                self.threads.add(me)
                if len(self.order) < 400:
                    self.order.append(hash((me, frame.f_lineno)) & 0xffff)
            if self.rnd.random() < self.p:
                self.pauses += 1
                time.sleep(self.rnd.random() * self.pause)
        return self._local

    def __enter__(self):
        self.rnd = random.Random(self.seed)
        self.interval = sys.getswitchinterval()
        self.saved = sys.gettrace(), threading.gettrace()
        sys.setswitchinterval(1e-6)
        threading.settrace(self._trace)
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.saved[0])
        threading.settrace(self.saved[1])
        sys.setswitchinterval(self.interval)

    def signature(self):
        """Names the interleaving seen, by relative thread number and line."""
        return hash(tuple(self.order))
