"""
Deterministic thread interleavings at the granularity of source lines of the library.

The threads pass a token: at each line event in library code the holder may hand it to another thread. A holder that does not reach a
line event for a while (it waits for a lock, or runs native code) loses it, so that code which synchronizes its threads runs to its end.
"""
import sys
import threading

STEAL_S = 0.05


class Sched:
    def __init__(self, rnd, src, p):
        self.rnd, self.src, self.p = rnd, src, p
        self.cv = threading.Condition()
        self.turn, self.alive = 0, set()
        self.switches, self.points, self.steals = 0, 0, 0
        self.log = []

    def wait(self, k):
        """Called with the condition held."""
        while self.turn != k and self.turn in self.alive:
            before = self.points
            if not self.cv.wait(STEAL_S) and self.points == before and self.turn != k:
                self.steals += 1
                break
        self.turn = k

    def point(self, k, where):
        with self.cv:
            self.points += 1
            if self.turn != k:
                self.wait(k)
            if len(self.alive) > 1 and self.rnd.random() < self.p:
                self.turn = self.rnd.choice(sorted(self.alive - {k}))
                self.switches += 1
                if len(self.log) < 4000:
                    self.log.append((k, where))
                self.cv.notify_all()
                self.wait(k)

    def run(self, fns):
        """Runs the functions, each in a thread; returns [(result, exception)]."""
        res = [(None, None)] * len(fns)
        self.alive = set(range(len(fns)))
        gate = threading.Barrier(len(fns))

        def body(k):
            def local(frame, event, arg):
                if event == "line":
                    self.point(k, frame.f_lineno)
                return local

            def trace(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(self.src) else None
            gate.wait()
            with self.cv:
                self.wait(k) if self.turn != k else None
            sys.settrace(trace)
            try:
                res[k] = (fns[k](), None)
            except BaseException as x:
                res[k] = (None, x)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.discard(k)
                    if self.turn == k and self.alive:
                        self.turn = self.rnd.choice(sorted(self.alive))
                    self.cv.notify_all()
        th = [threading.Thread(target=body, args=(k,)) for k in range(len(fns))]
        [x.start() for x in th]
        [x.join() for x in th]
        return res


def stress(fns, interval, rounds=1):
    """The same with the interpreter's own preemption."""
    res = [(None, None)] * len(fns)
    gate = threading.Barrier(len(fns))

    def body(k):
        gate.wait()
        try:
            for _ in range(rounds):
                x = fns[k]()
            res[k] = (x, None)
        except BaseException as x:
            res[k] = (None, x)
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        th = [threading.Thread(target=body, args=(k,)) for k in range(len(fns))]
        [x.start() for x in th]
        [x.join() for x in th]
    finally:
        sys.setswitchinterval(old)
    return res




def lines(src, fn):
    """The library lines that a call reaches, in order."""
    where = []

    def local(frame, event, arg):
        if event == "line":
            where.append((frame.f_code.co_filename[len(src):], frame.f_lineno))
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(src) else None)
    try:
        fn()
    finally:
        sys.settrace(None)
    return where


def points(r, where, most):
    """First, last and some occurrence of each line."""
    by = {}
    for i, at in enumerate(where):
        by.setdefault(at, []).append(i)
    pts = sorted({i for v in by.values() for i in (v[0], v[-1], r.choice(v))})
    return pts if len(pts) <= most else sorted(r.sample(pts, most))


def preempt(src, n, a, b):
    """
    Runs a; before its n-th library line, another thread runs b to its end (or, if it has to wait for a, as far as it gets).
    Returns ((result, exception) of a, of b, whether b ran inside of a).
    """
    res = [(None, None), (None, None)]
    count, th, inside = [0], [], [False]

    def other():
        try:
            res[1] = (b(), None)
        except BaseException as x:
            res[1] = (None, x)

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] - 1 == n:
                sys.settrace(None)
                th.append(threading.Thread(target=other))
                th[0].start()
                th[0].join(0.5)
                inside[0] = not th[0].is_alive()
        return local if not th else None
    sys.settrace(lambda frame, event, arg: local if not th and frame.f_code.co_filename.startswith(src) else None)
    try:
        res[0] = (a(), None)
    except BaseException as x:
        res[0] = (None, x)
    finally:
        sys.settrace(None)
    if th:
        th[0].join()
    else:
        other()
    return res[0], res[1], inside[0]
