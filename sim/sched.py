"""The deterministic scheduler.

Caller threads are real threads, parked and released one at a time.  The only
points at which control can move are *lines of the code under test* (frames
whose file lies under /repo/src, observed with sys.settrace) - so which thread
runs, for how many lines, and at which line it is aborted are all decided by
the plan, never by the OS.

A plan's schedule is an explicit list of segments [thread, lines].  When it is
exhausted the remaining threads run to completion in index order.
"""
import sys
import threading

from . import boot
from .util import StepLimit


class Hang(RuntimeError):
    """Every unfinished thread is stuck on something another one holds."""


def in_callback(frame):
    """Is this line run by the jax runtime (a host callback of compiled code)?"""
    while frame is not None:
        f = frame.f_code.co_filename
        if f.endswith(("jax/_src/debugging.py", "jax/_src/callback.py")):
            return True
        frame = frame.f_back
    return False


class Task:
    def __init__(self, fn, name=""):
        self.fn = fn
        self.name = name
        self.result = None
        self.error = None
        self.done = False
        self.lines = 0
        self.blocked = False     # released, but stuck on a lock some parked thread holds
        self.go = threading.Event()


class ThreadSim:
    """Runs tasks under one schedule.

    aborts: {task index: (line number, exception instance factory)}
    line_cap: per-task bound on lines of code under test (StepLimit beyond it)
    """

    def __init__(self, schedule=(), aborts=None, line_cap=None, on_switch=None,
                 mode=None, stall=15.0, places=None, on_line=None):
        self.schedule = [list(s) for s in schedule]
        self.aborts = aborts or {}
        self.line_cap = line_cap
        self.trace = []          # (thread, where) at each context switch
        self.on_switch = on_switch
        self.mode = mode         # context manager factory entered per thread
        self.stall = stall
        self.stalls = 0
        self.places = places     # filled with {where: [line numbers]} when given
        self.on_line = on_line   # called with the task index before every line
        self.lock = threading.Lock()
        self.pos = 0
        self.left = 0
        self.current = None
        self.tasks = []
        self.finished = threading.Event()
        self.switches = 0
        self.fired = {}
        self.src = boot.SRC

    # -- tracing ---------------------------------------------------------
    def _tracer(self, idx):
        task = self.tasks[idx]
        src = self.src
        abort = self.aborts.get(idx)
        cap = self.line_cap
        solo = len(self.tasks) == 1
        places = self.places
        on_line = self.on_line

        def local(frame, event, arg):
            if event != "line":
                return local
            task.lines += 1
            if task.blocked:
                self._unblocked(idx)
            if on_line is not None:
                on_line(idx, frame)
            if places is not None:
                places.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(task.lines)
            if abort is not None and task.lines >= abort[0] and idx not in self.fired and not in_callback(frame):
                self.fired[idx] = (frame.f_code.co_name, frame.f_lineno,
                                   frame.f_code.co_filename[len(src):])
                raise abort[1]()
            if cap is not None and task.lines > cap:
                raise StepLimit(f"{task.name}: more than {cap} lines")
            if not solo:
                self.left -= 1
                if self.left <= 0:
                    self._yield(idx, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_name == "<module>":
                return None      # never parked inside an import
            if frame.f_code.co_filename.startswith(src):
                return local
            return None
        return glob

    # -- baton -----------------------------------------------------------
    def _pick(self):
        while self.pos < len(self.schedule):
            t, n = self.schedule[self.pos]
            self.pos += 1
            t %= len(self.tasks)
            if not self.tasks[t].done and not self.tasks[t].blocked and n > 0:
                self.left = n
                return t
        for t, task in enumerate(self.tasks):
            if not task.done and not task.blocked:
                self.left = 1 << 60
                return t
        for t, task in enumerate(self.tasks):
            if not task.done:
                self.left = 1 << 60
                return t
        return None

    # A released thread can be stuck on a lock whose holder is parked.  After
    # `stall` seconds without a line the baton moves on; the stuck thread waits
    # for its turn at its next line.
    def _unblocked(self, idx):
        task = self.tasks[idx]
        with self.lock:
            if self.current == idx:
                task.blocked = False
                return
        task.go.wait()
        task.blocked = False

    def _rescue(self):
        """True if the baton could be moved to a thread that can run."""
        with self.lock:
            cur = self.tasks[self.current]
            if cur.done:
                return True
            cur.blocked = True
            cur.go.clear()
            if all(t.done or t.blocked for t in self.tasks):
                return False
            self.stalls += 1
            nxt = self._pick()
            self.current = nxt
        self.trace.append((-1, nxt, "<stall>", 0))
        self.tasks[nxt].go.set()
        return True

    def _yield(self, idx, frame):
        nxt = self._pick()
        if nxt is None or nxt == idx:
            return
        self.switches += 1
        self.trace.append((idx, nxt, frame.f_code.co_name, frame.f_lineno))
        if self.on_switch is not None:
            self.on_switch(idx, nxt)
        self.current = nxt
        me = self.tasks[idx]
        me.go.clear()
        self.tasks[nxt].go.set()
        me.go.wait()

    def _body(self, idx):
        task = self.tasks[idx]
        task.go.wait()
        try:
            if self.mode is not None:
                with self.mode():
                    sys.settrace(self._tracer(idx))
                    try:
                        task.result = task.fn()
                    finally:
                        sys.settrace(None)
            else:
                sys.settrace(self._tracer(idx))
                try:
                    task.result = task.fn()
                finally:
                    sys.settrace(None)
        except BaseException as exc:   # recorded, judged by the oracle
            task.error = exc
        finally:
            sys.settrace(None)
            with self.lock:
                task.done = True
                if self.current == idx:
                    nxt = self._pick()
                    if nxt is None:
                        self.finished.set()
                    else:
                        self.current = nxt
                        self.trace.append((idx, nxt, "<end>", 0))
                        self.tasks[nxt].go.set()
                elif all(t.done for t in self.tasks):
                    self.finished.set()

    def run(self, fns, names=None):
        self.tasks = [Task(fn, (names or [])[k] if names else str(k))
                      for k, fn in enumerate(fns)]
        threads = [threading.Thread(target=self._body, args=(k,), daemon=True)
                   for k in range(len(fns))]
        for t in threads:
            t.start()
        first = self._pick()
        self.current = first
        self.tasks[first].go.set()
        seen, still = None, 0
        while not self.finished.wait(self.stall):
            now = (self.current, sum(t.lines for t in self.tasks), self.switches)
            still = still + 1 if now == seen else 0
            # moving the baton is harmless, calling it a deadlock is not: wait much longer for that
            if now == seen and not self._rescue() and still >= 12:
                raise Hang(f"threads {[k for k, t in enumerate(self.tasks) if not t.done]} wait for each other "
                           f"after {self.switches} switches")
            seen = now
        for t in threads:
            t.join(10)
        return self.tasks


def run_solo(fn, abort=None, line_cap=None, mode=None, name="solo", places=None):
    """One caller, on this thread, under the same line-step accounting."""
    sim = ThreadSim(aborts={0: abort} if abort else None, line_cap=line_cap, mode=mode, places=places)
    task = Task(fn, name)
    sim.tasks = [task]
    old = sys.gettrace()
    try:
        if mode is not None:
            with mode():
                sys.settrace(sim._tracer(0))
                try:
                    task.result = fn()
                finally:
                    sys.settrace(old)
        else:
            sys.settrace(sim._tracer(0))
            try:
                task.result = fn()
            finally:
                sys.settrace(old)
    except BaseException as exc:
        task.error = exc
    finally:
        sys.settrace(old)
    task.done = True
    task.fired = sim.fired.get(0)
    return task
