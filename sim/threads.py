"""A seeded scheduler for real threads: exactly one runs, and hands over only at yield points."""
import random
import threading

_local = threading.local()


class Stuck(RuntimeError):
    """A task neither finished nor reached a yield point in time."""


def yp(tag):
    """Yield point: a task of a running Sched may be preempted here; anything else passes."""
    t = getattr(_local, "task", None)
    if t is None:
        return
    import jax
    if not jax.core.trace_state_clean():
        return
    t.pause(tag)


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.go = threading.Semaphore(0)
        self.done, self.result = False, None
        self.at = "start"
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        _local.task = self
        self.go.acquire()
        try:
            self.result = ("ok", self.fn())
        except BaseException as e:
            self.result = ("raised", e)
        self.done = True
        _local.task = None
        self.sched.back.release()

    def pause(self, tag):
        self.at = tag
        self.sched.back.release()
        self.go.acquire()


class Sched:
    """Runs tasks interleaved as the seed says; `switches` is the schedule taken."""

    def __init__(self, seed, sticky=0.3, timeout=240):
        self.rng = random.Random(seed)
        self.back = threading.Semaphore(0)
        self.tasks, self.switches = [], []
        self.sticky, self.timeout = sticky, timeout

    def add(self, name, fn):
        self.tasks.append(Task(self, name, fn))

    def run(self):
        for t in self.tasks:
            t.thread.start()
        cur = None
        while True:
            ready = [t for t in self.tasks if not t.done]
            if not ready:
                break
            if cur is None or cur.done or self.rng.random() >= self.sticky:
                cur = self.rng.choice(ready)
            self.switches.append((cur.name, cur.at))
            cur.go.release()
            if not self.back.acquire(timeout=self.timeout):
                raise Stuck(f"{cur.name} after {cur.at}")
        for t in self.tasks:
            t.thread.join()
        return [t.result for t in self.tasks]
