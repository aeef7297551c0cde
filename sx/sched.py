"""Deterministic scheduling of real threads: every shared access is a point where the explorer picks who runs next.
Not instrumented: runs natively under both the symbolic and the concrete interpreter."""
import threading as real_threading


class Kill(BaseException):
    """Ends a thread of an abandoned path."""


class Sched(object):
    current = None                # the scheduler in charge of this path, if threads are running

    def __init__(self, c):
        self.sleep = set()          # indices of tasks whose next step was explored first from an equivalent state (sleep sets)
        self.c, self.tasks, self.me, self.main, self.dead, self.n = c, [], None, real_threading.Semaphore(0), False, 0

    def spawn(self, f):
        self.tasks.append(Task(self, f))

    def run(self):
        """True if every task ran to its end, False if they block each other."""
        Sched.current = self
        try:
            for t in self.tasks:
                t.start()
            while True:
                left = [t for t in self.tasks if not t.done]
                if not left:
                    return True
                fresh = [t for t in left if t.op is None]
                if fresh:
                    t = fresh[0]                            # up to its first shared access
                else:
                    ready = [t for t in left if t.op[1] != "acquire" or t.op[0].free_for(t)]
                    if not ready:
                        return False
                    awake = [t for t in ready if t.i not in self.sleep]
                    if not awake:
                        self.c.assume(False)                # another order of independent steps covers this schedule
                    if len(awake) == 1:
                        t = awake[0]
                    else:
                        self.n += 1
                        t = self.tasks[self.c.choice("turn%d" % self.n, [x.i for x in awake])]
                    self.sleep |= set(x.i for x in awake if x.i < t.i)
                    self.sleep = set(i for i in self.sleep if i != t.i and not depend(self.tasks[i].op, t.op))
                self.me = t
                t.go.release()
                self.main.acquire()
                self.me = None
                if t.crash is not None:
                    raise t.crash
        finally:
            self.dead = True
            for t in self.tasks:
                while not t.done:
                    t.go.release()
                    t.thread.join(0.01)
            Sched.current = None

    def point(self, obj, kind):
        t = self.me
        t.op = (obj, kind)
        self.main.release()
        t.go.acquire()
        if self.dead:
            raise Kill()


class Task(object):
    def __init__(self, s, f):
        self.s, self.f, self.i = s, f, len(s.tasks)
        self.go, self.done, self.op, self.crash, self.result = real_threading.Semaphore(0), False, None, None, None

    def start(self):
        self.thread = real_threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.go.acquire()
        try:
            if not self.s.dead:
                self.result = self.f()
        except Kill:
            pass
        except BaseException as e:          # the explorer's own control flow included: the main thread re-raises it
            self.crash = e
        self.done = True
        self.s.main.release()


def depend(a, b):
    return a[0] is b[0] and not (a[1] == "read" and b[1] == "read")


def point(obj, kind):
    s = Sched.current
    if s is not None and s.me is not None:
        if s.dead:
            raise Kill()
        s.point(obj, kind)


class SLock(object):
    """A lock the scheduler knows about."""
    every = []
    reentrant = False

    def __init__(self):
        self.holder, self.depth = None, 0
        SLock.every.append(self)

    def who(self):
        s = Sched.current
        return "main" if s is None or s.me is None else s.me

    def free_for(self, t):
        return self.holder is None or (self.reentrant and self.holder is t)

    def acquire(self, blocking=True, timeout=-1):
        point(self, "acquire" if blocking else "write")
        t = self.who()
        if not self.free_for(t):
            if not blocking:
                return False
            raise Deadlock()
        self.holder = t
        self.depth += 1
        return True

    def release(self):
        point(self, "write")
        if self.holder is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.holder = None

    def locked(self):
        point(self, "read")
        return self.holder is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SRLock(SLock):
    reentrant = True


class Deadlock(Exception):
    pass


class FakeThreading(object):
    Lock, RLock = SLock, SRLock

    def __getattr__(self, n):
        return getattr(real_threading, n)


class WDict(dict):
    """A pool's items: every access is a scheduling point."""

    def __contains__(self, k):
        point(self, "read")
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        point(self, "read")
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        point(self, "write")
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        point(self, "write")
        dict.__delitem__(self, k)

    def __iter__(self):
        point(self, "read")
        return dict.__iter__(self)

    def keys(self):
        point(self, "read")
        return dict.keys(self)

    def values(self):
        point(self, "read")
        return dict.values(self)

    def items(self):
        point(self, "read")
        return dict.items(self)

    def get(self, k, d=None):
        point(self, "read")
        return dict.get(self, k, d)

    def pop(self, *a):
        point(self, "write")
        return dict.pop(self, *a)

    def setdefault(self, k, d=None):
        point(self, "write")
        return dict.setdefault(self, k, d)

    def update(self, *a, **k):
        point(self, "write")
        dict.update(self, *a, **k)


def watch(item, ispool):
    cls = type(item)

    def get(self):
        point(self, "read")
        return self.__dict__["_watched"]

    def put(self, v):
        point(self, "write")
        self.__dict__["_watched"] = WDict(v) if ispool else v
    v = item.value
    item.__class__ = type("Watched" + cls.__name__, (cls,), {"value": property(get, put)})
    item.__dict__.pop("value", None)
    item.value = v
