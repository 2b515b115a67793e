"""A controlled scheduler for real Python threads: exactly one task runs at a time; before every traced line (or bytecode)
of the code under test, and inside every synchronization primitive, the chooser decides who goes on.  Blocking is visible:
a wait only times out when nobody else can run (time is logical)."""
import sys, threading as _threading, types


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Task:
    def __init__(self, name):
        self.name, self.sem, self.cond, self.done, self.error, self.timed = name, _threading.Semaphore(0), None, False, None, False
        self.daemon = False     # a daemon task may stay blocked when all others have finished


class Scheduler:
    """Deviations: a preemption (leaving a task that could go on) uses the chooser's "preempt" budget."""

    def __init__(self, ch, prefixes, opcodes=False):
        self.ch, self.prefixes, self.opcodes = ch, tuple(prefixes), opcodes
        self.tasks, self.current, self.over = [], None, _threading.Event()
        self.points = 0
        self.aborting = False
        self.log = []
        self.expiries = []      # timeouts of the waits that expired, in logical time order

    # ---- running
    def spawn(self, name, fn, daemon=False):
        t = Task(name)
        t.daemon = daemon

        def body():
            t.sem.acquire()
            try:
                if self.aborting:
                    return
                sys.settrace(self._trace)
                try:
                    fn()
                finally:
                    sys.settrace(None)
            except Abort:
                pass
            except BaseException as e:
                t.error = e
            finally:
                t.done = True
                self._leave()
        t.thread = _threading.Thread(target=body, daemon=True)
        self.tasks.append(t)
        t.thread.start()
        return t

    def run(self, timeout=60):
        self.current = self.tasks[0]
        self.current.sem.release()
        if not self.over.wait(timeout):
            raise Deadlock("the schedule did not finish: a task blocks outside the scheduler")
        self.aborting = True
        for t in self.tasks:
            t.sem.release()
        for t in self.tasks:
            t.thread.join(10)

    # ---- decisions
    def _enabled(self, t):
        return not t.done and (t.cond is None or t.cond())

    def _switch(self, t):
        me = self.current
        self.current = t
        self.log.append(t.name)
        t.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.aborting:
                raise Abort()

    def _leave(self):
        if self.aborting:
            return
        if all(t.done or t.daemon for t in self.tasks):
            self.over.set()
            return
        self._next()

    def _next(self):
        """the running task cannot go on: somebody else has to; failing that a timed wait expires."""
        others = [t for t in self.tasks if t is not self.current and self._enabled(t)]
        if others:
            self._switch(others[self.ch.pick(len(others), "free")])
            return True
        if self.current is not None and not self.current.done and self._enabled(self.current):
            return True
        timed = [t for t in self.tasks if not t.done and t.timed]
        if timed:
            t = timed[0]
            t.expired = True
            t.cond = None
            if t is not self.current:
                self._switch(t)
            return True
        self.over.set()
        self.dead = True
        if self.current is not None and not self.current.done:
            self.current.sem.acquire()
            raise Abort()
        return False

    dead = False

    def point(self):
        me = self.current
        if me is None or self.aborting or me.thread is not _threading.current_thread():
            return
        self.points += 1
        others = [t for t in self.tasks if t is not me and self._enabled(t)]
        if not others or self.ch.budget.get("preempt", 0) <= 0:
            return
        k = self.ch.pick(1 + len(others), "preempt_point")
        if k:
            self.ch.budget["preempt"] -= 1
            self._switch(others[k - 1])

    def block(self, cond, timed, timeout=None):
        """-> True when cond holds, False when the wait expired"""
        me = self.current
        if me is None or me.thread is not _threading.current_thread():
            return cond()
        self.point()
        if cond():
            return True
        me.cond, me.timed, me.expired = cond, timed, False
        self._next()
        me.cond, me.timed = None, False
        if me.expired:
            self.expiries.append(timeout)
        return not me.expired if not cond() else True

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.prefixes):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point()
        return self._local


def primitives(sched):
    """stand-ins for threading's synchronization objects, run by the scheduler"""
    class Event:
        def __init__(self):
            self.flag = False

        def is_set(self):
            sched.point()
            return self.flag
        isSet = is_set

        def set(self):
            sched.point()
            self.flag = True

        def clear(self):
            sched.point()
            self.flag = False

        def wait(self, timeout=None):
            sched.block(lambda: self.flag, timeout is not None, timeout)
            return self.flag

    class Lock:
        reentrant = False

        def __init__(self):
            self.owner, self.depth = None, 0

        def acquire(self, blocking=True, timeout=-1):
            me = _threading.current_thread()
            if self.reentrant and self.owner is me:
                self.depth += 1
                return True
            if not blocking and self.owner is not None:
                return False
            ok = sched.block(lambda: self.owner is None, timeout is not None and timeout >= 0, timeout)
            if not ok:
                return False
            self.owner, self.depth = me, 1
            return True

        def release(self):
            self.depth -= 1
            if self.depth == 0:
                self.owner = None
            sched.point()

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        reentrant = True

    class Condition:
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.acquire, self.release = self.lock.acquire, self.lock.release
            self.waiters = []

        def __enter__(self):
            self.lock.acquire()
            return self

        def __exit__(self, *a):
            self.lock.release()

        def wait(self, timeout=None):
            tok = [False]
            self.waiters.append(tok)
            depth, self.lock.depth = self.lock.depth, 1
            self.lock.release()
            ok = sched.block(lambda: tok[0], timeout is not None, timeout)
            if not ok and tok in self.waiters:
                self.waiters.remove(tok)
            self.lock.acquire()
            self.lock.depth = depth
            return ok

        def wait_for(self, pred, timeout=None):
            r = pred()
            while not r:
                if not self.wait(timeout):
                    return pred()
                r = pred()
            return r

        def notify(self, n=1):
            for tok in self.waiters[:n]:
                tok[0] = True
            del self.waiters[:n]

        def notify_all(self):
            self.notify(len(self.waiters))

    class Semaphore:
        def __init__(self, value=1):
            self.v = value

        def acquire(self, blocking=True, timeout=None):
            if not blocking and self.v <= 0:
                return False
            if not sched.block(lambda: self.v > 0, timeout is not None, timeout):
                return False
            self.v -= 1
            return True

        def release(self, n=1):
            self.v += n
            sched.point()

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    import queue as _q

    class Queue:
        def __init__(self, maxsize=0):
            self.items = []

        def put(self, x, *a, **k):
            sched.point()
            self.items.append(x)
        put_nowait = put

        def get(self, block=True, timeout=None):
            if not block:
                return self.get_nowait()
            if not sched.block(lambda: bool(self.items), timeout is not None, timeout):
                raise _q.Empty()
            return self.items.pop(0)

        def get_nowait(self):
            sched.point()
            if not self.items:
                raise _q.Empty()
            return self.items.pop(0)

        def empty(self):
            return not self.items

        def qsize(self):
            return len(self.items)
    return dict(Event=Event, Lock=Lock, RLock=RLock, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=Semaphore), dict(Queue=Queue, SimpleQueue=Queue)


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class patched:
    """the package under test sees the scheduler's primitives, however it imported them"""

    def __init__(self, sched, module):
        self.sched, self.module, self.saved = sched, module, []

    def __enter__(self):
        import queue as _q, time as _t
        th, qs = primitives(self.sched)
        package = self.module.__name__.split(".")[0]
        modules = [self.module] + [m for n, m in list(sys.modules.items()) if m is not None and m is not self.module and n.split(".")[0] == package]
        reals = {id(getattr(_threading, k)): v for k, v in th.items()}
        reals.update({id(getattr(_q, k)): v for k, v in qs.items()})
        for m in modules:
            for k, v in list(vars(m).items()):
                if v is _threading:
                    self._set(m, k, Proxy(_threading, th))
                elif v is _q:
                    self._set(m, k, Proxy(_q, qs))
                elif id(v) in reals:
                    self._set(m, k, reals[id(v)])
        return self

    def _set(self, m, k, v):
        self.saved.append((m, k, getattr(m, k)))
        setattr(m, k, v)

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
