"""Several processes (or threads) that take turns at every operation on the
file system; who is next is for the solver to choose."""
import _thread
import threading


class Stop(BaseException):
    """Ends a process when the run is over."""


class Lock(object):
    """A lock whose waiters let others run; every process has its own."""

    def __init__(self, procs, reentrant):
        self.procs = procs
        self.reentrant = reentrant
        self.owner = {}

    def _holder(self):
        return self.owner.setdefault(self.procs.pid(), [None, 0])

    def acquire(self, blocking=True, timeout=-1):
        me = self.procs.me()
        while 1:
            h = self._holder()
            if h[1] == 0 or self.reentrant and h[0] == me:
                h[0] = me
                h[1] += 1
                return True
            if not blocking:
                return False
            self.procs.wait()

    def release(self):
        h = self._holder()
        if h[1] == 0 or self.reentrant and h[0] != self.procs.me():
            raise RuntimeError('not held')
        h[1] -= 1

    def locked(self):
        return self._holder()[1] > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Threading(object):
    """The threading module, with other locks."""

    def __init__(self, procs):
        self.Lock = lambda: Lock(procs, False)
        self.RLock = lambda: Lock(procs, True)

    def __getattr__(self, name):
        return getattr(threading, name)


class Procs(object):
    def __init__(self, sx, disk, modules, preemptions):
        self.sx = sx
        self.disk = disk
        self.left = preemptions
        self.current = None
        self.bodies = []
        self.pids = []
        self.done = []
        self.results = []
        self.error = None
        self.turn = 0
        self.waits = 0
        kinds = (type(threading.Lock()), type(threading.RLock()))
        fake = Threading(self)
        for m in modules:
            for name, v in sorted(vars(m).items()):
                if v is threading:
                    sx.patch(m, name, fake)
                elif v is threading.Lock:
                    sx.patch(m, name, fake.Lock)
                elif v is threading.RLock:
                    sx.patch(m, name, fake.RLock)
                elif isinstance(v, kinds):
                    sx.patch(m, name,
                             Lock(self, not isinstance(v, kinds[0])))
        disk.hook = self.step
        disk.sleeper = self.sleep

    def me(self):
        return self.current

    def pid(self):
        return self.disk.pid

    def add(self, body, pid):
        self.bodies.append(body)
        self.pids.append(pid)
        self.done.append(False)
        self.results.append(None)
        if pid not in self.disk.alive:
            self.disk.alive.append(pid)

    def step(self, kind, path, detail):
        if self.error is not None:
            raise Stop()
        if self.current is None:
            return
        self.turn += 1
        others = self.others()
        if others and self.left > 0 and self.sx.choose(
                'switch %d' % self.turn, [False, True]):
            self.left -= 1
            self.switch(self.pick(others))

    def sleep(self, seconds):
        self.wait()

    def wait(self):
        """The running process cannot go on by itself."""
        if self.error is not None:
            raise Stop()
        if self.current is None:
            raise AssertionError('waits for ever')
        self.waits += 1
        others = self.others()
        if self.waits > 30:
            raise AssertionError('waits for ever')
        if not others:
            return
        # fairly, so that whoever can go on does
        later = [i for i in others if i > self.current]
        self.switch((later or others)[0])

    def pick(self, others):
        if len(others) == 1:
            return others[0]
        return self.sx.choose('next %d' % self.turn, others)

    def others(self):
        return [i for i in range(len(self.bodies))
                if i != self.current and not self.done[i]]

    def switch(self, to):
        me = self.current
        self.current = to
        self.disk.pid = self.pids[to]
        self.locks[to].release()
        self.locks[me].acquire()
        if self.error is not None:
            raise Stop()

    def run(self, first):
        """Runs all to their end."""
        self.locks = [_thread.allocate_lock() for _ in self.bodies]
        for lock in self.locks:
            lock.acquire()
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.running = len(self.bodies)
        old = _thread.stack_size(128 * 1024 * 1024)
        try:
            for i in range(len(self.bodies)):
                _thread.start_new_thread(self.thread, (i,))
        finally:
            _thread.stack_size(old)
        home = self.disk.pid
        self.current = first
        self.disk.pid = self.pids[first]
        self.locks[first].release()
        self.finished.acquire()
        self.current = None
        self.disk.pid = home
        if self.error is not None:
            raise self.error
        return self.results

    def thread(self, i):
        self.locks[i].acquire()
        try:
            if self.error is None:
                self.results[i] = self.bodies[i]()
        except Stop:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = e
        self.done[i] = True
        self.running -= 1
        if self.error is None:
            others = self.others()
            if others:
                try:
                    self.turn += 1
                    to = self.pick(others)
                except BaseException as e:
                    self.error = e
                else:
                    self.current = to
                    self.disk.pid = self.pids[to]
                    self.locks[to].release()
        if self.error is not None:
            # let the others end, one after the other
            for j in range(len(self.bodies)):
                if not self.done[j]:
                    self.locks[j].release()
                    break
        if self.running == 0:
            self.finished.release()
