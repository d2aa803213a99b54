"""A controlled stand-in for multiprocessing.Pool.

One Schedule fixes everything the operating system would decide for a family of
pools: for each task, in submission order, when its arguments are pickled
(`early`: at submission, `late`: just before it runs), and the order in which
pending tasks run.  Tasks run as late as the program lets them (at the first
join()/get() that needs them), following the schedule's order, unless `eager`.
Arguments and results are round-tripped through pickle, as between processes.
"""
import pickle
import multiprocessing as mp


class Schedule(object):
    def __init__(self, order, late, eager=False):
        self.order, self.late, self.eager = tuple(order), tuple(late), eager
        self.tasks = []
        self.pools = []
        self.log = []

    def add(self, task):
        i = len(self.tasks)
        task.idx = i
        self.tasks.append(task)
        self.log.append(("submit", i))
        if not (i < len(self.late) and self.late[i]):
            task.freeze()
        if self.eager:
            self.run_until([task])

    def rank(self, i):
        return self.order.index(i) if i in self.order else len(self.order) + i

    def run_until(self, needed):
        while any(not t.done for t in needed):
            pend = [t for t in self.tasks if not t.done]
            min(pend, key=lambda t: self.rank(t.idx)).run()

    def install(self):
        self._saved = mp.Pool
        mp.Pool = lambda *a, **k: FakePool(self)
        return self

    def uninstall(self):
        mp.Pool = self._saved

    __enter__ = install

    def __exit__(self, *a):
        self.uninstall()


class Task(object):
    def __init__(self, sched, fn, args, kw, cb=None, ecb=None):
        self.sched, self.call, self.blob, self.done = sched, (fn, args, kw), None, False
        self.cb, self.ecb = cb, ecb

    def freeze(self):
        if self.blob is None:
            self.blob = pickle.dumps(self.call)

    def run(self):
        self.freeze()
        self.sched.log.append(("run", self.idx))
        fn, args, kw = pickle.loads(self.blob)
        try:
            self.ok, self.out = True, pickle.dumps(fn(*args, **kw))
        except Exception as e:
            self.ok, self.out = False, pickle.dumps(e)
        self.done = True
        v = pickle.loads(self.out)
        self.value = v
        if self.ok and self.cb:
            self.cb(v)
        if not self.ok and self.ecb:
            self.ecb(v)

    # AsyncResult interface
    def get(self, timeout=None):
        self.sched.run_until([self])
        self.sched.log.append(("get", self.idx))
        if not self.ok:
            raise self.value
        return self.value

    def wait(self, timeout=None):
        self.sched.run_until([self])

    def ready(self):
        return self.done

    def successful(self):
        return self.ok


class Many(object):
    def __init__(self, ts):
        self.ts = ts

    def get(self, timeout=None):
        return [t.get() for t in self.ts]

    def wait(self, timeout=None):
        [t.wait() for t in self.ts]

    def ready(self):
        return all(t.done for t in self.ts)


class FakePool(object):
    def __init__(self, sched):
        self.sched, self.mine, self.closed = sched, [], False
        sched.pools.append(self)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        t = Task(self.sched, func, tuple(args), dict(kwds or {}), callback, error_callback)
        self.mine.append(t)
        self.sched.add(t)
        return t

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Many([self.apply_async(func, a) for a in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Many([self.apply_async(func, (a,)) for a in iterable])

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        ts = [self.apply_async(func, (a,)) for a in iterable]
        self.sched.run_until(ts)
        runs = [i for k, i in self.sched.log if k == "run"]
        return iter([t.get() for t in sorted(ts, key=lambda t: runs.index(t.idx))])

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        self.sched.run_until(self.mine)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
