"""Executors and pools whose tasks run when and in the order the check says."""
import concurrent.futures
import contextlib
import itertools
import multiprocessing.shared_memory
import multiprocessing
import os
import pickle
import sys
import threading

import concurrent.futures.process
import concurrent.futures.thread
import multiprocessing.dummy
import multiprocessing.pool

AS_COMPLETED, WAIT = concurrent.futures.as_completed, concurrent.futures.wait


CURRENT = []         # the number of the task that is running


class Schedule:
    """order: permutation by which pending tasks are taken (ranks; tasks beyond
    its length come last). early: a task runs as soon as it is submitted.
    faults: {task number: exception}, raised instead of running the task;
    dead: number of the task at which the workers die for good."""

    def __init__(self, order=(), early=False, faults=None, dead=None, gate=None):
        self.order, self.early, self.faults, self.dead = tuple(order), early, faults or {}, dead
        self.tasks, self.executors, self.ran = 0, 0, []
        self.gate = gate
        self.broken = False


class Task(concurrent.futures.Future):
    def __init__(self, owner, number, call):
        super().__init__()
        self.owner, self.number, self.call = owner, number, call

    def run(self):
        s = self.owner.schedule
        if self.done():
            return
        s.ran.append(self.number)
        if s.dead is not None and self.number == s.dead:
            s.broken = True
        if s.broken:
            self.set_exception(concurrent.futures.process.BrokenProcessPool("a worker died"))
        elif self.number in s.faults:
            self.set_exception(s.faults[self.number])
        else:
            try:                              # what crosses a process boundary is copied
                copied = self.owner.copies
                fn, args, kwargs = pickle.loads(pickle.dumps(self.call)) if copied else self.call
                CURRENT.append(self.number)
                try:
                    out = fn(*args, **kwargs)
                finally:
                    CURRENT.pop()
                self.set_result(pickle.loads(pickle.dumps(out)) if copied else out)
            except BaseException as e:        # travels to the caller like in a real executor
                self.set_exception(e)

    def result(self, timeout=None):
        self.owner.drain()
        return super().result(timeout)

    def exception(self, timeout=None):
        self.owner.drain()
        return super().exception(timeout)


class Executor(concurrent.futures.Executor):
    """Stands in for ProcessPoolExecutor; current() names the schedule."""
    schedule_of = {}
    copies = True                            # processes: what they get and give is copied

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kwargs):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.schedule = self.schedule_of[threading.get_ident()]
        self.schedule.executors += 1
        self.pending, self.closed = [], False
        if callable(initializer):
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        task = Task(self, self.schedule.tasks, (fn, args, kwargs))
        self.schedule.tasks += 1
        if self.schedule.early:
            task.run()
        else:
            self.pending.append(task)
        return task

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        tasks = [self.submit(fn, *args) for args in zip(*iterables)]
        return (t.result() for t in tasks)

    def drain(self):
        if not self.pending:
            return
        if self.schedule.gate is not None:       # someone else runs them
            todo, self.pending = self.pending, []
            self.schedule.gate(todo)
            return
        rank = {n: k for k, n in enumerate(self.schedule.order)}
        todo = sorted(self.pending, key=lambda t: (rank.get(t.number, len(rank)), t.number))
        self.pending = []
        for t in todo:
            t.run()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for t in self.pending:
                t.cancel()
            self.pending = []
        if wait:
            self.drain()

    def __exit__(self, *exc):
        self.shutdown(wait=True)
        return False


class Threads(Executor):
    """Stands in for ThreadPoolExecutor."""
    copies = False

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers, None, initializer, initargs)


def _as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        if isinstance(f, Task):
            f.owner.drain()
    return AS_COMPLETED(fs, timeout)


def _wait(fs, *args, **kwargs):
    fs = list(fs)
    for f in fs:
        if isinstance(f, Task):
            f.owner.drain()
    return WAIT(fs, *args, **kwargs)


def run(schedule, fn):
    Executor.schedule_of[threading.get_ident()] = schedule
    return fn()


@contextlib.contextmanager
def segments():
    """The names of the shared memory segments created meanwhile."""
    names = []
    cls = multiprocessing.shared_memory.SharedMemory
    init = cls.__init__

    def wrapped(self, name=None, create=False, size=0, **kw):
        init(self, name, create, size, **kw)
        if create:
            names.append(self.name)
    cls.__init__ = wrapped
    try:
        yield names
    finally:
        cls.__init__ = init


def alive(names):
    return [n for n in names if os.path.exists("/dev/shm/" + n)]


def orders(n):
    return list(itertools.permutations(range(n)))


def together(schedules, fns, order):
    """Runs the calls in threads of their own until each waits for its tasks,
    then all their tasks in the given order (indices into the joint list),
    then lets them go on. Returns results or exceptions; None: uncontrolled."""
    results, waiting = [None] * len(fns), {}
    lock = threading.Condition()

    def gate_of(k):
        def gate(todo):
            done = threading.Event()
            with lock:
                waiting[k] = (todo, done)
                lock.notify_all()
            done.wait(60)
        return gate

    def body(k):
        Executor.schedule_of[threading.get_ident()] = schedules[k]
        try:
            results[k] = ("value", fns[k]())
        except BaseException as e:
            results[k] = ("error", e)
        with lock:
            lock.notify_all()

    threads = []
    for k in range(len(fns)):
        schedules[k].gate = gate_of(k)
        t = threading.Thread(target=body, args=(k,), daemon=True)
        threads.append(t)
        t.start()
        with lock:           # one after the other up to their tasks
            lock.wait_for(lambda: k in waiting or results[k] is not None, 60)
    joint = [t for k in sorted(waiting) for t in waiting[k][0]]
    rank = list(order) + [i for i in range(len(joint)) if i not in order]
    for i in rank:
        if i < len(joint):
            joint[i].run()
    for k in waiting:
        waiting[k][1].set()
    for t in threads:
        t.join(60)
    return results


# ------------------------------------------------------ multiprocessing pools
class AsyncResult:
    def __init__(self, tasks, single, callback=None):
        self.tasks, self.single, self.callback = tasks, single, callback

    def get(self, timeout=None):
        out = [t.result() for t in self.tasks]
        out = out[0] if self.single else out
        if self.callback:
            self.callback(out)
        return out

    def wait(self, timeout=None):
        for t in self.tasks:
            t.owner.drain()

    def ready(self):
        return all(t.done() for t in self.tasks)

    def successful(self):
        return all(t.exception() is None for t in self.tasks)


class Pool:
    """Stands in for multiprocessing pools; one task per argument."""
    executor = Executor

    def __init__(self, processes=None, initializer=None, initargs=(), *args, **kwargs):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.pool = self.executor(processes)
        if initializer:
            initializer(*initargs)

    def _all(self, fn, argss):
        tasks = [self.pool.submit(fn, *a) for a in argss]
        return tasks

    def starmap(self, fn, it, chunksize=None):
        return AsyncResult(self._all(fn, it), False).get()

    def map(self, fn, it, chunksize=None):
        return AsyncResult(self._all(fn, [(a,) for a in it]), False).get()

    def imap(self, fn, it, chunksize=1):
        return (t.result() for t in self._all(fn, [(a,) for a in it]))

    def imap_unordered(self, fn, it, chunksize=1):
        tasks = self._all(fn, [(a,) for a in it])
        self.pool.drain()
        rank = {n: k for k, n in enumerate(self.pool.schedule.ran)}
        return (t.result() for t in sorted(tasks, key=lambda t: rank.get(t.number, 0)))

    def apply(self, fn, args=(), kwds={}):
        return self.pool.submit(fn, *args, **kwds).result()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return AsyncResult([self.pool.submit(fn, *args, **kwds)], True, callback)

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self._all(fn, [(a,) for a in it]), False, callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self._all(fn, it), False, callback)

    def close(self):
        self.pool.closed = True

    def terminate(self):                 # kills what has not run
        self.pool.closed = True
        self.pool.pending = []

    def join(self):
        self.pool.drain()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()
        return False


class ThreadPool(Pool):
    executor = Threads


class Context:
    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return Pool if name == "Pool" else getattr(self.real, name)


GET_CONTEXT = multiprocessing.get_context
STAND_INS = [(concurrent.futures.ProcessPoolExecutor, Executor), (concurrent.futures.ThreadPoolExecutor, Threads),
             (AS_COMPLETED, _as_completed), (WAIT, _wait), (GET_CONTEXT, lambda method=None: Context(GET_CONTEXT(method))),
             (multiprocessing.Pool, Pool), (multiprocessing.pool.Pool, Pool), (multiprocessing.pool.ThreadPool, ThreadPool),
             (multiprocessing.dummy.Pool, ThreadPool)]


@contextlib.contextmanager
def controlled():
    """While this holds, what makes pools is the stand-in, in the modules that
    define it and under whatever name the modules under test hold it."""
    spaces = [vars(m) for m in (concurrent.futures, concurrent.futures.process, concurrent.futures.thread, multiprocessing, multiprocessing.pool, multiprocessing.dummy)]
    spaces += [vars(m) for name, m in list(sys.modules.items()) if name.split(".")[0] == "girth"]
    saved = []
    for d in spaces:
        for name in list(d):
            for real, stand in STAND_INS:
                if d[name] is real:
                    saved.append((d, name, real))
                    d[name] = stand
                    break
    try:
        yield
    finally:
        for d, name, value in reversed(saved):
            d[name] = value
