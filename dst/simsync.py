"""Threads, thread pools, queues, pipes, managers and synchronisation objects created by the code under test.

pdf2docx uses hardly any of these today; they are here so that a change that starts to do so stays inside the
simulation, i.e. is scheduled, faulted and judged like the rest. Objects made elsewhere are the real ones."""
import concurrent.futures
import errno
import multiprocessing
import pickle
import queue
import sys
import threading
import weakref

from . import sim as S

PIPE = 65536      # bytes a pipe holds; a process does not end before its queued data is in the pipe


def _target(depth=2):
    """the function two frames up was called by pdf2docx in a simulated process"""
    n = S._node()
    if n is None: return None
    f = sys._getframe(depth)
    return n if f.f_globals.get('__name__', '').startswith('pdf2docx') else None


class _Meta(type):
    """calls from pdf2docx (at run time or import time) make the simulated object, others the real one"""
    def __call__(cls, *a, **k):
        if cls.__dict__.get('_proxy'):
            f = sys._getframe(1)
            if f.f_globals.get('__name__', '').startswith(('pdf2docx', 'dst.simsync')): return cls._sim(*a, **k)
            return cls._real(*a, **k)
        return super().__call__(*a, **k)

    def __instancecheck__(cls, o):
        if cls.__dict__.get('_proxy') and isinstance(cls._real, type): return isinstance(o, (cls._sim, cls._real))
        return super().__instancecheck__(o)


def proxy(simcls, real):
    return _Meta(getattr(real, '__name__', simcls.__name__), (simcls,), {'_proxy': True, '_sim': simcls, '_real': staticmethod(real) if not isinstance(real, type) else real})


# ---------------------------------------------------------------- threads
class SimThread(S.R.Thread):
    """a thread started in a simulated process is one more node of it"""
    _simnode = None

    def start(self):
        node = S._node()
        if node is None: return super().start()
        if self._simnode is not None: raise RuntimeError('threads can only be started once')
        sim = node.sim
        n = sum(1 for x in sim.nodes if x.proc is node.proc)

        def body():
            try: self.run()
            except (S.SimCrash, S.SimAbort, S.HarnessError): raise
            except SystemExit: pass
            except BaseException: pass        # reported by the excepthook, nobody else sees it
        self._simnode = sim.spawn('%s.t%d' % (node.name, n), node.proc, body)
        self._simnode.daemon = bool(self.daemon)
        sim.log('thread', self._simnode.name)
        sim.yield_('thread')

    def join(self, timeout=None):
        if self._simnode is None: return super().join(timeout)
        self._simnode.sim.block(lambda: self._simnode.done, 'join thread', timeout)

    def is_alive(self):
        if self._simnode is None: return super().is_alive()
        return not self._simnode.done


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function, self.args, self.kwargs = interval, function, args or [], kwargs or {}
        self.finished = SimEvent()

    def cancel(self): self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set(): self.function(*self.args, **self.kwargs)
        self.finished.set()


class SimThreadExecutor:
    """concurrent.futures.ThreadPoolExecutor"""
    _broken = None

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        node = S.cur()
        self._sim = node.sim
        self._max_workers = max_workers or min(32, node.sim.cpus + 4)
        if self._max_workers <= 0: raise ValueError('max_workers must be greater than 0')
        self._queue, self._threads = [], []
        self._init = (initializer, initargs)
        self._closed = False

    def _sim_check(self): pass

    def _work(self):
        if self._init[0] is not None: self._init[0](*self._init[1])
        while True:
            self._sim.block(lambda: self._queue or self._closed, 'thread idle')
            if not self._queue: return
            t = self._queue.pop(0)
            t.state = 'running'
            fn, a, k = t.fn
            try: t.value = fn(*a, **k)
            except (S.SimCrash, S.SimAbort, S.HarnessError): raise
            except BaseException as e: t.exc = e
            t.state = 'done'
            t.fn = None
            self._sim.yield_('thread')

    def submit(self, fn, /, *a, **k):
        if self._closed: raise RuntimeError('cannot schedule new futures after shutdown')
        t = S._Task((fn, a, k))
        self._queue.append(t)
        if len(self._threads) < self._max_workers:
            th = SimThread(target=self._work, daemon=True)
            self._threads.append(th)
            th.start()
        return S.SimFuture(self._sim, t, self)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *it) for it in zip(*iterables)]

        def results():
            try:
                fs.reverse()
                while fs: yield fs.pop().result(timeout)
            finally:
                for f in fs: f.cancel()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        if cancel_futures:
            for t in self._queue: t.cancelled = True
            self._queue.clear()
        if wait and not self._sim.aborted:
            for t in self._threads: t.join()

    def __enter__(self): return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class SimThreadPool(SimThreadExecutor):
    """multiprocessing.pool.ThreadPool"""
    def __init__(self, processes=None, initializer=None, initargs=()): super().__init__(processes or S.cur().sim.cpus, '', initializer, initargs)
    def map(self, fn, it, chunksize=None): return [f.result() for f in [self.submit(fn, x) for x in it]]
    def starmap(self, fn, it, chunksize=None): return [f.result() for f in [self.submit(fn, *x) for x in it]]
    def imap(self, fn, it, chunksize=1): return iter([f.result() for f in [self.submit(fn, x) for x in it]])
    imap_unordered = imap
    def apply(self, fn, args=(), kwds={}): return self.submit(fn, *args, **kwds).result()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        f = self.submit(fn, *args, **kwds)
        f.get, f.wait, f.ready = f.result, lambda timeout=None: self._sim.block(f.done, 'async', timeout), f.done
        return f

    def close(self): self._closed = True
    def join(self):
        for t in self._threads: t.join()
    terminate = close

    def __exit__(self, *a): self.close()


# ---------------------------------------------------------------- what processes share
class Shared:
    """an object living outside of any single process; copies refer to the same one"""
    inherit = True           # may be handed to a new process, but not sent through a pool or queue
    _all = weakref.WeakValueDictionary()
    _sending = [False]

    def _register(self):
        self._sid = id(self)
        Shared._all[self._sid] = self

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __reduce__(self):
        if self.inherit and not Shared._sending[0]:
            raise RuntimeError('%s objects should only be shared between processes through inheritance' % type(self).__name__)
        return _lookup, (self._sid,)


def _lookup(sid): return Shared._all[sid]


class SimQueue(Shared):
    """queue.Queue (mp=False) and multiprocessing.Queue"""
    def __init__(self, maxsize=0, mp=False, lifo=False, managed=False):
        self._items, self.maxsize, self._mp, self._lifo = [], maxsize, mp, lifo
        self._unfinished = 0
        self.inherit = not managed
        self._managed = managed
        self._register()

    def _op(self):
        n = S._node()
        if n is None: return None
        if self._mp: n.sim.op('ipc', None)
        else: n.sim.yield_('queue')
        return n

    def put(self, obj, block=True, timeout=None):
        n = self._op()
        blob = pickle.dumps(obj) if self._mp else obj
        if n is not None and self.maxsize > 0:
            ok = len(self._items) < self.maxsize or block and n.sim.block(lambda: len(self._items) < self.maxsize, 'queue full', timeout)
            if not ok: raise queue.Full
        self._items.append((blob, n.proc if n is not None else None))
        self._unfinished += 1

    def get(self, block=True, timeout=None):
        n = self._op()
        if not self._items:
            if n is None or not block or not n.sim.block(lambda: self._items, 'queue empty', timeout): raise queue.Empty
        blob = self._items.pop(-1 if self._lifo else 0)[0]
        return pickle.loads(blob) if self._mp else blob

    def put_nowait(self, obj): return self.put(obj, False)
    def get_nowait(self): return self.get(False)
    def empty(self): return not self._items
    def full(self): return 0 < self.maxsize <= len(self._items)
    def qsize(self): return len(self._items)
    def task_done(self): self._unfinished -= 1

    def join(self):
        n = self._op()
        n.sim.block(lambda: self._unfinished <= 0, 'queue join')

    def close(self): pass
    def join_thread(self): pass
    def cancel_join_thread(self): self._managed = True

    def unsent(self, proc):
        """data a process has put and nobody has read yet"""
        return 0 if not self._mp or self._managed else sum(len(b) for b, p in self._items if p is proc)


def flush_queues(proc):
    """a process ends only when its queued data has gone into the pipe"""
    sim = proc.sim
    sim.block(lambda: all(q.unsent(proc) <= PIPE for q in list(Shared._all.values()) if isinstance(q, SimQueue)), 'flush queue')


class SimConnection(Shared):
    def __init__(self): self._peer, self._in, self.closed = None, [], False; self._register()
    def _op(self):
        n = S._node()
        n.sim.op('ipc', None)
        return n

    def send(self, obj):
        n = self._op()
        blob = pickle.dumps(obj)
        if self._peer.closed: raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        # more than the pipe holds waits for the reader
        self._peer._in.append(blob)
        if len(blob) > PIPE: n.sim.block(lambda: not any(b is blob for b in self._peer._in), 'pipe full')

    def recv(self):
        n = self._op()
        n.sim.block(lambda: self._in or self._peer.closed, 'pipe empty')
        if not self._in: raise EOFError
        return pickle.loads(self._in.pop(0))

    def poll(self, timeout=0.0):
        n = self._op()
        if timeout == 0.0: return bool(self._in)
        return bool(n.sim.block(lambda: self._in or self._peer.closed, 'poll', timeout))

    def close(self): pass          # the other process may still hold its copy
    def fileno(self): raise S.HarnessError('file number of a pipe is not modelled')
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def SimPipe(duplex=True):
    a, b = SimConnection(), SimConnection()
    a._peer, b._peer = b, a
    return (a, b) if duplex else (a, b)


class _Proxy(Shared):
    """a manager's dictionary or list: every access is a message"""
    inherit = False

    def __init__(self, obj): self._obj = obj; self._register()

    def _call(self, name, *a, **k):
        n = S._node()
        if n is not None: n.sim.op('ipc', None)
        r = getattr(self._obj, name)(*S._transport(a), **S._transport(k))
        if name in ('keys', 'values', 'items', '__iter__'): r = list(r)
        return S._transport(r) if r is not self._obj else self

    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        return lambda *a, **k: self._call(name, *a, **k)

    def __getitem__(self, i): return self._call('__getitem__', i)
    def __setitem__(self, i, v): self._call('__setitem__', i, v)
    def __delitem__(self, i): self._call('__delitem__', i)
    def __len__(self): return self._call('__len__')
    def __contains__(self, x): return self._call('__contains__', x)
    def __iter__(self): return iter(self._call('__iter__'))
    def __repr__(self): return repr(self._obj)
    def __iadd__(self, o): self._call('extend', list(o)); return self


class SimManager:
    def __init__(self): self.address = None
    def dict(self, *a, **k): return _Proxy(dict(*a, **k))
    def list(self, *a): return _Proxy(list(*a))
    def Queue(self, maxsize=0): return SimQueue(maxsize, mp=True, managed=True)
    JoinableQueue = Queue
    def Lock(self): return _shared(SimSLock())
    def RLock(self): return _shared(SimSLock(True))
    def Event(self): return _shared(SimEvent())
    def Semaphore(self, v=1): return _shared(SimSemaphore(v))
    def Value(self, t, v=0): return _shared(SimValue(t, v))
    def Namespace(self, **k):
        import types
        return _shared(SimNamespace(**k))
    def start(self, *a, **k): return self
    def shutdown(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


def _shared(o):
    o.inherit = False
    return o


class SimSLock(S.SimLock, Shared):
    def __init__(self, reentrant=False): S.SimLock.__init__(self, reentrant); self._register()


class SimEvent(Shared):
    def __init__(self): self._flag = False; self._register()
    def is_set(self): return self._flag
    isSet = is_set
    def set(self): self._flag = True
    def clear(self): self._flag = False

    def wait(self, timeout=None):
        n = S._node()
        if n is None: return self._flag
        return bool(n.sim.block(lambda: self._flag, 'event', timeout))


class SimSemaphore(Shared):
    def __init__(self, value=1): self._value = value; self._register()

    def acquire(self, blocking=True, timeout=None):
        n = S._node()
        n.sim.yield_('semaphore')
        if self._value <= 0 and (not blocking or not n.sim.block(lambda: self._value > 0, 'semaphore', timeout)): return False
        self._value -= 1
        return True

    def release(self, n=1): self._value += n
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


class SimCondition(Shared):
    def __init__(self, lock=None):
        self._lock = lock or S.SimLock(True)
        self._waiters = []
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._register()

    def __enter__(self): return self._lock.acquire()
    def __exit__(self, *a): self._lock.release()

    def wait(self, timeout=None):
        n = S._node()
        w = [False]
        self._waiters.append(w)
        count = self._lock._count
        for _ in range(count): self._lock.release()
        try: return bool(n.sim.block(lambda: w[0], 'condition', timeout))
        finally:
            if w in self._waiters: self._waiters.remove(w)
            for _ in range(count): self._lock.acquire()

    def wait_for(self, pred, timeout=None):
        n = S._node()
        end = None if timeout is None else n.sim.mono + timeout
        while not pred():
            left = None if end is None else end - n.sim.mono
            if left is not None and left <= 0: return pred()
            self.wait(left)
        return True

    def notify(self, n=1):
        for w in self._waiters[:n]: w[0] = True
        del self._waiters[:n]

    def notify_all(self): self.notify(len(self._waiters))


class SimBarrier(Shared):
    def __init__(self, parties, action=None, timeout=None): self.parties, self._n, self._gen, self._timeout = parties, 0, 0, timeout; self._register()

    def wait(self, timeout=None):
        n = S._node()
        g, i = self._gen, self._n
        self._n += 1
        if self._n == self.parties: self._n, self._gen = 0, g + 1
        elif not n.sim.block(lambda: self._gen != g, 'barrier', timeout if timeout is not None else self._timeout): raise threading.BrokenBarrierError
        return i


class SimValue(Shared):
    def __init__(self, typecode='i', value=0, lock=True): self.value = value; self._lk = S.SimLock(True); self._register()
    def get_lock(self): return self._lk
    def get(self): return self.value
    def set(self, v): self.value = v


class SimArray(list, Shared):
    def __init__(self, typecode, init, lock=True):
        list.__init__(self, [0] * init if isinstance(init, int) else init)
        self._lk = S.SimLock(True)
        self._register()
    def get_lock(self): return self._lk
    __hash__ = object.__hash__


class SimNamespace(Shared):
    def __init__(self, **k): self.__dict__.update(k); self._register()


class SimContext:
    """multiprocessing.get_context()"""
    def __init__(self, method=None): self._method = method
    def get_start_method(self, allow_none=False): return self._method or S.cur().sim.start_method
    def get_context(self, method=None): return self
    def cpu_count(self): return S.cur().sim.cpus
    def Pool(self, *a, **k): return S.SimPool(*a, **k)
    def Process(self, *a, **k): return S.SimProcess(*a, **k)
    def Manager(self): return SimManager()
    def Queue(self, maxsize=0): return SimQueue(maxsize, mp=True)
    JoinableQueue = Queue
    def SimpleQueue(self): return SimQueue(0, mp=True)
    def Pipe(self, duplex=True): return SimPipe(duplex)
    def Lock(self): return SimSLock()
    def RLock(self): return SimSLock(True)
    def Event(self): return SimEvent()
    def Semaphore(self, v=1): return SimSemaphore(v)
    BoundedSemaphore = Semaphore
    def Condition(self, lock=None): return SimCondition(lock)
    def Barrier(self, n, *a): return SimBarrier(n)
    def Value(self, t, *a, **k): return SimValue(t, *(a[:1] or (0,)))
    def Array(self, t, v, **k): return SimArray(t, v)


def install():
    threading.Thread = SimThread
    threading.Timer = proxy(SimTimer, threading.Timer)
    threading.Event = proxy(SimEvent, threading.Event)
    threading.Condition = proxy(SimCondition, threading.Condition)
    threading.Semaphore = proxy(SimSemaphore, threading.Semaphore)
    threading.BoundedSemaphore = proxy(SimSemaphore, threading.BoundedSemaphore)
    threading.Barrier = proxy(SimBarrier, threading.Barrier)
    for name in ('Queue', 'SimpleQueue', 'LifoQueue'):
        c = type(name, (SimQueue,), {'__init__': (lambda lifo: lambda self, maxsize=0: SimQueue.__init__(self, maxsize, lifo=lifo))(name == 'LifoQueue')})
        setattr(queue, name, proxy(c, getattr(queue, name)))
    TPE = proxy(SimThreadExecutor, concurrent.futures.ThreadPoolExecutor)
    concurrent.futures.ThreadPoolExecutor = concurrent.futures.thread.ThreadPoolExecutor = TPE
    import multiprocessing.pool
    multiprocessing.pool.ThreadPool = proxy(SimThreadPool, multiprocessing.pool.ThreadPool)

    real_ctx = multiprocessing.get_context

    def get_context(method=None): return SimContext(method) if _target() else real_ctx(method)
    multiprocessing.get_context = get_context

    def route(name):
        real = getattr(multiprocessing, name)

        def f(*a, **k):
            if sys._getframe(1).f_globals.get('__name__', '').startswith('pdf2docx') and S._node() is not None: return getattr(SimContext(), name)(*a, **k)
            return real(*a, **k)
        f.__name__ = name
        setattr(multiprocessing, name, f)
    for name in ('Manager', 'Queue', 'JoinableQueue', 'SimpleQueue', 'Pipe', 'Lock', 'RLock', 'Event', 'Semaphore', 'BoundedSemaphore',
                 'Condition', 'Barrier', 'Value', 'Array'): route(name)
