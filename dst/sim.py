"""Deterministic simulator: one process, real code, simulated world.

* Nodes are real threads, but only the one holding the baton runs. Every seam
  (file system, process pools, PDF open/close, console, clock, and - when asked -
  every executed line of pdf2docx) is a yield point at which the seeded scheduler
  decides who runs next.
* Simulated processes are nodes with their own copy of pdf2docx's module and class
  level state, their own pid, handles and liveness. A killed process has no effect
  on the world any more from the very operation at which it was killed.
* The file system is a private scratch directory of the run, reached through a
  seam that can fail, tear, shorten or suppress every single operation.

Nothing here knows names inside pdf2docx. All patches are installed once per
interpreter and pass through for threads that are not simulation nodes.
"""
import builtins
import asyncio
import concurrent.futures
import concurrent.futures.process
import copy
import errno
import hashlib
import io
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import random
import signal
import sys
import tempfile
import threading
import time
import traceback
import types
import uuid
import weakref

# ---------------------------------------------------------------- real primitives
R = types.SimpleNamespace(
    open=builtins.open, os_open=os.open, close=os.close, write=os.write, read=os.read, lseek=os.lseek,
    fsync=os.fsync, ftruncate=os.ftruncate, remove=os.remove, unlink=os.unlink, rename=os.rename,
    replace=os.replace, mkdir=os.mkdir, rmdir=os.rmdir, stat=os.stat, lstat=os.lstat, listdir=os.listdir,
    scandir=os.scandir, chmod=os.chmod, utime=os.utime, truncate=os.truncate, link=os.link, symlink=os.symlink,
    getpid=os.getpid, kill=os.kill, _exit=os._exit, urandom=os.urandom, cpu_count=os.cpu_count, fork=os.fork,
    time=time.time, perf_counter=time.perf_counter, monotonic=time.monotonic, sleep=time.sleep,
    time_ns=time.time_ns, perf_counter_ns=time.perf_counter_ns, monotonic_ns=time.monotonic_ns,
    process_time=time.process_time,
    Lock=threading.Lock, RLock=threading.RLock, Event=threading.Event, Thread=threading.Thread,
    access=os.access, readlink=os.readlink, getcwd=os.getcwd, chdir=os.chdir,
    Pool=multiprocessing.Pool, PPE=concurrent.futures.ProcessPoolExecutor, Process=multiprocessing.Process,
    TPE=concurrent.futures.ThreadPoolExecutor, mp_cpu_count=multiprocessing.cpu_count,
    umask=os.umask, sched_getaffinity=os.sched_getaffinity,
)
_sem = __import__('_thread').allocate_lock


class SimCrash(BaseException):
    """The process of the current node was killed. Never handled by real code."""


class SimAbort(BaseException):
    """The whole run is over (deadlock, step limit): unwind."""


class HarnessError(BaseException):
    """The simulator itself was misused or does not model what the code did."""


_tls = threading.local()


def cur():
    return getattr(_tls, 'node', None)


# ================================================================ world
class Proc:
    """a simulated OS process"""

    def __init__(self, sim, name, parent=None):
        self.sim, self.name = sim, name
        self.pid = sim.next_pid()
        self.parent = parent
        self.dead = False          # killed
        self.exited = False        # ended by itself
        self.exitcode = None
        self.ops = 0
        self.handles = []          # weakrefs of fitz documents opened
        self.snapshot = None       # pdf2docx state while switched out
        self.env = None            # working directory, environment variables and umask while switched out
        self.kill_at = None        # own op counter at which it is killed
        self.signals = dict(parent.signals) if parent is not None else {}   # handlers other than the default
        self.blocked, self.pending = set(), []                              # signals held back
        self.alarm = None          # simulated time at which SIGALRM arrives
        self.children = []

    @property
    def alive(self): return not (self.dead or self.exited)


class Node:
    def __init__(self, sim, name, proc, fn):
        self.sim, self.name, self.proc, self.fn = sim, name, proc, fn
        self.sem = _sem(); self.sem.acquire()
        self.cond = None
        self.wake = None
        self.done = False
        self.started = False
        self.result = None
        self.exc = None
        self.countdown = None      # line events until the next preemption
        self.prio = 0
        self.thread = None
        self.local_init = None
        self.interrupt = None      # exception to be raised at the next operation
        self.daemon = False        # not waited for when everything else is over


def describe(exc):
    return '%s: %s' % (type(exc).__name__, str(exc)[:200])


#: exceptions that are not errors: they end the call they hit
INTERRUPTS = {'interrupt': KeyboardInterrupt, 'sysexit': lambda: SystemExit(3), 'cancel': asyncio.CancelledError}


class Sim:
    MAX_OPS = 200000

    def __init__(self, scratch, seed, choices=None, faults=(), policy=None, cpus=4, locale='utf-8',
                 stdout_encoding='utf-8', quota=None, line_rate=0, line_codes=None, start_method='fork', xdev=False):
        self.start_method = start_method
        self.xdev = xdev           # the directory of temporary files is another file system
        self.filerng = random.Random('listing/%s' % seed)
        self.scratch = os.path.realpath(scratch)
        self.rng = random.Random('sched/%s' % seed)
        self.namerng = random.Random('names/%s' % seed)
        self.replay = list(choices) if choices is not None else None
        self.choices = []
        self.faults = [dict(f) for f in faults]
        self.policy = policy or {'kind': 'random'}
        self.cpus = cpus
        self.locale = locale
        self.stdout_encoding = stdout_encoding
        self.quota = quota
        self.nodes = []
        self.procs = []
        self._pid = 1000
        self.clock = 1.0e9
        self.mono = 100.0
        self.current = None
        self.opseq = 0
        self.trace = []            # (proc, kind, arg)
        self.digest = hashlib.sha256()
        self.fired = []            # faults that took effect
        self.aborted = None        # 'deadlock' | 'steps' | message
        self.main_sem = _sem(); self.main_sem.acquire()
        self.out = []              # console text
        self.bytes_written = 0
        self.switches = 0
        self.line_events = 0
        self.line_rate = line_rate
        self.line_codes = line_codes
        self.fds = {}              # fd -> SimRaw or path
        self.observers = []        # fn(op kind, path, phase)
        self.tmpdir = os.path.join(self.scratch, 'tmp')
        self.pools = []
        self.fault_counts = {}
        self.external_alive = []
        self.keep_trace = True
        self.opcount = {}
        self.hash_names = True
        self._pct = None
        self.max_ops = self.MAX_OPS
        self.guard_reads = True

    # ------------------------------------------------------------ basics
    def next_pid(self):
        self._pid += self.namerng.choice((1, 1, 2, 7)) if hasattr(self, 'namerng') else 1
        return self._pid

    def choose(self, n):
        """an integer in [0, n): replayed, or drawn from the seed. 0 = least disturbance"""
        if n <= 1: return 0
        if self.replay is not None:
            k = self.replay[len(self.choices)] if len(self.choices) < len(self.replay) else 0
            k = k % n if k >= n else k
        else:
            k = self.rng.randrange(n)
        self.choices.append(k)
        return k

    def log(self, *what):
        node = cur()
        rec = (node.proc.name if node else '-',) + tuple(str(w) for w in what)
        if self.keep_trace: self.trace.append(rec)
        self.digest.update(repr(rec).encode())

    def short(self, path):
        try: p = os.fspath(path)
        except TypeError: return str(path)
        if isinstance(p, bytes): p = os.fsdecode(p)
        full = os.path.join(R.getcwd(), p) if not os.path.isabs(p) else p
        full = os.path.normpath(full)
        if full.startswith(self.scratch): return full[len(self.scratch) + 1:] or '.'
        return '<ext>/' + os.path.basename(full)

    # ------------------------------------------------------------ scheduling
    def spawn(self, name, proc, fn, local_init=None):
        node = Node(self, name, proc, fn)
        node.local_init = local_init
        node.prio = self.namerng.random()
        self.nodes.append(node)
        return node

    def runnable(self):
        out = []
        for n in self.nodes:
            if n.done: continue
            if n.proc.dead and n is not self.current:
                # a killed process never runs again
                n.done = True
                n.exc = SimCrash()
                continue
            if n.interrupt is not None or n.cond is None or n.cond():
                out.append(n)
        return out

    def pick(self, cands, me):
        """choose the next node among runnable ones"""
        if len(cands) == 1: return cands[0]
        kind = self.policy.get('kind', 'random')
        # order: current node first, so that choice 0 means 'go on'
        order = ([me] if me in cands else []) + [c for c in cands if c is not me]
        if kind == 'sticky' and me in cands:
            # mostly go on; p = 1/8 switch
            if self.choose(8) != 7: return me
            rest = order[1:]
            return rest[self.choose(len(rest))]
        if kind == 'starve':
            # one process is very slow: it is scheduled only one time in 16
            slow = [c for c in order if c.proc.name.endswith(str(self.policy.get('who', 1)))]
            fast = [c for c in order if c not in slow]
            if slow and fast:
                pool = slow if self.choose(16) == 15 else fast
                return pool[self.choose(len(pool))]
        if kind == 'pct':
            # random priorities, lowered at random moments
            if self.choose(12) == 11:
                victim = max(order, key=lambda c: c.prio)
                victim.prio = -self.switches - 1.0
            best = max(order, key=lambda c: c.prio)
            return best
        if kind == 'fifo':
            return min(cands, key=lambda c: self.nodes.index(c))
        return order[self.choose(len(order))]

    def yield_(self, reason=None):
        """give others a chance to run (current node stays runnable)"""
        node = cur()
        self.check_abort()
        cands = self.runnable()
        if len(cands) > 1 or (cands and cands[0] is not node):
            nxt = self.pick(cands, node)
            if nxt is not node: self.switch(node, nxt)
        self.after_resume(node)

    def after_resume(self, node):
        self.check_abort()
        if node.proc.dead: raise SimCrash()
        if node.interrupt is not None:
            e, node.interrupt = node.interrupt, None
            self.deliver(node, e)
            if node.proc.dead: raise SimCrash()

    @staticmethod
    def deliver(node, sig):
        """a signal arrives at the main thread of a process"""
        proc = node.proc
        if sig in proc.blocked:
            proc.pending.append(sig)
            return
        h = proc.signals.get(sig, signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL)
        if h == signal.SIG_IGN: return
        if h == signal.SIG_DFL:
            if sig in (signal.SIGCHLD, signal.SIGWINCH, signal.SIGCONT, signal.SIGURG): return
            proc.dead = True
            return
        h(int(sig), sys._getframe(1))

    def check_abort(self):
        if self.aborted: raise SimAbort()

    def swap(self, a, b):
        """process state: a is switched out, b is switched in"""
        if a is not None: a.snapshot, a.env = state_save(), env_save()
        if b.snapshot is not None: state_load(b.snapshot)
        if b.env is not None: env_load(b.env)

    def switch(self, frm, to):
        self.switches += 1
        self.digest.update(('>' + to.name).encode())
        if frm is None or frm.proc is not to.proc: self.swap(frm.proc if frm is not None else None, to.proc)
        self.current = to
        if self.line_rate: self.arm(to)
        if not to.started:
            to.started = True
            to.thread = R.Thread(target=self._body, args=(to,), daemon=True)
            to.thread.start()
        else:
            to.sem.release()
        if frm is not None:
            frm.sem.acquire()

    def arm(self, node):
        """draw the number of line events until the next forced preemption"""
        r = self.line_rate
        k = self.choose(2 * r) + 1
        node.countdown = k if k else 1

    def block(self, cond, what='wait', timeout=None):
        """current node waits until cond(); timeout in simulated seconds -> False"""
        node = cur()
        deadline = None if timeout is None else self.mono + timeout
        while True:
            self.check_abort()
            if cond(): return True
            if deadline is not None and self.mono >= deadline: return False
            node.cond = (lambda: cond() or (deadline is not None and self.mono >= deadline))
            node.wake = deadline
            cands = self.runnable()
            if not cands:
                self.advance_or_deadlock(what)
                cands = self.runnable()
                if not cands: continue
            nxt = self.pick(cands, node)
            if nxt is not node: self.switch(node, nxt)
            node.cond = None
            node.wake = None
            self.after_resume(node)

    def advance_or_deadlock(self, what):
        if all(n.daemon for n in self.nodes if not n.done):
            for n in self.nodes:
                if n is not cur(): n.done = True
            raise SimAbort()
        wakes = [n.wake for n in self.nodes if not n.done and n.wake is not None]
        if wakes:
            t = min(wakes)
            if t > self.mono: self.clock += t - self.mono; self.mono = t
            return
        waiting = ', '.join('%s' % n.name for n in self.nodes if not n.done)
        self.abort('deadlock: %s; nobody can make progress (waiting: %s)' % (what, waiting))
        raise SimAbort()

    def abort(self, why):
        if not self.aborted: self.aborted = why

    def _body(self, node):
        _tls.node = node
        try:
            if node.local_init: node.local_init()
            node.result = node.fn()
        except SimCrash as e:
            node.exc = e
            node.proc.dead = True
        except SimAbort as e:
            node.exc = e
        except BaseException as e:
            node.exc = e
        node.done = True
        self.finish(node)

    def finish(self, node):
        """node is over: hand the baton on; the last one wakes the controller"""
        _tls.node = None
        if self.line_rate: pass
        if not self.aborted:
            cands = self.runnable()
            rest = [n for n in self.nodes if not n.done]
            if rest and all(n.daemon for n in rest):
                # daemon threads end with their process
                for n in rest: n.done = True
                cands = rest = []
            if not cands and rest:
                wakes = [n.wake for n in self.nodes if not n.done and n.wake is not None]
                if wakes:
                    t = min(wakes)
                    if t > self.mono: self.clock += t - self.mono; self.mono = t
                    cands = self.runnable()
                if not cands:
                    waiting = ', '.join(n.name for n in self.nodes if not n.done)
                    self.abort('deadlock: nobody can make progress (waiting: %s)' % waiting)
            if cands:
                nxt = self.pick(cands, node)
                self.switches += 1
                self.digest.update(('>' + nxt.name).encode())
                if node.proc is not nxt.proc: self.swap(node.proc, nxt.proc)
                self.current = nxt
                if self.line_rate: self.arm(nxt)
                if not nxt.started:
                    nxt.started = True
                    nxt.thread = R.Thread(target=self._body, args=(nxt,), daemon=True)
                    nxt.thread.start()
                else:
                    nxt.sem.release()
                return
        self.main_sem.release()

    def run(self):
        """run until all nodes are done (or the run is aborted)"""
        install()
        first = self.nodes[0]
        self.current = first
        base = state_save()
        for p in self.procs:
            if p.snapshot is None: p.snapshot = state_fork(base)
        self.base_state = base
        save = (sys.stdout, tempfile.tempdir, tempfile._name_sequence)
        tempfile.tempdir = self.tmpdir
        tempfile._name_sequence = _Names(self)
        os.environ['TMPDIR'] = self.tmpdir
        outer = env_save()
        for p in self.procs: p.env = outer
        sys.stdout = SimStdout(self) if self.stdout_encoding else None
        ACTIVE[0] = self
        try:
            self.switch(None, first)
            self.main_sem.acquire()
        finally:
            ACTIVE[0] = None
            sys.stdout, tempfile.tempdir, tempfile._name_sequence = save
            env_load(outer)
        return self

    # ------------------------------------------------------------ operations and faults
    def op(self, kind, path=None, size=0):
        """A seam operation is about to happen. Yields, then decides on a fault.

        Returns None (do it) or a directive ('err', errno), ('raise', exc),
        ('short', n). Raises SimCrash when the process dies here."""
        node = cur()
        proc = node.proc
        if proc.dead: raise SimCrash()
        self.check_abort()
        self.yield_(kind)
        self.opseq += 1
        proc.ops += 1
        self.mono += 0.001; self.clock += 0.001
        for p in self.procs:
            if p.alarm is not None and self.mono >= p.alarm and p.alive:
                p.alarm = None
                m = next((n for n in self.nodes if n.proc is p), None)
                if m is node: self.deliver(m, signal.SIGALRM)
                elif m is not None and not m.done: m.interrupt = signal.SIGALRM
        if self.opseq > self.max_ops:
            self.abort('steps: more than %d operations' % self.max_ops)
            raise SimAbort()
        self.opcount[kind] = self.opcount.get(kind, 0) + 1
        sp = self.short(path) if path is not None else ''
        if self.hash_names or path is None: self.log(kind, sp, size if kind != 'write' else '')
        for f in self.faults:
            if f.get('used') and not f.get('sticky'): continue
            if not self._matches(f, proc, kind, sp): continue
            if not f.get('used'):
                f['seen'] = f.get('seen', -1) + 1
                if f['seen'] != f.get('nth', 0): continue
            act = f['act']
            f['used'] = True
            self.fired.append((act, kind, sp))
            self.fault_counts[act] = self.fault_counts.get(act, 0) + 1
            self.log('FAULT', act, kind, sp)
            r = self._apply(f, act, node, proc, kind, size)
            if r is not None: return r
        if self.quota is not None and kind == 'write':
            left = self.quota - self.bytes_written
            if left <= 0:
                if not getattr(self, '_full', False):
                    self._full = True
                    self.fired.append(('disk_full', kind, sp))
                    self.fault_counts['disk_full'] = self.fault_counts.get('disk_full', 0) + 1
                return ('err', errno.ENOSPC)
            if left < size: return ('short', left)
        return None

    @staticmethod
    def _matches(f, proc, kind, sp):
        if f.get('proc') and f['proc'] != proc.name and not (f['proc'].endswith('*') and proc.name.startswith(f['proc'][:-1])): return False
        k = f.get('kinds')
        if k and kind not in k: return False
        p = f.get('path')
        if p and p not in sp: return False
        return True

    def _apply(self, f, act, node, proc, kind, size):
        if act == 'kill':
            if kind == 'write' and size:
                # torn write: only a prefix reaches the disk
                n = int(size * f.get('frac', 0))
                proc.dying = True
                return ('tear', n)
            proc.dead = True
            raise SimCrash()
        if act == 'machine':
            for p in self.procs: p.dead = True
            if kind == 'write' and size:
                n = int(size * f.get('frac', 0))
                proc.dead = False; proc.dying = True
                return ('tear', n)
            raise SimCrash()
        if act in ('ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'ENOENT', 'EPERM', 'EINTR', 'EDQUOT', 'EROFS', 'EPIPE', 'EBADF', 'EAGAIN', 'EMLINK'):
            return ('err', getattr(errno, act))
        if act == 'short':
            return ('short', max(1, int(size * f.get('frac', .5)))) if size > 1 else None
        if act in ('interrupt', 'ctrl_c'):
            # the terminal interrupts the process and all its children
            if act == 'ctrl_c':
                seen = set()
                for n in self.nodes:
                    if n.proc.parent is not proc or not n.proc.alive or n.done or n.proc in seen: continue
                    seen.add(n.proc)         # its main thread
                    if n.proc.signals.get(signal.SIGINT) == signal.SIG_IGN: continue
                    n.interrupt = signal.SIGINT
            self.deliver(node, signal.SIGINT)
            if proc.dead: raise SimCrash()
            return None
        if act in INTERRUPTS:
            raise INTERRUPTS[act]()
        if act == 'nomem':
            return ('raise', MemoryError('simulated'))
        if act == 'closed':
            return ('raise', ValueError('I/O operation on closed file.'))
        if act == 'pdferror':
            return ('raise', RuntimeError('simulated PDF library error'))
        if act == 'clockjump':
            self.clock += f.get('dt', -3600.0)
            return None
        if act == 'stall':
            # the process does not get the CPU for a while
            dt = f.get('dt', 5.0)
            t = self.mono + dt
            self.block(lambda: self.mono >= t, 'stalled', timeout=dt)
            return None
        if act == 'corrupt':
            return ('corrupt', f.get('frac', .5))
        if act == 'kill_child':
            kids = [p for p in self.procs if p.parent is proc and p.alive]
            if kids: kids[f.get('who', 0) % len(kids)].dead = True; self.pool_check()
            else:
                self.fired.pop()
                self.fault_counts[act] -= 1
            return None
        raise HarnessError('unknown fault ' + act)

    def pool_check(self):
        for ref in self.pools:
            p = ref()
            if p is not None: p._sim_check()

    # ------------------------------------------------------------ processes
    def process(self, name, parent=None):
        p = Proc(self, name, parent)
        self.procs.append(p)
        if parent is not None: parent.children.append(p)
        return p

    def fork(self, name, fn):
        """a child process of the current node's process running fn"""
        node = cur()
        p = self.process(name, node.proc)
        p.env = env_save()
        if self.start_method == 'spawn':
            # a new interpreter: nothing is inherited
            p.snapshot = state_fork(self.base_state)
            p.signals = {k: v for k, v in p.signals.items() if v == signal.SIG_IGN}
            n = self.spawn(name, p, fn)
        else:
            p.snapshot = state_fork(state_save())
            locals_ = thread_locals_save()
            n = self.spawn(name, p, fn, lambda: thread_locals_load(locals_))
        self.log('fork', name)
        return p, n


ACTIVE = [None]


class _Names:
    def __init__(self, sim): self.sim = sim
    def __iter__(self): return self
    def __next__(self): return 's%08x' % self.sim.namerng.randrange(1 << 32)


# ================================================================ pdf2docx global state
def _mods():
    return [m for n, m in list(sys.modules.items()) if (n == 'pdf2docx' or n.startswith('pdf2docx.')) and m]


_SKIP = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, staticmethod, classmethod, property,
         types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType)


def _slots():
    for m in _mods():
        d = vars(m)
        for k, v in list(d.items()):
            if k.startswith('__'): continue
            if isinstance(v, type):
                if getattr(v, '__module__', '').startswith('pdf2docx') and v.__module__ == m.__name__:
                    for ck, cv in list(vars(v).items()):
                        if ck.startswith('__') or isinstance(cv, _SKIP) or callable(cv): continue
                        yield v, ck, cv
                continue
            if isinstance(v, _SKIP): continue
            yield m, k, v


def state_save():
    return [(o, k, v) for o, k, v in _slots()]


def state_load(snap):
    have = {(id(o), k) for o, k, v in snap}
    for o, k, v in list(_slots()):
        if (id(o), k) not in have:
            try: delattr(o, k)
            except (AttributeError, TypeError): pass
    for o, k, v in snap:
        d = o.__dict__ if not isinstance(o, type) else None
        if d is not None:
            if d.get(k, _none) is not v: d[k] = v
        else:
            if o.__dict__.get(k, _none) is not v:
                try: setattr(o, k, v)
                except (AttributeError, TypeError): pass


_none = object()


def state_fork(snap):
    """a child process gets its own copies of mutable containers"""
    out = []
    for o, k, v in snap:
        if isinstance(v, (dict, list, set, bytearray)) or type(v).__name__ in ('defaultdict', 'OrderedDict', 'deque'):
            try: v = copy.deepcopy(v)
            except Exception:
                try: v = copy.copy(v)
                except Exception: pass
        out.append((o, k, v))
    return out


def env_save():
    m = R.umask(0o22)
    if m != 0o22: R.umask(m)
    try: d = R.getcwd()
    except FileNotFoundError: d = None
    return d, dict(os.environ), m


def env_load(env):
    d, e, m = env
    try:
        if d is not None and (R.getcwd() != d): R.chdir(d)
    except FileNotFoundError: R.chdir(d)
    if os.environ != e:
        for k in [k for k in os.environ if k not in e]: del os.environ[k]
        for k, v in e.items():
            if os.environ.get(k) != v: os.environ[k] = v
    R.umask(m)


def thread_locals_save():
    out = []
    for o, k, v in _slots():
        if isinstance(v, threading.local):
            out.append((v, dict(v.__dict__)))
    return out


def thread_locals_load(saved):
    for v, d in saved: v.__dict__.update(d)


# ================================================================ console
class SimStdout(io.TextIOBase):
    def __init__(self, sim):
        self.sim = sim
        self.encoding_ = sim.stdout_encoding

    encoding = property(lambda self: self.encoding_)
    errors = 'strict'

    def writable(self): return True

    def write(self, s):
        node = cur()
        if node is not None and node.sim is self.sim:
            d = self.sim.op('print', None, 0)
            if d: _raise(d, 'stdout')
        s.encode(self.encoding_)          # raises UnicodeEncodeError like a real console
        self.sim.out.append(s)
        return len(s)

    def flush(self): pass
    def isatty(self): return False


def _raise(d, path):
    if d[0] == 'err': raise OSError(d[1], os.strerror(d[1]), path)
    if d[0] == 'raise': raise d[1]


# ================================================================ file system
class SimRaw(io.RawIOBase):
    """unbuffered file on the simulated disk"""

    def __init__(self, sim, proc, fd, path, r, w, closefd=True, own=True):
        self.sim, self.proc, self.fd, self.path = sim, proc, fd, path
        self.r, self.w, self.closefd = r, w, closefd
        self.name = path
        self.mode = 'rb+' if r and w else ('wb' if w else 'rb')
        if own: sim.fds[fd] = self

    def readable(self): return self.r
    def writable(self): return self.w
    def seekable(self): return True
    def fileno(self): return self.fd
    def isatty(self): return False

    def _live(self):
        node = cur()
        if self.proc.dead or node is None or node.sim is not self.sim or node.proc is not self.proc:
            return None
        return node

    def readinto(self, b):
        if self._live() and self.sim.guard_reads:
            d = self.sim.op('read', self.path, len(b))
            if d: _raise(d, self.path)
        data = R.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if self._live() is None:
            # written by nobody alive (e.g. buffers dropped by a killed process)
            if self.proc.dead: return len(b)
            return R.write(self.fd, b)
        d = self.sim.op('write', self.path, len(b))
        return _do_write(self.sim, self.proc, self.fd, b, d, self.path)

    def seek(self, pos, whence=0): return R.lseek(self.fd, pos, whence)
    def tell(self): return R.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None: size = self.tell()
        if self._live():
            d = self.sim.op('truncate', self.path, size)
            if d: _raise(d, self.path)
        elif self.proc.dead: return size
        R.ftruncate(self.fd, size)
        return size

    def close(self):
        if self.closed: return
        super().close()
        if not self.closefd: return
        self.sim.fds.pop(self.fd, None)
        try:
            if self._live():
                d = self.sim.op('close', self.path)
            else: d = None
        finally:
            try: R.close(self.fd)
            except OSError: pass
        if d: _raise(d, self.path)


def _do_write(sim, proc, fd, b, d, path):
    if d:
        if d[0] == 'tear':
            if d[1]:
                R.write(fd, b[:d[1]])
            proc.dead = True
            raise SimCrash()
        if d[0] == 'short':
            n = R.write(fd, b[:d[1]])
            sim.bytes_written += n
            return n
        if d[0] == 'corrupt': d = None
        else: _raise(d, path)
    n = R.write(fd, b)
    sim.bytes_written += n
    return n


def _pathstr(p):
    try: p = os.fspath(p)
    except TypeError: return None
    return os.fsdecode(p) if isinstance(p, bytes) else p


def _managed(sim, p):
    p = _pathstr(p)
    if p is None: return False
    full = os.path.normpath(p if os.path.isabs(p) else os.path.join(R.getcwd(), p))
    return full == sim.scratch or full.startswith(sim.scratch + os.sep)


def _node():
    n = cur()
    return n if n is not None and ACTIVE[0] is n.sim else None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    node = _node()
    if node is None: return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim = node.sim
    if isinstance(file, int):
        if file not in sim.fds: return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = sim.fds[file] if isinstance(sim.fds[file], str) else sim.fds[file].path
    else:
        path = _pathstr(file)
        if path is None: return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not _managed(sim, path):
            if path.endswith(('.docx', '.xml')) and 'r' in mode and '+' not in mode:
                d = sim.op('open-tpl', path)
                if d: _raise(d, path)
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    # only the characters of mode matter
    m = set(mode)
    binary = 'b' in m
    if binary and encoding is not None: raise ValueError("binary mode doesn't take an encoding argument")
    upd = '+' in m
    if 'r' in m: flags, r, w = (os.O_RDWR if upd else os.O_RDONLY), True, upd
    elif 'w' in m: flags, r, w = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC, upd, True
    elif 'x' in m: flags, r, w = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_EXCL, upd, True
    elif 'a' in m: flags, r, w = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_APPEND, upd, True
    else: raise ValueError('invalid mode: %r' % mode)
    if isinstance(file, int): fd = file
    elif opener is not None: fd = opener(file, flags | os.O_CLOEXEC)
    else:
        d = sim.op('open-w' if w else 'open-r', path)
        if d: _raise(d, path)
        fd = R.os_open(path, flags | os.O_CLOEXEC, 0o666)
        if os.path.isdir(path): R.close(fd); raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
    raw = SimRaw(sim, node.proc, fd, path, r, w, closefd)
    if 'a' in m: raw.seek(0, 2)
    if buffering == 0:
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if upd: buf = io.BufferedRandom(raw, size)
    elif w: buf = io.BufferedWriter(raw, size)
    else: buf = io.BufferedReader(raw, size)
    if binary: return buf
    text = io.TextIOWrapper(buf, encoding or sim.locale, errors, newline)
    text.mode = mode
    return text


def _wrap_path(name, kind, npath=1, mutating=True):
    real = getattr(R, name)

    def f(path, *a, **k):
        node = _node()
        if node is None: return real(path, *a, **k)
        sim = node.sim
        dirfd = k.get('dir_fd') is not None or k.get('src_dir_fd') is not None
        if isinstance(path, int) or (not dirfd and not _managed(sim, path)
                                     and not (npath == 2 and a and _managed(sim, a[0]))):
            return real(path, *a, **k)
        d = sim.op(kind, a[0] if npath == 2 and a else path)
        if d: _raise(d, _pathstr(path))
        if sim.xdev and npath == 2 and a and name != 'symlink' and not dirfd and _device(sim, path) != _device(sim, a[0]):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), _pathstr(path), None, _pathstr(a[0]))
        v = real(path, *a, **k)
        if name == 'listdir':
            v.sort(); sim.filerng.shuffle(v)
        return v
    f.__name__ = name
    return f


def _device(sim, p):
    full = os.path.abspath(_pathstr(p))
    return full == sim.tmpdir or full.startswith(sim.tmpdir + os.sep)


class sim_scandir:
    """os.scandir in the order the simulated system lists files"""

    def __new__(cls, path='.'):
        node = _node()
        if node is None or isinstance(path, int) or not _managed(node.sim, path): return R.scandir(path)
        d = node.sim.op('listdir', path)
        if d: _raise(d, _pathstr(path))
        with R.scandir(path) as it: v = sorted(it, key=lambda e: e.name)
        node.sim.filerng.shuffle(v)
        self = object.__new__(cls)
        self.it = iter(v)
        return self

    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.it = iter(())


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    node = _node()
    if node is None or (dir_fd is None and not _managed(node.sim, path)):
        return R.os_open(path, flags, mode, dir_fd=dir_fd)
    sim = node.sim
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
    d = sim.op('open-w' if w else 'open-r', path)
    if d: _raise(d, _pathstr(path))
    fd = R.os_open(path, flags, mode, dir_fd=dir_fd)
    sim.fds[fd] = _pathstr(path)
    return fd


def sim_os_write(fd, data):
    node = _node()
    if node is None or fd not in node.sim.fds: return R.write(fd, data)
    p = node.sim.fds[fd]
    p = p if isinstance(p, str) else p.path
    d = node.sim.op('write', p, len(data))
    return _do_write(node.sim, node.proc, fd, bytes(data), d, p)


def sim_os_close(fd):
    node = _node()
    if node is not None and fd in node.sim.fds:
        node.sim.fds.pop(fd)
    return R.close(fd)


def sim_fsync(fd):
    node = _node()
    if node is not None:
        f = node.sim.fds.get(fd if isinstance(fd, int) else fd.fileno())
        if f is not None:
            d = node.sim.op('fsync', f if isinstance(f, str) else f.path)
            if d: _raise(d, 'fsync')
            return None
    return R.fsync(fd)


# ================================================================ processes: pools
class RemoteError(Exception):
    pass


def _transport(obj):
    """what crosses a process border is pickled"""
    return pickle.loads(pickle.dumps(obj))


def _transport_exc(e):
    try:
        e2 = pickle.loads(pickle.dumps(e))
        e2.__cause__ = None
        return e2
    except Exception:
        return RemoteError(repr(e))


class _Task:
    __slots__ = ('fn', 'args', 'kw', 'state', 'value', 'exc', 'worker', 'cancelled')

    def __init__(self, blob):
        self.fn = blob
        self.state = 'queued'
        self.value = self.exc = self.worker = None
        self.cancelled = False


class _SimPoolBase:
    _catch = Exception          # what a worker sends back as the result of a task

    def _sim_init(self, n, initializer=None, initargs=()):
        node = cur()
        self._sim = sim = node.sim
        self._owner = node.proc
        self._queue = []
        self._workers = []
        self._n = n
        self._initializer = (initializer, initargs)
        self._closed = False
        self._terminated = False
        self._broken = None
        sim.pools.append(weakref.ref(self))
        self._serial = len(sim.pools)

    def _sim_start(self):
        while len(self._workers) < self._n: self._sim_worker()

    def _sim_worker(self):
        sim = self._sim
        state = {'q': self._queue}
        name = '%s.w%d.%d' % (self._owner.name, self._serial, len(self._workers))
        selfref = weakref.ref(self)
        queue = self._queue
        init = self._initializer
        ctl = {'stop': False}
        owner = self._owner
        catch = self._catch

        def body():
            me = cur()
            if init[0] is not None: init[0](*_transport(init[1]))
            while True:
                sim.block(lambda: queue or ctl['stop'] or owner.dead, 'worker idle')
                if not queue: break
                t = queue.pop(0)
                t.state, t.worker = 'running', me.proc
                sim.log('task-start', name)
                sim.op('task', None)
                try:
                    fn, a, k = pickle.loads(t.fn)
                    v = fn(*a, **k)
                    v = _transport(v)
                    t.value = v
                except SimCrash: raise
                except SimAbort: raise
                except HarnessError: raise
                except BaseException as e:
                    # beyond what the pool catches, the worker process ends without sending a result
                    if not isinstance(e, catch): raise
                    t.exc = _transport_exc(e)
                sim.op('task-end', None)
                t.state = 'done'
                del t
            me.proc.exited = True

        def guarded():
            try: body()
            finally:
                me = cur()
                if not me.proc.dead: me.proc.exited = True

        p, n = sim.fork(name, guarded)
        p.ctl = ctl
        self._workers.append(p)
        return p

    def _sim_submit(self, fn, a, k):
        t = _Task(pickle.dumps((fn, a, k)))
        self._queue.append(t)
        return t

    def _sim_stop(self):
        for p in self._workers: p.ctl['stop'] = True

    def _sim_kill(self):
        for p in self._workers:
            if p.alive: p.dead = True; p.exitcode = -15

    def _sim_join(self):
        ws = self._workers
        self._sim.block(lambda: all(not p.alive for p in ws), 'join workers')


class SimExecutor(_SimPoolBase):
    """concurrent.futures.ProcessPoolExecutor"""
    _catch = BaseException

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is None: max_workers = cur().sim.cpus
        if max_workers <= 0: raise ValueError('max_workers must be greater than 0')
        self._max_workers = max_workers
        self._sim_init(max_workers, initializer, initargs)
        self._futs = []

    def submit(self, fn, /, *a, **k):
        if self._broken: raise concurrent.futures.process.BrokenProcessPool(self._broken)
        if self._closed: raise RuntimeError('cannot schedule new futures after shutdown')
        self._sim.op('submit', None)
        self._sim_start()
        t = self._sim_submit(fn, a, k)
        f = SimFuture(self._sim, t, self)
        self._futs.append(f)
        return f

    def _sim_check(self):
        """a worker died: everything pending is broken, other workers are terminated"""
        if self._broken or self._terminated: return
        if any((p.dead or p.exited) and not p.ctl['stop'] for p in self._workers):
            self._broken = 'A process in the process pool was terminated abruptly while the future was running or pending.'
            self._sim.log('pool-broken')
            self._queue.clear()
            self._sim_kill()

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1: raise ValueError('chunksize must be >= 1.')
        items = list(zip(*iterables))
        if chunksize == 1: fs = [self.submit(fn, *it) for it in items]; chunked = False
        else:
            chunked = True
            fs = [self.submit(_chunk, fn, items[i:i + chunksize]) for i in range(0, len(items), chunksize)]

        def results():
            try:
                fs.reverse()
                while fs:
                    r = fs.pop().result(timeout)
                    if chunked: yield from r
                    else: yield r
            finally:
                for f in fs: f.cancel()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        if cancel_futures:
            for f in self._futs: f.cancel()
        if self._sim.aborted: return
        self._sim_stop()
        if wait and self._workers and cur() is not None and not cur().proc.dead:
            self._sim.block(lambda: (self._sim_check() or all(not p.alive for p in self._workers)), 'executor shutdown')
        self._terminated = True

    def __enter__(self): return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def __del__(self):
        try: self._sim_stop()
        except Exception: pass


def _chunk(fn, chunk): return [fn(*a) for a in chunk]


class SimFuture:
    def __init__(self, sim, task, ex):
        self._sim, self._t, self._ex = sim, task, ex
        self._cbs = []

    def _state(self):
        self._ex._sim_check()
        if self._t.cancelled: return 'cancelled'
        if self._t.state == 'done': return 'done'
        if self._ex._broken: return 'broken'
        return self._t.state

    def done(self): return self._state() in ('done', 'cancelled', 'broken')
    def running(self): return self._state() == 'running'
    def cancelled(self): return self._t.cancelled

    def cancel(self):
        if self._t.state == 'queued' and self._t in self._ex._queue:
            self._ex._queue.remove(self._t)
            self._t.cancelled = True
        return self._t.cancelled

    def exception(self, timeout=None):
        ok = self._sim.block(self.done, 'future', timeout)
        if not ok: raise concurrent.futures.TimeoutError()
        st = self._state()
        if st == 'cancelled': raise concurrent.futures.CancelledError()
        if st == 'broken': return concurrent.futures.process.BrokenProcessPool(self._ex._broken)
        return self._t.exc

    def result(self, timeout=None):
        e = self.exception(timeout)
        if e is not None: raise e
        return self._t.value

    def add_done_callback(self, fn):
        # called by a thread of the owner
        node = cur()

        def body():
            self._sim.block(self.done, 'callback')
            try: fn(self)
            except Exception: pass
        self._sim.spawn('%s.cb' % node.name, node.proc, body).daemon = True


def sim_wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    node = _node()
    fs = list(fs)
    if node is None or not fs or not isinstance(fs[0], SimFuture): return _real_wait(fs, timeout, return_when)
    def cond():
        d = [f for f in fs if f.done()]
        if return_when == 'FIRST_COMPLETED': return bool(d)
        if return_when == 'FIRST_EXCEPTION' and any(f._state() == 'broken' or f._t.exc for f in d): return True
        return len(d) == len(fs)
    node.sim.block(cond, 'wait futures', timeout)
    d = {f for f in fs if f.done()}
    return concurrent.futures._base.DoneAndNotDoneFutures(d, set(fs) - d)


def sim_as_completed(fs, timeout=None):
    node = _node()
    fs = list(fs)
    if node is None or not fs or not isinstance(fs[0], SimFuture):
        yield from _real_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        node.sim.block(lambda: any(f.done() for f in left), 'as_completed', timeout)
        for f in [f for f in left if f.done()]:
            left.remove(f)
            yield f


_real_wait = concurrent.futures.wait
_real_as_completed = concurrent.futures.as_completed


class SimPool(_SimPoolBase):
    """multiprocessing.Pool: a task of a killed worker is lost, its result never comes"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None: processes = cur().sim.cpus
        if processes < 1: raise ValueError('Number of processes must be at least 1')
        self._sim_init(processes, initializer, initargs)
        self._sim.op('pool', None)
        self._sim_start()

    def _sim_check(self):
        for i, p in enumerate(list(self._workers)):
            if not p.alive and not p.ctl['stop'] and not self._terminated:
                # repopulate
                self._workers.remove(p)
                w = self._sim_worker()

    def _check(self):
        if self._closed or self._terminated: raise ValueError('Pool not running')

    def _tasks(self, fn, items, star):
        self._check()
        self._sim.op('submit', None)
        self._sim_check()
        return [self._sim_submit(fn, tuple(it) if star else (it,), {}) for it in items]

    def _wait(self, ts, timeout=None):
        def cond():
            self._sim_check()
            return all(t.state == 'done' for t in ts)
        if not self._sim.block(cond, 'pool result', timeout): raise multiprocessing.TimeoutError()

    def _get(self, ts, timeout=None):
        self._wait(ts, timeout)
        for t in ts:
            if t.exc is not None: raise t.exc
        return [t.value for t in ts]

    def map(self, fn, it, chunksize=None): return self._get(self._tasks(fn, it, False))
    def starmap(self, fn, it, chunksize=None): return self._get(self._tasks(fn, it, True))
    def apply(self, fn, args=(), kwds={}): return self.apply_async(fn, args, kwds).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self, self._tasks(fn, it, False), callback, error_callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self, self._tasks(fn, it, True), callback, error_callback)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        self._sim.op('submit', None)
        return _Async(self, [self._sim_submit(fn, tuple(args), dict(kwds))], callback, error_callback, True)

    def imap(self, fn, it, chunksize=1):
        ts = self._tasks(fn, it, False)
        def gen():
            for t in ts: yield self._get([t])[0]
        return gen()

    def imap_unordered(self, fn, it, chunksize=1):
        ts = self._tasks(fn, it, False)
        def gen():
            left = list(ts)
            while left:
                def cond():
                    self._sim_check()
                    return any(t.state == 'done' for t in left)
                self._sim.block(cond, 'pool result')
                for t in [t for t in left if t.state == 'done']:
                    left.remove(t)
                    if t.exc is not None: raise t.exc
                    yield t.value
        return gen()

    def close(self):
        self._closed = True
        self._sim_stop()

    def terminate(self):
        self._closed = self._terminated = True
        self._queue.clear()
        self._sim_stop()
        self._sim_kill()

    def join(self):
        if not self._closed: raise ValueError('Pool is still running')
        self._sim_join()

    def __enter__(self): return self
    def __exit__(self, *a): self.terminate()


class _Async:
    def __init__(self, pool, ts, cb, ecb, single=False):
        self._cbs = (cb, ecb)
        if cb or ecb:
            node = cur()

            def body():
                self.wait()
                try:
                    r = self.get()
                except (SimCrash, SimAbort, HarnessError): raise
                except Exception as e:
                    if ecb: ecb(e)
                else:
                    if cb: cb(r)
            pool._sim.spawn('%s.cb' % node.name, node.proc, body).daemon = True
        self.pool, self.ts, self.single = pool, ts, single

    def ready(self): return all(t.state == 'done' for t in self.ts)
    def successful(self): return all(t.exc is None for t in self.ts)
    def wait(self, timeout=None):
        try: self.pool._wait(self.ts, timeout)
        except multiprocessing.TimeoutError: pass

    def get(self, timeout=None):
        r = self.pool._get(self.ts, timeout)
        return r[0] if self.single else r


class SimProcess:
    """multiprocessing.Process"""
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs
        self._proc = None
        self.daemon = daemon
        self.name = name or 'Process'

    def run(self):
        if self._target: self._target(*self._args, **self._kwargs)

    def start(self):
        sim = cur().sim
        SimProcess._count += 1
        me = self
        if sim.start_method == 'spawn':
            # the process object crosses to the new interpreter
            from .simsync import Shared
            Shared._sending[0] = True
            try: pickle.dumps((self._target, self._args, self._kwargs))
            finally: Shared._sending[0] = False
        self._args, self._kwargs = _fork_copy(self._args), _fork_copy(self._kwargs)

        def body():
            p = cur().proc
            try:
                me.run()
                from . import simsync
                simsync.flush_queues(p)
                p.exitcode = 0
            except (SimCrash, SimAbort, HarnessError): raise
            except SystemExit as e:
                p.exitcode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                p.exitcode = 1
            p.exited = True
        self._sim = sim
        self._proc, _ = sim.fork('%s.p%d' % (cur().proc.name, len(sim.procs)), body)
        sim.op('proc-start', None)

    def join(self, timeout=None):
        self._sim.block(lambda: not self._proc.alive, 'join process', timeout)

    def is_alive(self): return self._proc is not None and self._proc.alive

    @property
    def exitcode(self):
        if self._proc is None or self._proc.alive: return None
        return self._proc.exitcode if self._proc.exitcode is not None else -9

    @property
    def pid(self): return self._proc.pid if self._proc else None
    ident = pid

    def terminate(self): self._proc.dead = True; self._proc.exitcode = -15
    kill = terminate
    def close(self): pass


def _fork_copy(o):
    """what the child sees of the parent's objects: plain containers are its own"""
    if type(o) in (list, tuple, set): return type(o)(_fork_copy(x) for x in o)
    if type(o) is dict: return {k: _fork_copy(v) for k, v in o.items()}
    return o


class SimLock:
    """lock usable by simulation nodes; falls back to a real one outside"""

    def __init__(self, reentrant=False):
        self._real = R.RLock() if reentrant else R.Lock()
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        node = _node()
        if node is None: return self._real.acquire(blocking, timeout)
        if self._re and self._owner is node:
            self._count += 1
            return True
        node.sim.yield_('lock')
        if self._owner is not None and not self._owner.done:
            if not blocking: return False
            if not node.sim.block(lambda: self._owner is None or self._owner.done, 'lock',
                                  None if timeout is None or timeout < 0 else timeout): return False
        self._owner, self._count = node, 1
        return True

    def release(self):
        node = _node()
        if node is None or self._owner is None: return self._real.release() if self._owner is None and node is None else None
        self._count -= 1
        if self._count == 0: self._owner = None

    def locked(self): return self._owner is not None or (not self._re and self._real.locked())
    __enter__ = lambda self: self.acquire()
    def __exit__(self, *a): self.release()
    def __deepcopy__(self, memo): return self


# ================================================================ installation
_installed = False


def _dispatch(simcls, real):
    def make(*a, **k):
        node = _node()
        return simcls(*a, **k) if node is not None else real(*a, **k)
    make.__name__ = getattr(real, '__name__', 'make')
    return make


class _MetaPPE(type):
    def __call__(cls, *a, **k):
        return SimExecutor(*a, **k) if _node() is not None else R.PPE(*a, **k)
    def __instancecheck__(cls, o): return isinstance(o, (SimExecutor, R.PPE))


class PPEProxy(metaclass=_MetaPPE):
    pass


class _MetaProc(type):
    def __call__(cls, *a, **k):
        if cls is ProcProxy and _node() is None: return R.Process(*a, **k)
        return super().__call__(*a, **k)


class ProcProxy(SimProcess, metaclass=_MetaProc):
    pass


def install():
    """put the seams in place (once per interpreter, before pdf2docx is imported)"""
    global _installed
    if _installed: return
    _installed = True
    builtins.open = io.open = sim_open
    import _io, _pyio
    os.open = sim_os_open
    os.write, os.close, os.fsync = sim_os_write, sim_os_close, sim_fsync
    for name, kind, n in (('remove', 'remove', 1), ('unlink', 'remove', 1), ('rename', 'rename', 2),
                          ('replace', 'rename', 2), ('mkdir', 'mkdir', 1), ('rmdir', 'rmdir', 1),
                          ('stat', 'stat', 1), ('lstat', 'stat', 1), ('listdir', 'listdir', 1), ('chmod', 'chmod', 1),
                          ('truncate', 'truncate', 1), ('link', 'link', 2), ('symlink', 'link', 2), ('access', 'stat', 1),
                          ('utime', 'chmod', 1)):
        setattr(os, name, _wrap_path(name, kind, n))
    os.scandir = sim_scandir
    import shutil
    shutil._USE_CP_SENDFILE = False        # copies are made of reads and writes
    # functions that know os.* by identity
    for s in ('supports_dir_fd', 'supports_fd', 'supports_follow_symlinks', 'supports_effective_ids'):
        have = getattr(os, s)
        for name in ('open', 'unlink', 'remove', 'rmdir', 'stat', 'lstat', 'mkdir', 'rename', 'replace', 'access', 'chmod',
                     'link', 'symlink', 'utime', 'listdir', 'truncate', 'scandir'):
            real = getattr(R, 'os_open' if name == 'open' else name)
            if real in have: have.add(getattr(os, name))

    def getpid():
        n = _node()
        return n.proc.pid if n else R.getpid()
    os.getpid = getpid

    def kill(pid, sig):
        n = _node()
        if n is None: return R.kill(pid, sig)
        for p in n.sim.procs:
            if p.pid == pid and p.alive:
                if not sig: return None
                main = next((m for m in n.sim.nodes if m.proc is p), None)
                if sig in (signal.SIGKILL, signal.SIGSTOP) or main is None or main.done: p.dead = sig != signal.SIGSTOP
                elif p is n.proc: n.sim.deliver(main, sig)
                else: main.interrupt = sig
                if p is n.proc and p.dead: raise SimCrash()
                return None
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    os.kill = kill

    _install_signals()

    def _exit(code):
        n = _node()
        if n is None: R._exit(code)
        n.proc.dead = True
        raise SimCrash()
    os._exit = _exit

    def fork():
        if _node() is not None: raise HarnessError('os.fork is not modelled')
        return R.fork()
    os.fork = fork

    def urandom(n):
        node = _node()
        if node is None: return R.urandom(n)
        return bytes(node.sim.namerng.randrange(256) for _ in range(n))
    os.urandom = urandom

    def uuid1(*a, **k): return uuid.uuid4()
    _real_uuid1 = uuid.uuid1
    uuid.uuid1 = lambda *a, **k: uuid.uuid4() if _node() else _real_uuid1(*a, **k)

    def cpu_count():
        n = _node()
        return n.sim.cpus if n else R.cpu_count()
    os.cpu_count = cpu_count
    multiprocessing.cpu_count = lambda: cpu_count()
    if hasattr(os, 'process_cpu_count'): os.process_cpu_count = cpu_count

    def clockfn(attr, real, scale=1, integer=False):
        def f():
            n = _node()
            if n is None: return real()
            v = getattr(n.sim, attr)
            return int(v * 1e9) if integer else v
        return f
    time.time = clockfn('clock', R.time)
    time.perf_counter = clockfn('mono', R.perf_counter)
    time.monotonic = clockfn('mono', R.monotonic)
    time.process_time = clockfn('mono', R.process_time)
    time.time_ns = clockfn('clock', R.time_ns, integer=True)
    time.perf_counter_ns = clockfn('mono', R.perf_counter_ns, integer=True)
    time.monotonic_ns = clockfn('mono', R.monotonic_ns, integer=True)

    def sleep(t):
        n = _node()
        if n is None: return R.sleep(t)
        end = n.sim.mono + t
        n.sim.op('sleep', None)
        n.sim.block(lambda: n.sim.mono >= end, 'sleep', max(t, 1e-9))
    time.sleep = sleep

    multiprocessing.Pool = _dispatch(SimPool, R.Pool)
    multiprocessing.context.BaseContext.Pool = _ctx_pool(multiprocessing.context.BaseContext.Pool)
    concurrent.futures.ProcessPoolExecutor = PPEProxy
    concurrent.futures.process.ProcessPoolExecutor = PPEProxy
    concurrent.futures.wait = sim_wait
    concurrent.futures.as_completed = sim_as_completed
    multiprocessing.Process = ProcProxy
    threading.Lock = lambda: SimLock() if _importing_target() else R.Lock()
    threading.RLock = lambda: SimLock(True) if _importing_target() else R.RLock()
    _install_fitz()
    from . import simsync
    simsync.install()


def _install_signals():
    real = types.SimpleNamespace(**{k: getattr(signal, k) for k in ('signal', 'getsignal', 'raise_signal', 'alarm', 'setitimer', 'getitimer', 'pthread_sigmask',
                                                                    'sigpending', 'siginterrupt', 'set_wakeup_fd')})

    def main(n): return next((m for m in n.sim.nodes if m.proc is n.proc), None) is n

    def current(n, sig): return n.proc.signals.get(sig, signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL)

    def signal_(sig, handler):
        n = _node()
        if n is None: return real.signal(sig, handler)
        if not main(n): raise ValueError('signal only works in main thread of the main interpreter')
        if not callable(handler) and handler not in (signal.SIG_IGN, signal.SIG_DFL):
            raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
        sig = signal.Signals(sig)
        if sig in (signal.SIGKILL, signal.SIGSTOP): raise OSError(errno.EINVAL, 'Invalid argument')
        old = current(n, sig)
        n.proc.signals[sig] = handler
        return old

    def getsignal(sig):
        n = _node()
        return current(n, signal.Signals(sig)) if n else real.getsignal(sig)

    def raise_signal(sig):
        n = _node()
        if n is None: return real.raise_signal(sig)
        os.kill(n.proc.pid, sig)

    def setitimer(which, seconds, interval=0.0):
        n = _node()
        if n is None: return real.setitimer(which, seconds, interval)
        left = max(0.0, n.proc.alarm - n.sim.mono) if n.proc.alarm else 0.0
        n.proc.alarm = n.sim.mono + seconds if seconds else None
        return (left, 0.0)

    def alarm(seconds):
        return int(setitimer(signal.ITIMER_REAL, seconds)[0]) if _node() else real.alarm(seconds)

    def getitimer(which):
        n = _node()
        if n is None: return real.getitimer(which)
        return (max(0.0, n.proc.alarm - n.sim.mono) if n.proc.alarm else 0.0, 0.0)

    def pthread_sigmask(how, mask):
        n = _node()
        if n is None: return real.pthread_sigmask(how, mask)
        old = set(n.proc.blocked)
        mask = set(mask)
        n.proc.blocked = {signal.SIG_BLOCK: old | mask, signal.SIG_UNBLOCK: old - mask, signal.SIG_SETMASK: mask}[how]
        todo = [x for x in n.proc.pending if x not in n.proc.blocked]
        n.proc.pending = [x for x in n.proc.pending if x in n.proc.blocked]
        for x in todo: n.sim.deliver(n, x)
        return old

    def sigpending():
        n = _node()
        return set(n.proc.pending) if n else real.sigpending()

    def siginterrupt(sig, flag): return None if _node() else real.siginterrupt(sig, flag)
    def set_wakeup_fd(fd, **k): return -1 if _node() else real.set_wakeup_fd(fd, **k)
    for f in (getsignal, raise_signal, setitimer, alarm, getitimer, pthread_sigmask, sigpending, siginterrupt, set_wakeup_fd): setattr(signal, f.__name__, f)
    signal.signal = signal_


def _importing_target():
    f = sys._getframe(2)
    return f.f_globals.get('__name__', '').startswith('pdf2docx')


def _ctx_pool(real):
    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if _node() is not None: return SimPool(processes, initializer, initargs, maxtasksperchild)
        return real(self, processes, initializer, initargs, maxtasksperchild)
    return Pool


def _install_fitz():
    import fitz
    D = fitz.Document
    init, close, save = D.__init__, D.close, D.save

    def __init__(self, filename=None, *a, **k):
        node = _node()
        if node is None or filename is None or not isinstance(filename, (str, os.PathLike)) or k.get('stream') is not None or (a and a[0] is not None):
            return init(self, filename, *a, **k)
        d = node.sim.op('pdf-open', filename)
        if d:
            # a constructor that fails leaves an object whose __del__ must work
            self.isClosed = True
            self._graft_id = None
            _raise(d, str(filename))
        init(self, filename, *a, **k)
        node.proc.handles.append((weakref.ref(self), node.sim.short(filename)))

    def close_(self, *a, **k):
        node = _node()
        if node is not None and not self.is_closed: node.sim.op('pdf-close', None)
        return close(self, *a, **k)

    def save_(self, filename, *a, **k):
        node = _node()
        if node is None or not isinstance(filename, (str, os.PathLike)) or not _managed(node.sim, filename):
            return save(self, filename, *a, **k)
        if k.get('incremental'):
            # appended to the file itself
            for kind in ('open-w', 'write'):
                d = node.sim.op(kind, filename)
                if d: _raise(d, str(filename))
            return save(self, filename, *a, **k)
        b = io.BytesIO()
        save(self, b, *a, **k)
        try:
            with sim_open(filename, 'wb') as f: f.write(b.getvalue())
        except OSError as e:
            raise RuntimeError('cannot write file: %s' % e)
    D.__init__, D.close, D.save = __init__, close_, save_


# ================================================================ line level preemption
TOOL = 4


def watch_lines(sim_getter, codes):
    """every executed line of the given code objects is a yield point of the current node"""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None: mon.use_tool_id(TOOL, 'dst')

    def on_line(code, line):
        node = cur()
        if node is None: return
        sim = node.sim
        sim.line_events += 1
        c = node.countdown
        if c is None: return
        if c > 1:
            node.countdown = c - 1
            return
        sim.line_preempt(node)
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    for c in codes: mon.set_local_events(TOOL, c, mon.events.LINE)


def line_preempt(self, node):
    if self.aborted or node.proc.dead: return
    cands = [n for n in self.runnable() if n is not node]
    if cands:
        nxt = cands[self.choose(len(cands))] if len(cands) > 1 else cands[0]
        self.digest.update(('L%d' % self.line_events).encode())
        self.arm(node)
        self.switch(node, nxt)
    else:
        self.arm(node)


Sim.line_preempt = line_preempt


def all_codes(prefix='pdf2docx'):
    """all code objects of the package, nested ones included, in a stable order"""
    seen, out = set(), []

    def walk(code):
        if code in seen: return
        seen.add(code); out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType): walk(c)

    def fn(v):
        if isinstance(v, (staticmethod, classmethod)): v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None: fn(f)
            return
        f = getattr(v, 'func', None)
        if f is not None and isinstance(f, types.FunctionType): fn(f)
        while hasattr(v, '__wrapped__'): 
            if isinstance(v, types.FunctionType): walk(v.__code__)
            v = v.__wrapped__
        if isinstance(v, types.FunctionType):
            walk(v.__code__)
            for cell in v.__closure__ or ():
                try: c = cell.cell_contents
                except ValueError: continue
                if isinstance(c, types.FunctionType) and c.__module__.startswith(prefix): fn(c)
    for m in _mods():
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and getattr(v, '__module__', '') == m.__name__:
                for cv in list(vars(v).values()): fn(cv)
            elif isinstance(v, types.FunctionType) and v.__module__ == m.__name__: fn(v)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out
