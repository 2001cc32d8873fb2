"""Runs many simulated runs, each in its own forked child of one pristine interpreter,
judges them, minimises the first failing one, and writes evidence and replay files."""
import gc
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot, sim as S

VERIF = boot.VERIF
R = S.R
RUN_LIMIT = 60         # seconds of real time for one child (it usually takes well under one)


def overdue(pid, wall):
    """has had its time, or waits for nothing; a child on a busy machine is given more"""
    try:
        with R.open('/proc/%d/stat' % pid) as f: v = f.read().rsplit(')', 1)[1].split()
        cpu = (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError): return False
    if v[0] in 'ZX': return False                                # has ended: what it wrote is still to be read
    return cpu > .7 * RUN_LIMIT or cpu < 2 and wall > 1.5 * RUN_LIMIT or wall > 4 * RUN_LIMIT


def preload():
    """import everything a run needs, so that a fork starts from a ready interpreter"""
    boot.setup()
    S.install()
    import pdf2docx, pdf2docx.main, docx, fitz, cv2, numpy, lxml.etree, fire, fire.core      # noqa
    import multiprocessing.pool, concurrent.futures.process                 # noqa
    import json.encoder, uuid, tempfile, zipfile                            # noqa
    from . import world, model                                              # noqa
    gc.collect()
    gc.freeze()


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 1 << 28: return d
    return tempfile.gettempdir()


class Pool:
    """fork-per-job executor"""

    def __init__(self, fn, n=None):
        self.fn = fn
        self.n = n or int(os.environ.get('DST_JOBS') or os.cpu_count() or 4)
        self.root = tempfile.mkdtemp(prefix='dst-', dir=scratch_root())
        self.active = {}
        self.count = 0

    def _start(self, key, job):
        r, w = os.pipe()
        self.count += 1
        d = os.path.join(self.root, 'r%d' % self.count)
        os.mkdir(d)
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0); os.dup2(dn, 1)
                if not os.environ.get('DST_STDERR'): os.dup2(dn, 2)
                os.chdir(d)
                gc.disable()
                try: res = ('ok', self.fn(job, d))
                except BaseException as e:
                    res = ('error', '%r\n%s' % (e, traceback.format_exc()))
                data = pickle.dumps(res)
                i = 0
                while i < len(data): i += R.write(w, data[i:i + 65536])
            except BaseException:
                code = 70
            finally:
                os._exit(code)
        os.close(w)
        self.active[r] = [key, pid, d, bytearray(), time.monotonic()]

    def run(self, jobs, stop=None):
        """jobs: iterable of (key, job) -> yields (key, status, value)"""
        it = iter(jobs)
        more = True
        try:
            while True:
                while more and len(self.active) < self.n and not (stop and stop()):
                    try: key, job = next(it)
                    except StopIteration:
                        more = False
                        break
                    self._start(key, job)
                if not self.active: break
                rd, _, _ = select.select(list(self.active), [], [], 1.0)
                for r in rd:
                    a = self.active[r]
                    b = os.read(r, 1 << 20)
                    if b:
                        a[3] += b
                        continue
                    yield self._finish(r)
                if rd: continue                                  # a child is late only if there is nothing more to read
                now = time.monotonic()
                for r in [r for r, a in self.active.items() if now - a[4] > RUN_LIMIT and overdue(a[1], now - a[4])]:
                    try: os.killpg(self.active[r][1], signal.SIGKILL)
                    except OSError: pass
                    yield self._finish(r, 'time')
                if stop and stop(): more = False
        finally:
            for r in list(self.active):
                try: os.killpg(self.active[r][1], signal.SIGKILL)
                except OSError: pass
                self._finish(r)

    def _finish(self, r, why=None):
        key, pid, d, data, t0 = self.active.pop(r)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
        shutil.rmtree(d, ignore_errors=True)
        if why == 'time': return key, 'timeout', 'no answer within %d s' % RUN_LIMIT
        try: st, val = pickle.loads(bytes(data))
        except Exception: return key, 'crash', 'child ended with status %s' % status
        return key, st, val

    def close(self): shutil.rmtree(self.root, ignore_errors=True)
