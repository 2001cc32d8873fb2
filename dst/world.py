"""One simulated run: build the scratch world of a plan, run its processes and
operations under the simulator through pdf2docx's public interface, and return
the recorded history. Judging is done elsewhere (model.py and the checks)."""
import contextlib
import bisect
import gc
import hashlib
import io
import json
import os
import pathlib
import sys
import threading
import types

from . import canon, corpus, sim as S

EPOCH = 1.0e9       # simulated time at the beginning of a run

SETTINGS = {
    'default': {},
    'wide_gap': {'float_image_ignorable_gap': 60.0, 'line_separate_threshold': 40.0, 'line_merging_threshold': 30.0},
    'no_clip': {'curve_path_ratio': 0.95, 'clip_image_res_ratio': 1.0, 'line_free_space_ratio_threshold': 0.9},
    'clip': {'curve_path_ratio': 0.01, 'clip_image_res_ratio': 1.5, 'float_layout_tolerance': 1.0},
    'margin': {'page_margin_factor_top': 0.0, 'page_margin_factor_bottom': 1.0, 'lines_left_aligned_threshold': 10.0,
               'lines_right_aligned_threshold': 10.0, 'lines_center_aligned_threshold': 10.0},
    'borders': {'connected_border_tolerance': 6.0, 'max_border_width': 1.0, 'min_border_clearance': 30.0},
    'shapes': {'shape_merging_threshold': 0.01, 'shape_min_dimension': 12.0, 'line_overlap_threshold': 0.1, 'page_margin_factor_bottom': 0.0},
    'stream': {'extract_stream_table': True},
}
SETTING_NAMES = list(SETTINGS)

_pdf_cache = {}


def page_ends(data):
    """where the layout of a page ends: every bracket in a list in the outermost structure is closed"""
    depth, text, res, i = 0, False, [], 0
    while i < len(data):
        c = data[i:i + 1]
        if text:
            if c == b'\\': i += 1
            elif c == b'"': text = False
        elif c == b'"': text = True
        elif c in b'{[': depth += 1
        elif c in b'}]':
            depth -= 1
            if depth == 2: res.append(i + 1)
        i += 1
    return res


def pdf_bytes(spec):
    k = json.dumps(spec, sort_keys=True)
    if k not in _pdf_cache: _pdf_cache[k] = corpus.build(spec)
    return _pdf_cache[k]


def spec_key(spec): return hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:20]


def norm(fr): return fr


def read_docx(path):
    """('ok', [fragments], styles) | ('absent',) | ('bad', why). Real I/O, no seam."""
    try:
        with S.R.open(path, 'rb') as f: data = f.read()
    except FileNotFoundError: return ('absent',)
    except IsADirectoryError: return ('bad', 'directory')
    try:
        parts = canon.read(io.BytesIO(data))
        return ('ok', canon.fragments(parts), canon.styles(parts))
    except canon.BadDocx as e:
        return ('bad', str(e)[:200])


def file_hash(path):
    try:
        with S.R.open(path, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()
    except FileNotFoundError: return None
    except IsADirectoryError: return 'dir'


# ---------------------------------------------------------------- reference results
def reference(job):
    """pristine single page conversion: job = {'spec':, 'page':, 'set':}. Runs in a fresh fork
    that has converted nothing before."""
    from pdf2docx import Converter
    with S.R.open('ref.pdf', 'wb') as f: f.write(pdf_bytes(job['spec']))
    out = {'frag': None, 'err': None, 'tables': None, 'calls': {}}
    kw = dict(SETTINGS[job['set']])
    counts = {}
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try: cv = Converter('ref.pdf')
        except Exception as e:
            out['err'] = S.describe(e)
            return out
        with PageFaults([], counts) as pf:
            try:
                cv.convert('ref.docx', pages=[job['page']], kwargs=kw)
                r = read_docx('ref.docx')
                if r[0] != 'ok': out['err'] = 'ref docx ' + str(r[1:])
                elif pf.escaped: out['err'] = 'page ignored: %s' % (pf.escaped[0],)
                else: out['frag'], out['styles'] = r[1], r[2]
            except Exception as e:
                out['err'] = S.describe(e)
        out['calls'] = {'%s' % k[1]: v for k, v in counts.items()}
        cv.close()
        if out['frag'] is not None:
            cv = Converter('ref.pdf')
            try: out['tables'] = cv.extract_tables(pages=[job['page']], kwargs=dict(SETTINGS[job['set']]))
            except Exception as e: out['terr'] = S.describe(e)
            cv.close()
    return out


# ---------------------------------------------------------------- faults inside one page
class Injected(Exception):
    pass


def _library_error():
    import cv2
    return cv2.error('injected')


EXC = {'runtime': lambda: RuntimeError('injected failure'), 'memory': lambda: MemoryError('injected'),
       'value': lambda: ValueError('injected value'), 'index': lambda: IndexError('injected index'),
       'key': lambda: KeyError('injected key'), 'zero': lambda: ZeroDivisionError('injected division'),
       'recursion': lambda: RecursionError('injected recursion'), 'os': lambda: OSError(5, 'injected io error'),
       'unicode': lambda: UnicodeDecodeError('utf-8', b'\xff\xfe', 0, 1, 'injected \u2028\U0001f600'),
       'attr': lambda: AttributeError('injected attribute \xe9\u4e2d'), 'type': lambda: TypeError('injected type'),
       'stop': lambda: StopIteration('injected'), 'assert': lambda: AssertionError('injected assertion'),
       'own': lambda: Injected('injected'), 'bare': lambda: RuntimeError(), 'format': lambda: ValueError('100% {x} %s %d {0!r} \\N'),
       'odd': lambda: RuntimeError('\udc80\x00\x1b[2J\r\n' + 'x' * 20000), 'args': lambda: RuntimeError(1, None, b'\xff'), 'library': _library_error,
       'nomsg': lambda: KeyError(), 'import': lambda: ImportError('injected'), 'overflow': lambda: OverflowError(34, 'injected'), 'timeout': lambda: TimeoutError('injected')}
EXC_NAMES = list(EXC)
#: packages whose functions may fail at entry: plain computation on a page's own objects. Functions that
#: take care of the PDF document's state (page, image) fail at the library calls they make instead.
FAULT_PKGS = ('pdf2docx.text.', 'pdf2docx.table.', 'pdf2docx.shape.', 'pdf2docx.common.docx')
PTOOL = 3
CTOOL = 2


class PageFaults:
    """makes the n-th eligible call during parsing/creating of one page fail.

    The extent of a page is a call of the public Page.parse / Page.make_docx. Eligible calls are
    function entries in FAULT_PKGS and calls of the PDF, image and docx libraries."""

    def __init__(self, faults, counts=None, sim=None):
        self.faults = [dict(f) for f in faults]
        self.counts = counts
        self.sim = sim
        self.fired = []
        self.escaped = []          # page errors seen by the caller of parsing/making
        self.stack = threading.local()

    # -- extents
    def __enter__(self):
        from pdf2docx.page.Page import Page
        import pdf2docx
        me = self
        self._orig = (Page.parse, Page.make_docx)

        def wrap(fn, phase):
            def f(page, *a, **k):
                st = me.stack.__dict__.setdefault('l', [])
                st.append([page_index(page), phase, 0, False])
                if me.sim: me.sim.log('page', phase, page_index(page), '', '')
                try: return fn(page, *a, **k)
                except Exception as e:
                    me.escaped.append((page_index(page), phase, S.describe(e)))
                    raise
                finally: st.pop()
            f.__name__, f.__wrapped__ = fn.__name__, fn
            return f
        Page.parse, Page.make_docx = wrap(Page.parse, 'parse'), wrap(Page.make_docx, 'make')
        if not self.faults and self.counts is None: return self
        mon = sys.monitoring
        if mon.get_tool(PTOOL) is None: mon.use_tool_id(PTOOL, 'dst-page')
        codes = [c for c in S.all_codes() if eligible(c)]
        # one code object serves several names; module of a code = its file
        mon.register_callback(PTOOL, mon.events.PY_START, self._start)
        for c in codes: mon.set_local_events(PTOOL, c, mon.events.PY_START)
        self._codes = codes
        self._libs = _lib_seams(self.hit)
        return self

    def __exit__(self, *a):
        from pdf2docx.page.Page import Page
        Page.parse, Page.make_docx = self._orig
        if not self.faults and self.counts is None: return False
        mon = sys.monitoring
        for c in self._codes: mon.set_local_events(PTOOL, c, 0)
        mon.register_callback(PTOOL, mon.events.PY_START, None)
        for o, n, v in self._libs: setattr(o, n, v)
        return False

    def _start(self, code, off): self.hit('fn', code.co_qualname)

    def hit(self, what, name):
        st = self.stack.__dict__.get('l')
        if not st: return
        top = st[-1]
        if top[3]: return
        page, phase = top[0], top[1]
        if self.counts is not None:
            k = (page, phase + ('' if what == 'fn' else '-lib'))
            self.counts[k] = self.counts.get(k, 0) + 1
        for f in self.faults:
            if f.get('used') or f['page'] != page or f['phase'] != phase or f.get('what', 'fn') != what: continue
            f['seen'] = f.get('seen', -1) + 1
            if f['seen'] < f['nth']: continue
            f['used'] = not f.get('again')
            top[3] = True
            self.fired.append((page, phase, what, name, f['exc']))
            if self.sim:
                self.sim.log('PAGEFAULT', page, phase, name, f['exc'])
                k = 'page_' + phase + ('_lib' if what != 'fn' else '')
                self.sim.fault_counts[k] = self.sim.fault_counts.get(k, 0) + 1
            raise EXC[f['exc']]()


def lib_codes():
    import fitz
    out = set()
    for m in [m for n, m in sorted(sys.modules.items()) if m is not None and (n == 'docx' or n.startswith('docx.'))] + [fitz, fitz.utils]:
        pre = ('get', 'extract', 'load', 'search') if m in (fitz, fitz.utils) else ('',)
        for v in list(vars(m).values()):
            if isinstance(v, types.FunctionType): fs = [v]
            elif isinstance(v, type) and v.__module__ == m.__name__:
                fs = [getattr(f, '__func__', f) for x in vars(v).values() for f in ((x.fget, x.fset) if isinstance(x, property) else (x,))]
            else: continue
            out.update(f.__code__ for f in fs if isinstance(f, types.FunctionType) and f.__module__ == m.__name__ and f.__name__.startswith(pre)
                       and not f.__name__.startswith('__') and '<' not in f.__name__)
    return out


class CallFaults:
    '''interrupts the n-th call of any function of the package, or of a function of the document and PDF libraries
    called by it, during one operation; without faults, counts them'''

    def __init__(self, world, faults):
        self.world, self.faults = world, [dict(f) for f in faults]
        self.counts = {}
        self.names = {}            # where in the count each function is called: the first and some later calls

    def __enter__(self):
        mon = sys.monitoring
        if mon.get_tool(CTOOL) is None: mon.use_tool_id(CTOOL, 'dst-call')
        self._codes = [c for c in S.all_codes() if '<' not in c.co_qualname.split('.')[-1] and not c.co_name.startswith('__')]
        # state of the PDF library is set and restored around some calls: only its readers are interrupted
        self._lib = lib_codes()
        self._own = set(S.all_codes())
        self._codes += self._lib
        mon.register_callback(CTOOL, mon.events.PY_START, self._start)
        for c in self._codes: mon.set_local_events(CTOOL, c, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in self._codes: mon.set_local_events(CTOOL, c, 0)
        mon.register_callback(CTOOL, mon.events.PY_START, None)

    def _start(self, code, off):
        o = getattr(self.world.now, 'o', None)
        if o is None: return
        if code in self._lib:
            b = sys._getframe(1).f_back
            if b is None or b.f_code not in self._own: return
        k = '%s/%d/%d' % (o.proc, o.thread, o.idx)
        i = self.counts[k] = self.counts.get(k, -1) + 1
        if not self.faults:
            at = self.names.setdefault(k, {}).setdefault(code.co_qualname, [])
            if len(at) < 4: at.append(i)
            elif i % 7 == 0: at[1 + i % 3] = i
        for f in self.faults:
            if f['at'] == k and f['nth'] == i:
                sim = self.world.sim
                sim.fired.append((f['act'], 'call', code.co_qualname))
                sim.fault_counts['call_' + f['act']] = sim.fault_counts.get('call_' + f['act'], 0) + 1
                sim.log('FAULT', f['act'], 'call', code.co_qualname)
                if f['act'] != 'interrupt': raise S.INTERRUPTS[f['act']]()
                sim.deliver(S._node(), S.signal.SIGINT)


def page_index(page):
    """index of a pdf2docx page, parsed or not"""
    import fitz
    for v in vars(page).values():
        if isinstance(v, fitz.Page): return v.number
    return page.id


def eligible(code):
    fn = code.co_filename.replace(os.sep, '/')
    i = fn.rfind('pdf2docx/')
    if i < 0: return False
    mod = fn[i:-3].replace('/', '.')
    if not mod.startswith(FAULT_PKGS): return False
    # comprehensions/lambdas are part of the function around them; generators may be closed during clean-up
    return '<' not in code.co_qualname.split('.')[-1]


def _lib_seams(hit):
    """calls of libraries that can fail while one page is processed"""
    import fitz
    import docx.document, docx.text.run, docx.table, docx.text.paragraph, docx.section
    import cv2
    saved = []

    def patch(obj, name, label):
        real = obj.__dict__.get(name) if isinstance(obj, type) else getattr(obj, name, None)
        if real is None: return
        if isinstance(real, property) or not callable(real): return

        def f(*a, **k):
            hit('lib', label)
            return real(*a, **k)
        f.__name__ = name
        f.__wrapped__ = real
        saved.append((obj, name, real))
        setattr(obj, name, f)
    for n in ('get_text', 'getText', 'get_drawings', 'getDrawings', 'get_cdrawings', 'get_images', 'getImageList',
              'get_image_bbox', 'getImageBbox', 'get_image_rects', 'get_pixmap', 'getPixmap', 'get_links', 'getLinks',
              'get_textpage'):
        patch(fitz.Page, n, 'Page.' + n)
    for n in ('extract_image', 'extractImage'): patch(fitz.Document, n, 'Document.' + n)
    patch(docx.document.Document, 'add_section', 'Document.add_section')
    patch(docx.document.Document, 'add_paragraph', 'Document.add_paragraph')
    patch(docx.document.Document, 'add_table', 'Document.add_table')
    patch(docx.text.run.Run, 'add_picture', 'Run.add_picture')
    patch(docx.text.paragraph.Paragraph, 'add_run', 'Paragraph.add_run')
    patch(docx.table._Cell, 'add_paragraph', 'Cell.add_paragraph')
    patch(docx.table._Cell, 'merge', 'Cell.merge')
    for n in ('cvtColor', 'threshold', 'findContours', 'imdecode', 'boundingRect'): patch(cv2, n, 'cv2.' + n)
    return saved


# ---------------------------------------------------------------- one run
class Outcome:
    """what one operation did"""
    __slots__ = ('proc', 'thread', 'idx', 'op', 'status', 'detail', 'docx', 'value', 'seq0', 'seq1', 'files', 'alive',
                 'handles', 'changed', 'trace0', 'trace1', 'pfired', 'fired', 'out', 'escaped', 'size')

    def __init__(self, proc, thread, idx, op):
        self.proc, self.thread, self.idx, self.op = proc, thread, idx, op
        self.status = 'running'
        self.detail = ''
        self.docx = self.value = None
        self.files = self.alive = self.handles = None
        self.pfired = []
        self.changed = None
        self.fired = []
        self.escaped = []
        self.out = ''
        self.size = None

    def brief(self):
        return '%s.%s[%d] %s -> %s %s' % (self.proc, self.thread, self.idx, json.dumps(self.op, sort_keys=True),
                                          self.status, self.detail)


class World:
    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.history = []
        self.vars = {}
        self.opened = {}
        self.kw = {}
        self.now = threading.local()      # operation of the current thread

    def path(self, name): return os.path.join(self.scratch, 'w', name)

    def setup(self):
        w = os.path.join(self.scratch, 'w')
        for d in (w, os.path.join(self.scratch, 'tmp')): os.makedirs(d, exist_ok=True)
        self.inputs = {}
        links = self.plan.get('links', {})
        for name, spec in self.plan['docs'].items():
            if name in links: continue
            p = self.path(name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f: f.write(pdf_bytes(spec))
            self.inputs[name] = file_hash(p)
        for name, content in self.plan.get('files', {}).items():
            p = self.path(name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if content == 'OLDDOCX': data = old_docx()
            elif content == 'DIR':
                os.makedirs(p, exist_ok=True)
                continue
            else: data = content.encode()
            with open(p, 'wb') as f: f.write(data)
        import random
        age = random.Random('age/%s' % self.plan.get('seed'))
        for name in sorted(self.plan['docs']) + sorted(self.plan.get('files', {})):
            # of the last minutes, or of last year
            if name in links: continue
            t = EPOCH - age.choice((1, 60, 600, 7200, 4e7))
            os.utime(self.path(name), (t, t))
        for link, target in links.items():
            os.makedirs(os.path.dirname(self.path(link)), exist_ok=True)
            os.symlink(os.path.relpath(self.path(target), os.path.dirname(self.path(link))), self.path(link))
            self.inputs[link] = file_hash(self.path(link))
        # an output may be a link to a file somewhere else, existing or not
        for link, target in self.plan.get('outlinks', {}).items():
            for n in (link, target): os.makedirs(os.path.dirname(self.path(n)), exist_ok=True)
            os.symlink(os.path.relpath(self.path(target), os.path.dirname(self.path(link))), self.path(link))
        os.chdir(w)
        self.initial = {n: file_hash(self.path(n)) for n in self.listing()}

    def listing(self, sub='w'):
        out = []
        base = os.path.join(self.scratch, sub)
        def walk(d, pre):
            with S.R.scandir(d) as it: es = list(it)
            for e in es:
                if e.is_dir(follow_symlinks=False):
                    out.append(pre + e.name + '/')
                    walk(e.path, pre + e.name + '/')
                else: out.append(pre + e.name)
        walk(base, '')
        return sorted(out)

    # ---- operations
    def env(self, proc): return self.vars.setdefault(proc, {})

    def as_given(self, name, op):
        """a file name the way the user writes it"""
        form = op.get('form')
        if name is None or form is None: return name
        if form == 'abs': return self.path(name)
        if form == 'dot': return './' + name
        if form == 'path': return pathlib.Path(name)
        return '../w/' + name

    def kwargs(self, proc, op):
        """settings of an operation; 'shared' re-uses one dict object in all operations"""
        if op.get('shared'):
            # one dictionary object of the user, passed to every call that names it
            d = dict(SETTINGS[op.get('set', 'default')])
            if op.get('mp'): d.update({'multi_processing': True, 'cpu_count': op.get('cpu') or 2})
            return self.kw.setdefault((proc, op['shared']), d)
        if op.get('none'): return None
        d = dict(SETTINGS[op.get('set', 'default')])
        if op.get('mp'):
            d['multi_processing'] = True
            if op.get('cpu'): d['cpu_count'] = op['cpu']
        return d

    def run_op(self, proc, thread, idx, op):
        from pdf2docx import Converter
        from pdf2docx.main import PDF2DOCX
        import pdf2docx
        env = self.env(proc if not op.get('local') else '%s/%s' % (proc, thread))
        o = Outcome(proc, thread, idx, op)
        o.seq0 = self.sim.opseq
        o.trace0 = len(self.sim.trace)
        nout = len(self.sim.out)
        self.history.append(o)
        k = op['op']
        sel = {x: op[x] for x in ('start', 'end', 'pages') if op.get(x) is not None}
        # lists are the caller's own; with 'same', one list object serves several calls
        if 'pages' in sel: sel['pages'] = self.kw.setdefault((proc, 'pages', op['same']), list(sel['pages'])) if op.get('same') else list(sel['pages'])
        api_kw, page_arg = None, op.get('page')
        if k.startswith('api'):
            api_kw = self.kwargs(proc, op) or {}
            if op.get('one'):
                # the same pages, counted from one
                api_kw['zero_based_index'] = False
                sel = {x: [i + 1 for i in v] if x == 'pages' else v + 1 for x, v in sel.items()}
                if page_arg is not None: page_arg += 1
        out_arg, pdf_arg = self.as_given(op.get('out'), op), self.as_given(op.get('file'), op)
        if op.get('stream'): out_arg = io.BytesIO()      # the caller wants the document in memory
        me = S.cur()
        before = self.hashes() if self.plan.get('hashes') else None
        npf, nf, ne = len(self.pf.fired), len(self.sim.fired), len(self.pf.escaped)
        if k != 'open' and 'h' in op and op['h'] not in env or k == 'restore' and op['v'] not in env:
            # an operation this one builds on did not succeed
            o.status, o.seq1 = 'skip', self.sim.opseq
            return o
        self.now.o = o
        try:
            if k == 'open':
                self.opened[(proc, op['h'])] = op['file']
                env[op['h']] = Converter(pdf_arg)
            elif k == 'convert': env[op['h']].convert(out_arg, kwargs=self.kwargs(proc, op), **sel)
            elif k == 'tables': o.value = env[op['h']].extract_tables(kwargs=self.kwargs(proc, op), **sel)
            elif k == 'parse': env[op['h']].parse(sel.get('pages'), self.kwargs(proc, op))
            elif k == 'make': env[op['h']].make_docx(out_arg)
            elif k == 'store':
                v = env[op['h']].store()
                env[op['v']] = json.loads(json.dumps(v)) if op.get('json', True) else v
                if self.plan.get('layouts'): o.value = pages_of(v)
            elif k == 'restore':
                v = env[op['v']]
                env[op['h']].restore(json.loads(json.dumps(v)) if op.get('fresh', True) else v)
            elif k == 'serialize':
                env[op['h']].serialize(op['file'])
                if self.plan.get('layouts'):
                    with S.R.open(self.path(op['file']), encoding='utf-8') as f: o.value = pages_of(json.load(f))
            elif k == 'deserialize': env[op['h']].deserialize(op['file'])
            elif k == 'debug': env[op['h']].debug_page(op['page'], out_arg, op.get('pdf'), op.get('layout'), self.kwargs(proc, op))
            elif k == 'close': env[op['h']].close()
            elif k == 'api' and op.get('cli'): cli('convert', pdf_arg, out_arg, sel, api_kw)
            elif k == 'api': pdf2docx.parse(pdf_arg, out_arg, **sel, **api_kw)
            elif k == 'api_tables': o.value = PDF2DOCX.table(pdf_arg, **sel, **api_kw)
            elif k == 'api_debug' and op.get('cli'): cli('debug', pdf_arg, None, {'page_index': page_arg, 'docx_file': out_arg, 'layout_file': op['layout'], **({'debug_pdf': op['pdf']} if op.get('pdf') else {})}, api_kw)
            elif k == 'api_debug': PDF2DOCX.debug(pdf_arg, page_arg, out_arg, op.get('pdf'), op['layout'], **api_kw)
            elif k == 'drop': env.pop(op['h'], None); gc.collect()
            elif k == 'gc': gc.collect()
            elif k == 'measure': o.size = held(me)
            elif k == 'ptables': o.value = [t for p in op['pages'] for t in env[op['h']][p].extract_tables()]
            elif k == 'swap':
                # harness: the user replaces the file by another one
                with S.R.open(self.path(op['file']) + '.new', 'wb') as f: f.write(pdf_bytes(self.plan['docs'][op['by']]))
                S.R.rename(self.path(op['file']) + '.new', self.path(op['file']))
            elif k == 'wait':
                others = [p for p in self.sim.procs if p.name in op['for']]
                self.sim.block(lambda: all(not p.alive for p in others), 'wait')
            elif k == 'tear':
                # harness: the file lost its tail while no process was running
                p = self.path(op['file'])
                n = os.path.getsize(p)
                R = S.R
                cut = int(n * op['frac'])
                with R.open(p, 'rb') as f: data = f.read()
                # ... at the end of a line or of a structure
                if op.get('snap') == 'page':
                    ends = page_ends(data)
                    if ends: cut = ends[min(int(len(ends) * op['frac']), len(ends) - 1)]
                elif op.get('snap') and cut < n: cut = max(data.rfind(c, 0, cut) for c in {'line': [b'\n'], 'end': [b'}', b']']}[op['snap']]) + 1
                R.truncate(p, cut)
                # ... or the space of the lost part was allocated, but never written
                if op.get('zero'): R.truncate(p, n)
            else: raise S.HarnessError('unknown op ' + k)
            o.status = 'ok'
            if op.get('stream'):
                with S.R.open(self.path(op['out']), 'wb') as f: f.write(out_arg.getvalue())
        except S.SimCrash:
            o.status = 'killed'; raise
        except S.SimAbort:
            o.status = 'hung'; raise
        except S.HarnessError: raise
        except BaseException as e:
            o.status = 'raise'
            o.detail = S.describe(e)
            # seen by a caller who still looks at the error and everything it refers to
            if self.plan.get('observe'): o.handles = self.open_handles(me)
            e.__traceback__ = None
        finally:
            self.now.o = None
            o.seq1 = self.sim.opseq
            o.trace1 = len(self.sim.trace)
            o.pfired = self.pf.fired[npf:]
            o.fired = self.sim.fired[nf:]
            o.out = ''.join(self.sim.out[nout:])
            o.escaped = self.pf.escaped[ne:]
            out = self.out_of(op, proc)
            if o.status in ('ok', 'raise'):
                if out: o.docx = read_docx(self.path(out))
                if before is not None:
                    now = self.hashes()
                    o.changed = sorted(n for n in set(before) | set(now) if before.get(n) != now.get(n))
                if self.plan.get('observe'):
                    o.files = self.listing()
                    o.alive = [p.name for p in self.sim.procs if p.parent is me.proc and p.alive]
                    if o.handles is None: o.handles = self.open_handles(me)
                    o.files += ['<TMP>/' + x for x in self.listing('tmp')]
        return o

    def hashes(self): return {n: file_hash(self.path(n)) for n in self.listing() if not n.endswith('/')}

    @staticmethod
    def open_handles(node): return [n for r, n in node.proc.handles if r() is not None and not _closed(r())]

    def outputs(self, op, proc):
        """all files an operation may create or change"""
        out = []
        d = self.out_of(op, proc)
        if d: out.append(d)
        if op['op'] in ('debug', 'api_debug'):
            f = op.get('file') or self.opened.get((proc, op.get('h')))
            path, name = os.path.split(f)
            out.append(op.get('pdf') or os.path.join(path, 'debug_' + name))
            out.append(op.get('layout') or os.path.join(path, 'layout.json'))
        if op['op'] == 'serialize': out.append(op['file'])
        out += [self.plan['outlinks'][n] for n in out if n in self.plan.get('outlinks', ())]
        return [os.path.relpath(os.path.join(self.scratch, 'w', x), os.path.join(self.scratch, 'w')) for x in out]

    def out_of(self, op, proc):
        """docx file an operation writes"""
        if op['op'] not in ('convert', 'make', 'debug', 'api', 'api_debug'): return None
        if op.get('out'): return op['out']
        f = op.get('file') or self.opened.get((proc, op.get('h')))
        return os.path.splitext(f)[0] + '.docx' if f else None

    def run(self):
        plan = self.plan
        sp = plan.get('sim', {})
        line = sp.get('line')
        self.sim = sim = S.Sim(self.scratch, plan['seed'], choices=plan.get('choices'), faults=plan.get('faults', ()),
                               policy=sp.get('policy'), cpus=sp.get('cpus', 4), locale=sp.get('locale', 'utf-8'),
                               stdout_encoding=sp.get('enc', 'utf-8'), quota=sp.get('quota'), start_method=sp.get('start', 'fork'), xdev=sp.get('xdev', False),
                               line_rate=line['rate'] if line else 0)
        if sp.get('max_ops'): sim.max_ops = sp['max_ops']
        self.pf = PageFaults(plan.get('pagefaults', ()), sim=sim)
        self.cf = CallFaults(self, plan.get('callfaults') or ())
        for p in plan['procs']:
            proc = sim.process(p['name'])
            left = [len(p['threads'])]
            for ti, ops in enumerate(p['threads']):
                sim.spawn('%s.%d' % (p['name'], ti), proc, self._body(p['name'], ti, ops, proc, left))
        env = plan.get('variant') or {}
        with contextlib.ExitStack() as st:
            if env.get('ids'): st.enter_context(SimIds(env['salt'], env['ids']))
            if env.get('hash'): st.enter_context(SimHashes(env['salt']))
            if env:
                import random
                random.seed(env['salt'])
                if 'clock' in env: sim.clock, sim.mono = env['clock'], env['mono']
                if env.get('gc'):
                    gc.collect(); gc.freeze()      # the schedule starts from here, whatever ran before
                    gc.set_threshold(env['gc'])
                    gc.enable()
            st.enter_context(self.pf)
            if plan.get('callfaults') is not None: st.enter_context(self.cf)
            if line:
                import random
                codes = S.all_codes()
                r = random.Random('lines/%s' % plan['seed'])
                if line.get('mods'): codes = [c for c in codes if any('/' + m in c.co_filename for m in line['mods'])]
                n = line.get('n', len(codes))
                pick = sorted(r.sample(range(len(codes)), min(n, len(codes))))
                S.watch_lines(sim, [codes[i] for i in pick])
            sim.run()
        for n in sim.nodes:
            if isinstance(n.exc, S.HarnessError): raise n.exc
            if n.exc is not None and not isinstance(n.exc, (S.SimCrash, S.SimAbort)):
                if n.name in self.mainnames: raise S.HarnessError('node %s: %r' % (n.name, n.exc))
        return self

    @property
    def mainnames(self):
        return {'%s.%d' % (p['name'], i) for p in self.plan['procs'] for i in range(len(p['threads']))}

    def _body(self, name, ti, ops, proc, left):
        def body():
            for i, op in enumerate(ops): self.run_op(name, ti, i, op)
            left[0] -= 1
            if left[0] == 0: proc.exited = True
        return body


def cli(cmd, file, out, sel, kw):
    """the command line interface"""
    from pdf2docx.main import main
    argv = ['pdf2docx', cmd, file] + ([out] if out else [])
    for k, v in list(sel.items()) + list(kw.items()): argv.append('--%s=%s' % (k, str(v).replace(' ', '')))
    save = sys.argv
    sys.argv = argv
    try: main()
    finally: sys.argv = save


def pages_of(layout):
    """digests of the pages of a stored layout; boundary boxes of text blocks follow from their lines"""
    def walk(x):
        if isinstance(x, dict): return {str(k): walk(v) for k, v in x.items() if not (k == 'bbox' and 'lines' in x)}
        if isinstance(x, (list, tuple)): return [walk(v) for v in x]
        return x
    try: return {str(p['id']): hashlib.sha256(json.dumps(walk(p), sort_keys=True).encode()).hexdigest()[:16] for p in layout['pages']}
    except (KeyError, TypeError): return None


def held(node):
    """what a process holds: objects, and what is reachable from the state of the package's modules"""
    import types, fitz
    gc.collect()
    out = {}
    for o in gc.get_objects():
        try: m, n = type(o).__module__, type(o).__qualname__
        except Exception: continue
        if isinstance(m, str) and m.split('.')[0] in ('pdf2docx', 'docx', 'fitz', 'tempfile', 'concurrent', 'multiprocessing', 'dst') and m != 'dst.world':
            if m.startswith('dst') and type(o).__name__ not in ('SimRaw', 'SimExecutor', 'SimPool', 'SimProcess', 'SimFuture', 'SimLock'): continue
            if not isinstance(o, type): out['%s.%s' % (m, n)] = out.get('%s.%s' % (m, n), 0) + 1
    # reachable from module and class attributes, default arguments, closures and caches
    seen, todo, nobj, size = set(), [], 0, 0
    for m in S._mods(): todo.append(vars(m))
    while todo:
        o = todo.pop()
        if id(o) in seen: continue
        seen.add(id(o))
        if isinstance(o, (types.ModuleType, types.CodeType, types.FrameType, types.BuiltinFunctionType)): continue
        m = getattr(o, '__module__', None)
        if isinstance(o, (type, types.FunctionType)) and not (isinstance(m, str) and m.split('.')[0] == 'pdf2docx'): continue
        if type(o).__module__.split('.')[0] == 'dst': continue
        if isinstance(o, types.FunctionType):
            todo += [o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__]
            continue
        if isinstance(o, types.CellType):
            try: todo.append(o.cell_contents)
            except ValueError: pass
            continue
        nobj += 1
        if isinstance(o, (str, bytes, bytearray)): size += len(o); continue
        todo += gc.get_referents(o)
    out['reachable objects'] = nobj
    out['reachable bytes'] = size
    out['threads'] = sum(1 for n in node.sim.nodes if n.proc is node.proc and not n.done)
    try: out['file descriptors'] = len(os.listdir('/proc/self/fd'))
    except OSError: pass
    out['objects of open PDF files'] = sum(r().xref_length() for r, n in node.proc.handles if r() is not None and not _closed(r()))
    return out


def _closed(d):
    try: return d.is_closed
    except AttributeError: return d.isClosed


class SimIds:
    """object addresses as a simulated allocator hands them out.

    reuse: freed addresses are handed out again at once; fresh: never; down: descending addresses"""

    def __init__(self, seed, mode):
        import random
        self.rng = random.Random('ids/%s' % seed)
        self.mode = mode
        self.n = 0x7f0000000000
        self.live, self.free = {}, []
        self.reused = 0

    def __enter__(self):
        self.mods = [m for m in S._mods() if 'id' not in vars(m)]
        for m in self.mods: m.id = self
        return self

    def __exit__(self, *a):
        for m in self.mods:
            if vars(m).get('id') is self: del m.id
        return False

    def __call__(self, o):
        import weakref, builtins
        k = builtins.id(o)
        hit = self.live.get(k)
        if hit: return hit[1]
        if self.mode == 'reuse' and self.free:
            v = self.free.pop(self.rng.randrange(len(self.free))); self.reused += 1
        else:
            self.n += -64 if self.mode == 'down' else 64 * self.rng.randint(1, 5)
            v = self.n

        def gone(_, k=k, v=v):
            # called as the object dies, before its real address can be used again
            self.live.pop(k, None)
            bisect.insort(self.free, v)
        try: self.live[k] = (weakref.ref(o, gone), v)
        except TypeError: return k
        return v


class SimHashes:
    """default object hashes (= addresses) of pdf2docx's classes, drawn from the seed: the order of sets of objects"""

    def __init__(self, seed):
        import random, weakref
        self.rng = random.Random('hash/%s' % seed)
        self.table = {}

    def __enter__(self):
        me = self
        self.cls = []
        import weakref

        def h(o):
            k = id(o)
            hit = me.table.get(k)
            if hit is not None and hit[0]() is o: return hit[1]
            v = me.rng.getrandbits(48)
            me.table[k] = (weakref.ref(o), v)
            return v
        for m in S._mods():
            for c in list(vars(m).values()):
                if isinstance(c, type) and c.__module__ == m.__name__ and c.__hash__ is object.__hash__ and c.__weakrefoffset__:
                    try: c.__hash__ = h
                    except TypeError: continue
                    self.cls.append(c)
        return self

    def __exit__(self, *a):
        for c in self.cls:
            if '__hash__' in vars(c): del c.__hash__
        return False


_old = []


def old_docx():
    """the earlier version of an output file"""
    if not _old:
        from docx import Document
        d = Document()
        d.add_paragraph('PREVIOUS VERSION')
        b = io.BytesIO()
        d.save(b)
        _old.append(b.getvalue())
    return _old[0]
