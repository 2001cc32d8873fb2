"""Reference model of a Converter: which page was last parsed with which settings.

What a page looks like comes from pristine single page conversions (world.reference);
the model only says which pages, in which order, with which settings."""
from .world import spec_key, SETTINGS


class Unknown(Exception):
    pass


class Handle:
    def __init__(self, name):
        self.doc = name
        self.pages = {}        # page -> setting name, of parsed pages
        self.unk = set()       # pages in unknown state: an injected failure hit them
        self.cfg = {}          # page -> settings of its last parsing; restoring a layout doesn't change them
        self.known = True      # False: nothing is known until everything is parsed anew


def selection(op, n):
    """pages an operation selects, in document order"""
    if op.get('pages'): return sorted({int(x) for x in op['pages'] if 0 <= x < n})
    return list(range(n))[slice(int(op.get('start') or 0), int(op.get('end') or n))]


class Ref:
    """results of single pages: (doc spec, page, setting) -> {'frag','tables','err'}"""

    def __init__(self, table, docs):
        self.table = table
        self.keys = {name: spec_key(spec) for name, spec in docs.items()}
        self.npages = {name: len(spec['pages']) for name, spec in docs.items()}

    def get(self, doc, page, setting): return self.table[(self.keys[doc], page, setting)]

    def good(self, doc, page, setting): return self.get(doc, page, setting)['frag'] is not None

    def frags(self, doc, pages):
        out = []
        for p in sorted(pages): out += self.get(doc, p, pages[p])['frag']
        return out

    def tables(self, doc, pages):
        out = []
        for p in sorted(pages): out += self.get(doc, p, pages[p])['tables']
        return out


class Model:
    """steps through the operations of one simulated process without faults.

    An expectation is ('docx', {page: setting}, doc, unknown pages) | ('tables', ...) | ('raise',) | ('any',) | ('ok',)"""

    def __init__(self, ref):
        self.ref = ref
        self.h = {}
        self.v = {}
        self.files = {}
        self.names = {}        # PDF files replaced by another one

    def select(self, doc, op, setting, failed):
        n = self.ref.npages[doc]
        sel = selection(op, n)
        return {p: setting for p in sel if p not in failed and self.ref.good(doc, p, setting)}, set(failed) & set(sel)

    def _docx(self, pages, doc, unk):
        if pages: return ('docx', dict(pages), doc, set(unk))
        return ('maybe', {}, doc, set(unk)) if unk else ('raise',)

    def step(self, o, failed=()):
        """expected result of operation o; failed: pages hit by an injected failure during it"""
        op = o.op
        k = op['op']
        setting = op.get('set', 'default')
        if k == 'open':
            self.h[op['h']] = Handle(self.names.get(op['file'], op['file']))
            return ('ok',)
        if k in ('api', 'api_tables', 'api_debug'):
            doc = self.names.get(op['file'], op['file'])
            op2 = dict(op, pages=[op['page']]) if k == 'api_debug' else op
            pages, unk = self.select(doc, op2, setting, failed)
            if k == 'api_tables': return ('tables', pages, doc, unk)
            return self._docx(pages, doc, unk)
        if k == 'swap': self.names[op['file']] = op['by']
        if k == 'tear': self.files[op['file']] = 'torn' if op['frac'] < 1 else self.files.get(op['file'])
        if k in ('gc', 'measure', 'tear', 'swap', 'drop', 'wait', 'close'): return ('ok',)
        h = self.h.get(op.get('h'))
        if h is None: return ('any',)
        if k in ('convert', 'tables', 'debug'):
            op2 = dict(op, pages=[op['page']]) if k == 'debug' else op
            h.pages, h.unk = self.select(h.doc, op2, setting, failed)
            h.known = True
            h.cfg = {p: setting for p in h.pages}
            if k == 'debug' and op.get('layout') and (h.pages or h.unk): self.files[op['layout']] = (h.doc, dict(h.pages), set(h.unk)) if h.pages else None
            if k == 'tables': return ('tables', dict(h.pages), h.doc, set(h.unk))
            return self._docx(h.pages, h.doc, h.unk)
        if k == 'parse':
            sel = op.get('pages')
            sel = range(self.ref.npages[h.doc]) if sel is None else sel
            for p in sel:
                h.unk.discard(p)
                h.cfg[p] = setting
                if p in failed: h.pages.pop(p, None); h.unk.add(p)
                elif self.ref.good(h.doc, p, setting): h.pages[p] = setting
                else: h.pages.pop(p, None)
            return ('ok',) if h.known else ('any',)
        if k == 'make':
            if not h.known: return ('any',)
            pages = {p: s for p, s in h.pages.items() if p not in failed}
            return self._docx(pages, h.doc, h.unk | set(failed))
        if k == 'ptables':
            # which tables are extracted depends on the settings of the last parsing, not on the layout restored
            if not h.known or any(p not in h.pages or (h.pages[p] == 'stream') != (h.cfg.get(p) == 'stream') for p in op['pages']): return ('any',)
            return ('tables', {p: h.pages[p] for p in op['pages']}, h.doc, set())
        if k == 'store':
            self.v[op['v']] = (h.doc, dict(h.pages), set(h.unk)) if h.known else None
            return ('ok',)
        if k == 'serialize':
            self.files[op['file']] = (h.doc, dict(h.pages), set(h.unk)) if h.known else None
            return ('ok',)
        if k in ('restore', 'deserialize'):
            src = self.v.get(op.get('v')) if k == 'restore' else self.files.get(op.get('file'))
            if src == 'torn': return ('raise',)
            if src is None:
                h.known = False
                return ('any',)
            for p in src[2]: h.pages.pop(p, None); h.unk.add(p)
            for p in src[1]: h.unk.discard(p)
            h.pages.update(src[1])
            return ('ok',) if h.known else ('any',)
        return ('any',)

    def disturbed(self, o):
        """operation o did not complete normally because of an injected fault"""
        op = o.op
        k = op['op']
        h = self.h.get(op.get('h'))
        if k == 'open': self.h.pop(op['h'], None); return
        if k == 'store': self.v[op['v']] = None
        if k == 'serialize': self.files[op['file']] = None
        if h is not None and k in ('convert', 'tables', 'debug', 'parse', 'restore', 'deserialize'): h.known = False


def diff(ref, exp, got):
    """compare a docx read back (world.read_docx) with an expectation; None if equal"""
    kind, pages, doc = exp[:3]
    unk = exp[3] if len(exp) > 3 else set()
    if got is None or got[0] != 'ok': return 'output is %s' % (got,)
    want = ref.frags(doc, pages)
    d = diff_frags(ref, doc, pages, want, got[1])
    if d and unk:
        # a page that failed may be missing, or be present as far as it came
        extra = len(got[1]) - len(want)
        if 0 <= extra <= len(unk):
            import itertools
            for some in itertools.combinations(sorted(unk), extra):
                rest = iter(got[1])
                seq = []
                for p in sorted(set(pages) | set(some)):
                    f = next(rest)
                    if p in pages: seq.append(f)
                if seq == want: return None
    return d


def subset(ref, doc, setting, have):
    """None if the sections are those of some pages in document order"""
    i = 0
    for p in range(ref.npages[doc]):
        f = ref.get(doc, p, setting)['frag']
        if f and i < len(have) and have[i:i + len(f)] == f: i += len(f)
    return None if have and i == len(have) else 'section %d is none of the pages in document order' % i


def diff_frags(ref, doc, pages, want, have):
    if want == have: return None
    where = 'pages %s' % sorted(pages)
    if len(want) != len(have): return '%s: %d page sections expected, %d found' % (where, len(want), len(have))
    order = sorted(pages)
    for i, (a, b) in enumerate(zip(want, have)):
        if a != b:
            k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            pg = order[i] if i < len(order) else '?'
            for q in order:
                if q != pg and ref.get(doc, q, pages[q])['frag'] == [b]: return '%s: content of page %s at the place of page %s' % (where, q, pg)
            return '%s: page %s differs: expected ...%r got ...%r' % (where, pg, a[max(0, k - 40):k + 80], b[max(0, k - 40):k + 80])
    return '%s: differs' % where


def judge_sequence(ref, outcomes, disturbed=lambda o: bool(o.fired)):
    """violations of 'every undisturbed operation gives what a fresh conversion of its pages gives'"""
    m = Model(ref)
    out = []
    for o in outcomes:
        failed = {f[0] for f in o.pfired}
        if disturbed(o) or o.status in ('killed', 'hung', 'running'):
            m.step(o, failed); m.disturbed(o)
            continue
        v = check(ref, m.step(o, failed), o)
        if v: out.append('%s: %s' % (o.brief()[:300], v))
    return out


def check(ref, exp, o):
    """None, or what is wrong with outcome o"""
    if exp[0] == 'any' or o.status == 'skip': return None
    if exp[0] == 'raise': return None if o.status == 'raise' else 'an error should have been raised, but the operation succeeded'
    if exp[0] == 'maybe':
        if o.status == 'raise': return None
        return diff(ref, exp, o.docx)
    if o.status != 'ok': return 'raised %s' % o.detail
    if exp[0] == 'docx': return diff(ref, exp, o.docx)
    if exp[0] == 'tables':
        doc, pages, unk = exp[2], exp[1], exp[3]
        if ref.tables(doc, pages) == o.value: return None
        if unk:
            # a failed page may contribute whatever it came to
            for p in sorted(unk):
                a = ref.tables(doc, {q: s for q, s in pages.items() if q < p})
                b = ref.tables(doc, {q: s for q, s in pages.items() if q > p})
                if len(o.value) >= len(a) + len(b) and o.value[:len(a)] == a and o.value[len(o.value) - len(b):] == b: return None
            if len(unk) > 1: return None
        return 'tables of pages %s differ from those of a fresh extraction' % sorted(pages)
    return None
