"""The properties: which workloads, faults and schedules are simulated, and the oracle over each history."""
import collections
import hashlib
import json
import os
import random

from . import corpus, model, sim as S
from .world import SETTING_NAMES, SETTINGS, EXC_NAMES, World, read_docx, file_hash, old_docx, spec_key, pdf_bytes

K = corpus.RICH_KINDS
POLICIES = [{'kind': 'random'}, {'kind': 'sticky'}, {'kind': 'pct'}, {'kind': 'starve', 'who': 1}, {'kind': 'starve', 'who': 0},
            {'kind': 'fifo'}]


class V(dict):
    """a violation"""
    def __init__(self, cls, msg): super().__init__(cls=cls, msg=msg[:900])


def doc(rng, n=None, kinds=None, rot=.25, share=.0, mx=4):
    d = corpus.random_spec(rng, npages=n, kinds=kinds, rotate=rot, share=share, maxpages=mx)
    if rng.random() < .05: d['broken'] = rng.choice(('xref', 'tail'))
    return d


def sel(rng, n):
    """a page selection"""
    r = rng.random()
    if r < .3: return {}
    if r < .55:
        a = rng.randrange(n); b = rng.randint(a + 1, n)
        return {'start': a, 'end': b}
    if r < .65: return {'start': rng.randrange(n)}
    if r < .7: return {'end': rng.randint(1, n)}
    if r < .73: return {'start': rng.randrange(n), 'end': n + rng.randint(1, 9)}
    k = rng.randint(1, n)
    r = rng.random()
    if r < .6: return {'pages': rng.sample(range(n), k)}
    # pages named twice, pages that do not exist
    v = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
    if r < .8: v.insert(rng.randrange(len(v) + 1), rng.choice((n, n + 1, 99, -1)))
    return {'pages': v}


class Check:
    id = None
    docs_quick, docs_thorough = 30, 40
    bases_quick, bases_thorough = 60, 400
    faults_quick, faults_thorough = 400, 6000
    settings = SETTING_NAMES
    observe = False
    rule = ''
    needs_calls = False
    sim_components = ''

    def corpus(self, rng, n):
        out = []
        for i in range(n):
            out.append(doc(rng, rng.choice((2, 2, 3, 3, 4)), share=.15))
        return out

    def bases(self, rng, docs, n):
        """fault-free plans"""
        for i in range(n):
            p = self.base(random.Random(rng.random()), docs, i)
            one = random.Random('one/%d' % i)
            for op in [op for q in p['procs'] for t in q['threads'] for op in t]:
                if op['op'].startswith('api') and not op.get('same') and not op.get('shared') and one.random() < .2: op['one'] = True
            p['check'] = self.id
            p.setdefault('seed', rng.randrange(1 << 40))
            if self.observe: p['observe'] = True
            env = random.Random('env/%s' % p['seed'])
            # temporary files on another file system; workers that start as new interpreters
            if env.random() < .4: p['sim'].setdefault('xdev', True)
            if env.random() < .3: p['sim'].setdefault('start', 'spawn')
            yield p

    def refs(self, plan):
        """(doc name, page, setting) whose pristine result the judge needs"""
        sets = set()
        for p in plan['procs']:
            for t in p['threads']:
                for op in t:
                    if op['op'] in ('convert', 'tables', 'parse', 'debug', 'api', 'api_tables', 'api_debug'): sets.add(op.get('set', 'default'))
        return [(d, i, s) for d, spec in plan['docs'].items() for i in range(len(spec['pages'])) for s in sorted(sets)]

    def faulted(self, base, dry, rng, ref):
        """endless stream of plans that add faults to a base plan, given what its undisturbed run did"""
        return iter(())

    # ---- in the child
    def execute(self, plan, scratch, table):
        w = World(plan, scratch)
        w.ref = model.Ref(table, plan['docs'])
        w.setup()
        self.prepare(w)
        w.run()
        return w

    def prepare(self, w): pass

    def judge(self, w):
        raise NotImplementedError

    def nontrivial(self, w):
        return bool(w.sim.fired or w.pf.fired or w.sim.switches > 2)

    # ---- helpers
    @staticmethod
    def main_ops(plan): return [op for p in plan['procs'] for t in p['threads'] for op in t]


def hang(w):
    """the run did not end"""
    return w.sim.aborted


def undone(w, cls='hang'):
    return [V(cls, 'no progress: %s' % w.sim.aborted)] if w.sim.aborted else []


def pick_ops(rng, ops, pred, classes=True):
    """a position in a recorded operation list, drawn class by class so that rare operations are not drowned"""
    by = {}
    for i, (proc, kind, path) in enumerate(ops):
        if pred(proc, kind, path):
            by.setdefault((kind, os.path.splitext(path)[1]) if classes else 0, []).append(i)
    if not by: return None
    c = rng.choice(sorted(by, key=str))
    lst = by[c]
    r = rng.random()
    if r < .2: return lst[0]
    if r < .4: return lst[-1]
    return rng.choice(lst)


ERRS = {'write': ('ENOSPC', 'EIO', 'short', 'EDQUOT'), 'open-w': ('ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EIO'),
        'close': ('EIO', 'ENOSPC', 'EDQUOT'), 'rename': ('EACCES', 'EIO', 'ENOSPC', 'EPERM'), 'mkdir': ('ENOSPC', 'EACCES', 'EROFS'),
        'open-r': ('EMFILE', 'EIO', 'ENOENT'), 'read': ('EIO',), 'open-tpl': ('EMFILE', 'EIO'), 'truncate': ('EIO', 'ENOSPC'),
        'pdf-open': ('pdferror', 'nomem'), 'fsync': ('EIO', 'ENOSPC'), 'submit': ('nomem', 'EMFILE'), 'pool': ('nomem', 'EMFILE'),
        'link': ('EPERM', 'EMLINK')}
del ERRS['link']
#: operations whose failure may legitimately leave things behind: they are the clean-up
CLEANUP = ('remove', 'rmdir', 'listdir', 'stat', 'close', 'chmod', 'pdf-close')


def fault_at(ops, i, act, **kw):
    """fault at position i of the recorded operation list"""
    proc, kind, path = ops[i]
    n = sum(1 for p, k, q in ops[:i] if p == proc)
    f = {'proc': proc, 'nth': n, 'act': act}
    f.update(kw)
    return f


def err_for(rng, kind):
    return rng.choice(ERRS[kind])


def with_faults(base, faults, rng=None, **kw):
    p = json.loads(json.dumps(base))
    p['faults'] = list(p.get('faults', ())) + faults
    p.update(kw)
    return p


# =====================================================================================================
class C01(Check):
    """a failing page affects only itself"""
    id = 'C01'
    needs_calls = True
    faults_quick = 420
    rule = 'distinct (trace, injected failure) digests of runs in which a page failure fired or a damaged page was converted'

    def corpus(self, rng, n):
        out = []
        for i in range(n):
            d = doc(rng, rng.choice((2, 3, 3, 4)), share=.0) if i % 6 else doc(rng, rng.choice((5, 6, 8)), kinds=['text', 'tiny', 'links', 'tableend', 'vertical', 'image'], share=0)
            if i % 4 == 1: d['share'] = rng.choice((True, 'alpha'))  # a failing page must not change what others show, too
            elif i % 5 == 4:
                d['damage'] = {'page': rng.randrange(len(d['pages'])), 'seed': rng.randrange(10 ** 6), 'n': rng.choice((1, 4, 30)),
                               'mode': rng.choice(('flip', 'flip', 'trunc', 'zero'))}
            out.append(d)
        return out

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        st = rng.choice(['default'] * 3 + self.settings)
        shape = i % 6
        files = {'out.docx': 'OLDDOCX'} if rng.random() < .3 else {}
        s = sel(rng, n) if rng.random() < .4 else {}
        if shape == 0: ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'}, dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'set': st}, **s)]
        elif shape == 1:
            ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'},
                   dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'set': st, 'mp': True, 'cpu': rng.choice((1, 2, 3))}, **s)]
        elif shape == 2:
            ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'}, dict({'op': 'parse', 'h': 'c', 'set': st}, **({'pages': [p for p in s['pages'] if 0 <= p < n]} if 'pages' in s else {})),
                   {'op': 'make', 'h': 'c', 'out': 'out.docx'}]
        elif shape == 3: ops = [dict({'op': 'api', 'file': 'a.pdf', 'out': 'out.docx', 'set': st}, **s)]
        elif shape == 4: ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'}, dict({'op': 'tables', 'h': 'c', 'set': st}, **s)]
        else:
            # pages parsed well before fail when parsed again
            ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'}, {'op': 'parse', 'h': 'c', 'set': 'default'},
                   {'op': 'parse', 'h': 'c', 'set': st}, {'op': 'make', 'h': 'c', 'out': 'out.docx'}]
        return {'docs': {'a.pdf': d}, 'files': files, 'procs': [{'name': 'A', 'threads': [ops]}],
                'sim': {'cpus': rng.choice((1, 2, 4)), 'policy': rng.choice(POLICIES)}}

    def faulted(self, base, dry, rng, ref):
        d = base['docs']['a.pdf']
        n = len(d['pages'])
        st = [op.get('set', 'default') for op in self.main_ops(base) if 'set' in op][-1]
        while True:
            fs = []
            # one page, two, or most of them
            r = rng.random()
            for p in rng.sample(range(n), 1 if r < .6 else min(2, n) if r < .8 else n - 1 if r < .96 else n):
                phase, what = rng.choice((('parse', 'fn'), ('parse', 'lib'), ('make', 'fn'), ('make', 'lib')))
                if d.get('share'): phase, what = 'parse', 'lib'
                if any(op['op'] in ('tables',) for op in self.main_ops(base)) and phase == 'make': phase = 'parse'
                calls = ref.get('a.pdf', p, st)['calls'].get(phase + ('-lib' if what == 'lib' else ''), 0)
                if not calls: continue
                r = rng.random()
                k = 0 if r < .1 else (calls - 1 if r < .2 else rng.randrange(calls))
                if len(self.main_ops(base)) == 4 and phase == 'parse' and rng.random() < .6:
                    k += ref.get('a.pdf', p, 'default')['calls'].get(phase + ('-lib' if what == 'lib' else ''), 0)
                fs.append({'page': p, 'phase': phase, 'what': what, 'nth': k, 'exc': rng.choice(EXC_NAMES)})
            if fs: yield dict(json.loads(json.dumps(base)), pagefaults=fs, seed=rng.randrange(1 << 40))
            else: return

    def judge(self, w):
        out = undone(w)
        for m in model.judge_sequence(w.ref, w.history): out.append(V('isolation', m))
        return out

    def nontrivial(self, w):
        return bool(w.pf.fired) or any('damage' in d for d in w.plan['docs'].values())


# =====================================================================================================
class C02(Check):
    """results do not depend on the calls made before"""
    id = 'C02'
    needs_calls = True
    bases_quick, faults_quick = 360, 200
    rule = 'distinct operation/fault histories with at least two result-bearing calls on one object or process'

    def corpus(self, rng, n):
        out = []
        for i in range(n):
            d = doc(rng, rng.choice((1, 2, 2, 3)), share=0)
            if i % 3 == 0: d['share'] = rng.choice((True, 'alpha'))
            if i % 7 == 6: d['damage'] = {'page': rng.randrange(len(d['pages'])), 'seed': rng.randrange(10 ** 6), 'n': 20, 'mode': rng.choice(('flip', 'trunc'))}
            out.append(d)
        return out

    def base(self, rng, docs, i):
        other = 'b.pdf'
        ds = {'a.pdf': rng.choice(docs)}
        if rng.random() < .3:
            # the same name in another directory, the same structure, other words and pictures
            other = 'sub/a.pdf'
            ds[other] = dict(json.loads(json.dumps(ds['a.pdf'])), tint=1)
        else: ds[other] = rng.choice(docs)
        sets = [rng.choice(self.settings) for _ in range(2)] if rng.random() < .7 else ['default']
        hs = {'x': 'a.pdf', 'y': rng.choice(('a.pdf', other, other))}
        ops = []
        opened = {}
        lists = []
        stored = []
        shared = {'k%d' % j: s for j, s in enumerate(sets)}
        for j in range(rng.randint(4, 9)):
            h = rng.choice(('x', 'x', 'y'))
            if h not in opened:
                ops.append({'op': 'open', 'h': h, 'file': hs[h]}); opened[h] = hs[h]
            n = len(ds[hs[h]]['pages'])
            s = sel(rng, n)
            if lists and rng.random() < .4: s = dict(rng.choice(lists))
            elif 'pages' in s and rng.random() < .6:
                # one list object of the caller for several calls, also for documents with more or less pages
                r = rng.random()
                if r < .4: s['pages'] = s['pages'] + rng.choice(([n + 1], [s['pages'][0]], [n, s['pages'][0]]))
                elif r < .65: s['pages'] = rng.sample(range(4), rng.randint(1, 4))
                elif r < .75: s['pages'] = rng.choice(([n], [n, n + 1], [3], [5, n]))
                s['same'] = 'p%d' % j
                lists.append(dict(s))
            st = rng.choice(sets)
            o = rng.choice(('convert', 'convert', 'tables', 'parse', 'parse', 'make', 'store', 'restore', 'debug', 'close', 'mp', 'api', 'gc',
                            'serialize'))
            kw = {'set': st}
            if rng.random() < .5:
                k = rng.choice(sorted(shared)); kw = {'set': shared[k], 'shared': k}
            out = rng.choice(('o1.docx', 'o2.docx'))
            if o == 'convert': ops.append(dict({'op': 'convert', 'h': h, 'out': out}, **s, **kw))
            elif o == 'mp': ops.append(dict({'op': 'convert', 'h': h, 'out': out, 'mp': True, 'cpu': 2, 'set': st}, **s, **({'shared': kw['shared'] + 'mp', 'set': kw['set']} if 'shared' in kw else {})))
            elif o == 'tables': ops.append(dict({'op': 'tables', 'h': h}, **s, **kw))
            elif o == 'parse':
                pg = {k: s[k] for k in ('pages', 'same') if k in s} if 'pages' in s and 0 <= min(s['pages']) and max(s['pages']) < n else {}
                ops.append(dict({'op': 'parse', 'h': h}, **pg, **kw))
                if rng.random() < .6: ops.append({'op': 'make', 'h': h, 'out': out})
            elif o == 'make': ops.append({'op': 'make', 'h': h, 'out': out})
            elif o == 'store': ops.append({'op': 'store', 'h': h, 'v': 'v' + hs[h][0], 'json': rng.random() < .7}); stored.append(hs[h])
            elif o == 'serialize': ops.append({'op': 'serialize', 'h': h, 'file': 'l%s.json' % hs[h][0]})
            elif o == 'restore' and hs[h] in stored:
                ops.append({'op': 'restore', 'h': h, 'v': 'v' + hs[h][0], 'fresh': True})
                if rng.random() < .6: ops.append({'op': 'make', 'h': h, 'out': out})
            elif o == 'debug': ops.append(dict({'op': 'debug', 'h': h, 'page': rng.randrange(n), 'out': out, 'pdf': 'dbg.pdf', 'layout': 'dbg.json'}, **kw))
            elif o == 'close' and rng.random() < .6:
                ops.append({'op': 'close', 'h': h}); ops.append({'op': 'drop', 'h': h}); del opened[h]
            elif o == 'api': ops.append(dict({'op': 'api', 'file': hs[h], 'out': out, 'set': st}, **s))
            elif o == 'gc': ops.append({'op': 'gc'})
        if rng.random() < .25:
            # pages restored from a layout made with other settings are parsed again
            s1, s2 = rng.choice(self.settings), rng.choice(['default', 'default'] + self.settings)
            f = rng.choice(sorted(set(hs.values())))
            pg = {'pages': [rng.randrange(len(ds[f]['pages']))]} if rng.random() < .4 else {}
            ops += [{'op': 'open', 'h': 'u', 'file': f}, {'op': 'parse', 'h': 'u', 'set': s1}, {'op': 'store', 'h': 'u', 'v': 'vu', 'json': True}]
            u = rng.choice(('u', 'w'))
            if u == 'w': ops.append({'op': 'open', 'h': 'w', 'file': f})
            ops += [{'op': 'restore', 'h': u, 'v': 'vu', 'fresh': True}, dict({'op': 'parse', 'h': u, 'set': s2}, **pg), {'op': 'make', 'h': u, 'out': 'o5.docx'}]
            if rng.random() < .5: ops += [{'op': 'parse', 'h': u, 'set': rng.choice(('default', s1, s2))}, {'op': 'make', 'h': u, 'out': 'o5.docx'}]
        # what counts in the end
        for h in sorted(opened):
            n = len(ds[hs[h]]['pages'])
            ops.append(dict({'op': rng.choice(('convert', 'tables')), 'h': h, 'out': 'o3.docx', 'set': rng.choice(sets)}, **sel(rng, n)))
        if rng.random() < .3:
            # the file is replaced by another one of same or similar structure
            c = ds['c.pdf'] = json.loads(json.dumps(ds['a.pdf']))
            c['tint'] = 1
            r = rng.random()
            if r < .2: c['pages'].reverse()
            elif r < .4: c['pages'] = c['pages'][:rng.randrange(len(c['pages']))] + json.loads(json.dumps(rng.choice(docs)['pages']))
            elif r < .7:
                for q in c['pages']: q.update(size=rng.choice(sorted(corpus.SIZES)), rot=rng.choice((0, 0, 90, 180, 270)))
            if r < .7: c.pop('damage', None)
            for h in sorted(opened):
                if hs[h] == 'a.pdf': ops += [{'op': 'close', 'h': h}, {'op': 'drop', 'h': h}]
            ops += [{'op': 'swap', 'file': 'a.pdf', 'by': 'c.pdf'}]
            n = len(ds['c.pdf']['pages'])
            for j in range(rng.choice((1, 2))):
                o = rng.choice(('api', 'api', 'mp', 'convert', 'tables', 'parse'))
                if o == 'api': ops.append(dict({'op': 'api', 'file': 'a.pdf', 'out': 'o4.docx', 'set': rng.choice(sets)}, **sel(rng, n)))
                else:
                    ops.append({'op': 'open', 'h': 'z', 'file': 'a.pdf'})
                    if o == 'mp': ops.append(dict({'op': 'convert', 'h': 'z', 'out': 'o4.docx', 'set': rng.choice(sets), 'mp': True, 'cpu': 2}, **sel(rng, n)))
                    elif o == 'parse': ops += [{'op': 'parse', 'h': 'z', 'set': rng.choice(sets)}, {'op': 'make', 'h': 'z', 'out': 'o4.docx'}]
                    else: ops.append(dict({'op': o, 'h': 'z', 'out': 'o4.docx', 'set': rng.choice(sets)}, **sel(rng, n)))
        for op in ops:
            if op.get('out') and op['op'] in ('convert', 'make', 'api') and rng.random() < .05: op['stream'] = True
        return {'docs': ds, 'procs': [{'name': 'A', 'threads': [ops]}], 'sim': {'cpus': 2, 'policy': rng.choice(POLICIES)}}

    def faulted(self, base, dry, rng, ref):
        while True:
            if rng.random() < .5:
                ok = [(d, spec) for d, spec in base['docs'].items() if not spec.get('share')]
                fs = []
                for _ in range(rng.choice((1, 2))):
                    spec = rng.choice(list(base['docs'].values()))
                    shared = any(s.get('share') for s in base['docs'].values())
                    what = 'lib' if shared else rng.choice(('fn', 'lib'))
                    fs.append({'page': rng.randrange(len(spec['pages'])), 'phase': 'parse', 'what': what,
                               'nth': rng.randrange(12) if what == 'lib' else int(10 ** rng.uniform(0, 3.6)), 'exc': rng.choice(EXC_NAMES)})
                yield dict(json.loads(json.dumps(base)), pagefaults=fs)
            else:
                i = pick_ops(rng, dry['ops'], lambda p, k, q: k in ERRS and p == 'A' or k in ('print',))
                if i is None: return
                kind = dry['ops'][i][1]
                act = 'interrupt' if rng.random() < .4 or kind == 'print' else err_for(rng, kind)
                yield with_faults(base, [fault_at(dry['ops'], i, act)])

    def judge(self, w):
        out = undone(w)
        for m in model.judge_sequence(w.ref, w.history): out.append(V('history', m))
        return out

    def nontrivial(self, w):
        return sum(1 for o in w.history if o.status == 'ok' and o.op['op'] in ('convert', 'tables', 'make', 'debug', 'api')) >= 2


# =====================================================================================================
class C03(Check):
    """multi-processing gives what one process gives"""
    id = 'C03'
    bases_quick, faults_quick = 330, 40
    docs_quick = 24
    rule = 'distinct interleavings (digest of the operation order over all processes) x selection x process count'

    def corpus(self, rng, n):
        out = []
        for i in range(n):
            d = doc(rng, rng.choice((1, 2, 3, 4, 5, 6, 7, 9)) if i % 6 != 5 else rng.choice((11, 13)), kinds=corpus.LIGHT_KINDS if i % 2 else K, share=.3, rot=.35)
            if i % 5 == 4 and len(d['pages']) > 1:
                d['damage'] = {'page': rng.randrange(len(d['pages'])), 'seed': rng.randrange(10 ** 6), 'n': 20, 'mode': 'flip'}
            out.append(d)
        return out

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        st = rng.choice(['default', 'default'] + self.settings)
        cpus = rng.choice((1, 2, 3, 4, 6, 12, 16))
        s = sel(rng, n)
        if 'pages' in s and rng.random() < .3: s['pages'] = s['pages'] + rng.sample(s['pages'], 1)
        if 'pages' in s and rng.random() < .15: s['pages'] = s['pages'] + [n, n + 3]
        op = dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'mp': True, 'set': st}, **s)
        if rng.random() < .75: op['cpu'] = rng.choice((1, 2, 2, 3, 4, 5, 8, 11, 14))
        ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'}]
        r = rng.random()
        if r < .25: ops.append(dict({'op': rng.choice(('parse', 'tables')), 'h': 'c', 'set': st}))
        if r > .8:
            del op['h']; op['op'] = 'api'; op['file'] = 'a.pdf'
            ops = []
        ops.append(op)
        if r < .1: ops.append(dict(op, out='out2.docx', mp=False))
        if .1 < r < .2: ops.append(dict(op, out='out2.docx', **sel(rng, n)))
        return {'docs': {'a.pdf': d}, 'procs': [{'name': 'A', 'threads': [ops]}], 'sim': {'cpus': cpus, 'policy': rng.choice(POLICIES)}}

    def faulted(self, base, dry, rng, ref):
        # slow and stalled workers, clock jumps: nothing that is allowed to change the result
        while True:
            fs = []
            for _ in range(rng.choice((1, 2, 3))):
                i = rng.randrange(len(dry['ops'])) if dry['ops'] else None
                if i is None: return
                act = rng.choice(('stall', 'stall', 'clockjump'))
                fs.append(fault_at(dry['ops'], i, act, dt=rng.choice((.5, 5.0, 500.0, 20000.0)) if act == 'stall' else rng.choice((-86400.0, 3600.0))))
            yield with_faults(base, fs, seed=rng.randrange(1 << 40))

    def judge(self, w):
        out = undone(w)
        for m in model.judge_sequence(w.ref, w.history, disturbed=lambda o: False): out.append(V('multiprocess', m))
        return out


# =====================================================================================================
class C04(Check):
    """simultaneous conversions do not interfere"""
    id = 'C04'
    bases_quick, faults_quick = 240, 160
    docs_quick = 14
    rule = 'distinct interleavings of at least two simulated processes'

    def corpus(self, rng, n):
        return [doc(rng, rng.choice((1, 2, 3)), kinds=corpus.LIGHT_KINDS + ['curves', 'halfcurve', 'rich'], share=.1) for i in range(n)]

    def base(self, rng, docs, i):
        np = rng.choice((2, 2, 3))
        names = ['A', 'B', 'C'][:np]
        mode = rng.choice(('distinct', 'samename', 'samename', 'samepdf', 'sameout'))
        ds, procs = {}, []
        pool = [rng.choice(docs) for _ in names]
        for j, nm in enumerate(names):
            pdf = 'in%d.pdf' % (0 if mode in ('samepdf', 'sameout') else j)
            if mode == 'samename': pdf = 'd%d/in.pdf' % j
            ds.setdefault(pdf, pool[0 if mode in ('samepdf', 'sameout') else j])
            n = len(ds[pdf]['pages'])
            out = 'same.docx' if mode == 'sameout' else 'd%d/out.docx' % j if mode == 'samename' else 'out%d.docx' % j
            mp = rng.random() < .65
            op = dict({'op': 'convert', 'h': 'c', 'out': out, 'set': 'default'}, **({'mp': True, 'cpu': rng.choice((1, 2, 3))} if mp else {}))
            if mode != 'sameout' and rng.random() < .3: op.update(sel(rng, n))
            if mode in ('distinct', 'samename') and rng.random() < .25: del op['out']
            ops = [{'op': 'open', 'h': 'c', 'file': pdf}, op]
            r = rng.random()
            if r < .2: ops = [dict({k: v for k, v in op.items() if k != 'h'}, op='api', file=pdf)]
            elif r < .4: ops += [{'op': 'serialize', 'h': 'c', 'file': 'l%d.json' % j}, {'op': 'open', 'h': 'd', 'file': pdf},
                                 {'op': 'deserialize', 'h': 'd', 'file': 'l%d.json' % j}, {'op': 'make', 'h': 'd', 'out': 'r%d.docx' % j}]
            elif r < .5: ops.append({'op': 'tables', 'h': 'c', 'set': 'default'})
            elif r < .6 and mode != 'sameout': ops.append(dict(op))
            procs.append({'name': nm, 'threads': [ops]})
        files = {}
        if rng.random() < .5:
            # remains of earlier runs
            for j in range(rng.choice((1, 3, 6))): files['pages-%d.json' % j] = rng.choice(('{"garbage": ', '{"pages": [{"id": 0}]}', ''))
            if rng.random() < .5: files['layout.json'] = '{}'
            if rng.random() < .3: files['same.docx'] = 'OLDDOCX'
        if mode == 'samename':
            # not only one name: also one structure, so that whatever is keyed by name, page or object number is shared
            if rng.random() < .6:
                for j, k in enumerate(sorted(ds)): ds[k] = dict(json.loads(json.dumps(ds['d0/in.pdf'])), tint=j)
        return {'docs': ds, 'files': files, 'procs': procs, 'mode': mode,
                'handles': {}, 'sim': {'cpus': rng.choice((2, 3)), 'policy': rng.choice(POLICIES)}}

    def faulted(self, base, dry, rng, ref):
        # one of the processes (with its workers) dies or fails; the others must not notice
        while True:
            victim = rng.choice([p['name'] for p in base['procs']])
            mine = lambda p: p == victim or p.startswith(victim + '.')
            i = pick_ops(rng, dry['ops'], lambda p, k, q: mine(p))
            if i is None:
                yield None
                continue
            kind = dry['ops'][i][1]
            act = 'kill' if rng.random() < .6 or kind not in ERRS else err_for(rng, kind)
            f = fault_at(dry['ops'], i, act, frac=rng.random())
            yield with_faults(base, [f], victim=victim)

    def judge(self, w):
        out = undone(w)
        same = w.plan['mode'] == 'sameout'
        for p in w.plan['procs']:
            if p['name'] == w.plan.get('victim') and w.sim.fired: continue
            hist = [o for o in w.history if o.proc == p['name']]
            if same and w.sim.fired:
                hist = [o for o in hist]
            for m in model.judge_sequence(w.ref, hist, disturbed=lambda o: False): out.append(V('interference', m))
            if len(hist) < len(p['threads'][0]) and not w.sim.aborted: out.append(V('interference', 'process %s did not get to its end' % p['name']))
        for n, h in w.inputs.items():
            if file_hash(w.path(n)) != h: out.append(V('interference', 'input %s changed' % n))
        return out

    def nontrivial(self, w): return w.sim.switches > 3


# =====================================================================================================
class C05(Check):
    """independent Converter objects in one process do not interfere"""
    id = 'C05'
    bases_quick, faults_quick = 600, 0
    docs_quick = 24
    rule = 'distinct interleavings of the operations/lines of at least two independent objects'

    def corpus(self, rng, n):
        return [doc(rng, rng.choice((1, 1, 2)), kinds=corpus.LIGHT_KINDS if i % 3 else K, rot=.5, share=.1) for i in range(n)]

    def base(self, rng, docs, i):
        nt = rng.choice((2, 2, 3))
        ds = {'in%d.pdf' % j: rng.choice(docs) for j in range(nt)}
        twin = rng.random() < .25
        if twin: ds = {'d%d/in.pdf' % j: dict(json.loads(json.dumps(ds['in0.pdf'])), tint=j) for j in range(nt)}
        same = not twin and rng.random() < .2
        # every object writes to a directory of its own
        apart = rng.random() < .4
        outdir = lambda j: 'o%d/' % j if apart else ''
        pdfname = lambda j: 'd%d/in.pdf' % j if twin else 'in0.pdf' if same else 'in%d.pdf' % j
        sets = [rng.choice(['default'] + self.settings) for _ in range(nt)]
        if rng.random() < .5: sets[:2] = rng.choice((('default', 'borders'), ('borders', 'default'), ('default', 'wide_gap'), ('shapes', 'default'), ('margin', 'default'), ('clip', 'no_clip')))
        if i % 3 == 2:
            # one thread, operations of several objects interleaved
            seqs = []
            for j in range(nt):
                h, st = 'h%d' % j, sets[j]
                pdf = pdfname(j)
                n = len(ds[pdf]['pages'])
                seq = [{'op': 'open', 'h': h, 'file': pdf}]
                if rng.random() < .6:
                    order = list(range(n)); rng.shuffle(order)
                    for p in order: seq.append({'op': 'parse', 'h': h, 'pages': [p], 'set': st})
                else: seq.append({'op': 'parse', 'h': h, 'set': st})
                if rng.random() < .4: seq += [{'op': 'store', 'h': h, 'v': 'v%d' % j}, {'op': 'open', 'h': h + 'r', 'file': pdf},
                                              {'op': 'restore', 'h': h + 'r', 'v': 'v%d' % j}, {'op': 'make', 'h': h + 'r', 'out': outdir(j) + 'r%d.docx' % j}]
                seq.append({'op': 'make', 'h': h, 'out': outdir(j) + 'out%d.docx' % j})
                if rng.random() < .4: seq.append({'op': 'tables', 'h': h, 'set': st})
                if rng.random() < .4: seq.append({'op': 'close', 'h': h})
                seqs.append(seq)
            ops = []
            while any(seqs):
                q = rng.choice([q for q in seqs if q]); ops.append(q.pop(0))
            threads = [ops]
            line = None
        else:
            threads = []
            several = rng.random() < .15
            for j in range(nt):
                pdf = pdfname(j)
                h = 'h%d' % j
                op = {'op': 'convert', 'h': h, 'out': outdir(j) + 'out%d.docx' % j, 'set': sets[j]}
                r = rng.random()
                t = [{'op': 'open', 'h': h, 'file': pdf}]
                if r < .55: t.append(dict(op, mp=True, cpu=rng.choice((1, 2))) if several and rng.random() < .6 else op)
                elif r < .7: t.append({'op': 'tables', 'h': h, 'set': sets[j]})
                elif r < .85: t += [{'op': 'parse', 'h': h, 'set': sets[j]}, {'op': 'store', 'h': h, 'v': 'v%d' % j}, {'op': 'open', 'h': h + 'r', 'file': pdf},
                                    {'op': 'restore', 'h': h + 'r', 'v': 'v%d' % j}, {'op': 'make', 'h': h + 'r', 'out': outdir(j) + 'out%d.docx' % j}]
                else: t = [{'op': 'api', 'file': pdf, 'out': outdir(j) + 'out%d.docx' % j, 'set': sets[j]}]
                threads.append(t)
            # preemption after about `rate` executed lines of a random part of the functions
            n = rng.choice((12, 60, 200, 100000))
            line = {'rate': rng.choice((3, 20, 150, 1000)) if n < 1000 else rng.choice((150, 1000, 6000)), 'n': n}
            # ... or of the functions leading through the phases of a conversion
            if rng.random() < .45: line = {'rate': rng.choice((1, 2, 4, 8)), 'mods': rng.choice((['page/'], ['page/Layout'],  ['page/Layout', 'Table'], ['page/Layout', 'page/Page', 'converter'], ['table/TablesConstructor', 'page/Layout'],
                                           ['image/', 'page/RawPage', 'shape/Paths'], ['text/TextBlock', 'page/Blocks'], ['common/'], ['table/'], ['shape/'], ['text/'], ['image/']))}
            if line.get('mods') in (['common/'], ['table/'], ['shape/'], ['text/']): line['rate'] *= rng.choice((5, 40))
        files = {'o%d' % j: 'DIR' for j in range(nt)} if apart else {}
        return {'docs': ds, 'files': files, 'procs': [{'name': 'A', 'threads': threads}], 'sim': {'cpus': 2, 'policy': {'kind': rng.choice(('random', 'sticky', 'pct'))}, 'line': line}}

    def judge(self, w):
        out = undone(w)
        for ti in range(len(w.plan['procs'][0]['threads'])):
            hist = [o for o in w.history if o.thread == ti]
            for m in model.judge_sequence(w.ref, hist, disturbed=lambda o: False): out.append(V('interference', m))
        return out

    def nontrivial(self, w):
        return w.sim.switches > 2 or len({o.op.get('h') for o in w.history}) > 1


# =====================================================================================================
class FileFaults(Check):
    """common to the checks of file outputs: one conversion, disturbed at any operation"""
    docs_quick = 7
    observe = False

    def corpus(self, rng, n):
        return [doc(rng, rng.choice((1, 1, 2, 3)), kinds=corpus.LIGHT_KINDS, rot=.1) for i in range(n)]

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        shape = i % 8
        out = rng.choice(('out.docx', 'out.docx', 'sub/out.docx', 'a b.docx'))
        op = dict({'op': 'convert', 'h': 'c', 'out': out, 'set': 'default'}, **(sel(rng, n) if rng.random() < .3 else {}))
        o = {'op': 'open', 'h': 'c', 'file': 'a.pdf'}
        if shape in (0, 1): ops = [o, op]
        elif shape in (2, 3): ops = [o, dict(op, mp=True, cpu=rng.choice((1, 2)))]
        elif shape == 4: ops = [o, {'op': 'parse', 'h': 'c', 'set': 'default'}, {'op': 'make', 'h': 'c', 'out': out}]
        elif shape == 5: ops = [dict({k: v for k, v in op.items() if k != 'h'}, op='api', file='a.pdf')]
        elif shape == 6: ops = [o, {'op': 'debug', 'h': 'c', 'page': rng.randrange(n), 'out': out, 'pdf': 'dbg.pdf', 'layout': 'dbg.json', 'set': 'default'}]
        else: ops = [o, {k: v for k, v in op.items() if k != 'out'}]; out = 'a.docx'
        files = {}
        if out.startswith('sub/'): files['sub'] = 'DIR'
        plan = {'docs': {'a.pdf': d}, 'files': files, 'procs': [{'name': 'A', 'threads': [ops]}], 'handles': {'c': 'a.pdf'},
                'sim': {'cpus': 2, 'policy': rng.choice(POLICIES)}, 'target': out}
        real = out
        if rng.random() < .15:
            # the output is a link to a file in another directory
            real = 'elsewhere/doc.docx'
            plan['outlinks'] = {out: real}
        if rng.random() < .65: files[real] = 'OLDDOCX'
        elif real != out: files['elsewhere'] = 'DIR'
        return plan

    acts = ('kill', 'err', 'quota', 'interrupt', 'machine', 'short', 'nomem')

    def faulted(self, base, dry, rng, ref):
        ops = dry['ops']
        while True:
            r = rng.choice(self.acts)
            if r == 'quota':
                p = with_faults(base, [])
                p['sim']['quota'] = rng.randrange(max(1, dry['written']))
                yield p
                continue
            if r in ('kill', 'machine'):
                i = pick_ops(rng, ops, lambda p, k, q: p == 'A' or rng.random() < .3)
                if i is None:
                    yield None
                    continue
                yield with_faults(base, [fault_at(ops, i, r, frac=rng.choice((0, .3, .9, 1)))])
                continue
            if r == 'interrupt':
                i = pick_ops(rng, ops, lambda p, k, q: p == 'A')
                if i is None:
                    yield None
                    continue
                yield with_faults(base, [fault_at(ops, i, 'interrupt')])
                continue
            want = {'err': lambda k: k in ERRS, 'short': lambda k: k == 'write', 'nomem': lambda k: k in ('open-w', 'open-r', 'pdf-open', 'write')}[r]
            i = pick_ops(rng, ops, lambda p, k, q: want(k))
            if i is None:
                yield None
                continue
            act = err_for(rng, ops[i][1]) if r == 'err' else r
            f = fault_at(ops, i, act, frac=rng.random())
            if r == 'err' and rng.random() < .3: f['sticky'] = True; f['kinds'] = [ops[i][1]]; f['nth'] = sum(1 for q in ops[:i] if q[0] == f['proc'] and q[1] == ops[i][1])
            fs = [f]
            if rng.random() < .15:
                j = pick_ops(rng, ops, lambda p, k, q: k in ERRS or k in ('remove', 'rename'))
                if j is not None: fs.append(fault_at(ops, j, rng.choice(('EIO', 'EACCES')) if ops[j][1] not in ERRS else err_for(rng, ops[j][1])))
            yield with_faults(base, fs)

    def after(self, w):
        """pages the last result-bearing operation is to deliver"""
        m = model.Model(w.ref)
        exp = None
        for o in w.history:
            e = m.step(o, ())
            if e[0] in ('docx', 'maybe', 'raise') or (e[0] == 'any' and o.op['op'] == 'make'): exp = e
            # parsing was interrupted, and its caller went on nevertheless: any subset of the pages may be ready
            if o.fired and o.status != 'ok' and o.op['op'] == 'parse': m.disturbed(o)
        return exp

    def recover(self, w):
        """a new, undisturbed process converts again: remains of the disturbed one must not matter"""
        import io, contextlib
        from pdf2docx import Converter
        out = 'recovered.docx'
        S.ACTIVE[0] = None
        with contextlib.redirect_stdout(io.StringIO()):
            cv = Converter('a.pdf')
            try: cv.convert(out)
            finally: cv.close()
        return read_docx(w.path(out))


def links(w):
    return [V('link', 'the link %s was replaced by a file' % n) for n in w.plan.get('outlinks', ()) if not os.path.islink(w.path(n))]


class C06(FileFaults):
    """docx output is all or nothing"""
    id = 'C06'
    bases_quick, faults_quick = 32, 520
    rule = 'distinct traces of runs in which a process/machine crash, I/O error, short write, full disk or interrupt took effect'

    def prepare(self, w): w.old = file_hash(w.path(w.plan['target']))

    def judge(self, w):
        out = []
        # crash or not, the run itself must end (unless it was killed)
        out += undone(w)
        t = w.path(w.plan['target'])
        exp = self.after(w)
        cur = file_hash(t)
        if cur == w.old:
            pass
        else:
            got = read_docx(t)
            if got[0] == 'absent': out.append(V('lost', 'the previous %s is gone' % w.plan['target']))
            elif got[0] == 'bad': out.append(V('torn', '%s is not a complete docx: %s' % (w.plan['target'], got[1])))
            elif exp is None or exp[0] == 'raise': out.append(V('torn', 'a docx was written although no page was to be converted'))
            else:
                d = model.subset(w.ref, 'a.pdf', 'default', got[1]) if exp[0] == 'any' else model.diff(w.ref, exp, got)
                if d: out.append(V('torn', '%s is neither the previous nor the complete new document: %s' % (w.plan['target'], d)))
        return out + links(w)

    def nontrivial(self, w): return bool(w.sim.fired)



# =====================================================================================================
PDF_NAMES = ('a.pdf', 'a.pdf', 'scan.PDF', 'v1.2.pdf', 'my report.Pdf', 'sub/in.pdf', 'sub/deep/er.PDF', 'caf\xe9 \u4e2d.pdf', 'noext', 'a.docx.pdf',
             'x.pdf.bak', '.hidden.pdf', 'a.pdf.pdf', 'sub.dir/noext', 'debug_a.pdf', 'debug_debug.pdf', 'sub/debug_x.PDF', 'layout.pdf', 'pages-0.pdf', '~a.pdf', 'a.tmp', 'a.json', '~draft.pdf')
BYSTANDERS = ('pages-0.json', 'pages-1.json', 'notes.txt', 'a.json', 'other.docx', 'debug.pdf', '~lock.tmp', 'a.pdf.tmp', 'image.png', '~WRL0001.tmp', '~0f3c2d1e4b5a69788796a5b4c3d2e1f0.tmp', 'debug_out.pdf', 'pages-7.json', '.out.docx.lock', '~$out.docx', 'out.docx.bak', 'tmp.json', 'image1.png')


class C07(FileFaults):
    """inputs and bystanders stay as they are"""
    id = 'C07'
    bases_quick, faults_quick = 180, 420
    docs_quick = 8
    rule = 'distinct traces of runs in which at least one conversion wrote an output or a fault took effect, with all files compared byte for byte'

    def corpus(self, rng, n):
        out = super().corpus(rng, n)
        # pages with vector graphics, too: text behind it is hidden in the open document for a while
        for d in out[::3]: rng.choice(d['pages'])['kind'] = rng.choice(('curves', 'halfcurve'))
        return out

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        name = rng.choice(PDF_NAMES)
        h = 'c'
        o = {'op': 'open', 'h': h, 'file': name}
        st = rng.choice(['default'] * 2 + self.settings)
        ds = {name: d}
        if rng.random() < .3: ds['other.pdf'] = rng.choice(docs)
        if rng.random() < .2: ds[name] = dict(d, encrypt=rng.choice(('owner', 'owner', 'user')))
        elif rng.random() < .15: ds[name] = dict(d, broken=rng.choice(('xref', 'tail')))
        out = rng.choice((None, None, 'out.docx', os.path.splitext(name)[0] + '.x.docx', name + '.docx', 'res/out'))
        s = sel(rng, n) if rng.random() < .4 else {}
        conv = dict({'op': 'convert', 'h': h, 'set': st}, **s)
        if out: conv['out'] = out
        shape = i % 11
        if shape in (0, 1): ops = [o, conv]
        elif shape >= 8:
            # whatever one call has written is a bystander of the following ones
            ops = [o]
            for j in range(rng.randint(2, 5)):
                k = rng.choice(('debug', 'debug', 'convert', 'convert', 'mp', 'tables', 'make', 'serialize', 'parse', 'api'))
                kw = {'set': st, 'shared': 'k'} if rng.random() < .6 else {'set': rng.choice(self.settings)}
                res = 'r%d.docx' % j if rng.random() < .6 else None
                if k == 'debug':
                    q = dict({'op': 'debug', 'h': h, 'page': rng.randrange(n)}, **kw)
                    if rng.random() < .4: q['pdf'] = rng.choice(('plot.pdf', 'plot%d.pdf' % j))
                    if rng.random() < .4: q['layout'] = rng.choice(('plot.json', 'plot%d.json' % j))
                elif k in ('convert', 'mp'): q = dict({'op': 'convert', 'h': h}, **kw, **(sel(rng, n) if rng.random() < .4 else {}))
                elif k == 'tables': q = dict({'op': 'tables', 'h': h}, **kw)
                elif k == 'parse': q = dict({'op': 'parse', 'h': h}, **kw)
                elif k == 'make': q = {'op': 'make', 'h': h}
                elif k == 'serialize': q = {'op': 'serialize', 'h': h, 'file': 'l%d.json' % j}
                else: q = dict({'op': 'api', 'file': name}, **{a: b for a, b in kw.items() if a == 'set'})
                if k == 'mp': q.update(mp=True, cpu=2, **({'shared': 'kmp'} if 'shared' in q else {}))
                if res and q['op'] in ('debug', 'convert', 'make', 'api'): q['out'] = res
                ops.append(q)
        elif shape == 2: ops = [o, dict(conv, mp=True, cpu=rng.choice((1, 2)))]
        elif shape == 3: ops = [dict({k: v for k, v in conv.items() if k != 'h'}, op='api', file=name, **({'cli': True} if rng.random() < .5 else {}))]
        elif shape == 4:
            dbg = {'op': 'debug', 'h': h, 'page': rng.randrange(n), 'set': st}
            if rng.random() < .4: dbg['out'] = 'dbg.docx'
            if rng.random() < .4: dbg['pdf'] = 'plot.pdf'
            if rng.random() < .4: dbg['layout'] = 'plot.json'
            ops = [o, dbg]
        elif shape == 5: ops = [o, dict({'op': 'tables', 'h': h, 'set': st}, **s), {'op': 'serialize', 'h': h, 'file': 'l.json'}, {'op': 'deserialize', 'h': h, 'file': 'l.json'},
                                dict({'op': 'make', 'h': h}, **({'out': out} if out else {}))]
        elif shape == 6: ops = [o, conv, dict({'op': 'convert', 'h': h, 'out': 'second.docx', 'set': 'default'})]
        else: ops = [o, {'op': 'parse', 'h': h, 'set': st}, dict({'op': 'make', 'h': h}, **({'out': out} if out else {})), {'op': 'close', 'h': h}]
        if ops[0]['op'] == 'open' and ops[-1]['op'] != 'close' and rng.random() < .4: ops = ops + [{'op': 'close', 'h': h}]
        if 'other.pdf' in ds and rng.random() < .6: ops = [{'op': 'open', 'h': 'o', 'file': 'other.pdf'}, {'op': 'parse', 'h': 'o', 'set': 'default'}] + ops
        files = {b: 'bystander ' + b for b in BYSTANDERS if rng.random() < .4}
        # and beside input and output
        for sub in {os.path.dirname(name), os.path.dirname(out or '')} - {''}:
            for b in BYSTANDERS:
                if rng.random() < .3: files[sub + '/' + b] = 'bystander ' + b
        files = {k: v for k, v in files.items() if k not in ds}
        if out == 'res/out' and not any(f.startswith('res/') for f in files): files['res'] = 'DIR'
        if rng.random() < .3: files[os.path.splitext(name)[0] + '.docx'] = 'OLDDOCX'
        if shape not in (4, 8, 9, 10) and rng.random() < .4: files['layout.json'] = '{}'
        plan = {'docs': ds, 'files': files, 'hashes': True, 'procs': [{'name': 'A', 'threads': [ops]}], 'sim': {'cpus': 2, 'policy': rng.choice(POLICIES)}}
        r = rng.random()
        if r < .3:
            form = rng.choice(('abs', 'dot', 'up', 'path'))
            for op in ops: op['form'] = form
        elif r < .45 and not ds[name].get('encrypt'):
            # the source is a link to the document in another directory
            real = 'archive/' + rng.choice(('original.pdf', '2024.PDF', os.path.basename(name)))
            ds[real] = ds[name]
            plan['links'] = {name: real}
        outs = [q['out'] for q in ops if q.get('out') and q['out'] not in files and q['out'] not in ds]
        if outs and rng.random() < .15:
            # an output is a link to a file in another directory
            plan['outlinks'] = {rng.choice(outs): 'elsewhere/doc.docx'}
            if rng.random() < .6: files['elsewhere/doc.docx'] = 'OLDDOCX'
        return plan

    def faulted(self, base, dry, rng, ref):
        g = super().faulted(base, dry, rng, ref)
        while True:
            if rng.random() < .2:
                d = rng.choice(sorted(base['docs']))
                yield dict(json.loads(json.dumps(base)), pagefaults=[
                    {'page': rng.randrange(len(base['docs'][d]['pages'])), 'phase': rng.choice(('parse', 'make')), 'what': 'lib', 'nth': rng.randrange(10), 'exc': rng.choice(EXC_NAMES)}])
            else: yield next(g, None)

    def judge(self, w):
        out = undone(w)
        for n, h in w.inputs.items():
            c = file_hash(w.path(n))
            if c != h: out.append(V('input', 'the input file %s was %s' % (n, 'deleted' if c is None else 'changed')))
        for n in w.plan.get('links', ()):
            if not os.path.islink(w.path(n)): out.append(V('input', 'the link %s to the input was replaced' % n))
        allowed = set()
        for o in w.history:
            mine = w.outputs(o.op, o.proc)
            allowed.update(mine)
            more = [n for n in o.changed or () if n in w.initial or n in allowed]
            more = [n for n in more if n not in mine and n not in w.inputs]
            if more: out.append(V('bystander', '%s changed %s, which it was not to write' % (o.brief()[:200], more)))
        for n, h in w.initial.items():
            if n in w.inputs or n in allowed or n.endswith('/'): continue
            c = file_hash(w.path(n))
            if c != h: out.append(V('bystander', 'the unrelated file %s was %s' % (n, 'deleted' if c is None else 'changed')))
        if not w.sim.fired and not w.sim.aborted:
            for n in w.listing():
                if n not in w.initial and n not in allowed and not n.endswith('.new'): out.append(V('stray', 'the file %s was written, nobody asked for it' % n))
        return out + links(w)

    def nontrivial(self, w): return bool(w.sim.fired or w.pf.fired) or any(o.status == 'ok' and w.outputs(o.op, o.proc) for o in w.history)


# =====================================================================================================
class C08(Check):
    """a stored layout, restored anywhere, makes the same document"""
    id = 'C08'
    bases_quick, faults_quick = 320, 60
    docs_quick = 105
    rule = 'distinct histories in which a layout was stored by one object and restored into another (other process, other history) and used'

    def corpus(self, rng, n):
        out = []
        kinds = list(K)
        for i in range(n):
            d = doc(rng, rng.choice((1, 2, 3)), share=.1, rot=.35)
            # every kind of content appears in the corpus
            d['pages'][0]['kind'] = kinds[i % len(kinds)]
            if i % 9 == 8: d['damage'] = {'page': rng.randrange(len(d['pages'])), 'seed': rng.randrange(10 ** 6), 'n': 15, 'mode': 'flip'}
            out.append(d)
        return out

    def base(self, rng, docs, i):
        d = docs[i % len(docs)]
        n = len(d['pages'])
        ds = {'a.pdf': d, 'b.pdf': rng.choice(docs)}
        st = rng.choice(['default', 'default'] + self.settings)
        two = rng.random() < .35 and n > 1
        a = [{'op': 'open', 'h': 'a', 'file': 'a.pdf'}]
        layouts = []
        if two:
            cut = rng.randint(1, n - 1)
            parts = [list(range(cut)), list(range(cut, n))]
            if rng.random() < .4: parts[1] = list(range(n))[rng.randint(0, cut):]
            for j, ps in enumerate(parts):
                a += [{'op': 'convert', 'h': 'a', 'out': 'a%d.docx' % j, 'pages': ps, 'set': st}, {'op': 'serialize', 'h': 'a', 'file': 'l%d.json' % j}]
                layouts.append('l%d.json' % j)
        else:
            r = rng.random()
            if r < .4: a.append({'op': 'parse', 'h': 'a', 'set': st})
            elif r < .7: a.append(dict({'op': 'convert', 'h': 'a', 'out': 'a.docx', 'set': st}, **sel(rng, n)))
            elif r < .85: a.append(dict({'op': 'tables', 'h': 'a', 'set': st}, **sel(rng, n)))
            else: a.append({'op': 'debug', 'h': 'a', 'page': rng.randrange(n), 'out': 'a.docx', 'pdf': 'd.pdf', 'layout': 'd.json', 'set': st})
            a.append({'op': 'serialize', 'h': 'a', 'file': 'l0.json'}); layouts = ['l0.json']
            if rng.random() < .25: a += [{'op': 'store', 'h': 'a', 'v': 'va', 'json': rng.random() < .5}, {'op': 'open', 'h': 'a2', 'file': 'a.pdf'},
                                         {'op': 'restore', 'h': 'a2', 'v': 'va', 'fresh': rng.random() < .5}, {'op': 'make', 'h': 'a2', 'out': 'a2.docx'},
                                         {'op': 'restore', 'h': 'a2', 'v': 'va', 'fresh': False}, {'op': 'make', 'h': 'a2', 'out': 'a3.docx'}]
        if rng.random() < .5: a.append({'op': 'make', 'h': 'a', 'out': 'a4.docx'})
        if rng.random() < .3: a.append({'op': 'close', 'h': 'a'})
        # the later process, with a history of its own
        b = []
        if rng.random() < .6:
            b += [{'op': 'open', 'h': 'o', 'file': 'b.pdf'}, dict({'op': rng.choice(('convert', 'tables', 'parse')), 'h': 'o', 'set': rng.choice(self.settings)},
                                                               **({'out': 'o.docx'}))]
            if b[-1]['op'] != 'convert': b[-1].pop('out')
        b.append({'op': 'wait', 'for': ['A']})
        b.append({'op': 'open', 'h': 'b', 'file': 'a.pdf'})
        if rng.random() < .3: b.append({'op': 'parse', 'h': 'b', 'pages': [rng.randrange(n)], 'set': rng.choice(self.settings)})
        seq = list(layouts)
        rng.shuffle(seq)
        if rng.random() < .3: seq.append(rng.choice(layouts))
        for l in seq: b.append({'op': 'deserialize', 'h': 'b', 'file': l})
        if rng.random() < .3: b.append({'op': 'ptables', 'h': 'b', 'pages': [rng.randrange(n)]})
        b.append({'op': 'make', 'h': 'b', 'out': 'b1.docx'})
        if rng.random() < .4: b.append({'op': 'make', 'h': 'b', 'out': 'b2.docx'})
        if rng.random() < .5: b += [{'op': 'deserialize', 'h': 'b', 'file': rng.choice(layouts)}, {'op': 'make', 'h': 'b', 'out': 'b3.docx'}]
        procs = [{'name': 'A', 'threads': [a]}, {'name': 'B', 'threads': [b]}]
        if rng.random() < .5:
            b.append({'op': 'serialize', 'h': 'b', 'file': 'lb.json'})
            procs.append({'name': 'C', 'threads': [[{'op': 'wait', 'for': ['B']}, {'op': 'open', 'h': 'c', 'file': 'a.pdf'}, {'op': 'deserialize', 'h': 'c', 'file': 'lb.json'},
                                                    {'op': 'make', 'h': 'c', 'out': 'c1.docx'}, {'op': 'serialize', 'h': 'c', 'file': 'lc.json'},
                                                    {'op': 'deserialize', 'h': 'c', 'file': 'lc.json'}, {'op': 'make', 'h': 'c', 'out': 'c2.docx'},
                                                    {'op': 'ptables', 'h': 'c', 'pages': [0]}]]})
        return {'docs': ds, 'procs': procs, 'layouts': True,
                'sim': {'cpus': 2, 'policy': rng.choice(POLICIES), 'locale': rng.choice(('utf-8', 'utf-8', 'ascii', 'cp1252', 'shift_jis'))}}

    def faulted(self, base, dry, rng, ref):
        # pages that fail, and a storing process that dies after the layout is complete
        while True:
            r = rng.random()
            if r < .5:
                n = len(base['docs']['a.pdf']['pages'])
                yield dict(json.loads(json.dumps(base)), pagefaults=[{'page': rng.randrange(n), 'phase': 'parse', 'what': rng.choice(('lib', 'fn')), 'nth': rng.randrange(40),
                                                                     'exc': rng.choice(EXC_NAMES)}])
            else:
                i = pick_ops(rng, dry['ops'], lambda p, k, q: p == 'A' and k not in ('pdf-open',))
                if i is None: return
                yield with_faults(base, [fault_at(dry['ops'], i, 'kill', frac=rng.random())])

    def judge(self, w):
        out = undone(w)
        for m in model.judge_sequence(w.ref, w.history, disturbed=lambda o: False): out.append(V('restore', m))
        out += self.layouts(w)
        return out

    def layouts(self, w):
        '''layouts stored from unchanged or restored pages are equal to the one known'''
        out, have, src = [], {}, {}
        for o in w.history:
            op, k = o.op, o.op['op']
            h = (o.proc, op.get('h'))
            at = op.get('file') if k.endswith('serialize') else (o.proc, op.get('v'))
            if k == 'open': have[h] = {} if o.status == 'ok' else None
            elif k in ('convert', 'parse', 'tables', 'debug'):
                have[h] = None
                if k == 'debug': src[op.get('layout')] = None
            elif k in ('store', 'serialize'):
                src[at] = None
                if o.status != 'ok': continue
                if have.get(h) is not None and o.value is not None and have[h] != o.value:
                    p = sorted(i for i in set(have[h]) | set(o.value) if have[h].get(i) != o.value.get(i))
                    out.append(V('layout', '%s: the layout of pages %s is not the one it was restored from or stored before' % (o.brief()[:200], p)))
                have[h] = o.value
                src[at] = o.value
            elif k in ('restore', 'deserialize'):
                have[h] = dict(have[h], **src[at]) if o.status == 'ok' and have.get(h) is not None and src.get(at) is not None else None
        return out

    def nontrivial(self, w):
        return any(o.op['op'] in ('restore', 'deserialize') and o.status == 'ok' for o in w.history)


# =====================================================================================================
class C09(Check):
    """saving a layout is atomic; a torn layout file is rejected"""
    id = 'C09'
    bases_quick, faults_quick = 70, 430
    docs_quick = 8
    rule = 'distinct traces of runs in which saving a layout was disturbed (crash, I/O error, short write, full disk, interrupt) or a torn layout was read'

    def corpus(self, rng, n):
        return [doc(rng, rng.choice((1, 2, 3)), kinds=corpus.LIGHT_KINDS, rot=.2) for i in range(n)]

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        f = rng.choice(('l.json', 'sub/l.json', 'l'))
        files = {'sub': 'DIR'} if f.startswith('sub/') else {}
        old = rng.random() < .7
        procs = []
        if old: procs.append({'name': 'O', 'threads': [[{'op': 'open', 'h': 'o', 'file': 'a.pdf'}, dict({'op': 'parse', 'h': 'o', 'set': 'default'}, **({'pages': [rng.randrange(n)]} if rng.random() < .5 else {})),
                                                       {'op': 'serialize', 'h': 'o', 'file': f}]]})
        a = [{'op': 'wait', 'for': ['O']}, {'op': 'open', 'h': 'a', 'file': 'a.pdf'}]
        if i % 4 == 3: a += [{'op': 'debug', 'h': 'a', 'page': rng.randrange(n), 'out': 'dbg.docx', 'pdf': 'dbg.pdf', 'layout': f, 'set': 'wide_gap'}]
        else: a += [dict({'op': 'parse', 'h': 'a', 'set': 'wide_gap'}, **({'pages': [rng.randrange(n)]} if rng.random() < .4 else {})), {'op': 'serialize', 'h': 'a', 'file': f}]
        if rng.random() < .3: a.append({'op': 'serialize', 'h': 'a', 'file': f})
        procs.append({'name': 'A', 'threads': [a]})
        b = [{'op': 'wait', 'for': ['O', 'A']}, {'op': 'open', 'h': 'b', 'file': 'a.pdf'}]
        torn = i % 7 in (1, 3, 6)
        if rng.random() < .5 and torn: b.append({'op': 'parse', 'h': 'b', 'pages': [0], 'set': 'default'})
        if torn:
            t = {'op': 'tear', 'file': f, 'frac': rng.choice((0, 0, .02, .3, .6, .9, .99, .9999))}
            if rng.random() < .5 and t['frac']: t['snap'] = rng.choice(('line', 'end', 'page', 'page'))
            elif rng.random() < .4: t['zero'] = True
            b.append(t)
        b += [{'op': 'deserialize', 'h': 'b', 'file': f}, {'op': 'make', 'h': 'b', 'out': 'b.docx'}]
        if torn: b += [{'op': 'convert', 'h': 'b', 'out': 'b2.docx', 'set': 'default'}, {'op': 'make', 'h': 'b', 'out': 'b3.docx'}]
        procs.append({'name': 'B', 'threads': [b]})
        return {'docs': {'a.pdf': d}, 'files': files, 'procs': procs, 'target': f, 'sim': {'cpus': 2, 'policy': {'kind': 'random'}}}

    def faulted(self, base, dry, rng, ref):
        ops = dry['ops']
        mine = lambda p: p == 'A'
        lay = lambda q: q.endswith('.json') or q.endswith('.tmp') or q == base['target'] or '/' in q
        while True:
            r = rng.choice(('kill', 'kill', 'err', 'short', 'interrupt', 'quota', 'nomem'))
            if r == 'quota':
                p = with_faults(base, [{'proc': 'A', 'kinds': ['write'], 'nth': rng.randrange(max(1, sum(1 for q in ops if q[0] == 'A' and q[1] == 'write'))), 'act': 'ENOSPC', 'sticky': True}])
                yield p
                continue
            want = {'err': lambda k: k in ERRS, 'short': lambda k: k == 'write', 'nomem': lambda k: k in ('open-w', 'write'), 'kill': lambda k: True, 'interrupt': lambda k: True}[r]
            i = pick_ops(rng, ops, lambda p, k, q: mine(p) and want(k) and (lay(q) or rng.random() < .1))
            if i is None:
                yield None
                continue
            act = err_for(rng, ops[i][1]) if r == 'err' else r
            fs = [fault_at(ops, i, act, frac=rng.choice((0, .3, .7, .95, 1)))]
            if rng.random() < .15:
                j = pick_ops(rng, ops, lambda p, k, q: mine(p) and k in ERRS and lay(q))
                if j is not None: fs.append(fault_at(ops, j, err_for(rng, ops[j][1])))
            yield with_faults(base, fs)

    def judge(self, w):
        out = undone(w)
        m = model.Model(w.ref)
        f = w.plan['target']
        states = [None]       # possible contents of the layout file
        vague = False
        for o in w.history:
            mine = o.op['op'] == 'serialize' or o.op['op'] == 'debug'
            before = dict(m.h['a'].pages) if 'a' in m.h else None
            if o.op['op'] == 'deserialize' and m.files.get(f) != 'torn': continue
            exp = m.step(o, ())
            if mine:
                new = m.files.get(f)
                if o.status == 'ok': states = [new]
                else: states.append(new)
                if new is None: vague = True      # parsing was disturbed: any complete layout will do
                if o.status != 'ok' and o.op['op'] == 'debug' and 'a' in m.h: m.h['a'].known = False
            elif o.op['op'] == 'tear': pass
            elif o.op['op'] == 'deserialize':
                v = model.check(w.ref, exp, o)
                if v and o.status != 'skip': out.append(V('torn', 'a layout file without its tail: %s' % v))
            elif o.op['op'] == 'make' and o.proc == 'B' and m.files.get(f) != 'torn':
                d = [q for q in w.history if q.op['op'] == 'deserialize'][0]
                if d.status == 'raise':
                    if None not in states: out.append(V('lost', 'the layout file saved before cannot be loaded any more: %s' % d.detail))
                    continue
                if d.status != 'ok': continue
                good = False
                why = ''
                for s in states:
                    if s is None: continue
                    e = ('docx', s[1], s[0], set()) if s[1] else ('raise',)
                    v = model.check(w.ref, e, o)
                    if v is None: good = True
                    else: why = v
                if not good and not vague: out.append(V('torn', 'the layout file holds neither the old nor the new layout: %s' % why))
            elif o.status in ('ok', 'raise') and o.proc != 'A':
                v = model.check(w.ref, exp, o)
                if v: out.append(V('torn', '%s: %s' % (o.brief()[:200], v)))
            elif o.proc == 'A' and o.status != 'ok': m.disturbed(o)
        return out

    def nontrivial(self, w): return bool(w.sim.fired) or any(o.op['op'] == 'tear' for o in w.history)


# =====================================================================================================
class C10(Check):
    """failing workers: an error within bounded steps, never a hang, never a short document"""
    id = 'C10'
    bases_quick, faults_quick = 40, 420
    docs_quick = 8
    rule = 'distinct traces of multi-processing conversions in which a worker was killed or a worker operation failed'

    def corpus(self, rng, n):
        return [doc(rng, rng.choice((1, 2, 3, 5)), kinds=corpus.LIGHT_KINDS, rot=.2) for i in range(n)]

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        op = dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'mp': True, 'set': 'default', 'cpu': rng.choice((1, 2, 2, 3, 4))}, **(sel(rng, n) if rng.random() < .4 else {}))
        ops = [{'op': 'open', 'h': 'c', 'file': 'a.pdf'}]
        if rng.random() < .25: ops.append({'op': 'parse', 'h': 'c', 'set': 'wide_gap'})
        if rng.random() < .2: ops = [dict({k: v for k, v in op.items() if k != 'h'}, op='api', file='a.pdf', **({'cli': True} if rng.random() < .5 else {}))]
        else: ops.append(op)
        # afterwards everything works again
        if ops[0]['op'] == 'api': ops.append({'op': 'open', 'h': 'c', 'file': 'a.pdf'})
        ops.append(dict({'op': 'convert', 'h': 'c', 'out': 'again.docx', 'set': 'default'}, **({'mp': True, 'cpu': 2} if rng.random() < .5 else {})))
        files = {'out.docx': 'OLDDOCX'} if rng.random() < .5 else {}
        if rng.random() < .4: files.update({'pages-%d.json' % j: '{"pages": []}' for j in range(4)})
        return {'docs': {'a.pdf': d}, 'files': files, 'procs': [{'name': 'A', 'threads': [ops]}],
                'sim': {'cpus': rng.choice((2, 3, 4)), 'policy': rng.choice(POLICIES), 'max_ops': 60000}}

    def faulted(self, base, dry, rng, ref):
        ops = dry['ops']
        # faults hit the workers of the first conversion only
        cut = next((i for i, (p, k, q) in enumerate(ops) if p == 'A' and 'out.docx' in q), len(ops))
        first = {p for p, k, q in ops if p.startswith('A.w1.')} or {p for p, k, q in ops[:cut] if p != 'A'}
        work = lambda p: p in first
        start = [i for i, q in enumerate(ops) if q[0] == 'A' and q[1] in ('submit', 'pool', 'proc-start')]
        last = max([i for i, q in enumerate(ops) if work(q[0])] or [0])
        start = [i for i in start if i < last]
        while True:
            fs = []
            for _ in range(1 if rng.random() < .75 else 2):
                r = rng.choice(('kill', 'kill', 'err', 'short', 'nomem', 'kill_child', 'interrupt', 'start'))
                if r == 'start':
                    # a worker cannot be started
                    if not start: continue
                    i = rng.choice(start)
                    fs.append(fault_at(ops, i, rng.choice(('nomem', 'EMFILE', 'EAGAIN'))))
                    continue
                if r == 'kill_child':
                    span = [i for i, q in enumerate(ops) if work(q[0])]
                    mine = [i for i in range(span[0], span[-1]) if ops[i][0] == 'A'] if span else []
                    if not mine: continue
                    fs.append(fault_at(ops, rng.choice(mine), 'kill_child', who=rng.randrange(4)))
                    continue
                want = {'err': lambda k: k in ERRS, 'short': lambda k: k == 'write', 'nomem': lambda k: k in ('open-w', 'open-r', 'pdf-open', 'write', 'task'),
                        'kill': lambda k: True, 'interrupt': lambda k: k not in CLEANUP}[r]
                i = pick_ops(rng, ops, lambda p, k, q: work(p) and want(k))
                if i is None:
                    yield None
                    continue
                fs.append(fault_at(ops, i, err_for(rng, ops[i][1]) if r == 'err' else r, frac=rng.choice((0, .5, 1))))
            yield with_faults(base, fs) if fs else None

    def prepare(self, w): w.old = file_hash(w.path('out.docx'))

    def judge(self, w):
        out = [V('hang', 'the conversion does not come to an end: %s' % w.sim.aborted)] if w.sim.aborted else []
        m = model.Model(w.ref)
        for o in w.history:
            exp = m.step(o, ())
            if o.status not in ('ok', 'raise'): continue
            if o.op.get('out') == 'out.docx' and o.op['op'] in ('convert', 'api') or o.fired:
                if o.status == 'ok':
                    v = model.check(w.ref, exp, o)
                    if v: out.append(V('silent', 'a worker failed, the call succeeded, but %s' % v))
                else:
                    if not o.fired:
                        v = model.check(w.ref, exp, o)
                        if v: out.append(V('undisturbed', v))
                    m.disturbed(o)
            else:
                v = model.check(w.ref, exp, o)
                if v: out.append(V('after', 'after the failure: %s: %s' % (o.brief()[:200], v)))
        bad = [o for o in w.history if o.op.get('out') == 'out.docx' and o.status == 'raise']
        if bad and w.sim.fired and file_hash(w.path('out.docx')) != w.old: out.append(V('silent', 'the call failed but changed the existing document'))
        return out

    def nontrivial(self, w): return bool(w.sim.fired)


# =====================================================================================================
class C12(FileFaults):
    """nothing is left behind"""
    id = 'C12'
    bases_quick, faults_quick = 56, 420
    observe = True
    rule = 'distinct traces in which files, temporary files, worker processes and PDF handles were counted after every operation'

    def growth(self, rng, docs, i):
        '''the same calls again and again'''
        d = rng.choice(docs)
        n = len(d['pages'])
        o = {'op': 'open', 'h': 'c', 'file': 'a.pdf'}
        st = rng.choice(self.settings)
        s = sel(rng, n) if rng.random() < .3 else {}
        calls = (
            [dict({'op': 'convert', 'h': 'c', 'out': 'o.docx', 'set': st}, **s)],
            [dict({'op': 'convert', 'h': 'c', 'out': 'o.docx', 'set': st, 'mp': True, 'cpu': 2}, **s)],
            [dict({'op': 'tables', 'h': 'c', 'set': st}, **s)],
            [{'op': 'parse', 'h': 'c', 'set': st}, {'op': 'make', 'h': 'c', 'out': 'o.docx'}],
            [{'op': 'debug', 'h': 'c', 'page': rng.randrange(n), 'out': 'o.docx', 'pdf': 'd.pdf', 'layout': 'd.json', 'set': st}],
            [{'op': 'parse', 'h': 'c', 'set': st}, {'op': 'serialize', 'h': 'c', 'file': 'l.json'}, {'op': 'deserialize', 'h': 'c', 'file': 'l.json'}, {'op': 'make', 'h': 'c', 'out': 'o.docx'}],
            [dict({'op': 'api', 'file': 'a.pdf', 'out': 'o.docx', 'set': st}, **s)],
            [dict({'op': 'api', 'file': 'a.pdf', 'out': 'o.docx', 'set': st, 'mp': True, 'cpu': 2}, **s)],
            [dict({'op': 'api_tables', 'file': 'a.pdf', 'set': st}, **s)],
            [{'op': 'api_debug', 'file': 'a.pdf', 'page': rng.randrange(n), 'out': 'o.docx', 'pdf': 'd.pdf', 'layout': 'd.json', 'set': st}],
            [dict({'op': 'api', 'file': 'a.pdf', 'out': 'nodir/o.docx', 'set': st}, **s)])
        body = list(calls[i % len(calls)])
        if 'h' in body[0] and rng.random() < .5: body = [o] + body + [{'op': 'close', 'h': 'c'}, {'op': 'drop', 'h': 'c'}]
        ops = ([o] if body[0].get('h') and body[0]['op'] != 'open' else [])
        for k in range(5): ops += [json.loads(json.dumps(q)) for q in body] + ([{'op': 'measure'}] if k else [])
        p = {'docs': {'a.pdf': d}, 'files': {}, 'procs': [{'name': 'A', 'threads': [ops]}], 'handles': {}, 'growth': True,
             'sim': {'cpus': 2, 'policy': {'kind': 'fifo'}}, 'target': 'o.docx'}
        # ... with a page failing every time
        if rng.random() < .35: p['pagefaults'] = [{'page': body[-1].get('page', rng.randrange(n)), 'phase': rng.choice(('parse', 'parse', 'make')), 'what': 'lib', 'nth': rng.randrange(4),
                                                   'exc': rng.choice(EXC_NAMES), 'again': True}]
        return p

    def base(self, rng, docs, i):
        if i % 3 == 2: return self.growth(rng, docs, i // 3)
        p = super().base(rng, docs, i)
        ops = p['procs'][0]['threads'][0]
        n = len(p['docs']['a.pdf']['pages'])
        r = rng.random()
        if r < .2: ops += [{'op': 'serialize', 'h': 'c', 'file': 'l.json'}, {'op': 'close', 'h': 'c'}] if ops[0]['op'] == 'open' else [{'op': 'api_tables', 'file': 'a.pdf', 'set': 'default'}]
        elif r < .4: ops += [{'op': 'api_debug', 'file': 'a.pdf', 'page': rng.randrange(n), 'out': 'dd.docx', 'pdf': 'dd.pdf', 'layout': 'dd.json', 'set': 'default'}]
        elif r < .55: ops += [{'op': 'api', 'file': 'a.pdf', 'out': 'z.docx', 'mp': True, 'cpu': 2, 'set': 'default'}]
        elif r < .7: ops += [{'op': 'api_tables', 'file': 'a.pdf', 'set': 'default', 'pages': [0]}]
        elif r < .8: ops[:] = [{'op': 'api', 'file': 'a.pdf', 'out': 'nodir/z.docx', 'set': 'default', 'mp': rng.random() < .5}, {'op': 'api', 'file': 'a.pdf', 'out': 'z.docx', 'pages': [99], 'set': 'default'}]
        return p

    #: a failure of one of these leaves the clean-up itself intact
    def hits(self, k, q):
        if k == 'open-r': return q.endswith(('.json', '.docx', '.pdf'))
        return k in ('open-w', 'write', 'read', 'pdf-open', 'print', 'submit', 'task', 'rename', 'mkdir', 'open-tpl', 'pool', 'truncate', 'fsync')

    def faulted(self, base, dry, rng, ref):
        ops = dry['ops']
        if base.get('growth'): return
        while True:
            r = rng.choice(('err', 'err', 'interrupt', 'short', 'nomem', 'pdferror', 'killw', 'pagefault'))
            if r == 'pagefault':
                yield dict(json.loads(json.dumps(base)), pagefaults=[{'page': rng.randrange(len(base['docs']['a.pdf']['pages'])), 'phase': rng.choice(('parse', 'make')), 'what': 'lib',
                                                                     'nth': rng.randrange(12), 'exc': rng.choice(EXC_NAMES)}])
                continue
            if r == 'killw':
                i = pick_ops(rng, ops, lambda p, k, q: '.' in p)
                if i is None:
                    yield None
                    continue
                yield with_faults(base, [fault_at(ops, i, 'kill')])
                continue
            want = {'err': lambda k: k in ERRS, 'short': lambda k: k == 'write', 'nomem': lambda k: k in ('open-w', 'open-r', 'pdf-open', 'write', 'task'), 'pdferror': lambda k: k == 'pdf-open',
                    'interrupt': lambda k: True}[r]
            i = pick_ops(rng, ops, lambda p, k, q: self.hits(k, q) and want(k) and (r != 'interrupt' or p == 'A'))
            if i is None:
                yield None
                continue
            act = err_for(rng, ops[i][1]) if r == 'err' else r
            yield with_faults(base, [fault_at(ops, i, act, frac=rng.random())])

    def judge(self, w):
        out = undone(w)
        allowed = {n for n in w.initial} | {n for n in w.listing() if n.endswith('/') and n in w.initial}
        held = []
        for o in w.history:
            allowed.update(w.outputs(o.op, o.proc))
            if o.status == 'ok' and o.op['op'] == 'open': held.append((o.op['h'], o.op['file']))
            if o.op['op'] == 'close': held = [x for x in held if x[0] != o.op['h']]
            if o.files is None: continue
            left = [f for f in o.files if f not in allowed]
            if left: out.append(V('files', '%s left behind: %s' % (o.brief()[:250], left[:6])))
            if o.alive: out.append(V('workers', '%s left worker processes running: %s' % (o.brief()[:250], o.alive)))
            extra = list(o.handles)
            for _, f in held:
                if f in extra: extra.remove(f)
                elif 'w/' + f in extra: extra.remove('w/' + f)
            if extra: out.append(V('handles', '%s left PDF documents open: %s' % (o.brief()[:250], extra)))
        sizes = [o.size for o in w.history if o.size]
        for k in sorted(sizes[-1] if len(sizes) > 2 else ()):
            v = [s.get(k, 0) for s in sizes]
            # the same amount more with every call
            if all(b > a for a, b in zip(v, v[1:])): out.append(V('growth', 'every call of %s holds more than the one before: %s %s' % (w.history[-2].brief()[:200], k, v)))
        return out

    def nontrivial(self, w): return bool(w.sim.fired or w.pf.fired) or len(w.sim.procs) > 1


# =====================================================================================================
class C13(FileFaults):
    """no success is reported for anything that is not completely there"""
    id = 'C13'
    bases_quick, faults_quick = 90, 460
    docs_quick = 10
    rule = 'distinct traces with a fault that took effect, an unusable input or an unusable output'

    def base(self, rng, docs, i):
        if i % 3 == 0:
            # unusable inputs and outputs
            d = rng.choice(docs)
            n = len(d['pages'])
            ds, files = {'a.pdf': d}, {'dir.docx': 'DIR', 'dir.json': 'DIR'}
            bad = rng.choice(('missing.pdf', 'garbage.pdf', 'empty.pdf', 'locked.pdf', 'torn.pdf'))
            if bad == 'garbage.pdf': files[bad] = '\x00\x01this is no pdf' * 20
            if bad == 'empty.pdf': files[bad] = ''
            if bad == 'torn.pdf': files[bad] = '%PDF-1.7\n'
            if bad == 'locked.pdf': ds[bad] = dict(rng.choice(docs), encrypt='user')
            mp = {'mp': True, 'cpu': 2} if rng.random() < .4 else {}
            o = {'op': 'open', 'h': 'c', 'file': 'a.pdf'}
            X = {'expect': 'raise'}
            choice = (
                [dict({'op': 'api', 'file': bad, 'out': 'out.docx', 'set': 'default'}, **X, **mp)],
                [dict({'op': 'api', 'cli': True, 'file': bad, 'out': 'out.docx', 'set': 'default'}, **X, **mp)],
                [dict({'op': 'api_tables', 'file': bad, 'set': 'default'}, **X)],
                [dict({'op': 'open', 'h': 'c', 'file': bad}, **X)],
                [o, dict({'op': 'convert', 'h': 'c', 'out': 'nodir/out.docx', 'set': 'default'}, **X, **mp)],
                [o, dict({'op': 'convert', 'h': 'c', 'out': 'dir.docx', 'set': 'default'}, **X, **mp)],
                [dict({'op': 'api', 'cli': True, 'file': 'a.pdf', 'out': 'dir.docx', 'set': 'default'}, **X, **mp)],
                [o, {'op': 'parse', 'h': 'c', 'set': 'default'}, dict({'op': 'serialize', 'h': 'c', 'file': 'dir.json'}, **X)],
                [o, {'op': 'parse', 'h': 'c', 'set': 'default'}, dict({'op': 'serialize', 'h': 'c', 'file': 'nodir/l.json'}, **X)],
                [o, dict({'op': 'make', 'h': 'c', 'out': 'out.docx'}, **X)],
                [o, dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'pages': [n + 3, 99], 'set': 'default'}, **X, **mp)],
                [o, dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'start': n, 'set': 'default'}, **X, **mp)],
                [o, dict({'op': 'debug', 'h': 'c', 'page': n + 2, 'out': 'out.docx', 'pdf': 'd.pdf', 'layout': 'd.json', 'set': 'default'}, **X)],
                [o, dict({'op': 'deserialize', 'h': 'c', 'file': 'missing.json'}, **X)],
                [o, {'op': 'close', 'h': 'c'}, dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'set': 'default'}, **X, **mp)],
            )
            ops = list(rng.choice(choice))
            ops += [{'op': 'open', 'h': 'z', 'file': 'a.pdf'}, {'op': 'convert', 'h': 'z', 'out': 'z.docx', 'set': 'default'}]
            if rng.random() < .4: files['out.docx'] = 'OLDDOCX'
            return {'docs': ds, 'files': files, 'procs': [{'name': 'A', 'threads': [ops]}], 'sim': {'cpus': 2, 'policy': rng.choice(POLICIES)}, 'bad': True}
        p = super().base(rng, docs, i)
        ops = p['procs'][0]['threads'][0]
        r = rng.random()
        if r < .4 and ops[0]['op'] == 'open': ops.append({'op': 'serialize', 'h': 'c', 'file': 'l.json'})
        elif r < .65:
            q = {'page': rng.randrange(len(p['docs']['a.pdf']['pages'])), 'out': 'dd.docx', 'pdf': 'dd.pdf', 'layout': 'l.json', 'set': 'default'}
            ops.append(dict(q, op='debug', h='c') if ops[0]['op'] == 'open' and r < .5 else dict(q, op='api_debug', file='a.pdf', **({'cli': True} if r > .58 else {})))
        if rng.random() < .3: ops.append({'op': 'api', 'cli': True, 'file': 'a.pdf', 'out': 'cli.docx', 'set': 'default', **({'mp': True, 'cpu': 2} if rng.random() < .5 else {})})
        if rng.random() < .2: p['docs']['a.pdf'] = dict(p['docs']['a.pdf'], encrypt='owner')
        return p

    def refs(self, plan): return [r for r in super().refs(plan) if plan['docs'][r[0]].get('encrypt') != 'user']

    def faulted(self, base, dry, rng, ref):
        if base.get('bad'): return
        g = super().faulted(base, dry, rng, ref)
        n = len(base['docs']['a.pdf']['pages'])
        while True:
            if rng.random() < .2:
                yield dict(json.loads(json.dumps(base)), pagefaults=[{'page': rng.randrange(n), 'phase': rng.choice(('parse', 'make')), 'what': rng.choice(('lib', 'fn')),
                                                                      'nth': rng.randrange(10), 'exc': rng.choice(EXC_NAMES)} for _ in range(rng.choice((1, 1, n)))])
            else: yield next(g, None)

    def judge(self, w):
        out = undone(w)
        m = model.Model(w.ref)
        saved = None
        for o in w.history:
            exp = ('raise',) if o.op.get('expect') == 'raise' else m.step(o, {f[0] for f in o.pfired})
            if o.status == 'ok':
                v = model.check(w.ref, exp, o)
                if v: out.append(V('untrue', 'success reported for %s: %s' % (o.brief()[:250], v)))
                if o.op['op'] == 'serialize': saved = (o.op['file'], m.files.get(o.op['file']))
                if o.op['op'] in ('debug', 'api_debug') and exp[0] == 'docx': saved = (o.op['layout'], exp[2:3] + exp[1:2] + exp[3:])
            elif o.status == 'raise' and not w.sim.fired:
                v = model.check(w.ref, exp, o)
                if v: out.append(V('untrue', '%s: %s' % (o.brief()[:250], v)))
            if o.status in ('raise', 'killed', 'hung'):
                m.disturbed(o)
                if o.op['op'] in ('serialize', 'debug', 'api_debug'): saved = None
            # pages left out are reported
            if o.status == 'ok' and o.escaped and not w.sim.fired and w.plan['sim'].get('enc', 'utf-8'):
                import re
                said = len(re.findall('gnor|skip|fail|error|warn', o.out, re.I))
                if said < len(o.escaped) and not all(ascii(e[2].split(': ', 1)[-1])[1:20] in o.out for e in o.escaped):
                    out.append(V('silent', '%s succeeded without reporting that page %d failed: %s' % (o.brief()[:250], o.escaped[0][0], o.escaped[0][2])))
        if saved and saved[1] and not out:
            v = self.load_layout(w, *saved)
            if v: out.append(V('untrue', 'serialize() succeeded, but %s' % v))
        return out

    def load_layout(self, w, f, st):
        import contextlib, io
        from pdf2docx import Converter
        doc_, pages, unk = st
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                cv = Converter(w.path(doc_))
                cv.deserialize(w.path(f))
                cv.make_docx(w.path('loaded.docx'))
                cv.close()
        except Exception as e:
            return None if not pages else 'the layout %s cannot be loaded: %s' % (f, S.describe(e))
        return model.diff(w.ref, ('docx', pages, doc_, unk), read_docx(w.path('loaded.docx')))

    def nontrivial(self, w): return bool(w.sim.fired or w.pf.fired) or bool(w.plan.get('bad'))


# =====================================================================================================
ENCS = ('utf-8', 'ascii', 'latin-1', 'cp1252', 'cp437', 'shift_jis', 'koi8-r', None)


class C14(Check):
    """diagnostics do not change results"""
    id = 'C14'
    needs_calls = True
    bases_quick, faults_quick = 230, 130
    docs_quick = 14
    rule = 'distinct runs with a restricted console/locale encoding, a failing page with an arbitrary message, or debug plotting'

    def corpus(self, rng, n):
        out = []
        for i in range(n):
            d = doc(rng, rng.choice((1, 2, 3)), share=.1)
            if i % 3 != 2: rng.choice(d['pages'])['kind'] = 'intl'
            out.append(d)
        return out

    def base(self, rng, docs, i):
        name = rng.choice(('a.pdf', 'caf\xe9.pdf', '\u4e2d\u6587 \u0416.pdf'))
        d = rng.choice(docs)
        n = len(d['pages'])
        st = rng.choice(['default', 'default'] + self.settings)
        out = rng.choice(('out.docx', '\xfcb\xe9r\u65e5.docx'))
        o = {'op': 'open', 'h': 'c', 'file': name}
        conv = dict({'op': 'convert', 'h': 'c', 'out': out, 'set': st}, **(sel(rng, n) if rng.random() < .4 else {}))
        shape = i % 6
        if shape == 0: ops = [o, conv]
        elif shape == 1: ops = [o, dict(conv, mp=True, cpu=2)]
        elif shape == 2:
            ops = [o, {'op': 'debug', 'h': 'c', 'page': rng.randrange(n), 'out': out, 'pdf': 'dbg.pdf', 'layout': 'dbg.json', 'set': st},
                   {'op': 'open', 'h': 'r', 'file': name}, {'op': 'deserialize', 'h': 'r', 'file': 'dbg.json'}, {'op': 'make', 'h': 'r', 'out': 'r.docx'}]
            if rng.random() < .5: ops += [conv]
        elif shape == 3:
            # debug every page with one settings object, then convert with it
            ops = [o] + [{'op': 'debug', 'h': 'c', 'page': p, 'out': 'd%d.docx' % p, 'pdf': 'dbg.pdf', 'layout': 'dbg.json', 'set': st, 'shared': 'k'} for p in range(n)]
            ops += [dict(conv, shared='k'), dict({'op': 'tables', 'h': 'c', 'set': st, 'shared': 'k'})]
        elif shape == 4: ops = [{'op': 'api_debug', 'file': name, 'page': rng.randrange(n), 'out': out, 'pdf': 'dbg.pdf', 'layout': 'dbg.json', 'set': st},
                                {'op': 'api', 'file': name, 'out': 'o2.docx', 'set': st}, {'op': 'api_tables', 'file': name, 'set': st}]
        else: ops = [o, {'op': 'parse', 'h': 'c', 'set': st}, {'op': 'serialize', 'h': 'c', 'file': 'l.json'}, {'op': 'open', 'h': 'r', 'file': name},
                     {'op': 'deserialize', 'h': 'r', 'file': 'l.json'}, {'op': 'make', 'h': 'r', 'out': out}, {'op': 'make', 'h': 'c', 'out': 'm.docx'}]
        return {'docs': {name: d}, 'procs': [{'name': 'A', 'threads': [ops]}],
                'sim': {'cpus': 2, 'policy': rng.choice(POLICIES), 'enc': rng.choice(ENCS), 'locale': rng.choice([e for e in ENCS if e])}}

    def faulted(self, base, dry, rng, ref):
        name = sorted(base['docs'])[0]
        n = len(base['docs'][name]['pages'])
        st = [op.get('set', 'default') for op in self.main_ops(base) if 'set' in op][-1]
        prints = [i for i, q in enumerate(dry['ops']) if q[1] == 'print']
        while True:
            if prints and rng.random() < .35:
                # the console breaks down, for a moment or for good
                i = rng.choice(prints)
                f = {'proc': dry['ops'][i][0], 'kinds': ['print'], 'nth': sum(1 for q in dry['ops'][:i] if q[0] == dry['ops'][i][0] and q[1] == 'print'),
                     'act': rng.choice(('EPIPE', 'EIO', 'ENOSPC', 'EBADF', 'closed')), 'sticky': rng.random() < .7}
                if rng.random() < .4: f = {'kinds': ['print'], 'nth': rng.randrange(len(prints)), 'act': f['act'], 'sticky': True}
                yield with_faults(base, [f])
                continue
            phase, what = rng.choice((('parse', 'fn'), ('parse', 'lib'), ('make', 'fn'), ('make', 'lib')))
            p = rng.randrange(n)
            calls = ref.get(name, p, st)['calls'].get(phase + ('-lib' if what == 'lib' else ''), 0)
            if not calls:
                if rng.random() < .05: return
                continue
            f = {'page': p, 'phase': phase, 'what': what, 'nth': rng.randrange(calls), 'exc': rng.choice(('unicode', 'attr', rng.choice(EXC_NAMES)))}
            yield dict(json.loads(json.dumps(base)), pagefaults=[f])

    def judge(self, w):
        out = undone(w)
        for m in model.judge_sequence(w.ref, w.history, disturbed=lambda o: False): out.append(V('diagnostics', m))
        return out

    def nontrivial(self, w):
        sp = w.plan['sim']
        return bool(w.pf.fired) or bool(w.sim.fired) or sp['enc'] != 'utf-8' or sp['locale'] != 'utf-8' or any('debug' in o.op['op'] for o in w.history)


# =====================================================================================================
class C11(Check):
    """the output is a function of the PDF and the settings only"""
    id = 'C11'
    bases_quick, faults_quick = 168, 0
    docs_quick = 168
    rule = ('distinct conversions, each executed in several simulated environments (string hash seed, object hashes and addresses, address re-use, '
            'garbage collection schedule, clock, random generators, allocator) and compared part by part, byte for byte')

    def corpus(self, rng, n):
        kinds = list(K)
        out = []
        for i in range(n):
            d = doc(rng, rng.choice((1, 2, 3)), share=.1, rot=.3)
            d['pages'][0]['kind'] = kinds[i % len(kinds)]
            out.append(d)
        return out

    def base(self, rng, docs, i):
        d = docs[i % len(docs)]
        n = len(d['pages'])
        st = rng.choice(['default', 'default'] + self.settings)
        o = {'op': 'open', 'h': 'c', 'file': 'a.pdf'}
        ops = [o, {'op': 'convert', 'h': 'c', 'out': 'o.docx', 'set': st}]
        r = rng.random()
        if r < .25: ops[1].update(mp=True, cpu=rng.choice((1, 2, 3)))
        elif r < .45: ops += [{'op': 'serialize', 'h': 'c', 'file': 'l.json'}, dict(o, h='d'), {'op': 'deserialize', 'h': 'd', 'file': 'l.json'}, {'op': 'make', 'h': 'd', 'out': 'r.docx'}]
        elif r < .55: ops = [o, {'op': 'debug', 'h': 'c', 'page': rng.randrange(n), 'out': 'o.docx', 'pdf': 'p.pdf', 'layout': 'l.json', 'set': st}]
        elif r < .65: ops += [dict(ops[1], out='o2.docx', set=rng.choice(self.settings))]
        ops.append({'op': 'tables', 'h': 'c', 'set': rng.choice((st, 'stream'))})
        return {'docs': {'a.pdf': d}, 'procs': [{'name': 'A', 'threads': [ops]}], 'sim': {'cpus': 2, 'policy': rng.choice(POLICIES)}}

    def variants(self, rng, n):
        out = [{'env': {'PYTHONHASHSEED': '0'}, 'salt': 0}]
        for j in range(1, n):
            v = {'env': {'PYTHONHASHSEED': str(rng.randrange(1, 2 ** 32))}, 'salt': rng.randrange(1, 1 << 30), 'gc': rng.choice((0, 1, 1, 7, 50, 300)),
                 'ids': rng.choice(('reuse', 'reuse', 'fresh', 'down', '')), 'hash': rng.random() < .7, 'clock': rng.choice((4.0e8, 1.7e9, 4.0e9)), 'mono': rng.choice((.001, 1.0, 1e6))}
            if rng.random() < .5:
                v.update(pdf=rng.choice(('0.pdf', 'b c.PDF', 'caf\xe9 \u4e2d.pdf', 'sub/x.pdf', 'z' * 60 + '.pdf')), dir=rng.choice(('d', 'e f/g', 'h' * 90)))
            if rng.random() < .5: v.update(cpus=rng.choice((1, 3, 7, 64)), policy=rng.choice(POLICIES))
            if rng.random() < .5: v['env'].update(TZ=rng.choice(('UTC', 'Asia/Tokyo', 'XYZ+9:30')), USER=rng.choice(('root', 'anna')), HOME=rng.choice(('/', '/nonexistent')), COLUMNS=rng.choice(('20', '400')), LANG='de_DE.UTF-8')
            if rng.random() < .4: v['env']['PYTHONMALLOC'] = rng.choice(('malloc', 'pymalloc_debug'))
            out.append(v)
        return out

    nvariants = 7

    def run_variants(self, plans, variants):
        '''results of all plans in all variants; one interpreter per variant'''
        import subprocess, sys, tempfile, shutil
        from . import boot
        d = tempfile.mkdtemp(prefix='dst-var-')
        try:
            ps = []
            for j, v in enumerate(variants):
                with open('%s/in%d' % (d, j), 'w') as f: json.dump({'plans': plans, 'variant': v}, f)
                env = dict(os.environ, DST_VJOBS=str(max(1, (os.cpu_count() or 4) // len(variants) + 1)), **v['env'])
                ps.append(subprocess.Popen([sys.executable, '-B', '-m', 'dst.variant', '%s/in%d' % (d, j), '%s/out%d' % (d, j)], cwd=boot.VERIF, env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
            out = []
            for j, p in enumerate(ps):
                err = p.communicate()[1]
                try:
                    with open('%s/out%d' % (d, j)) as f: out.append(json.load(f))
                except OSError: raise RuntimeError('variant %s: %s' % (variants[j], err[-800:].decode(errors='replace')))
            return out
        finally: shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def compare(a, b):
        '''None, or what is different'''
        if 'timeout' in (a[0], b[0]): return None      # a slow machine; conversions that never end are found by C10
        if a[0] != b[0]: return 'one run ended with %s, the other with %s' % (str(a)[:200], str(b)[:200])
        if a[0] != 'ok': return None
        a, b = a[1], b[1]
        if a['aborted'] or b['aborted']: return None if a['aborted'] == b['aborted'] else 'aborted: %s / %s' % (a['aborted'], b['aborted'])
        for x, y in zip(a['res'], b['res']):
            if x != y:
                if x[:3] == y[:3] and len(x) > 3 and isinstance(x[3], dict) and isinstance(y[3], dict):
                    if x[3]['sections'] != y[3]['sections']: return '%s: the content of the document differs' % x[0]
                    ks = [k for k in x[3]['parts'] if x[3]['parts'].get(k) != y[3]['parts'].get(k)] or sorted(set(y[3]['parts']) ^ set(x[3]['parts']))
                    return '%s: the parts %s of the document differ' % (x[0], ks[:4])
                return 'one run %s, the other %s' % (str(x)[:200], str(y)[:200])
        return None if len(a['res']) == len(b['res']) else 'different number of results'

    def judge_pair(self, plan, res, variants):
        for j in range(1, len(variants)):
            d = self.compare(res[0], res[j])
            if d: return j, d
        return None

    def result(self, plan, res, variants, hit):
        v = [r[1] for r in res if r[0] == 'ok']
        out = {'viol': [], 'digest': hashlib.sha256(json.dumps([plan, variants], sort_keys=True).encode()).hexdigest(), 'ops_n': sum(r['ops'] for r in v),
               'switches': sum(r['switches'] for r in v), 'fired': {}, 'simtime': 0.0, 'lines': 0, 'nontrivial': True, 'kinds': {}, 'aborted': None, 'written': 0,
               'procs': len(variants), 'status': {}, 'choices': [], 'trace': [], 'history': [json.dumps(r)[:1500] for r in res]}
        if hit: out['viol'] = [V('determinism', 'in environment %s instead of %s: %s' % (json.dumps(variants[hit[0]]), json.dumps(variants[0]), hit[1]))]
        for x in variants[1:]:
            for k, n in (('gc', 'gc_schedule'), ('ids', 'simulated_addresses'), ('hash', 'object_hashes'), ('clock', 'clock'), ('env', 'hash_seed'), ('pdf', 'file_name_and_place'), ('cpus', 'cpus_and_schedule')):
                if x.get(k): out['fired'][n] = out['fired'].get(n, 0) + 1
        return out

    def explore(self, seed, tier, limit, scale=1.0, b=None):
        from . import driver
        import time
        b = b or driver.Batch(self, seed, tier)
        b.seeds += 1
        rng = random.Random('%s/%s/plans' % (self.id, seed))
        plans = list(self.bases(rng, self.corpus(rng, self.docs_quick), max(1, int(self.bases_quick * scale))))
        variants = self.variants(rng, self.nvariants)
        rs = self.run_variants(plans, variants)
        for k, p in enumerate(plans):
            res = [r[str(k)] for r in rs]
            hit = self.judge_pair(p, res, variants)
            if hit: p = dict(p, variants=[variants[0], variants[hit[0]]])
            b.note(p, self.result(p, res, variants, hit), k)
        b.more = {'environments_per_conversion': len(variants), 'executions': len(plans) * len(variants)}
        return b

    def run_many(self, plans):
        out = []
        for p in plans:
            rs = [r['0'] for r in self.run_variants([{k: v for k, v in p.items() if k != 'variants'}], p['variants'])]
            hit = self.judge_pair(p, rs, p['variants'])
            out.append(self.result(p, rs, p['variants'], hit))
        return out


# =====================================================================================================
class C22(FileFaults):
    """an interrupt ends the call it hits"""
    id = 'C22'
    bases_quick, faults_quick = 84, 700
    docs_quick = 21
    rule = 'distinct traces in which an interrupt (KeyboardInterrupt, SystemExit, cancellation) arrived during a call'

    def base(self, rng, docs, i):
        d = rng.choice(docs)
        n = len(d['pages'])
        shape = i % 12
        o = {'op': 'open', 'h': 'c', 'file': 'a.pdf'}
        st = rng.choice(self.settings)
        conv = dict({'op': 'convert', 'h': 'c', 'out': 'out.docx', 'set': st}, **(sel(rng, n) if rng.random() < .3 else {}))
        api = dict({k: v for k, v in conv.items() if k != 'h'}, op='api', file='a.pdf')
        if shape in (0, 1): ops = [o, conv]
        elif shape in (2, 3): ops = [o, dict(conv, mp=True, cpu=rng.choice((1, 2, 3)))]
        elif shape == 4: ops = [o, {'op': 'parse', 'h': 'c', 'set': st}, {'op': 'make', 'h': 'c', 'out': 'out.docx'}]
        elif shape == 5: ops = [api]
        elif shape == 6: ops = [dict(api, cli=True)]
        elif shape == 7: ops = [dict(api, mp=True, cpu=2, **({'cli': True} if rng.random() < .5 else {}))]
        elif shape == 8: ops = [o, {'op': 'tables', 'h': 'c', 'set': st}] if rng.random() < .5 else [{'op': 'api_tables', 'file': 'a.pdf', 'set': st}]
        elif shape == 9: ops = [o, {'op': 'debug', 'h': 'c', 'page': rng.randrange(n), 'out': 'out.docx', 'pdf': 'dbg.pdf', 'layout': 'l.json', 'set': st}]
        elif shape == 10: ops = [o, {'op': 'parse', 'h': 'c', 'set': st}, {'op': 'serialize', 'h': 'c', 'file': 'l.json'}]
        else: ops = [o, {'op': 'parse', 'h': 'c', 'set': st}, {'op': 'serialize', 'h': 'c', 'file': 'l.json'}, {'op': 'deserialize', 'h': 'c', 'file': 'l.json'},
                     {'op': 'make', 'h': 'c', 'out': 'out.docx'}]
        k = len(ops)
        ops += [{'op': 'open', 'h': 'z', 'file': 'a.pdf'}, dict({'op': 'convert', 'h': 'z', 'out': 'after.docx', 'set': st}, **({'mp': True, 'cpu': 2} if rng.random() < .3 else {})),
                {'op': 'tables', 'h': 'z', 'set': st}]
        if rng.random() < .5: d = dict(d, damage={'page': rng.randrange(n), 'seed': rng.randrange(10 ** 6), 'n': 20, 'mode': 'flip'})
        return {'docs': {'a.pdf': d}, 'files': {'out.docx': 'OLDDOCX'} if rng.random() < .6 else {}, 'procs': [{'name': 'A', 'threads': [ops]}], 'hit': k, 'callfaults': [],
                'sim': {'cpus': rng.choice((2, 3)), 'policy': rng.choice(POLICIES)}}

    seen = collections.Counter()

    def faulted(self, base, dry, rng, ref):
        ops = dry['ops']
        while True:
            if rng.random() < .7:
                # at the n-th call of a function
                j = rng.randrange(base['hit'])
                if base['procs'][0]['threads'][0][j]['op'] == 'open' and rng.random() < .8: continue
                k = 'A/0/%d' % j
                n = dry.get('calls', {}).get(k)
                if n is None:
                    yield None
                    continue
                r = rng.random()
                names = dry.get('callnames', {}).get(k)
                # in functions not interrupted so far; or near the begin or end; or anywhere
                if r < .6:
                    least = min(self.seen[x] for x in names)
                    name = rng.choice([x for x in sorted(names) if self.seen[x] == least])
                    self.seen[name] += 1
                    i = rng.choice(names[name])
                else: i = rng.randrange(min(n + 1, 60)) if r < .7 else n - rng.randrange(min(n + 1, 60)) if r < .8 else rng.randint(0, n)
                yield dict(json.loads(json.dumps(base)), callfaults=[{'at': k, 'nth': i, 'act': rng.choice(('interrupt', 'interrupt', 'sysexit', 'cancel'))}])
            else:
                i = pick_ops(rng, ops[:self.until(ops)], lambda p, k, q: p == 'A')
                if i is None:
                    yield None
                    continue
                yield with_faults(base, [fault_at(ops, i, rng.choice(('interrupt', 'ctrl_c', 'ctrl_c', 'sysexit', 'cancel')))])

    @staticmethod
    def until(ops):
        """operations of the calls that come afterwards are left alone"""
        return next((i for i, (p, k, q) in enumerate(ops) if 'after.docx' in q), len(ops))

    def judge(self, w):
        out = undone(w)
        m = model.Model(w.ref)
        trace = w.sim.trace
        for o in w.history:
            exp = m.step(o, ())
            if o.status not in ('ok', 'raise'): continue
            if not o.fired:
                v = model.check(w.ref, exp, o)
                if v: out.append(V('after', 'after the interrupt: %s: %s' % (o.brief()[:200], v)))
                continue
            act = o.fired[0][0]
            name = {'sysexit': 'SystemExit', 'cancel': 'CancelledError'}.get(act, 'KeyboardInterrupt')
            at = next((i for i in range(o.trace0, o.trace1) if trace[i][:2] == ('A', 'FAULT')), o.trace1)
            where = ' '.join(trace[at][3:]) if at < len(trace) else ''
            if o.status == 'ok': out.append(V('swallowed', '%s at %s had no effect: %s' % (name, where, o.brief()[:200])))
            elif not o.detail.startswith(name): out.append(V('swallowed', '%s at %s became: %s' % (name, where, o.brief()[:300])))
            late = [r for r in trace[at + 1:o.trace1] if r[0] == 'A']
            if any(r[1] == 'page' for r in late): out.append(V('goes-on', 'a page is processed after %s at %s: %s' % (name, where, o.brief()[:200])))
            mine = w.outputs(o.op, o.proc)
            for r in late:
                if r[1] in ('rename', 'link', 'open-w', 'write', 'truncate') and any(r[2].endswith('w/' + f) for f in mine):
                    out.append(V('goes-on', '%s is written after %s at %s: %s' % (r[2], name, where, o.brief()[:200]))); break
            m.disturbed(o)
        return out

    def nontrivial(self, w): return bool(w.sim.fired)


ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C22)}
