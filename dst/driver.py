"""Command line: check one property, replay a recorded violation, self-test.

  check ID [--thorough]     explore; exit 0, or 1 with a VIOLATION line
  replay FILE               run a recorded violation again; exit 1 if it is reproduced
  selftest                  determinism of the simulator on this machine
"""
import argparse
import collections
import hashlib
import json
import os
import random
import re
import subprocess
import sys
import tempfile
import time

from . import boot
from . import engine, sim as S

VERIF = boot.VERIF
TABLE = {}           # (spec key, page, setting) -> reference result
QUICK_LIMIT = 420    # seconds; the quick tier explores a fixed number of runs and takes far less
THOROUGH = float(os.environ.get('DST_BUDGET', '780'))
BAD_REF = {'frag': None, 'tables': None, 'calls': {}}


# ------------------------------------------------------------------------------------------- references
def ref_jobs(check, plans):
    from . import world
    need = {}
    for p in plans:
        for d, i, s in check.refs(p):
            k = (world.spec_key(p['docs'][d]), i, s)
            if k not in TABLE: need[k] = {'spec': p['docs'][d], 'page': i, 'set': s}
    return need


def fill_refs(check, plans):
    from . import world
    need = ref_jobs(check, plans)
    if not need: return
    pool = engine.Pool(lambda job, d: world.reference(job))
    try:
        for k, st, val in pool.run(list(need.items())):
            TABLE[k] = val if st == 'ok' else dict(BAD_REF, err='%s %s' % (st, str(val)[:200]))
    finally: pool.close()


# ------------------------------------------------------------------------------------------- one run
def run_plan(check, plan, scratch, full=False):
    """in a forked child: one simulated run"""
    w = check.execute(plan, scratch, TABLE)
    viol = check.judge(w)
    sim = w.sim
    res = {'viol': [dict(v) for v in viol], 'digest': sim.digest.hexdigest(), 'ops_n': sim.opseq, 'switches': sim.switches,
           'fired': dict(sim.fault_counts), 'simtime': sim.mono - 100.0, 'lines': sim.line_events,
           'nontrivial': bool(check.nontrivial(w)), 'kinds': dict(sim.opcount), 'aborted': sim.aborted,
           'written': sim.bytes_written, 'procs': len(sim.procs), 'status': collections.Counter(o.status for o in w.history)}
    if w.cf.counts: res.update(calls=w.cf.counts, callnames=w.cf.names)
    if full or viol:
        res['ops'] = [r[:3] for r in sim.trace if len(r) == 4]
    if viol or full == 'all':
        res['choices'] = sim.choices
        res['trace'] = [' '.join(r) for r in sim.trace]
        res['history'] = [o.brief() for o in w.history]
    return res


def lost_run(st, val):
    """a run whose interpreter died or that never came back is a result, too"""
    what = {'timeout': ('hang', 'the run does not end: '), 'crash': ('crash', 'the interpreter was killed: ')}[st]
    return {'viol': [{'cls': what[0], 'msg': what[1] + str(val)[:300]}], 'digest': st, 'ops_n': 0, 'switches': 0, 'fired': {}, 'simtime': 0.0, 'lines': 0,
            'nontrivial': True, 'kinds': {}, 'aborted': st, 'written': 0, 'procs': 1, 'status': {}, 'ops': [], 'choices': [], 'trace': [], 'history': []}


def run_many(check, plans, full='all', refs=True):
    """results of some plans, in order"""
    if hasattr(check, 'run_many'): return check.run_many(plans)
    if refs: fill_refs(check, plans)
    pool = engine.Pool(lambda plan, d: run_plan(check, plan, d, full))
    out = {}
    try:
        for k, st, val in pool.run(enumerate(plans)): out[k] = val if st == 'ok' else (lost_run(st, val) if st in ('timeout', 'crash') else {'error': val, 'viol': []})
    finally: pool.close()
    return [out[k] for k in range(len(plans))]


# ------------------------------------------------------------------------------------------- exploration
class Batch:
    def __init__(self, check, seed, tier):
        self.check, self.seed, self.tier = check, seed, tier
        self.rng = random.Random('%s/%s/%s' % (check.id, seed, 'plans'))
        self.stats = collections.Counter()
        self.fired = collections.Counter()
        self.kinds = collections.Counter()
        self.digests = set()
        self.nontrivial = set()
        self.samples = []
        self.viols = []
        self.errors = []
        self.simtime = 0.0
        self.seeds = 0
        self.docs = set()

    def note(self, plan, res, key=0):
        self.stats['runs'] += 1
        self.stats['ops'] += res['ops_n']
        self.stats['switches'] += res['switches']
        self.stats['lines'] += res['lines']
        self.stats['procs'] += res['procs']
        for k, n in res['status'].items(): self.stats['op_' + k] += n
        self.simtime += res['simtime']
        for k, n in res['fired'].items(): self.fired[k] += n
        self.kinds.update(res['kinds'])
        self.digests.add(res['digest'])
        for d in plan['docs'].values(): self.docs.add(json.dumps(d, sort_keys=True))
        if res['fired']: self.stats['runs_with_faults'] += 1
        if res['nontrivial']:
            k = hashlib.sha256((res['digest'] + json.dumps([plan.get('pagefaults'), plan['docs'], plan['procs']], sort_keys=True)).encode()).hexdigest()
            if k not in self.nontrivial and len(self.samples) < 8 and len(self.nontrivial) % 37 == 0: self.samples.append(summary(plan, res))
            self.nontrivial.add(k)
        if res['viol']: self.viols.append((key, plan, res))

    def run(self, jobs, limit, full=False):
        """run plans; returns results by key"""
        out = {}
        pool = engine.Pool(lambda plan, d: run_plan(self.check, plan, d, full))
        plans = {}

        def feed():
            for k, p in enumerate(jobs):
                plans[k] = p
                yield k, p
        stop = lambda: len(self.viols) > 2 or len(self.errors) > 2 or time.monotonic() > limit
        try:
            for k, st, val in pool.run(feed(), stop):
                if st == 'error':
                    self.errors.append((plans[k], st, val)); continue
                if st != 'ok': val = lost_run(st, val)
                self.note(plans[k], val, k)
                if st == 'ok': out[k] = (plans[k], val)
        finally: pool.close()
        if time.monotonic() > limit: self.stats['stopped_by_time'] = 1
        return out


def summary(plan, res):
    return {'docs': {k: [p['kind'] for p in v['pages']] for k, v in plan['docs'].items()},
            'ops': [[op['op'] + ('/mp' if op.get('mp') else '') for t in p['threads'] for op in t] for p in plan['procs']],
            'faults': plan.get('faults', []) or plan.get('pagefaults', []) or plan.get('callfaults', []), 'policy': plan.get('sim', {}).get('policy'),
            'operations': res['ops_n'], 'switches': res['switches'], 'trace_digest': res['digest'][:16]}


def explore(check, seed, tier, limit, scale=1.0, b=None):
    from . import model
    if hasattr(check, 'explore'): return check.explore(seed, tier, limit, scale, b)
    b = b or Batch(check, seed, tier)
    b.seeds += 1
    rng = random.Random('%s/%s/plans' % (check.id, seed))
    nd, nb, nf = check.docs_quick, max(1, int(check.bases_quick * scale)), int(check.faults_quick * scale)
    docs = check.corpus(rng, nd)
    bases = list(check.bases(rng, docs, nb))
    t0 = time.monotonic()
    fill_refs(check, bases)
    b.ref_wall = time.monotonic() - t0
    done = b.run(bases, limit, full=nf > 0)
    if b.viols or b.errors or not nf: return b
    # add faults to undisturbed runs, in turns
    gens = []
    for k in sorted(done):
        plan, res = done[k]
        gens.append(check.faulted(plan, res, random.Random('%s/f%d' % (seed, k)), model.Ref(TABLE, plan['docs'])))

    def feed():
        n = 0
        live = list(gens)
        dry = {}
        while live and n < nf:
            for g in list(live):
                if n >= nf: break
                p = next(g, 0)
                if p is None: dry[g] = dry.get(g, 0) + 1
                else: dry.pop(g, None)
                # a generator is given up when it finds no place for a fault
                if p == 0 or dry.get(g, 0) > 40: live.remove(g)
                if not p: continue
                n += 1
                yield p
    b.run(feed(), limit)
    return b


# ------------------------------------------------------------------------------------------- minimisation
def classes(res): return {v['cls'] for v in res.get('viol', ())}


def shrink(check, plan, cls, budget):
    """a smaller plan that still shows a violation of the same class; every step is one simulated run"""
    end = time.monotonic() + budget
    best = json.loads(json.dumps(plan))
    tried = [0]

    def attempt(cands):
        """the first candidate that still fails, run in parallel batches"""
        cands = [c for c in cands if c != best]
        for i in range(0, len(cands), 8):
            if time.monotonic() > end: return None
            part = cands[i:i + 8]
            tried[0] += len(part)
            for c, r in zip(part, run_many(check, part, full=False)):
                if cls in classes(r): return c
        return None

    def mutate(f):
        c = json.loads(json.dumps(best))
        try: f(c)
        except (KeyError, IndexError, TypeError): return None
        return c

    def edits():
        out = []
        add = lambda f: out.append(mutate(f))
        for i in range(len(best.get('faults', ()))): add(lambda c, i=i: c['faults'].pop(i))
        for i in range(len(best.get('callfaults') or ())): add(lambda c, i=i: c['callfaults'].pop(i))
        for i in range(len(best.get('pagefaults', ()))): add(lambda c, i=i: c['pagefaults'].pop(i))
        if len(best['procs']) > 1:
            for i in range(len(best['procs'])): add(lambda c, i=i: c['procs'].pop(i))
        for i, p in enumerate(best['procs']):
            if len(p['threads']) > 1:
                for j in range(len(p['threads'])): add(lambda c, i=i, j=j: c['procs'][i]['threads'].pop(j))
        for i, p in enumerate(best['procs']):
            for j, t in enumerate(p['threads']):
                for k in reversed(range(len(t))):
                    # what the judge relies on stays: the order of processes, and what makes an expected error
                    if best.get('growth') or t[k]['op'] == 'wait' or any('expect' in op for op in t[k + 1:]): continue
                    if len(t) > 1: add(lambda c, i=i, j=j, k=k: c['procs'][i]['threads'][j].pop(k))
        for d, spec in best['docs'].items():
            if len(spec['pages']) > 1: add(lambda c, d=d: c['docs'][d]['pages'].pop())
            for k in ('share', 'damage'):
                if spec.get(k): add(lambda c, d=d, k=k: c['docs'][d].pop(k))
            for i, pg in enumerate(spec['pages']):
                if pg.get('rot'): add(lambda c, d=d, i=i: c['docs'][d]['pages'][i].pop('rot'))
                if pg['kind'] not in ('tiny', 'text'): add(lambda c, d=d, i=i: c['docs'][d]['pages'][i].update(kind='tiny'))
        used = json.dumps(best['procs'])
        for d in list(best['docs']):
            if json.dumps(d) not in used: add(lambda c, d=d: (c['docs'].pop(d), os.path.dirname(d) and c.setdefault('files', {}).setdefault(os.path.dirname(d), 'DIR')))
        for f, v in list(best.get('files', {}).items()):
            # ... and the directories
            if v != 'DIR': add(lambda c, f=f: (c['files'].pop(f), os.path.dirname(f) and c['files'].setdefault(os.path.dirname(f), 'DIR')))
        sp = best.get('sim', {})
        if sp.get('line'): add(lambda c: c['sim'].update(line=None))
        if sp.get('quota') is not None: add(lambda c: c['sim'].pop('quota'))
        if sp.get('policy', {}).get('kind') not in (None, 'fifo', 'random'): add(lambda c: c['sim'].update(policy={'kind': 'random'}))
        for k, v in (('locale', 'utf-8'), ('enc', 'utf-8')):
            if sp.get(k, v) != v: add(lambda c, k=k, v=v: c['sim'].update({k: v}))
        for i, p in enumerate(best['procs']):
            for j, t in enumerate(p['threads']):
                for k, op in enumerate(t):
                    for x in ('start', 'end', 'pages', 'shared', 'mp', 'cli', 'cpu', 'one'):
                        if x in op and op['op'] != 'ptables' and 'expect' not in op: add(lambda c, i=i, j=j, k=k, x=x: c['procs'][i]['threads'][j][k].pop(x))
                    if op.get('set', 'default') != 'default': add(lambda c, i=i, j=j, k=k: c['procs'][i]['threads'][j][k].update(set='default'))
        return [c for c in out if c]

    while time.monotonic() < end:
        c = attempt(edits())
        if c is None: break
        best = c
    # the schedule: as little disturbance as possible
    res = run_many(check, [best])[0]
    if cls in classes(res) and res['choices'] and any(res['choices']):
        ch = list(res['choices'])
        c = dict(best, choices=ch)
        if cls in classes(run_many(check, [c])[0]):
            best = c
            n = 2
            while time.monotonic() < end:
                ch = best['choices']
                idx = [i for i, x in enumerate(ch) if x]
                if not idx: break
                size = max(1, len(idx) // n)
                cands = [dict(best, choices=[])] if n == 2 else []
                for a in range(0, len(idx), size):
                    z = set(idx[a:a + size])
                    cands.append(dict(best, choices=[0 if i in z else x for i, x in enumerate(ch)]))
                c = attempt(cands)
                if c is not None:
                    best = c
                    n = max(2, n - 1)
                elif size == 1: break
                else: n *= 2
            ch = list(best['choices'])
            while ch and ch[-1] == 0: ch.pop()
            best['choices'] = ch
    return best, tried[0]


# ------------------------------------------------------------------------------------------- reporting
def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)', line.strip())
                if m: out.append(m.groups())
    except FileNotFoundError: pass
    return out


def report(check, b, t0, seed, tier, out=print):
    """evidence and exit code"""
    cov = coverage(check, b, time.monotonic() - t0)
    viols = 0
    code = 0
    shown = set()
    fresh = []
    for key, plan, res in sorted(b.viols, key=lambda v: v[0]):
        hit = None
        for pid, rx, text in known_findings():
            if pid == check.id and all(re.search(rx, v['cls'] + ' ' + v['msg']) for v in res['viol']): hit = text
        if hit is None: fresh.append((plan, res))
        elif hit not in shown:
            shown.add(hit); out('KNOWN-FINDING: property=%s %s' % (check.id, hit))
    if fresh:
        plan, res = fresh[0]
        cls = res['viol'][0]['cls']
        again = run_many(check, [plan, plan])
        sure = [r for r in again if cls in classes(r)]
        if res['digest'] == 'timeout' and len(sure) < len(again): sure = []      # a machine that was busy is no defect
        if not sure and len(fresh) > 1:
            for plan, res in fresh[1:]:
                cls = res['viol'][0]['cls']
                sure = [r for r in run_many(check, [plan]) if cls in classes(r)]
                if sure: break
        if not sure:
            b.errors.append((plan, 'flaky', 'violation not reproduced: %s' % res['viol'][:1]))
        else:
            small, tried = plan, 0
            if cls not in ('crash',) and res['digest'] != 'timeout': small, tried = shrink(check, plan, cls, 60)
            r = run_many(check, [small])[0] if res['digest'] != 'timeout' else sure[0]
            if cls not in classes(r): small, r = plan, sure[0]
            path = write_replay(check, small, r, cls, seed, tier, tried)
            viols = len(fresh)
            code = 1
            for v in r['viol'][:3]: out('  %s: %s' % (v['cls'], v['msg']))
            out('VIOLATION property=%s replay=%s' % (check.id, path))
    ev = {'property': check.id, 'tier': tier, 'seed': int(seed) if str(seed).isdigit() else 0, 'level': 'exploration', 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.monotonic() - t0, 2), 'violations': viols}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if b.errors and not code:
        for p, st, val in b.errors[:2]: out('HARNESS %s: %s\n  plan %s' % (st, str(val)[-1500:], json.dumps(p)[:1500]))
        code = 2
    out('%s %s seed=%s: %d runs, %d distinct, %d non-trivial, faults %s, %.1f s' % (check.id, tier, seed, b.stats['runs'], len(b.digests), len(b.nontrivial),
                                                                                 sum(b.fired.values()), time.monotonic() - t0))
    return code


ASSUMPTIONS = [
    'A simulated process is the same interpreter with its own copy of pdf2docx state; state inside PyMuPDF, python-docx, OpenCV is shared, as these are not under test.',
    'A crash keeps what was handed to the file system before it: loss of power with unsynced data is not simulated.',
    'Expected page contents are pristine single-page conversions by the code under test; the checks decide equality, isolation, atomicity, termination and clean-up, not fidelity to the PDF.',
]


def coverage(check, b, wall):
    runs = b.stats['runs']
    return {
        'evaluations': runs, 'distinct_nontrivial': len(b.nontrivial), 'rule': check.rule, 'samples': b.samples,
        'seeds': b.seeds, 'runs_per_hour': int(runs / max(wall, .01) * 3600), 'seeds_per_hour': int(runs / max(wall, .01) * 3600),
        'seed_note': 'every run has its own scheduler seed, drawn from VERIF_SEED; "seeds" counts exploration rounds',
        'simulated_time_s': round(b.simtime, 1), 'simulated_operations': b.stats['ops'], 'context_switches': b.stats['switches'],
        'preemptible_lines_executed': b.stats['lines'], 'simulated_processes': b.stats['procs'], 'distinct_documents': len(b.docs),
        'faults_injected': {k: v for k, v in sorted(b.fired.items()) if v}, 'runs_with_faults': b.stats['runs_with_faults'],
        'operations_by_kind': dict(sorted(b.kinds.items())), 'api_calls_by_outcome': {k[3:]: v for k, v in sorted(b.stats.items()) if k.startswith('op_')},
        'distinct_interleavings': len(b.digests),
        'distinct_measure': 'SHA-256 over the sequence of seam operations (process, kind, file), context switches and faults of a run',
        'real_components': 'all of pdf2docx, PyMuPDF, python-docx, lxml, OpenCV, json, zipfile, tempfile, shutil',
        'stub_components': 'process pools and processes (simulated on baton-passing threads), scheduler, clock, randomness, pids, CPU count, console; file system calls reach a private scratch directory through the fault seam',
        'stopped_by_time': bool(b.stats.get('stopped_by_time')), **getattr(b, 'more', {})}


def write_replay(check, plan, res, cls, seed, tier, tried):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    data = {'property': check.id, 'class': cls, 'violation': res['viol'][:3], 'plan': plan, 'digest': res['digest'], 'history': res.get('history'),
            'trace': res.get('trace', [])[-400:], 'found_with': {'seed': seed, 'tier': tier}, 'minimiser_runs': tried}
    path = os.path.join(d, '%s-%s.json' % (check.id, hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]))
    with open(path, 'w') as f: json.dump(data, f, indent=1)
    return path


# ------------------------------------------------------------------------------------------- commands
def cmd_check(a):
    from . import checks
    check = checks.ALL[a.id]()
    seed = a.seed if a.seed is not None else os.environ.get('VERIF_SEED', '1')
    tier = 'thorough' if a.thorough else 'quick'
    t0 = time.monotonic()
    b = Batch(check, seed, tier)
    if tier == 'quick':
        explore(check, seed, tier, t0 + QUICK_LIMIT, a.scale, b)
    else:
        limit = t0 + (a.budget or THOROUGH)
        r = 0
        while time.monotonic() < limit and not b.viols and not b.errors:
            # every round has documents, workloads and faults of its own; rounds grow
            explore(check, '%s.%d' % (seed, r), tier, limit, a.scale * min(4, 1 + r), b)
            TABLE.clear()
            r += 1
        b.stats.pop('stopped_by_time', None)
    return report(check, b, t0, seed, tier)


def cmd_replay(a):
    from . import checks
    with open(a.file) as f: data = json.load(f)
    check = checks.ALL[data['property']]()
    r = run_many(check, [data['plan']])[0]
    for line in r.get('trace', [])[-a.lines:]: print('   ', line)
    for line in r.get('history', []): print('  ', line)
    for v in r['viol']: print('  %s: %s' % (v['cls'], v['msg']))
    same = r.get('digest') == data['digest']
    if data['class'] in classes(r):
        print('VIOLATION property=%s replay=%s' % (data['property'], a.file))
        print('reproduced%s' % (', identical trace' if same else ', trace differs from the recorded one (the code has changed)'))
        return 1
    print('not reproduced')
    return 0


def cmd_selftest(a):
    """same seed twice, with another number of parallel children: identical digests"""
    from . import checks
    bad = 0
    for cid, cls in checks.ALL.items():
        check = cls()
        if hasattr(check, 'run_many'): continue
        rng = random.Random('selftest/' + cid)
        docs = check.corpus(rng, 3)
        plans = list(check.bases(rng, docs, 5))
        x = run_many(check, plans)
        y = run_many(check, plans + plans[:1])
        for p, u, v in zip(plans, x, y):
            if u.get('error'): print('HARNESS', cid, u['error'][-800:]); bad += 1
            elif u['digest'] != v['digest'] or u['viol'] != v['viol']: print('NOT DETERMINISTIC', cid, json.dumps(p)[:400]); bad += 1
    print('selftest: %s' % ('ok' if not bad else '%d problems' % bad))
    return 2 if bad else 0


def cmd_setup(a):
    """nothing to build: are the libraries the simulator needs there?"""
    import fitz, docx, lxml, numpy, cv2, fire
    for d in ('evidence', 'replays'): os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    print('python %s, %s' % (sys.version.split()[0], fitz.__doc__.strip().split('\n')[0]))
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    p = sub.add_parser('check'); p.add_argument('id'); p.add_argument('--thorough', action='store_true'); p.add_argument('--seed')
    p.add_argument('--scale', type=float, default=1.0); p.add_argument('--budget', type=float)
    p = sub.add_parser('replay'); p.add_argument('file'); p.add_argument('--lines', type=int, default=60)
    sub.add_parser('selftest')
    sub.add_parser('setup')
    a = ap.parse_args()
    if a.cmd == 'setup': return cmd_setup(a)
    engine.preload()
    return {'check': cmd_check, 'replay': cmd_replay, 'selftest': cmd_selftest}[a.cmd](a)


if __name__ == '__main__': sys.exit(main())
