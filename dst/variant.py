"""One simulated environment of C11: a fresh interpreter with its own string hash seed and allocator.

Reads {"plans": [...], "variant": {...}} from a file, runs every plan in a fork, and writes
what each operation delivered."""
import hashlib
import json
import os
import sys


def run(plan, scratch, variant):
    from . import canon, world, sim as S
    p = dict(plan, variant=variant)
    # the same document elsewhere, under another name, of another age, on another machine
    if variant.get('pdf'): p = json.loads(json.dumps(p).replace('"a.pdf"', json.dumps(variant['pdf'])))
    if variant.get('cpus'): p['sim'] = dict(p['sim'], cpus=variant['cpus'], policy=variant['policy'])
    if variant.get('salt'): p['seed'] = variant['salt']
    if variant.get('dir'):
        scratch = os.path.join(scratch, variant['dir'])
        os.makedirs(scratch)
    w = world.World(p, scratch)
    w.setup()
    w.run()
    out = []
    for o in w.history:
        r = [o.op['op'], o.status, o.detail if o.status != 'ok' else '']
        if o.docx is not None:
            if o.docx[0] == 'ok':
                parts = canon.read(w.path(w.out_of(o.op, o.proc)))
                parts.pop('docProps/core.xml', None)
                frs = [hashlib.sha256(f.encode()).hexdigest()[:12] for f in o.docx[1]]
                r.append({'sections': frs, 'parts': {n: hashlib.sha256(b).hexdigest()[:12] for n, b in sorted(parts.items())}})
            else: r.append(o.docx[:2])
        if o.value is not None: r.append(hashlib.sha256(json.dumps(o.value).encode()).hexdigest()[:12])
        out.append(r)
    return {'res': out, 'ops': w.sim.opseq, 'switches': w.sim.switches, 'simtime': w.sim.mono, 'aborted': w.sim.aborted, 'digest': w.sim.digest.hexdigest()}


def main():
    from . import engine
    engine.preload()
    with open(sys.argv[1]) as f: job = json.load(f)
    pool = engine.Pool(lambda p, d: run(p, d, job['variant']), int(os.environ.get('DST_VJOBS', '1')))
    out = {}
    try:
        for k, st, val in pool.run(enumerate(job['plans'])): out[k] = [st, val]
    finally: pool.close()
    with open(sys.argv[2], 'w') as f: json.dump(out, f)


if __name__ == '__main__': main()
