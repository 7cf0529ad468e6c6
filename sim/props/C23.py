"""Header names are matched without regard to case."""
from lib import *
from props.C07 import place
import props.C10 as C10


def gen(rng, tier):
    spec = G.gen_request(rng, rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (5, 'multi')]), rng.pick([30, 300, 2000]))
    spec['head']['ncase'] = 0
    for p in spec.get('parts') or []:
        p['hcase'] = 0
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    if rng.chance(.2):
        st['end'] = place(rng, b, len(b.data))
    elif rng.chance(.15):
        st['fault'] = {'at': place(rng, b, len(b.data)), 'err': rng.pick(core.IO_ERRORS), 'after': 'raise'}
    cfg = {'lineup': rng.weighted([(3, 'default'), (1, 'temp'), (2, 'memtmp')]), 'mhs': rng.pick([16, 16, 1, 50, 4096]), 'chunk': G.gen_chunk(rng, b)}
    cfg['fmax'] = rng.weighted([(2, 31457280), (1, 0), (3, rng.below(len(b.body) + 2))])
    if rng.chance(.2):
        cfg['dmax'] = rng.below(len(b.body) + 2)
    return {'spec': spec, 'stream': st, 'cfg': cfg, 'head': rng.between(1, 4), 'part': [rng.below(3) for _ in spec.get('parts') or []]}


def lower(d):
    return dict((k.lower(), v) for k, v in d.items()) if isinstance(d, dict) else d


def one(spec, plan):
    b = G.build(spec)
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        _, e = attempt(sim, r.parse)
        o = C10.look(sim, r, e, spec)
        if isinstance(o['head'], dict):
            o['head']['headers'] = lower(o['head'].get('headers'))
        attempt(sim, r.close)
        digest(sim, o)
        if e is not None:
            sim.probe('refused: ' + err_kind(e))
        return o


def run(plan):
    spec = plan['spec']
    if plan['cfg'].get('lineup') == 'mem' or spec['head'].get('ncase'):
        raise Invalid('cfg')
    names = [n for n, v, sp in spec['head']['headers']]
    if len(set(n.lower() for n in names)) != len(set(names)):
        # two spellings of one name are two entries
        keep = set()
        for h in spec['head']['headers']:
            if h[0].lower() in keep:
                h[0] = 'Y' + h[0]
            keep.add(h[0].lower())
    want = one(spec, plan)
    other = dict(spec, head=dict(spec['head'], ncase=plan['head']))
    if 'parts' in spec:
        other['parts'] = [dict(p, hcase=c) for p, c in zip(spec['parts'], plan.get('part') or [0] * 99)]
        if len(other['parts']) != len(spec['parts']):
            raise Invalid('parts')
    got = one(other, plan)
    must('case matters', got, want, 'with header names in another case: ')
    return True
