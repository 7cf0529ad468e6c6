"""Multipart forms parse exactly however the bytes are delivered."""
from lib import *

LINE = [(3, 'default'), (2, 'temp'), (1, 'mem'), (2, 'memtmp')]


def gen(rng, tier):
    size = rng.weighted([(4, 60), (4, 400), (3, 3000), (1, 30000)] if tier == 'quick' else
                        [(3, 60), (3, 400), (3, 3000), (2, 30000), (1, 150000)])
    spec = G.gen_request(rng, 'multi', size)
    b = G.build(spec)
    cfg = {'chunk': G.gen_chunk(rng, b), 'lineup': rng.weighted(LINE), 'mhs': rng.pick([16, 16, 1, 100, 4096])}
    cfg['fmax'] = rng.weighted([(4, 31457280), (2, rng.below(size + 1)), (1, 0)])
    if cfg['lineup'] == 'mem' and cfg['fmax'] < len(b.body):
        cfg['fmax'] = len(b.body)
    st = G.gen_cuts(rng, b)
    st['form'] = rng.weighted([(3, 'iter'), (1, 'gen')])
    return {'spec': spec, 'stream': st, 'cfg': cfg, 'two': rng.weighted([(7, False), (3, True), (1, 'body' if len(b.body) < 4000000 else True)]), 'disk': {'bufsize': rng.pick([8192, 8192, 1, 64])}}


def run(plan):
    spec = plan['spec']
    if spec['kind'] != 'multi':
        raise Invalid('kind')
    b = G.build(spec)
    with Sim(plan.get('disk')) as sim:
        if plan['cfg'].get('lineup') == 'mem' and plan['cfg'].get('fmax', 31457280) < len(b.body):
            raise Invalid('memory only')
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        if plan.get('two'):
            _, e = attempt(sim, r.parse_request_header)
            if e is None and plan['two'] == 'body':
                # looking at the body first
                if len(b.body) >= 5 * 1024 * 1024:
                    raise Invalid('too big for body()')
                t, e = attempt(sim, r.body)
                if e is not None:
                    fail('body unreadable', 'body() raised %s', exc_name(e))
                must('body differs', t, b.body, 'body()')
                sim.probe('body() first')
            if e is None:
                _, e = attempt(sim, r.parse_request_body)
        else:
            _, e = attempt(sim, r.parse)
        if e is not None:
            fail('form refused', 'parse() raised %s', exc_name(e))
        post = snap_post(r.POST)
        must('fields differ', post, b.post, 'POST')
        files, e = attempt(sim, snap_files, r.FILES)
        if e is not None:
            fail('file unreadable', 'reading the files raised %s', exc_name(e))
        must('files differ', files, want_files(b), 'FILES')
        digest(sim, post, files)
        for f in files_of(r):
            sim.probe('file on disk' if is_disk(f) else 'file in memory')
        close_quietly(sim, r)
        return len(b.parts) > 0
