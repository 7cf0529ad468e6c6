"""Spilling uploads to disk never changes them and bounds memory."""
from lib import *


def gen(rng, tier):
    size = rng.weighted([(4, 60), (4, 600), (3, 5000), (1, 60000)] if tier == 'quick' else
                        [(3, 60), (3, 600), (3, 5000), (2, 60000), (1, 300000)])
    spec = G.gen_request(rng, 'multi', size, {'mix': [(8, 'file'), (2, 'field')], 'parts': rng.weighted([(3, 1), (3, 2), (3, 4), (1, 7)])})
    if rng.chance(.4):
        for p in spec['parts']:
            if rng.chance(.5):
                p['body'] = [['rnd', rng.below(1000), rng.below(size), rng.pick(['txt', 'bin'])]]
        G.fix_boundary(spec)
    b = G.build(spec)
    cfg = {'chunk': G.gen_chunk(rng, b), 'lineup': rng.weighted([(6, 'default'), (2, 'memtmp'), (1, 'temp')])}
    sizes = [len(p['raw']) for p in b.parts if p['k'] == 'file']
    sums = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
    m = rng.weighted([(1, 0), (3, rng.pick(sums)), (3, rng.below(sums[-1] + 2)), (2, sums[-1]), (1, rng.pick(sizes or [0])), (1, len(b.body))])
    cfg['fmax'] = max(0, m + rng.weighted([(4, 0), (2, -1), (2, 1), (1, rng.between(-5, 5))]))
    return {'spec': spec, 'stream': G.gen_cuts(rng, b), 'cfg': cfg, 'disk': {'bufsize': rng.pick([8192, 1, 100, 1000]), 'nt': rng.chance(.1)}}


def tiers(b, cfg):
    """name -> [on disk?] as promised."""
    out = {}
    total = 0
    line, fmax = cfg.get('lineup') or 'default', cfg.get('fmax', 31457280)
    for p in b.parts:
        if p['k'] != 'file':
            continue
        total += len(p['raw'])
        if line == 'temp':
            t = True
        elif line == 'default':
            t = total > fmax
        else:
            t = len(b.body) > fmax
        out.setdefault(p['name'], []).append(t)
    return out


class Watch(object):
    """At each pull: how much file data is neither on disk nor still to come."""

    def __init__(self, b, st, sim, cfg):
        self.b, self.st, self.sim = b, st, sim
        self.limit = cfg.get('fmax', 31457280)
        cuts = [c for c in st.cuts if c > 0]
        piece = len(b.data) if st.lines or not cuts or -1 in st.cuts or 0 == st.cuts[-1] else max(cuts)
        self.slack = 4 * cfg.get('chunk', 65536) + 2 * piece + 8192 + 2 * sim.disk.bufsize
        self.worst = 0
        inner = st.next

        def next():
            self.check()
            return inner()
        st.next = next

    def check(self):
        pos = self.st.pos - self.b.head_len
        have = 0
        for p in self.b.parts:
            if p['k'] == 'file' and pos > p['content']:
                got = min(pos, p['end']) - p['content']
                have += min(len(p['raw']), got * len(p['raw']) // max(1, len(p['wire'])))
        held = have - self.sim.disk.bytes_written
        self.worst = max(self.worst, held)
        if held > self.limit + self.slack:
            fail('memory', 'after %d of %d body bytes about %d bytes of file data are held in memory, the maximum is %d (working space %d)',
                 pos, len(self.b.body), held, self.limit, self.slack)


def run(plan):
    spec, cfg = plan['spec'], plan['cfg']
    if spec['kind'] != 'multi' or cfg.get('lineup') == 'mem':
        raise Invalid('kind')
    b = G.build(spec)
    with Sim(plan.get('disk')) as sim:
        s = make_settings(sim, cfg_of(spec, cfg))
        w0 = sim.disk.bytes_written
        sim.disk.bytes_written = 0
        r, st = new_request(sim, b, plan['stream'], s)
        if cfg.get('lineup') in ('default', 'temp', None):
            c = dict(cfg)
            if cfg.get('lineup') == 'temp':
                c['fmax'] = 0
            Watch(b, st, sim, c)
        _, e = attempt(sim, r.parse)
        if e is not None:
            fail('form refused', 'parse() raised %s', exc_name(e))
        got = dict((plain(k), [is_disk(f) for f in v]) for k, v in r.FILES.lists())
        files, e = attempt(sim, snap_files, r.FILES)
        if e is not None:
            fail('file unreadable', 'reading the files raised %s', exc_name(e))
        must('files differ', files, want_files(b), 'FILES')
        must('fields differ', snap_post(r.POST), b.post, 'POST')
        if cfg.get('lineup') in ('default', None):
            held = sum(len(f['data']) for k, v in files.items() for i, f in enumerate(v) if not got[k][i])
            if held > cfg.get('fmax', 31457280):
                fail('memory', '%d bytes of files are kept in memory, the maximum is %d', held, cfg.get('fmax'))
        must('tier', got, tiers(b, cfg), 'on disk')
        for v in got.values():
            for t in v:
                sim.probe('file on disk' if t else 'file in memory')
        if True in sum(got.values(), []) and False in sum(got.values(), []):
            sim.probe('spilled within one request')
        digest(sim, files, got)
        # every way of reading gives the same
        for k, v in r.FILES.lists():
            for i, f in enumerate(v):
                data, e = attempt(sim, lambda: ''.join(f.chunks(plan.get('rd') or 7000)))
                if e is not None:
                    fail('file unreadable', 'chunks() raised %s', exc_name(e))
                must('files differ', data, b.files[plain(k)][i]['data'], 'chunks of %r' % k)
        close_quietly(sim, r)
        return bool(got)
