"""Reading ahead is bounded, and data is passed on while the input arrives."""
from lib import *
from props.C04 import line_end
import handlers as HD

PEEKS = ('POST', 'FILES', 'GET', 'META', 'encoding', 'content_type', 'upload_handlers')


def gen(rng, tier):
    mode = rng.weighted([(5, 'file'), (6, 'multi')])
    if mode == 'file':
        spec = G.gen_request(rng, rng.weighted([(6, 'none'), (1, 'multi'), (1, 'text'), (1, 'form')]), rng.pick([50, 500, 5000]))
        if spec['kind'] == 'none':
            spec['body'] = G.gen_content(rng, rng.pick([30, 300, 3000]))
            for _ in range(rng.below(6)):
                spec['body'].append(rng.pick([['lit', '\n'], ['lit', 'line\n'], ['rep', 'ab\n', rng.below(40)], ['lit', '\r\n'], ['rep', 'z', rng.below(300)]]))
        b = G.build(spec)
        ops = []
        for _ in range(rng.between(1, 12)):
            ops.append(rng.weighted([(5, ['read', rng.weighted([(1, 0), (3, rng.below(6)), (3, rng.below(60)), (2, rng.below(len(b.body) + 1))])]),
                                     (3, ['readline', None]), (2, ['readline', rng.below(50)]), (2, ['iter', 1 + rng.below(3)]), (1, ['peek', rng.pick(PEEKS)])]))
        return {'mode': mode, 'spec': spec, 'stream': G.gen_cuts(rng, b), 'cfg': {'mhs': rng.pick([16, 1, 5, 64, 100, 1024])}, 'ops': ops}
    spec = G.gen_request(rng, 'multi', rng.pick([3000, 12000, 40000] if tier == 'quick' else [3000, 12000, 40000, 400000]),
                         {'mix': [(6, 'file'), (1, 'field')], 'parts': rng.between(1, 4)})
    for p in spec['parts']:
        if p['k'] == 'file' and rng.chance(.7):
            p['te'] = None
            if rng.chance(.7):
                p['body'] = G.gen_content(rng, rng.pick([5000, 20000]))
                if rng.chance(.5):
                    p['body'].append(['rep', rng.pick(['x', 'no line', '\n', '\r\n', '-', '\r']), rng.between(200, 4000)])
    G.fix_boundary(spec)
    b = G.build(spec)
    st = rng.weighted([(2, {'cuts': [rng.pick([7, 64, 100, 500, 1000, 4096])]}), (1, G.gen_cuts(rng, b))])
    if st.get('cuts') and st['cuts'][-1] > 0 and len(b.data) // st['cuts'][-1] > 4000:
        st['cuts'][-1] = 1 + len(b.data) // 4000
    chunk = G.gen_chunk(rng, b) if rng.chance(.3) else rng.pick([50, 100, 300, 1000, 4096])
    behave = [{'chunk': chunk, 'how': rng.weighted([(3, 'pass'), (1, 'absorb')])}]
    if rng.chance(.3):
        # the smallest of the handlers' sizes counts
        behave.append({'chunk': chunk * rng.pick([1, 3, 100])})
        if rng.chance(.5):
            behave.reverse()
    return {'mode': mode, 'spec': spec, 'stream': st, 'cfg': {'mhs': 16, 'chunk': 65536}, 'behave': behave, 'stock': rng.chance(.4)}


def run(plan):
    spec = plan['spec']
    b = G.build(spec)
    st = plan['stream'] or {}
    if st.get('fault') or st.get('end') is not None:
        raise Invalid('fault')
    if plan['mode'] == 'file':
        return as_file(plan, b)
    if spec['kind'] != 'multi':
        raise Invalid('kind')
    return upload(plan, b)


def as_file(plan, b):
    with Sim() as sim:
        s = make_settings(sim, cfg_of(plan['spec'], plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        total = len(b.data)

        def justified(what, need):
            """The last piece that was asked for had to be."""
            if need <= total and st.asked >= need:
                fail('read too far', '%s: a piece was asked for although %d bytes were there and %d are needed', what, st.asked, need)
            st.asked = -1

        def peek(name):
            n = st.pulls
            attempt(sim, getattr, r, name)
            if st.pulls != n:
                fail('read too far', 'looking at %s read the input', name)
        for n in ('META', 'encoding'):
            peek(n)
        if st.pulls:
            fail('read too far', 'the input was read before anything was parsed')
        _, e = attempt(sim, r.parse_request_header)
        if e is not None:
            fail('header refused', 'parse_request_header() raised %s', exc_name(e))
        mhs = max(1, plan['cfg'].get('mhs') or 16)
        justified('parsing the header by %d' % mhs, b.head_len + mhs)
        pos = 0
        d = b.body
        seen = 0
        for k, x in plan['ops']:
            if k == 'peek':
                if x not in PEEKS:
                    raise Invalid('peek')
                peek(x)
                continue
            if k == 'read':
                if x is None or x < 0:
                    raise Invalid('size')
                what, new = 'read(%d)' % x, min(len(d), pos + x)
                got, e = attempt(sim, r.read, x)
                need = b.head_len + pos + x
            elif k == 'readline':
                what, new = 'readline(%s)' % x, line_end(d, pos, x)
                got, e = attempt(sim, r.readline, *([] if x is None else [x]))
                need = b.head_len + new
                if (x is None or new - pos < x) and d[pos:new][-1:] != '\n':
                    need = total + 1
            elif k == 'iter':
                what, new = 'next(iter())', line_end(d, pos)
                got, e = attempt(sim, next, iter(r), '')
                need = b.head_len + new if d[pos:new][-1:] == '\n' else total + 1
            else:
                raise Invalid('op')
            if e is not None:
                fail('refused', '%s at %d raised %s', what, pos, exc_name(e))
            if got != d[pos:new]:
                must('content', got, d[pos:new], '%s at %d' % (what, pos))
            justified('%s at %d' % (what, pos), need)
            if need <= total:
                seen += 1
            pos = new
        digest(sim, pos, st.pulls)
        if seen:
            sim.probe('reads that need not wait for the end')
        return bool(plan['ops']) and st.pulls > 1


class Watch(object):
    """At each pull of the stream: what has arrived has been passed on, but for the working space."""

    def __init__(self, b, st, slack):
        self.b, self.st, self.slack = b, st, slack
        self.parts = [p for p in b.parts if p['k'] == 'file']
        self.seen = 0
        st.on_pull = self.check

    def check(self, st):
        pos = st.handed - self.b.head_len
        for i, p in enumerate(self.parts):
            due = min(pos, p['end']) - self.slack - p['content'] if pos < p['end'] + self.slack else len(p['raw'])
            if due > 0 and p['wire'] != p['raw']:
                # base64: whole groups of what has come
                due = min(len(''.join(p['wire'][:due].split())) // 4 * 3 - 3, len(p['raw']))
            if due <= 0:
                continue
            got = HD.S.got.get(i, 0)
            self.seen += 1
            if got < due:
                fail('held back', 'after %d of %d body bytes the handler has %d bytes of file %d, whose content arrived from %d on (working space %d)',
                     pos, len(self.b.body), got, i, p['content'], self.slack)


def upload(plan, b):
    spec = plan['spec']
    n = len(plan['behave'])
    if not 1 <= n <= 3:
        raise Invalid('handlers')
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        HD.reset(sim, [], plan['behave'])
        line = ['handlers.H%d' % i for i in range(n)]
        if plan.get('stock'):
            line.append('request_parser.files.uploadhandler.TemporaryFileUploadHandler')
        s.FILE_UPLOAD_HANDLERS = line
        r, st = new_request(sim, b, plan['stream'], s)
        _, e = attempt(sim, r.parse_request_header)
        if e is not None:
            fail('header refused', 'parse_request_header() raised %s', exc_name(e))
        chunk = max(1, min(x.get('chunk') or 65536 for x in plan['behave']))
        w = Watch(b, st, 1500 + 3 * chunk + 4 * len(spec['boundary']))
        _, e = attempt(sim, r.parse_request_body)
        st.on_pull = None
        if e is not None:
            fail('refused', 'parse_request_body() raised %s', exc_name(e))
        files = [p for p in b.parts if p['k'] == 'file']
        for i, p in enumerate(files):
            if HD.S.got.get(i, 0) != len(p['raw']):
                fail('content', 'the handler was given %d bytes of file %d, wanted %d', HD.S.got.get(i, 0), i, len(p['raw']))
        if w.seen:
            sim.probe('data was due while more was to come')
        attempt(sim, r.close)
        digest(sim, sorted(HD.S.got.items()), st.pulls)
        return w.seen > 0
