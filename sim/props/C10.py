"""A request object given a new stream behaves like a fresh one."""
from lib import *
from props.C07 import place


def small(rng, kind=None):
    return G.gen_request(rng, kind or rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (4, 'multi')]), rng.pick([20, 100, 800]),
                         {'parts': rng.between(1, 3), 'default': ''})


def episode(rng, bad, kind=None):
    """A stream and what is done with it."""
    spec = small(rng, kind)
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    if bad:
        k = rng.below(3)
        at = place(rng, b, max(0, len(b.data) - 1))
        if k == 0:
            st['fault'] = {'at': at, 'err': rng.pick(sorted(core.ERRORS)), 'after': rng.pick(['eof', 'raise', 'resume'])}
        elif k == 1:
            st['end'] = at
        else:
            spec['junk'] = at
    ops = []
    for _ in range(rng.weighted([(1, 0), (4, 1), (3, 2), (2, 4)])):
        ops.append(rng.weighted([(5, ['parse']), (3, ['header']), (3, ['body']), (3, ['getbody']), (2, ['read', rng.below(30)]),
                                 (1, ['readall']), (1, ['readline']), (2, ['enc', rng.pick(['utf-8', 'iso-8859-1', 'us-ascii', 'windows-1252'])]),
                                 (1, ['close']), (2, ['bodystream', rng.pick(['', 'a=b&c=%C3%A9', '--B\r\n\r\n--B--', 'plain'])]),
                                 (1, ['set', rng.pick(['path', 'scheme'])])]))
    return {'spec': spec, 'stream': st, 'ops': ops}


def same_query(spec, other):
    """The same query and form, byte by byte, in a request of another charset perhaps."""
    old = dict(spec['head']), spec.get('pairs'), spec.get('bseps')
    try:
        was, now = G.build(other).charset, G.build(spec).charset

        def anew(pairs):
            return [[G.u8(k.decode('utf-8').encode(was).decode(now)), G.u8(v.decode('utf-8').encode(was).decode(now)), style, eq]
                    for k, v, style, eq in pairs]
        spec['head']['query'], spec['head']['seps'] = anew(other['head']['query']), other['head']['seps']
        if spec['kind'] == 'form' == other['kind']:
            spec['pairs'], spec['bseps'] = anew(other['pairs']), other.get('bseps')
        G.build(spec)
    except (UnicodeError, Invalid):
        spec['head'] = old[0]
        if spec['kind'] == 'form':
            spec['pairs'], spec['bseps'] = old[1:]


def gen(rng, tier):
    # uploads that come close to the memory limit
    tight = rng.chance(.2)
    kind = 'multi' if tight else None
    eps = [episode(rng, rng.chance(.4), kind) for _ in range(rng.weighted([(5, 1), (4, 2), (2, 4)]))]
    last = {'spec': small(rng, kind), 'ops': [rng.weighted([(6, ['parse']), (2, ['two']), (1, ['header'])])]}
    if rng.chance(.25):
        same_query(last['spec'], rng.pick(eps)['spec'])
    b = G.build(last['spec'])
    last['stream'] = G.gen_cuts(rng, b)
    if rng.chance(.25):
        k = rng.below(2)
        at = place(rng, b, max(0, len(b.data) - 1))
        if k:
            last['stream']['end'] = at
        else:
            last['stream']['fault'] = {'at': at, 'err': rng.pick(core.IO_ERRORS), 'after': 'raise'}
    cfg = {'lineup': rng.weighted([(4, 'default'), (1, 'temp'), (1, 'memtmp')]), 'mhs': rng.pick([16, 16, 100]), 'chunk': rng.pick([65536, 65536, 50, 7])}
    cfg['fmax'] = rng.pick([31457280, 0, 30, 200])
    if tight:
        cfg['lineup'], cfg['chunk'] = 'default', rng.pick([50, 7, 20])
        cfg['fmax'] = sum(len(p['raw']) for p in b.parts if p['k'] == 'file') + rng.pick([0, 0, 5, 40])
        if eps[-1]['ops'] == []:
            eps[-1]['ops'] = [['parse']]
    cfg['charset'] = rng.weighted([(3, None), (2, 'utf-8')])
    if rng.chance(.2):
        cfg['nmax'] = rng.pick([1, 2, 4])
    if rng.chance(.2):
        cfg['dmax'] = rng.pick([0, 20, 100, 500])
    plan = {'eps': eps, 'last': last, 'cfg': cfg, 'body': None, 'empty': rng.chance(.1)}
    if rng.chance(.35):
        # a new body alone, under the header that was parsed
        plan['body'] = {'text': rng.pick(['', 'a=b', 'k=%C3%A9&k=2', 'caf\xe9', 'other body'])}
        if last['spec']['kind'] == 'multi':
            m = dict(last['spec'])
            m['parts'] = [G.gen_part(rng, 60, {}) for _ in range(rng.below(3))]
            try:
                if not G.delimiter_inside(m):
                    plan['body'] = {'multi': m['parts']}
                    G.build(m)
            except Invalid:
                plan['body'] = {'text': 'other body'}
        plan['prior'] = rng.pick(['parse', 'header', 'parse', 'getbody'])
        plan['fail'] = rng.below(200) if rng.chance(.3) else None
    return plan


def data_of(ep):
    spec = ep['spec']
    b = G.build(spec)
    if spec.get('junk') is not None:
        b.data = b.data[:spec['junk']] + rng_junk(spec['junk']) + b.data[spec['junk']:]
    return b


def rng_junk(n):
    return ['\r\n', ' ', '\xff', '\0', '--', '"', '%', '\r\n\r\n'][n % 8]


def apply(sim, r, ops, keep):
    for op in ops:
        k = op[0]
        if k in ('parse', 'two'):
            if k == 'parse':
                _, e = attempt(sim, r.parse)
            else:
                _, e = attempt(sim, r.parse_request_header)
                if e is None:
                    _, e = attempt(sim, r.parse_request_body)
        elif k == 'header':
            _, e = attempt(sim, r.parse_request_header)
        elif k == 'body':
            _, e = attempt(sim, r.parse_request_body)
        elif k == 'getbody':
            _, e = attempt(sim, r.body)
        elif k == 'read':
            _, e = attempt(sim, r.read, op[1])
        elif k == 'readall':
            _, e = attempt(sim, r.read)
        elif k == 'readline':
            _, e = attempt(sim, r.readline)
        elif k == 'enc':
            _, e = attempt(sim, setattr, r, 'encoding', op[1])
        elif k == 'close':
            _, e = attempt(sim, r.close)
        elif k == 'bodystream':
            obj, st = make_stream(op[1], {'name': 'b'}, sim)
            _, e = attempt(sim, setattr, r, 'body_stream', obj)
        elif k == 'set':
            _, e = attempt(sim, r.set_path, u'/set/by/application') if op[1] == 'path' else attempt(sim, r.set_scheme, 'ftp')
        else:
            raise Invalid('op')
        keep.append(k + ('!' if e is not None else ''))
    return e if ops else None


class Kept(object):
    """Results handed out earlier, with what they held then."""
    NAMES = ('POST', 'FILES', 'GET', 'META')

    def __init__(self, sim):
        self.sim = sim
        self.all = []

    def take(self, r, when):
        for n in self.NAMES:
            o, e = attempt(self.sim, getattr, r, n)
            if e is None and o is not None and not any(o is x[1] for x in self.all):
                self.all.append((n, o, self.state(o), when))

    @staticmethod
    def state(o):
        if hasattr(o, 'lists'):
            # the files themselves may have been closed
            return [[plain(k), [x.name if hasattr(x, 'multiple_chunks') else plain(x) for x in v]] for k, v in sorted(o.lists())]
        return sorted((plain(k), plain(v)) for k, v in o.items())

    def check(self, after):
        for n, o, was, when in self.all:
            now = self.state(o)
            if now != was:
                fail('result changed', '%s of %s held %s, after %s it holds %s', n, when, short(was), after, short(now))


def look(sim, r, exc, spec):
    o = outcome(sim, r, exc)
    o['tiers'] = plain(o['tiers'])
    if spec['kind'] != 'multi':
        t, e = attempt(sim, r.body)
        o['body'] = plain(t) if e is None else err_kind(e)
    else:
        t, e = attempt(sim, r.body)
        o['body'] = plain(t) if e is None else err_kind(e)
        if e is not None and o['exc'] is not None:
            o['body'] = None        # what is left of a failed body is not specified
        elif o['exc'] is not None:
            o['body'] = None
    return o


def settings_state(s):
    return dict((k, repr(v)) for k, v in vars(s).items())


def fresh_look(sim, plan, cfg, ops, body=None):
    s = make_settings(sim, cfg)
    b = data_of(plan['last'])
    obj, st = make_stream(b.data if body is None else b.data[:b.head_len] + body, plan['last']['stream'] if body is None else {}, sim)
    r = RQ.HttpRequest(obj, s)
    e = apply(sim, r, ops, [])
    o = look(sim, r, e, plan['last']['spec'])
    attempt(sim, r.close)
    return o


def run(plan):
    cfg = plan['cfg']
    if cfg.get('lineup') == 'mem' or cfg.get('nmax') == 0:
        raise Invalid('cfg')
    last = plan['last']
    hist = []
    with Sim() as sim:
        want = fresh_look(sim, plan, cfg, last['ops'])
        wantb = None
        if plan.get('body'):
            lb = data_of(last)
            if 'multi' in plan['body']:
                if last['spec']['kind'] != 'multi':
                    raise Invalid('body')
                m = dict(last['spec'])
                m['parts'] = plan['body']['multi']
                nb = G.build(m).body
            else:
                nb = plan['body']['text']
    with Sim() as sim:
        s = make_settings(sim, cfg)
        before = settings_state(s)
        kept = Kept(sim)
        if plan.get('empty'):
            r = RQ.HttpRequest(settings=s)
        else:
            r = None
        for n, ep in enumerate(plan['eps']):
            b = data_of(ep)
            obj, st = make_stream(b.data, ep['stream'], sim)
            if r is None:
                r = RQ.HttpRequest(obj, s)
            else:
                r.stream = obj
            hist.append('stream')
            apply(sim, r, ep['ops'], hist)
            kept.take(r, 'request %d' % n)
        if r is None:
            raise Invalid('no history')
        attempt(sim, r.close)
        must('settings changed', settings_state(s), before, 'settings after %s' % ' '.join(hist))
        kept.check(' '.join(hist))
        b = data_of(last)
        obj, st = make_stream(b.data, last['stream'], sim)
        _, e = attempt(sim, setattr, r, 'stream', obj)
        if e is not None:
            fail('stream refused', 'after %s setting a stream raised %s', ' '.join(hist), exc_name(e))
        # nothing shows through before the parse
        o = outcome(sim, r, None)
        h = o['head']
        if o['post'] or o['files'] or not isinstance(h, dict) or h['GET'] or h['headers'] or h['method'] or h['host'] or h['path']:
            fail('earlier request shows', 'after %s and a new stream: %s', ' '.join(hist), short(o, 300))
        e = apply(sim, r, last['ops'], [])
        if st.fired:
            sim.probe('fault in the last stream')
        got = look(sim, r, e, last['spec'])
        kept.check('the last request')
        must('differs from fresh', got, want, 'after %s: ' % ' '.join(hist))
        attempt(sim, r.close)
        must('settings changed', settings_state(s), before, 'settings after %s and the last' % ' '.join(hist))
        digest(sim, got)
    if plan.get('body') and want['exc'] is None and not data_of(last).data == '' and isinstance(want['head'], dict):
        st = last['stream']
        if st.get('end') is not None or st.get('fault'):
            return True
        with Sim() as sim:
            wantb = fresh_look(sim, plan, cfg, [['two']], nb)
        with Sim() as sim:
            s = make_settings(sim, cfg)
            before = settings_state(s)
            b = data_of(last)
            obj, st = make_stream(b.data, last['stream'], sim)
            r = RQ.HttpRequest(obj, s)
            prior = [['header']] if plan.get('prior') == 'header' else [['parse']] if plan.get('prior') != 'getbody' else [['header'], ['getbody']]
            e = apply(sim, r, prior, hist)
            if e is not None:
                return True
            if plan.get('fail') is not None:
                # a body that fails in between
                obj, st2 = make_stream(nb, {'fault': {'at': min(plan['fail'], len(nb)), 'err': 'EIO', 'after': 'raise'}, 'name': 'f'}, sim)
                r.body_stream = obj
                attempt(sim, r.parse_request_body)
            attempt(sim, r.close)
            obj, st2 = make_stream(nb, {'name': 'n'}, sim)
            r.body_stream = obj
            if plain(r.POST) or plain(r.FILES):
                fail('earlier request shows', 'after a new body stream: POST %s FILES %s', short(plain(r.POST)), short(plain(r.FILES)))
            _, e = attempt(sim, r.parse_request_body)
            got = look(sim, r, e, last['spec'])
            must('body differs from fresh', got, wantb, 'new body after %s: ' % plan.get('prior'))
            must('settings changed', settings_state(s), before, 'settings after a new body')
            attempt(sim, r.close)
            sim.probe('new body alone')
            digest(sim, got)
    return True
