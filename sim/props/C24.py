"""A charset set by the application decodes what is parsed after, for this request only."""
from lib import *

CS = ['utf-8', 'iso-8859-1', 'windows-1252', 'us-ascii', 'iso-8859-15', 'UTF-8', 'Latin-1', 'koi8-r', 'cp437']
SAFE = ['utf-8', 'iso-8859-1', 'windows-1252', 'us-ascii', 'iso-8859-15']


def gen(rng, tier):
    cs = rng.pick(CS[:7])
    kind = rng.weighted([(2, 'none'), (4, 'text'), (5, 'form'), (4, 'multi')])
    size = rng.weighted([(6, 100), (2, 2000), (1, 70000 if kind == 'text' else 3000)])
    spec = G.gen_request(rng, kind, size, {'parts': rng.between(1, 3), 'plainfn': True} if kind == 'multi' else {'default': cs, 'charset': None})
    spec['charset'] = None
    spec['default_charset'] = cs
    head = spec['head']
    head['query'] = G.gen_pairs(rng, cs, rng.weighted([(1, 0), (3, 2), (1, 6)]))
    if kind == 'form':
        spec['pairs'] = G.gen_pairs(rng, cs, rng.between(1, 8))
    elif kind == 'text':
        t = u''.join(rng.pick(G.TEXTS) for _ in range(rng.between(1, 8)))
        try:
            t.encode(cs)
        except UnicodeError:
            t = t.encode('ascii', 'replace').decode('ascii')
        spec['text'] = G.u8(t)
        spec['times'] = rng.weighted([(3, 1), (1, rng.below(40)), (1, 1 + size // (len(t) + 1))])
    elif kind == 'multi':
        for p in spec['parts']:
            p['star'] = False
    # what the request itself says
    said = rng.weighted([(2, None), (3, rng.pick(SAFE))])
    spec['more'] = 'charset=%s' % said if said and kind in ('text', 'form', 'multi') and spec.get('ctype', 1) is not None else ''
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    st['form'] = rng.weighted([(3, 'iter'), (1, 'gen')])
    # what is set, in the end the right one
    sets = [[rng.pick(['before', 'between', 'between']), rng.pick(CS + [None])] for _ in range(rng.weighted([(4, 0), (2, 1), (1, 3)]))]
    last = rng.weighted([(6, 'between'), (2, 'before' if not spec['more'] else 'between'), (1, 'after')])
    default = rng.pick(SAFE)
    sets = [x for x in sets if x[0] == 'before'] + [x for x in sets if x[0] != 'before']
    if last == 'before':
        sets = [x for x in sets if x[0] == 'before']
    sets.append([last, cs])
    if last == 'between' and rng.chance(.12):
        # taken back: the charset of the settings holds
        sets[-1] = ['between', None]
        default = cs
    prior = None
    if rng.chance(.3):
        # an earlier request with the same settings, in another charset
        ps = G.gen_request(rng, rng.pick(['multi', 'multi', 'form', 'text']), 200, {'parts': rng.between(1, 3), 'plainfn': True})
        pb = G.build(ps)
        prior = {'spec': ps, 'charset': rng.pick(SAFE), 'stream': {}}
        at = pb.head_len + rng.below(len(pb.body) + 1)
        how = rng.below(4)
        if how == 0:
            prior['stream'] = {'end': at}
        elif how < 3:
            prior['stream'] = {'fault': {'at': at, 'err': rng.pick(core.IO_ERRORS), 'after': 'raise'}}
    return {'spec': spec, 'stream': st, 'sets': sets, 'default': default, 'prior': prior,
            'cfg': {'mhs': rng.pick([16, 16, 1, 100]), 'chunk': rng.pick([65536, 100]), 'fmax': rng.pick([31457280, 0])},
            'peek': rng.chance(.2), 'second': rng.chance(.3)}


def run(plan):
    spec, sets = plan['spec'], plan['sets']
    if not sets or spec.get('charset'):
        raise Invalid('sets')
    b = G.build(spec)
    cs = spec['default_charset']
    if (sets[-1][1] or plan['default']) != cs:
        raise Invalid('the last charset')
    if sets[-1][0] == 'before' and spec.get('more'):
        raise Invalid('the request has the last word')
    cfg = dict(plan['cfg'], charset=plan['default'])
    want = want_head(b)
    want['encoding'] = cs
    text = b.body.decode(cs).encode('utf-8') if spec['kind'] != 'multi' else None
    with Sim() as sim:
        s = make_settings(sim, cfg)
        before = dict((k, repr(v)) for k, v in vars(s).items())
        if plan.get('prior'):
            p = plan['prior']
            r0, st = new_request(sim, G.build(p['spec']), p['stream'], s)
            _, e = attempt(sim, r0.parse_request_header)
            attempt(sim, setattr, r0, 'encoding', p['charset'])
            _, e = attempt(sim, r0.parse_request_body)
            if e is not None:
                sim.probe('an earlier request failed')
            attempt(sim, r0.close)
        r, st = new_request(sim, b, plan['stream'], s)

        def apply(when):
            for w, c in sets:
                if w == when:
                    _, e = attempt(sim, setattr, r, 'encoding', c)
                    if e is not None:
                        fail('refused', 'setting the charset %s (%s the parse of the header) raised %s', c, when, exc_name(e))
        apply('before')
        _, e = attempt(sim, r.parse_request_header)
        if e is not None:
            fail('refused', 'parse_request_header() raised %s', exc_name(e))
        apply('between')
        if sets[-1][0] != 'after':
            must('header differs', snap_head(r), want, 'request')
            if plan.get('peek'):
                t, e = attempt(sim, r.body)
                if e is not None:
                    fail('refused', 'body() raised %s', exc_name(e))
                must('body differs', t, b.body, 'body() before the parse')
        _, e = attempt(sim, r.parse_request_body)
        if e is not None:
            if sets[-1][0] == 'after':
                return False            # the charset so far did not fit
            fail('refused', 'parse_request_body() raised %s', exc_name(e))
        if sets[-1][0] == 'after':
            apply('after')
            must('header differs', snap_head(r), want, 'request')
        else:
            must('header differs', snap_head(r), want, 'request')
            must('form differs', snap_post(r.POST), b.post, 'POST')
            must('files differ', snap_files(r.FILES), want_files(b), 'FILES')
            if spec['kind'] == 'text' and b.body:
                t, e = attempt(sim, r.body)
                if e is not None:
                    fail('body unreadable', 'body() raised %s', exc_name(e))
                must('body differs', plain(t), text, 'body()')
        must('settings changed', dict((k, repr(v)) for k, v in vars(s).items()), before, 'settings')
        digest(sim, plain(r.GET), plain(r.POST))
        attempt(sim, r.close)
        if plan.get('second'):
            # another request with these settings
            r2, st = new_request(sim, b, {}, s)
            _, e = attempt(sim, r2.parse_request_header)
            own = (spec.get('more') or '').replace('charset=', '') or plan['default']
            if e is not None or txt(r2.encoding) != own:
                fail('leaks', 'another request has the charset %s, wanted %s', r2.encoding, own)
        return True
