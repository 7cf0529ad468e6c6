"""Upload limits are enforced exactly and stop the reading."""
from lib import *

FAR = 3000000


def gen(rng, tier):
    big = rng.chance(.015)
    kind = rng.weighted([(3, 'text'), (4, 'form'), (6, 'multi'), (2, 'none')])
    spec = G.gen_request(rng, kind, rng.pick([30, 300, 3000, 100000 if kind != 'multi' else 5000]),
                         {'mix': [(7, 'field'), (2, 'file'), (1, 'anon')], 'plainfn': True})
    cfg = {'lineup': rng.pick(['default', 'default', 'temp', 'memtmp']), 'mhs': rng.pick([16, 100, 4096])}
    if kind == 'text' and rng.chance(.5):
        spec['text'] = None
        spec['charset'] = None
        spec['default_charset'] = None
        spec['body'] = G.gen_content(rng, 100000)
    if kind == 'form' and rng.chance(.3):
        spec['many'] = rng.pick([1, 5, 50, 700])
    if big:
        if kind == 'form':
            spec['many'] = 5000
            cfg['nmax'] = None
        elif kind == 'text':
            spec['text'] = None
            spec['charset'] = None
            spec['default_charset'] = None
            spec['body'] = [['rep', 'abcdefghijklmnop', 125000]] * 3
            cfg['dmax'] = None
        elif kind == 'multi':
            spec['parts'].append({'k': 'field', 'name': 'big', 'body': [['rep', 'abcdefghijklmnop', 125000]] * 3, 'headers': []})
            cfg['dmax'] = None
        elif spec['head']['query']:
            spec['qmany'] = 4500
            cfg['nmax'] = None
    b = G.build(spec)
    m = measure(b, spec)
    st = G.gen_cuts(rng, b)
    if len(b.data) > 20000:
        st = {'cuts': [rng.pick([-1, 1000, 65536, 5000])]}
    if 'dmax' not in cfg and rng.chance(.75):
        base = rng.pick(m['cum'] or [0])
        cfg['dmax'] = rng.weighted([(5, max(0, base + rng.pick([-1, 0, 0, 1, -2, 2]))), (1, 0), (1, rng.below(base + 1)), (1, None), (1, base * 3 + 10)])
    if 'nmax' not in cfg and rng.chance(.75):
        c = rng.pick([x for x in (m['qn'], m['n']) if x] or [1])
        cfg['nmax'] = rng.weighted([(6, max(1, c + rng.pick([-1, 0, 0, 1]))), (1, None), (1, 1), (1, 0), (1, c * 2)])
    plan = {'spec': spec, 'stream': st, 'cfg': cfg, 'tail': None, 'two': rng.chance(.3)}
    if not big and rng.chance(.25) and kind in ('text', 'form', 'multi') and (kind != 'multi' or b.parts and b.parts[-1]['k'] == 'field'):
        # a client that never stops sending
        cfg['dmax'] = rng.pick([0, 10, 500, 70000, 200000])
        cfg['nmax'] = rng.pick([None, None, 3, 500])
        plan['tail'] = rng.pick(['x', 'fields'])
        if kind == 'multi' and plan['tail'] == 'fields':
            cfg['dmax'] = rng.pick([0, 10, 500, 4000])
        plan['stream'] = {'cuts': [rng.pick([-1, 100, 5000])]}
    return plan


def measure(b, spec):
    """What counts: cum = running totals of the data, n / qn = number of fields."""
    q = b.line['query']
    m = {'qn': q.count('&') + q.count(';') + 1 if q else 0, 'n': 0, 'cum': []}
    k = spec['kind']
    if k == 'form':
        m['n'] = b.body.count('&') + b.body.count(';') + 1 if b.body else 0
        m['cum'] = [len(b.body)]
    elif k == 'multi':
        t = 0
        for p in b.parts:
            if p['k'] == 'field':
                t += len(p['wire']) + len(p['name']) + 2
                m['cum'].append(t)
                m['n'] += 1
    else:
        m['cum'] = [len(b.body)]
    return m


def run(plan):
    spec, cfg = plan['spec'], plan['cfg']
    b = G.build(spec)
    m = measure(b, spec)
    kind = spec['kind']
    dmax, nmax = cfg.get('dmax', 5 * 1024 * 1024), cfg.get('nmax', 4096)
    if cfg.get('lineup') == 'mem':
        raise Invalid('line-up')
    why = set()
    if nmax is not None and m['qn'] > nmax:
        why.add('fields')
    elif b.body:
        if dmax is not None and m['cum'] and max(m['cum']) > dmax:
            why.add('size')
        if nmax is not None and m['n'] > nmax:
            why.add('fields')
    stream = dict(plan['stream'] or {})
    data = b.data
    limit_at = None
    if plan.get('tail'):
        if dmax is None:
            raise Invalid('no end')
        if kind == 'multi':
            if not b.parts or b.parts[-1]['k'] != 'field':
                raise Invalid('tail')
            stream['end'] = b.head_len + b.parts[-1]['end']
            unit = '\n' + 'x' * 60
            if plan['tail'] == 'fields':
                unit = '\r\n--%s\r\nContent-Disposition: form-data; name="a"\r\n\r\nv' % spec['boundary']
                if dmax > 5000:
                    raise Invalid('too far')
                limit_at = len(b.body) + len(unit) * (min(dmax // 4, nmax if nmax is not None else dmax) + 2)
                why.add('size')
                if nmax is not None:
                    why.add('fields')
            else:
                limit_at = len(b.body) + dmax
                why.add('size')
        elif kind in ('text', 'form'):
            unit = 'x' if plan['tail'] == 'x' else 'a=b&'
            limit_at = dmax
            why.add('size')
        else:
            raise Invalid('tail')
        stream['tail'] = {'unit': unit, 'max': FAR, 'piece': 4096}
    with Sim() as sim:
        if plan.get('tail'):
            sim.fault('endless input')
        s = make_settings(sim, cfg_of(spec, cfg))
        r, st = new_request(sim, b, stream, s)
        if plan.get('two'):
            _, e = attempt(sim, r.parse_request_header)
            if e is None:
                _, e = attempt(sim, r.parse_request_body)
        else:
            _, e = attempt(sim, r.parse)
        what = '%s body, %s bytes counted, %d fields (query %d), limits %s bytes and %s fields' % (
            kind, max(m['cum']) if m['cum'] else 0, m['n'], m['qn'], dmax, nmax)
        if not why:
            if e is not None:
                fail('refused within the limits', '%s: parse() raised %s', what, exc_name(e))
            must('form differs', snap_post(r.POST), b.post, 'POST')
            if kind == 'multi':
                must('files differ', snap_files(r.FILES), want_files(b), 'FILES')
            if kind == 'text' and b.body:
                must('body differs', plain(r.body()), b.body.decode(b.charset).encode('utf-8'), 'body()')
            must('query differs', plain(r.GET), b.get, 'GET')
            sim.probe('accepted')
        else:
            if e is None:
                fail('accepted beyond a limit', '%s: parse() accepted it', what)
            ok = 'size' in why and isinstance(e, X.RequestDataTooBig) or 'fields' in why and isinstance(e, X.TooManyFieldsSent)
            if not ok:
                fail('wrong refusal', '%s: parse() raised %s', what, exc_name(e))
            if plain(r.POST) or plain(r.FILES):
                fail('exposed after refusal', '%s: POST %s FILES %s', what, short(plain(r.POST)), short(plain(r.FILES)))
            if m['qn'] and nmax is not None and m['qn'] > nmax and plain(r.GET):
                fail('exposed after refusal', '%s: GET %s', what, short(plain(r.GET)))
            sim.probe('refused: ' + '+'.join(sorted(why)))
            # how much was read
            piece = 70000
            for c in (stream.get('cuts') or []):
                piece = max(piece, c)
            if limit_at is not None:
                bound = b.head_len + limit_at + 3 * 65536 + 2 * piece
                if st.cuts and st.cuts[-1] in (-1, 0):
                    bound += len(b.data)
                if st.handed > bound:
                    fail('read on', '%s: %d bytes were read of a request that had to be refused after about %d', what, st.handed, b.head_len + limit_at)
        digest(sim, sorted(why), plain(r.POST))
        close_quietly(sim, r)
        return bool(b.body or m['qn'])
