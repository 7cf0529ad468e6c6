"""Form-encoded and plain bodies are exact however they are delivered."""
from gen import u8
from lib import *


def gen(rng, tier):
    size = rng.weighted([(8, 100), (5, 2000), (1, 140000)])
    kind = rng.weighted([(4, 'text'), (5, 'form'), (2, 'none')])
    spec = G.gen_request(rng, kind, size)
    if kind == 'none':
        spec['ctype'] = rng.pick([None, 'text/plain', 'application/x-www-form-urlencoded', 'application/json'])
        if spec['ctype'] is None:
            spec['charset'] = None
    if kind == 'text' and (spec['charset'] or spec['default_charset'] or 'iso-8859-1').lower() == 'iso-8859-1' and rng.chance(.5):
        spec['text'] = None
        spec['body'] = G.gen_content(rng, size)
    elif kind == 'text' and rng.chance(.12):
        # a charset that does not extend ASCII, for the body alone
        spec['charset'] = rng.pick(['utf-16', 'utf-16-be', 'utf-16-le', 'utf-32', 'shift_jis', 'gb2312', 'big5'])
        spec['head']['query'] = []
        spec['text'] = u8(rng.pick([u'Bar\xe7a \u65e5\u672c\r\n', u'plain\n', u'\u65e5\u672c']))
        try:
            spec['text'].decode('utf-8').encode(spec['charset'])
        except UnicodeError:
            spec['text'] = 'plain\n'
        spec['ctype'] = spec['ctype'] or 'text/plain'
    if kind == 'form' and rng.chance(.15):
        spec['many'] = rng.pick([1, 10, 100, 3000 if size > 3000 and rng.chance(.3) else 200])
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    if len(b.data) > 20000 and st.get('cuts') and st['cuts'][-1] in range(1, 50):
        st['cuts'][-1] = 5000
    st['form'] = rng.weighted([(3, 'iter'), (1, 'gen')])
    return {'spec': spec, 'stream': st, 'cfg': {'mhs': rng.pick([16, 16, 1, 3, 100, 4096, 65536])},
            'first': [rng.pick(['header', 'getbody']) for _ in range(rng.weighted([(3, 0), (1, 1), (1, 2)]))],
            'calls': [rng.pick(['parse', 'header', 'body', 'get']) for _ in range(rng.below(4))]}


def run(plan):
    spec = plan['spec']
    if spec['kind'] == 'multi':
        raise Invalid('kind')
    b = G.build(spec)
    if spec['kind'] == 'none' and b.body:
        raise Invalid('body')
    text = b.body.decode(b.charset).encode('utf-8')
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        for c in plan.get('first') or []:
            if c == 'header':
                _, e = attempt(sim, r.parse_request_header)
            elif c == 'getbody':
                # looking at the body first
                t, e = attempt(sim, r.body)
                if e is None:
                    must('body differs', t, b.body, 'body() before the parse')
                    sim.probe('body() first')
            else:
                raise Invalid('call')
            if e is not None:
                fail('refused', '%s before the parse raised %s', c, exc_name(e))
        _, e = attempt(sim, r.parse)
        if e is not None:
            fail('refused', 'parse() raised %s', exc_name(e))

        def look(when):
            must('form differs', snap_post(r.POST), b.post, 'POST%s' % when)
            must('files differ', snap_files(r.FILES), {}, 'FILES%s' % when)
            must('header differs', snap_head(r), want_head(b), 'request%s' % when)
            if spec['kind'] == 'text' and b.body or not b.body:
                t, e = attempt(sim, r.body)
                if e is not None:
                    fail('body unreadable', 'body()%s raised %s', when, exc_name(e))
                must('body differs', plain(t), text, 'body()%s' % when)
            digest(sim, plain(r.POST))

        look('')
        for c in plan.get('calls') or []:
            f = {'parse': r.parse, 'header': r.parse_request_header, 'body': r.parse_request_body, 'get': None}.get(c)
            if f is not None:
                _, e = attempt(sim, f)
                if e is not None:
                    fail('repeat refused', 'a repeated %s raised %s', c, exc_name(e))
            look(' after another ' + c)
        digest(sim, text)
        return bool(b.body)
