"""Header parsing is exact however the bytes are delivered."""
from lib import *

MHS = [1, 2, 3, 4, 5, 7, 16, 17, 31, 64, 100, 255, 1000, 8192]


def gen(rng, tier):
    spec = G.gen_request(rng, size=rng.pick([50, 400, 3000]))
    if spec['kind'] == 'none' and rng.chance(.6):
        # bytes after the header, whatever they are
        spec['body'] = G.gen_content(rng, 300)
        if rng.chance(.3):
            spec['body'].insert(0, ['lit', rng.pick(['\r\n', '\n', 'X: y\r\n\r\n', '\r\n\r\n', 'GET / HTTP/1.1\r\n'])])
    b = G.build(spec)
    plan = {'spec': spec, 'stream': G.gen_cuts(rng, b), 'cfg': {'mhs': rng.weighted([(2, 16), (6, rng.pick(MHS)),
            (2, max(1, b.head_len + rng.between(-6, 6)))])}}
    plan['stream']['form'] = rng.weighted([(3, 'iter'), (1, 'gen')])
    plan['then'] = rng.pick(['read', 'read', 'body', 'chunks', 'twice'])
    return plan


def run(plan):
    spec = plan['spec']
    b = G.build(spec)
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        _, e = attempt(sim, r.parse_request_header)
        if e is not None:
            fail('header refused', 'parse_request_header() raised %s', exc_name(e))
        if plan['then'] == 'twice':
            _, e = attempt(sim, r.parse_request_header)
            if e is not None:
                fail('header refused', 'a second parse_request_header() raised %s', exc_name(e))
        got = snap_head(r)
        must('header differs', got, want_head(b), 'request')
        # what is left is the body
        if plan['then'] == 'body':
            left, e = attempt(sim, r.body)
        elif plan['then'] == 'chunks':
            def all_of():
                out = []
                while 1:
                    p = r.read(3)
                    if not p:
                        return ''.join(out)
                    out.append(p)
            left, e = attempt(sim, all_of)
        else:
            left, e = attempt(sim, r.read)
        if e is not None:
            fail('body unreadable', 'reading the body raised %s', exc_name(e))
        must('body differs', left, b.body, 'body')
        must('header differs', snap_head(r), got, 'request after reading')
        digest(sim, got, left)
        return st.pulls > 1 or bool(b.body)
