"""A failing input stream is never mistaken for a complete request."""
from lib import *


def place(rng, b, n):
    """An offset, often at an interesting one."""
    k = rng.below(10)
    if k < 4 and b.marks:
        return min(n, max(0, rng.pick(b.marks) + rng.between(-3, 3)))
    if k == 4:
        return n
    if k == 5:
        return min(n, b.head_len + rng.below(4))
    return rng.below(n + 1)


def gen(rng, tier):
    spec = G.gen_request(rng, rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (6, 'multi')]), rng.pick([40, 400, 4000]))
    b = G.build(spec)
    if spec['kind'] in ('text', 'form') and rng.chance(.03):
        # more than body() reads at a time
        if spec['kind'] == 'form':
            spec['many'] = rng.pick([15000, 30000])
        else:
            spec['text'] = spec['charset'] = spec['default_charset'] = None
            spec['body'] = [['rep', 'abcdefghijklmnop', rng.pick([5000, 10000])]]
        b = G.build(spec)
    st = G.gen_cuts(rng, b)
    if len(b.data) > 60000:
        st = {'cuts': [rng.pick([-1, 1000, 65536, 5000])]}
    err = rng.pick(core.IO_ERRORS) if rng.chance(.5) else rng.pick(sorted(core.ERRORS))
    st['fault'] = {'at': place(rng, b, len(b.data)), 'err': err, 'after': rng.pick(['eof', 'eof', 'raise', 'resume'])}
    st['form'] = 'gen' if rng.chance(.25) and st['fault']['after'] == 'eof' else 'iter'
    cfg = {'lineup': rng.weighted([(3, 'default'), (2, 'temp'), (1, 'memtmp')]), 'mhs': rng.pick([16, 16, 1, 50, 4096]), 'chunk': G.gen_chunk(rng, b)}
    cfg['fmax'] = rng.pick([31457280, 0, 100, 1000])
    if len(b.data) > 60000:
        st['fault']['at'] = rng.between(66000, len(b.data))
        cfg['nmax'] = None
        cfg['mhs'] = 4096
    return {'spec': spec, 'stream': st, 'cfg': cfg, 'how': rng.pick(['parse', 'parse', 'two', 'body'])}


def run(plan):
    spec = plan['spec']
    b = G.build(spec)
    f = plan['stream'].get('fault')
    if not f:
        raise Invalid('no fault')
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        phase = 'header'
        how = plan.get('how')
        if how == 'parse':
            _, e = attempt(sim, r.parse)
        else:
            _, e = attempt(sim, r.parse_request_header)
            if e is None:
                phase = 'body'
                if not st.fired:
                    must('header differs', snap_head(r), want_head(b), 'request')
                else:
                    fail('error swallowed', 'parse_request_header() succeeded in spite of %s at %d of %d', exc_name(st.raised), f['at'], len(b.data))
                if how == 'body' and spec['kind'] in ('text', 'form', 'none'):
                    _, e = attempt(sim, r.body)
                else:
                    _, e = attempt(sim, r.parse_request_body)
        where = '%s at %d of %d (header %d)' % (exc_name(st.raised), f['at'], len(b.data), b.head_len)
        if not st.fired:
            if e is not None:
                fail('refused', 'no error occurred, but parsing raised %s', exc_name(e))
            if how == 'parse' or how == 'two':
                must('form differs', snap_post(r.POST), b.post, 'POST')
                must('files differ', snap_files(r.FILES), want_files(b), 'FILES')
            return False
        if e is None:
            fail('error swallowed', 'parsing succeeded in spite of %s', where)
        if isinstance(st.raised, IOError):
            if not isinstance(e, IOError):
                fail('wrong error', '%s came out as %s', where, exc_name(e))
        elif type(e) is not type(st.raised) or str_exc(e) != str_exc(st.raised):
            fail('wrong error', '%s came out as %s', where, exc_name(e))
        sim.probe('error in the ' + ('header' if f['at'] < b.head_len else 'body'))
        if plain(r.POST) or plain(r.FILES):
            fail('partial data exposed', 'after %s: POST %s FILES %s', where, short(plain(r.POST)), short(plain(r.FILES)))
        # the header can only have failed if its end did not arrive
        if f['at'] < b.head_len:
            _, e = attempt(sim, r.parse_request_body)
            if not isinstance(e, RQ.RequestHeaderParseException):
                fail('body parsed without header', 'after %s parse_request_body() gave %s', where, exc_name(e))
            if plain(r.POST) or plain(r.FILES):
                fail('partial data exposed', 'after %s and parse_request_body(): POST %s', where, short(plain(r.POST)))
        elif f.get('after') != 'resume':
            # nor is any part of the body taken for it when asked again
            again = [('body', r.body), ('parse_request_body', r.parse_request_body), ('body', r.body)]
            for name, call in again if how == 'body' else again[1:]:
                t, e2 = attempt(sim, call)
                if e2 is None and f.get('after') == 'raise':
                    fail('error swallowed', 'after %s another %s() gave %s while the stream keeps failing', where, name, short(t))
                if t:
                    fail('partial data exposed', 'after %s another %s() gave %s', where, name, short(t))
                if plain(r.POST) or plain(r.FILES):
                    fail('partial data exposed', 'after %s and another %s(): POST %s', where, name, short(plain(r.POST)))
        digest(sim, err_kind(e))
        close_quietly(sim, r)
        return True
