"""A truncated request never yields a wrong or partial upload."""
import base64
from lib import *
from props.C07 import place


def gen(rng, tier):
    spec = G.gen_request(rng, rng.weighted([(1, None), (9, 'multi')]), rng.pick([40, 400, 4000]))
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    end = place(rng, b, max(0, len(b.data) - 1))
    if spec['kind'] == 'multi' and end < b.head_len and rng.chance(.8):
        end = b.head_len + rng.below(len(b.body))
    if rng.chance(.15):
        end = b.head_len - rng.between(1, 5)
    st['end'] = end
    st['form'] = rng.weighted([(3, 'iter'), (1, 'gen')])
    if rng.chance(.02):
        st['end'] = 0
        if rng.chance(.5):
            st['form'] = 'none'         # no stream at all
    cfg = {'lineup': rng.weighted([(3, 'default'), (3, 'temp'), (1, 'memtmp')]), 'mhs': rng.pick([16, 16, 1, 50, 4096]), 'chunk': G.gen_chunk(rng, b)}
    cfg['fmax'] = rng.pick([31457280, 0, 100, 1000])
    return {'spec': spec, 'stream': st, 'cfg': cfg, 'disk': {'bufsize': rng.pick([8192, 1])}}


def run(plan):
    spec = plan['spec']
    b = G.build(spec)
    end = plan['stream'].get('end')
    if end is None or end >= len(b.data):
        raise Invalid('no truncation')
    if plan['cfg'].get('lineup') == 'mem':
        raise Invalid('line-up')
    with Sim(plan.get('disk')) as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        if plan['stream'].get('form') == 'none':
            if end:
                raise Invalid('form')
            sim.probe('no stream')
            r = RQ.HttpRequest(None, s)
        else:
            r, st = new_request(sim, b, plan['stream'], s)
        _, e = attempt(sim, r.parse)
        where = 'cut at %d of %d (header %d)' % (end, len(b.data), b.head_len)
        if end < b.head_len:
            if not isinstance(e, RQ.InvalidHttpRequest):
                fail('header not refused', '%s: parse() gave %s', where, exc_name(e))
            if plain(r.POST) or plain(r.FILES):
                fail('exposed', '%s: POST %s', where, short(plain(r.POST)))
            _, e = attempt(sim, r.parse_request_body)
            if not isinstance(e, RQ.RequestHeaderParseException):
                fail('header not refused', '%s: parse_request_body() gave %s', where, exc_name(e))
            sim.probe('cut in the header')
            return True
        if spec['kind'] != 'multi':
            return False
        n = end - b.head_len
        delim = 4 + len(spec['boundary'])       # CRLF -- boundary
        must_f, may_f, must_p = {}, {}, {}
        partial = None
        b64file = False
        for p in b.parts:
            done = n >= p['end'] + delim
            if p['k'] == 'file':
                if n >= p['end'] + delim + 3:
                    must_f.setdefault(p['name'], []).append(dict(p['value'], type=True))
                elif n >= p['end']:
                    may_f[p['name']] = dict(p['value'], type=True)
                if p['value']['te'] == 'base64' and n >= p['content'] and not done:
                    b64file = True
            elif p['k'] == 'field':
                if done:
                    must_p.setdefault(p['name'], []).append(p['value'])
                elif n >= p['content']:
                    partial = p
        if e is not None:
            if not (b64file and isinstance(e, MP.MultiPartParserError)):
                fail('parse failed', '%s: parse() raised %s', where, exc_name(e))
            if plain(r.POST) or plain(r.FILES):
                fail('exposed', '%s: after %s POST %s FILES %s', where, exc_name(e), short(plain(r.POST)), short(plain(r.FILES)))
            sim.probe('cut base64 file refused')
        else:
            files, e = attempt(sim, snap_files, r.FILES)
            if e is not None:
                fail('file unreadable', '%s: reading the files raised %s', where, exc_name(e))
            for k, v in may_f.items():
                if len(files.get(k, [])) == len(must_f.get(k, [])) + 1:
                    must_f.setdefault(k, []).append(v)
            must('files differ', files, must_f, 'FILES with %s' % where)
            post = snap_post(r.POST)
            if partial is not None:
                k = partial['name']
                got = post.get(k, [])
                if len(got) == len(must_p.get(k, [])) + 1:
                    v = dict(got[-1])
                    data = v.get('data')
                    recv = b.body[partial['content']:n]
                    ok = recv.startswith(data)
                    if partial['value']['transfer-encoding'] == 'base64':
                        try:
                            ok = ok or partial['raw'].startswith(data) or data == base64.b64decode(recv)
                        except TypeError:
                            pass
                    if not ok:
                        fail('fields differ', '%s: field %r being received is %s, received was %s', where, k, short(data), short(recv))
                    want = dict(partial['value'])
                    want['data'] = data
                    must('fields differ', v, want, 'POST[%r][-1] with %s' % (k, where))
                    must_p.setdefault(k, []).append(v)
                    sim.probe('partial field kept')
            must('fields differ', post, must_p, 'POST with %s' % where)
            digest(sim, files, post)
        on_disk = [f for f in files_of(r) if is_disk(f)]
        left = residue(sim)
        if len(left) != len(on_disk):
            fail('temporary file left', '%s: %d temporary files for %d uploaded files: %s', where, len(left), len(on_disk), left[:3])
        sim.probe('cut in the body')
        _, e = attempt(sim, r.close)
        if e is not None:
            fail('close failed', '%s: close() raised %s', where, exc_name(e))
        if residue(sim):
            fail('temporary file left', '%s: %s is left after close()', where, residue(sim)[0])
        return True
