"""Reading the request as a file yields the body's bytes once, in order."""
from lib import *


def gen(rng, tier):
    spec = G.gen_request(rng, rng.weighted([(6, 'none'), (1, 'multi'), (1, 'text')]), rng.pick([50, 500, 5000]))
    if spec['kind'] == 'none':
        spec['body'] = G.gen_content(rng, rng.pick([30, 300, 3000]))
        for _ in range(rng.below(4)):
            spec['body'].append(rng.pick([['lit', '\n'], ['lit', 'line\n'], ['lit', 'tail'], ['rep', 'ab\n', rng.below(40)], ['lit', '\r\n'],
                                          ['rep', 'z', rng.below(300)]]))
    b = G.build(spec)
    n = len(b.body)
    st = G.gen_cuts(rng, b)
    if rng.chance(.25):
        st['fault'] = {'at': b.head_len + rng.between(0, n), 'err': rng.pick(sorted(core.ERRORS)) if rng.chance(.4) else rng.pick(core.IO_ERRORS),
                       'after': rng.pick(['eof', 'raise', 'resume'])}
    ops = []
    for _ in range(rng.weighted([(1, 0), (2, 1), (4, 4), (3, 12)])):
        k = rng.below(12)
        sz = rng.weighted([(3, rng.below(6)), (3, rng.below(60)), (2, rng.below(n + 3)), (1, 65536)])
        if k < 4:
            ops.append(['read', sz])
        elif k == 4 and rng.chance(.4):
            ops.append(['read', None])
        elif k < 8:
            ops.append(['readline', None])
        elif k == 8:
            ops.append(['readline', sz])
        elif k == 9:
            ops.append(['iter', rng.below(4)])
        elif k == 10:
            ops.append(['xreadlines', rng.below(4)])
        elif rng.chance(.4):
            ops.append(['readlines', None])
    return {'spec': spec, 'stream': st, 'cfg': {'mhs': rng.pick([16, 1, 5, 100, 4096])}, 'ops': ops}


def line_end(d, p, size=None):
    i = d.find('\n', p)
    e = i + 1 if i >= 0 else len(d)
    return e if size is None else min(e, p + size)


def run(plan):
    spec = plan['spec']
    b = G.build(spec)
    d = b.body
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        r, st = new_request(sim, b, plan['stream'], s)
        f = (plan['stream'] or {}).get('fault')
        if f and f['at'] < b.head_len:
            raise Invalid('fault in the header')
        _, e = attempt(sim, r.parse_request_header)
        if e is not None:
            if st.fired:
                return False
            fail('header refused', 'parse_request_header() raised %s', exc_name(e))
        pos = 0
        lost = None         # after an error: position of the producer, the data before may be lost

        def expect(got, want_to, what):
            if not isinstance(got, str):
                fail('wrong type', '%s gave a %s', what, type(got).__name__)
            must('wrong data', got, d[pos:want_to], '%s at %d of %d' % (what, pos, len(d)))
            return want_to

        def failed(e, what):
            if not st.fired:
                fail('read refused', '%s at %d of %d raised %s', what, pos, len(d), exc_name(e))
            if isinstance(st.raised, IOError):
                if not isinstance(e, RQ.UnreadablePostError):
                    fail('wrong error', '%s: the I/O error %s of the stream came out as %s', what, exc_name(st.raised), exc_name(e))
            elif type(e) is not type(st.raised):
                fail('wrong error', '%s: %s of the stream came out as %s', what, exc_name(st.raised), exc_name(e))

        done = False
        for op in (plan.get('ops') or []) + [['read', None], ['read', 5], ['readline', None]]:
            name, arg = op[0], op[1]
            if name not in ('read', 'readline', 'iter', 'xreadlines', 'readlines'):
                raise Invalid('op')
            fired = st.fired
            e = None
            if name == 'read':
                got, e = attempt(sim, r.read) if arg is None else attempt(sim, r.read, arg)
                if e is None:
                    if st.fired > fired:
                        fail('error swallowed', 'read(%s) gave %s in spite of %s', arg, short(got), exc_name(st.raised))
                    pos = expect(got, len(d) if arg is None else min(len(d), pos + arg), 'read(%s)' % arg)
            elif name == 'readline':
                got, e = attempt(sim, r.readline) if arg is None else attempt(sim, r.readline, arg)
                if e is None:
                    if st.fired > fired:
                        fail('error swallowed', 'readline(%s) gave %s in spite of %s', arg, short(got), exc_name(st.raised))
                    pos = expect(got, line_end(d, pos, arg), 'readline(%s)' % arg)
            elif name == 'readlines':
                got, e = attempt(sim, r.readlines)
                if e is None:
                    if st.fired > fired:
                        fail('error swallowed', 'readlines() gave %s in spite of %s', short(got), exc_name(st.raised))
                    for line in got:
                        pos = expect(line, line_end(d, pos), 'readlines()')
                    if pos != len(d):
                        fail('wrong data', 'readlines() stopped at %d of %d', pos, len(d))
            else:
                it, e = attempt(sim, lambda: iter(r) if name == 'iter' else iter(r.xreadlines()))
                for _ in range(arg or 0):
                    if e is not None:
                        break
                    got, e = attempt(sim, it.next)
                    if isinstance(e, StopIteration) and st.fired == fired:
                        e = None
                        if pos != len(d):
                            fail('wrong data', '%s ended at %d of %d', name, pos, len(d))
                        break
                    if e is None:
                        if st.fired > fired:
                            fail('error swallowed', '%s gave %s in spite of %s', name, short(got), exc_name(st.raised))
                        pos = expect(got, line_end(d, pos), name)
            if e is not None:
                failed(e, '%s(%s)' % (name, arg))
                done = True
                break
            digest(sim, pos)
        if done and (f.get('after') == 'resume'):
            # what was read in vain may be lost, nothing else, and nothing twice
            rest, e = attempt(sim, r.read)
            if e is not None:
                fail('read refused', 'read() after the stream recovered raised %s', exc_name(e))
            if not d[pos:].endswith(rest) or len(rest) < len(b.data) - f['at']:
                fail('wrong data', 'after the stream recovered at %d, read() gave %s', f['at'], short(rest))
        return len(d) > 0
