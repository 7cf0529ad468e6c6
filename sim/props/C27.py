"""A parse interrupted or out of memory at any step shows nothing half-done, and the object can be used again."""
from lib import *
from lib import dry
from props.C07 import place
import props.C10 as C10

KINDS = {
    'memory': lambda: MemoryError('simulated: no memory'),
    'interrupt': lambda: KeyboardInterrupt('simulated'),
    'exit': lambda: SystemExit('simulated'),
    'timeout': lambda: core.Foreign('simulated: the time of this request is over'),
}
# lines between the creation of a file and the moment somebody is responsible for it
WINDOW = 60


def gen(rng, tier):
    def one(kind=None):
        return G.gen_request(rng, kind or rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (8, 'multi')]), rng.pick([20, 100, 1000]),
                             {'parts': rng.between(1, 4), 'mix': [(3, 'file'), (2, 'field')], 'default': ''})
    spec = one()
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    if st.get('cuts') and len(b.data) > 3000:
        st['cuts'][-1] = max(st['cuts'][-1], len(b.data) // 300)
    if rng.chance(.1):
        st['end'] = place(rng, b, max(0, len(b.data) - 1))
    nxt = one(rng.pick([None, 'multi']))
    cfg = {'lineup': rng.weighted([(5, 'default'), (2, 'temp'), (1, 'memtmp'), (2, 'convtmp')]), 'mhs': rng.pick([16, 100]), 'chunk': rng.pick([65536, 256, 64, 20])}
    cfg['fmax'] = rng.pick([31457280, 0, 30, 200])
    if rng.chance(.2):
        # much of the file is in memory before it moves to disk
        n = rng.pick([3000, 20000, 70000])
        for p in spec.get('parts') or []:
            if p['k'] == 'file' and not p.get('te'):
                p['body'] = [['rnd', rng.below(1000), n + n // 2, 'txt']]
                break
        cfg['lineup'], cfg['fmax'], cfg['chunk'] = rng.pick(['default', 'default', 'convtmp']), n - rng.below(n // 4), rng.pick([1024, 4096])
        st.pop('cuts', None)
        st.pop('lines', None)
        st.pop('end', None)
        st['cuts'] = [rng.pick([500, 1000, 4096])]
    cfg['charset'] = rng.weighted([(3, None), (2, 'utf-8')])
    plan = {'spec': spec, 'stream': st, 'cfg': cfg, 'kind': rng.pick(sorted(KINDS)), 'at': [0], 'next': {'spec': nxt, 'stream': G.gen_cuts(rng, G.build(nxt))},
            'ops': rng.weighted([(4, ['parse']), (3, ['two']), (1, ['getbody'])]), 'again': rng.chance(.3), 'disk': {'nt': rng.chance(.1)}}

    def lines():
        with Sim(plan.get("disk")) as sim:
            r, e, fired, left, _ = strike(sim, plan, None)
            attempt(sim, r.close)
            return sim
    sim = dry(lines, None)
    if sim is not None and sim.tracer.places():
        n = sim.tracer.places()
        born = sorted(sim.disk.born.values())
        plan['at'] = []
        for _ in range(4):
            # the lines first reached last are those of the body
            at = sim.tracer.place(n - 1 - rng.below(rng.pick([n, n, n // 2 + 1, n // 4 + 1, 20])) % n, rng.below(5000))
            if born and rng.chance(.3):
                # soon after a file has begun
                at = min(sim.yields - 1, rng.pick(born) + WINDOW + 1 + rng.below(rng.pick([60, 1000])))
            plan['at'].append(at)
    return plan


def strike(sim, plan, at):
    """Parse, and at the line numbered so: the exception."""
    s = make_settings(sim, plan['cfg'])
    b = G.build(plan['spec'])
    obj, st = make_stream(b.data, plan['stream'], sim)
    r = RQ.HttpRequest(obj, s)
    t = sim.tracer
    hit = []

    def fire(i):
        if hit:
            return
        d = sim.disk
        # files for which nobody can answer yet
        new = [p for p in d.created if t.yields - d.born.get(p, 0) <= WINDOW]
        closing = 'close' in d.trace or 'unlink' in d.trace
        hit.append((new, closing))
        sim.fault('at a line: %s' % plan['kind'])
        raise KINDS[plan['kind']]()
    t.onSwitch = fire
    if at is not None:
        t.add(at)
    t.yields = 0
    t.lines = True
    try:
        e = None
        for op in plan['ops']:
            if op == 'parse':
                _, e = attempt(sim, r.parse)
            elif op == 'two':
                _, e = attempt(sim, r.parse_request_header)
                if e is None:
                    _, e = attempt(sim, r.parse_request_body)
            elif op == 'getbody':
                _, e = attempt(sim, r.body)
                if e is None:
                    _, e = attempt(sim, r.parse_request_body)
            else:
                raise Invalid('op')
            if e is not None:
                break
    finally:
        t.lines = False
        t.recording = False
    return r, e, bool(hit), hit[0][0] if hit else [], hit[0][1] if hit else False


def run(plan):
    cfg = plan['cfg']
    if cfg.get('lineup') == 'mem' or plan['kind'] not in KINDS or not plan['ops'] or not isinstance(plan['at'], list) or plan['stream'].get('fault'):
        raise Invalid('plan')
    with Sim(plan.get("disk")) as sim:
        r, e, _, _, _ = strike(sim, plan, None)
        want = C10.look(sim, r, e, plan['spec'])
        attempt(sim, r.close)
    nb = G.build(plan['next']['spec'])
    with Sim(plan.get("disk")) as sim:
        want2 = fresh(sim, plan, nb)
    fired = False
    for at in plan['at']:
        fired = interrupted(plan, at, want, nb, want2) or fired
    return fired


def interrupted(plan, at, want, nb, want2):
    cfg = plan['cfg']
    with Sim(plan.get("disk")) as sim:
        r, e, fired, new, closing = strike(sim, plan, at)
        if fired:
            what = '%s at step %d' % (plan['kind'], at)
        else:
            what = 'no interruption'
        post, files = attempt(sim, plain, r.POST)[0], attempt(sim, snap_files, r.FILES)[0]
        if e is None:
            # it was absorbed, or there was none
            got = C10.look(sim, r, e, plan['spec'])
            must('partial result', got, want, '%s, and the parse returned: ' % what)
            if fired and plan['kind'] != 'memory':
                fail('swallowed', '%s was swallowed', what)
            if fired:
                sim.probe('absorbed')
        else:
            if fired and want['exc'] is None and not isinstance(e, type(KINDS[plan['kind']]())):
                fail('swallowed', '%s came out as %s', what, exc_name(e))
            if post or files:
                if want['exc'] is not None or post != want['post'] or files != want['files']:
                    fail('partial result', '%s, the parse raised %s: the form is %s and the files are %s', what, exc_name(e), short(post), short(files))
                sim.probe('complete, but interrupted')
            if plan.get('again'):
                # an application that asks again does not get what is half-done
                _, e2 = attempt(sim, r.parse_request_body)
                if e2 is None:
                    post, files = attempt(sim, plain, r.POST)[0], attempt(sim, snap_files, r.FILES)[0]
                    if (post or files) and (post != want['post'] or files != want['files']):
                        sim.probe('a second attempt parsed what was left')
        _, e = attempt(sim, r.close)
        if e is not None:
            fail('close failed', '%s: close() raised %s', what, exc_name(e))
        rest = residue(sim)
        if rest and not (fired and (closing or rest == [p for p in rest if p in new])) and not (plan.get('again')):
            fail('file left', '%s: %s is left', what, rest[0])
        gone = set(rest)
        if fired:
            sim.probe('interrupted')
        # and then
        obj, st = make_stream(nb.data, plan['next']['stream'], sim)
        _, e = attempt(sim, setattr, r, 'stream', obj)
        if e is None:
            _, e = attempt(sim, r.parse)
        got = C10.look(sim, r, e, plan['next']['spec'])
        must('differs from fresh', got, want2, 'after %s: ' % what)
        attempt(sim, r.close)
        if not plan.get('again') and [p for p in residue(sim) if p not in gone]:
            fail('file left', 'after %s and another request: %s is left', what, residue(sim)[0])
        check_disk(sim)
        digest(sim, got)
        return fired


def fresh(sim, plan, nb):
    s = make_settings(sim, plan['cfg'])
    obj, st = make_stream(nb.data, plan['next']['stream'], sim)
    r = RQ.HttpRequest(obj, s)
    _, e = attempt(sim, r.parse)
    o = C10.look(sim, r, e, plan['next']['spec'])
    attempt(sim, r.close)
    return o
