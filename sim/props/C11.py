"""Requests parsed concurrently do not affect each other."""
from lib import *
from lib import dry as lib_dry
from props.C07 import place
import props.C10 as C10


def gen(rng, tier):
    n = rng.weighted([(5, 2), (2, 3), (1, 4)])
    tasks = []
    lines = rng.chance(.7)
    same = rng.chance(.25)
    sweep = lines and rng.chance(.5)
    if sweep:
        n, same = rng.weighted([(4, 2), (1, 3)]), rng.chance(.1)
    for i in range(n):
        if same and i:
            spec = tasks[0]['spec']
        else:
            spec = G.gen_request(rng, rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (6, 'multi')]), rng.pick([20, 100, 400] if lines else [20, 200, 2000]),
                             {'parts': rng.between(1, 3), 'names': ['f', 'g'], 'charset': rng.pick(['utf-8', 'iso-8859-1', None]), 'default': ''})
        b = G.build(spec)
        st = G.gen_cuts(rng, b)
        if st.get('cuts') and st['cuts'][-1] > 0 and len(b.data) // st['cuts'][-1] > 300:
            st['cuts'][-1] = len(b.data) // 300 + 1
        if rng.chance(.2):
            st['fault'] = {'at': place(rng, b, len(b.data)), 'err': rng.pick(['EIO', 'reset', 'foreign', 'base']), 'after': rng.pick(['eof', 'raise'])}
        elif rng.chance(.07):
            st['end'] = place(rng, b, len(b.data))
        st['name'] = str(i)
        ops = rng.weighted([(6, [['parse']]), (2, [['two']]), (1, [['header'], ['enc', rng.pick(['utf-8', 'iso-8859-1', 'windows-1252'])], ['body']])])
        tasks.append({'spec': spec, 'stream': st, 'ops': ops, 'close': rng.chance(.3), 'build': rng.chance(.2)})
    cfg = {'lineup': rng.weighted([(4, 'default'), (2, 'temp'), (1, 'memtmp')]), 'mhs': rng.pick([16, 64, 4096]), 'chunk': rng.pick([65536, 64, 17, 256])}
    cfg['fmax'] = rng.pick([31457280, 0, 50, 200])
    cfg['charset'] = rng.weighted([(3, None), (2, 'utf-8')])
    if rng.chance(.15):
        cfg['nmax'] = rng.pick([1, 2, 3])
    if rng.chance(.15):
        cfg['dmax'] = rng.pick([10, 60, 300])
    plan = {'tasks': tasks, 'cfg': cfg, 'shared': rng.chance(.85), 'lines': lines, 'schedules': [[rng.below(n), []]]}
    # how many places to switch at are there?
    sim = lib_dry(lambda: run(plan, dry=True), None)
    total = sim.yields if sim is not None else 0
    first = plan['schedules'][0][0]
    if sim is not None and sweep:
        plan['schedules'] = [[first, focus(rng, sim, n, first)] for _ in range(rng.between(8, 40))]
        return plan
    k = rng.weighted([(3, rng.between(1, 4)), (4, rng.between(5, 30)), (2, rng.between(30, 150))])
    at = set(rng.below(total) for _ in range(k)) if total else set()
    if rng.chance(.3) and total:
        a = rng.below(total)
        at |= set(range(a, min(total, a + rng.between(2, 60))))
    plan['schedules'] = [[first, [[i, rng.below(n)] for i in sorted(at)]]]
    return plan


def tell_apart(rng, spec, i):
    """Names and values that differ between the charsets of the threads."""
    spec = dict(spec, head=dict(spec['head']))
    if spec['kind'] != 'none' and spec.get('ctype', 1) is not None:
        spec['charset'] = ['utf-8', 'iso-8859-1'][i % 2]
    pairs = lambda: [[rng.pick(['caf\xc3\xa9', 'k', '\xc3\xbc']), rng.pick(['na\xc3\xafve', '\xc3\x9f', 'v%d' % i]), 'low', '='] for _ in range(rng.between(1, 3))]
    spec['head']['query'] = pairs() if rng.chance(.7) else []
    if spec['kind'] == 'form':
        spec['pairs'] = pairs()
    if spec['kind'] == 'text':
        spec['text'] = 'caf\xc3\xa9 %d' % i
    return spec


def one(sim, t, s, cfg):
    b = G.build(t['spec'])
    obj, st = make_stream(b.data, t['stream'], sim)
    settings = s if s is not None else make_private(sim, cfg)
    r = RQ.HttpRequest(obj, settings)
    e = None
    for op in t['ops']:
        e = C10.apply(sim, r, [op], [])
        if e is not None:
            break
    return r, e


def make_private(sim, cfg):
    d = {K.FILE_UPLOAD_DIR: UP}
    for k, key in CFG_KEYS:
        if k in cfg:
            d[key] = cfg[k]
    if cfg.get('charset'):
        d[K.DEFAULT_CHARSET] = cfg['charset']
    s = Settings(d)
    line = LINEUPS[cfg.get('lineup') or 'default']
    if line is not None:
        s.FILE_UPLOAD_HANDLERS = list(line)
    return s


def shape(sim, r, e, t):
    o = C10.look(sim, r, e, t['spec'])
    return o


def run(plan, dry=False):
    cfg, tasks = plan['cfg'], plan['tasks']
    if len(tasks) < 1 or cfg.get('lineup') == 'mem' or cfg.get('nmax') == 0:
        raise Invalid('tasks')
    want = []
    if not dry:
        for t in tasks:
            with Sim() as sim:
                s = make_settings(sim, cfg)
                r, e = one(sim, t, s, cfg)
                want.append(shape(sim, r, e, t))
                attempt(sim, r.close)
    if dry:
        return together(plan, plan['schedules'][0], want, True)
    if not plan['schedules']:
        raise Invalid('schedules')
    return max([together(plan, x, want, False) for x in plan['schedules']])


def together(plan, schedule, want, dry):
    """All at once, with the switches of one schedule."""
    cfg, tasks = plan['cfg'], plan['tasks']
    first, switches = schedule
    with Sim(plan.get('disk'), switches, plan.get('lines')) as sim:
        s = make_settings(sim, cfg)
        before = C10.settings_state(s)
        got = [None] * len(tasks)
        reqs = [None] * len(tasks)

        def task(i):
            t = tasks[i]

            def go():
                r, e = one(sim, t, s if plan.get('shared') else None, cfg)
                reqs[i] = r
                o = shape(sim, r, e, t)
                got[i] = o
                for f in files_of(r):
                    if is_disk(f) and f.temporary_file_path() not in sim.disk.nodes:
                        fail('file gone', "a temporary file of thread %d's request is gone", i)
                if t.get('close'):
                    _, e = attempt(sim, r.close)
                    if e is not None:
                        fail('close failed', 'close() raised %s', exc_name(e))
                return True
            return go
        res = sim.run_tasks([task(i) for i in range(len(tasks))], first)
        if dry:
            return sim
        for i, (ok, e) in enumerate(res):
            if isinstance(e, core.Deadlock):
                raise e
            if isinstance(e, Violation):
                raise e
            if e is not None:
                raise e
        for i in range(len(tasks)):
            must('thread differs from alone', got[i], want[i], 'thread %d: ' % i)
        must('settings changed', C10.settings_state(s), before, 'shared settings')
        # each file is its own
        paths = []
        for i, r in enumerate(reqs):
            if tasks[i].get('close'):
                continue
            paths += [f.temporary_file_path() for f in files_of(r) if is_disk(f)]
            # the files of a thread are still its own after the others have closed theirs
            o, e = attempt(sim, snap_files, r.FILES)
            must('thread differs from alone', o if e is None else err_kind(e), want[i]['files'], 'later, thread %d: FILES' % i)
        if len(set(paths)) != len(paths):
            fail('file shared', 'two uploads share a temporary file')
        for r in reqs:
            attempt(sim, r.close)
        if residue(sim):
            fail('temporary file left', '%s is left after every request was closed', residue(sim)[0])
        check_disk(sim)
        digest(sim, got)
        sim.probe('%d threads' % len(tasks))
        return sim.switched > 0
