"""Requests served one after another neither affect nor burden those that follow."""
import sys
import types

from lib import *
from lib import dry
from props.C07 import place
import props.C10 as C10

DISK_ERRS = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE']


def one(rng, i, kind=None, earlier=None):
    spec = G.gen_request(rng, kind or rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (6, 'multi')]), rng.pick([20, 100, 1000]),
                         {'parts': rng.between(1, 3), 'default': '', 'charset': rng.pick(['utf-8', 'iso-8859-1', None])})
    if earlier and rng.chance(.25):
        C10.same_query(spec, rng.pick(earlier)['spec'])
    b = G.build(spec)
    st = G.gen_cuts(rng, b)
    st['name'] = str(i)
    bad = rng.below(10)
    if bad < 2:
        st['fault'] = {'at': place(rng, b, len(b.data)), 'err': rng.pick(sorted(core.ERRORS)), 'after': rng.pick(['eof', 'raise', 'resume'])}
    elif bad == 2:
        st['end'] = place(rng, b, len(b.data))
    elif bad == 3:
        spec['junk'] = place(rng, b, len(b.data) - 1)
    q = {'spec': spec, 'stream': st, 'hold': rng.weighted([(4, 0), (2, 1), (1, 2)]), 'handler': rng.weighted([(8, None), (1, 'upper'), (1, 'stop'), (1, 'skip')]),
         'ops': rng.weighted([(6, [['parse']]), (2, [['two']]), (1, [['header'], ['enc', rng.pick(['utf-8', 'iso-8859-1', 'windows-1252'])], ['body']]),
                              (1, [['header'], ['getbody'], ['body']]), (1, [['header']])])}
    if rng.chance(.12):
        q['disk'] = {'op': rng.pick(['create', 'write', 'seek', 'close', 'unlink', '*']), 'nth': rng.below(3), 'err': rng.pick(DISK_ERRS), 'last': rng.chance(.4)}
    return q


KINDS = ('get', 'form', 'multi', 'disk', 'cut', 'error', 'refused', 'header')


def gen(rng, tier):
    if rng.chance(.04):
        return {'many': rng.pick([160, 240]), 'kinds': [rng.pick(KINDS) for _ in range(rng.between(1, 3))], 'chunk': rng.pick([65536, 20]),
                'hold': rng.pick([0, 0, 3]), 'close': rng.chance(.8), 'distinct': rng.chance(.7)}
    n = rng.weighted([(3, 2), (3, 3), (1, 5)])
    cfg = {'lineup': rng.weighted([(4, 'default'), (2, 'temp'), (1, 'memtmp'), (1, 'convtmp')]), 'mhs': rng.pick([16, 64, 4096]), 'chunk': rng.pick([65536, 64, 17, 256])}
    cfg['fmax'] = rng.pick([31457280, 0, 0, 50, 200])
    cfg['charset'] = rng.weighted([(3, None), (2, 'utf-8')])
    if rng.chance(.15):
        cfg['nmax'] = rng.pick([1, 2, 3])
    if rng.chance(.15):
        cfg['dmax'] = rng.pick([10, 60, 300])
    dies = rng.chance(.2)
    if dies:
        cfg['lineup'], cfg['fmax'] = rng.pick(['default', 'temp', 'convtmp']), 0
    reqs = []
    for i in range(n):
        reqs.append(one(rng, i, 'multi' if dies and not i else None, reqs))
    plan = {'reqs': reqs, 'cfg': cfg, 'shared': rng.chance(.75), 'rounds': rng.weighted([(5, 1), (2, 3)]), 'crash': None}
    if not plan['shared']:
        for q in plan['reqs']:
            if rng.chance(.6):
                q['cfg'] = rng.pick([{'lineup': rng.pick(['default', 'temp', 'memtmp', 'convtmp'])}, {'fmax': rng.pick([0, 50, 31457280])},
                                     {'charset': rng.pick(['utf-8', 'windows-1252'])}, {'nmax': rng.pick([1, 2])}, {'dmax': rng.pick([10, 60])},
                                     {'mhs': rng.pick([1, 500])}])
    if dies:
        ops = dry(lambda: ops_of(plan), 0)
        if ops:
            plan['crash'] = rng.below(ops)
    return plan


def ops_of(plan):
    with Sim() as sim:
        r, o = serve(sim, plan['reqs'][0], make_settings(sim, cfg_for(plan, plan['reqs'][0])))
        attempt(sim, r.close)
        return sim.disk.total_ops


class Own(UH.FileUploadHandler, object):
    """A handler that the application puts in front for one request."""

    def __init__(self, how):
        super(Own, self).__init__(None)
        self.how = how

    def new_file(self, *a, **k):
        super(Own, self).new_file(*a, **k)
        if self.how == 'stop':
            raise UH.StopUpload(connection_reset=True)
        if self.how == 'skip':
            raise UH.SkipFile()

    def receive_data_chunk(self, raw_data, start):
        return raw_data.upper() if self.how == 'upper' else raw_data

    def file_complete(self, file_size):
        return None


def serve(sim, q, s):
    """One request, up to the moment the application has looked at it."""
    b = C10.data_of(q)
    obj, st = make_stream(b.data, q['stream'], sim)
    r = RQ.HttpRequest(obj, s)
    if q.get('handler'):
        if q['handler'] not in ('upper', 'stop', 'skip'):
            raise Invalid('handler')
        r.upload_handlers.insert(0, Own(q['handler']))
    e = C10.apply(sim, r, q['ops'], [])
    return r, C10.look(sim, r, e, q['spec'])


def finish(sim, r, what, fired):
    _, e = attempt(sim, r.close)
    if e is not None and not fired:
        fail('close failed', '%s: close() raised %s', what, exc_name(e))


def weigh(*more):
    """How much the modules of the library hold, by number of items and characters."""
    seen = set()
    total = [0]
    todo = [m for n, m in sorted(sys.modules.items()) if m is not None and n.split('.')[0] == 'request_parser' and '.tests' not in n] + list(more)

    def own(x):
        m = getattr(x, '__module__', None)
        return isinstance(m, str) and m.split('.')[0] == 'request_parser'
    while todo:
        x = todo.pop()
        if isinstance(x, (str, unicode)):
            total[0] += len(x)
            continue
        if x is None or isinstance(x, (int, long, float, bool)) or id(x) in seen:
            continue
        seen.add(id(x))
        total[0] += 1
        if isinstance(x, dict):
            todo += list(x.keys())
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, types.ModuleType):
            if (getattr(x, '__name__', '') or '').split('.')[0] == 'request_parser':
                todo += [v for k, v in vars(x).items() if not k.startswith('__')]
        elif isinstance(x, (types.FunctionType,)):
            if own(x):
                todo += list(x.func_defaults or ())
                todo += list(vars(x).values())
                todo += [c.cell_contents for c in x.func_closure or ()]
        elif isinstance(x, types.MethodType):
            todo.append(x.im_func)
        elif isinstance(x, (staticmethod, classmethod, property)):
            pass
        elif isinstance(x, (type, types.ClassType)):
            if own(x):
                todo += list(vars(x).values())
        elif type(x).__name__ == 'deque':
            todo += list(x)
        elif own(x) or own(type(x)) or isinstance(x, types.InstanceType):
            try:
                todo += list(vars(x).values())
            except TypeError:
                pass
    return total[0]


def cfg_for(plan, q):
    cfg = dict(plan['cfg'])
    if not plan.get('shared'):
        cfg.update(q.get('cfg') or {})
    if cfg.get('lineup') == 'mem':
        raise Invalid('cfg')
    return cfg


def message(kind, n):
    """A small request, its form and its file."""
    n = str(n)
    head = 'POST /p%s?q%s=v%s HTTP/1.1\r\nHost: h%s.example\r\nX-Of-%s: value %s\r\nContent-Type: ' % (n, n, n, n, n, n)
    if kind == 'get':
        return 'GET' + head[4:-14] + '\r\n', {}, {}
    if kind == 'form':
        body = 'f%s=%s&g=%s' % (n, n, n)
        return head + 'application/x-www-form-urlencoded; charset=utf-8; n=%s\r\nContent-Length: %d\r\n\r\n' % (n, len(body)) + body, {'f' + n: n, 'g': n}, {}
    if kind == 'header':
        return head[:head.index(' HTTP')] + ' and more HTTP/1.1\r\n\r\n', None, None
    body = '--B%s\r\nContent-Disposition: form-data; name="f%s"\r\n\r\n%s\r\n' % (n, n, n)
    body += '--B%s\r\nContent-Disposition: form-data; name="u%s"; filename="n%s.x%s"\r\nContent-Type: a/b; p%s=%s\r\n\r\ncontent %s\r\n' % (n, n, n, n, n, n, n)
    if kind == 'refused':
        body += '--B%s\r\nContent-Disposition: form-data; name="h%s"\r\n\r\n%s\r\n' % (n, n, 'x' * 100)
    body += '--B%s--\r\n' % n
    return head + 'multipart/form-data; boundary=B%s\r\nContent-Length: %d\r\n\r\n' % (n, len(body)) + body, {'f' + n: n}, {'u' + n: 'content ' + n}


def many(plan):
    """Any number of requests: each is right, and nothing of them is kept."""
    total = plan['many']
    if not 8 <= total <= 400 or not plan['kinds']:
        raise Invalid('many')
    new_process()
    with Sim() as sim:
        s = make_settings(sim, {'lineup': 'default', 'mhs': 64, 'chunk': max(1, plan.get('chunk') or 65536), 'fmax': 31457280, 'dmax': 90})
        disk = make_settings(sim, {'lineup': 'temp', 'mhs': 64, 'chunk': max(1, plan.get('chunk') or 65536), 'fmax': 0})
        sizes = []
        held = []
        for i in range(total):
            kind = plan['kinds'][i % len(plan['kinds'])]
            if kind not in KINDS:
                raise Invalid('kind')
            data, post, files = message(kind, i if plan.get('distinct') else 7)
            st = {'name': '', 'cuts': [50]}
            if kind == 'cut':
                st['end'] = len(data) - 20
            if kind == 'error':
                st['fault'] = {'at': len(data) - 20, 'err': 'EIO', 'after': 'raise'}
            obj, st = make_stream(data, st, sim)
            r = RQ.HttpRequest(obj, disk if kind == 'disk' else s)
            _, e = attempt(sim, r.parse)
            what = 'request %d (%s)' % (i, kind)
            if kind in ('error', 'refused', 'header'):
                if e is None:
                    fail('differs from alone', '%s succeeded', what)
            elif e is not None:
                fail('differs from alone', '%s raised %s', what, exc_name(e))
            else:
                n = str(i if plan.get('distinct') else 7)
                must('differs from alone', plain(r.GET.get('q' + n)), plain(u'v' + n), what + ': query')
                must('differs from alone', sorted((plain(k), plain(v['data'] if isinstance(v, dict) else v)) for k, v in r.POST.items()),
                     sorted((plain(unicode(k)), plain(unicode(v))) for k, v in post.items()), what + ': form')
                if kind != 'cut':
                    must('differs from alone', sorted((plain(k), f.read()) for k, f in r.FILES.items()), sorted((plain(unicode(k)), v) for k, v in files.items()), what + ': files')
            if plan.get('close') or kind == 'disk':
                held.append(r)
            while len(held) > (plan.get('hold') or 0):
                attempt(sim, held.pop(0).close)
            r = obj = st = e = None
            if (i + 1) % (total // 4) == 0:
                sizes.append(weigh(s, disk))
        for r in held:
            attempt(sim, r.close)
        rest = residue(sim)
        if rest:
            fail('file left', '%s is left after %d requests', rest[0], total)
        if sim.disk.open_fds:
            fail('descriptor left', '%d files are open after %d requests', sim.disk.open_fds, total)
        if len(sizes) > 3 and sizes[0] < sizes[1] < sizes[2] < sizes[3]:
            fail('growth', 'what the library holds grows with the number of requests: %s', sizes)
        sim.probe('many requests')
        digest(sim, total)
        return True


def run(plan):
    if plan.get('many'):
        return many(plan)
    cfg = plan['cfg']
    if cfg.get('lineup') == 'mem' or not plan['reqs'] or not 1 <= plan['rounds'] <= 5:
        raise Invalid('cfg')
    alone = []
    for q in plan['reqs']:
        new_process()
        with Sim() as sim:
            r, o = serve(sim, q, make_settings(sim, cfg_for(plan, q)))
            attempt(sim, r.close)
            alone.append(o)
    left = None
    if plan.get('crash') is not None:
        # an earlier process that died while it parsed the first of them
        new_process()
        with Sim({'faults': [{'op': '*', 'nth': plan['crash'], 'err': 'CRASH'}]}) as sim:
            s = make_settings(sim, cfg_for(plan, plan['reqs'][0]))
            b = C10.data_of(plan['reqs'][0])
            obj, st = make_stream(b.data, plan['reqs'][0]['stream'], sim)
            r = RQ.HttpRequest(obj, s)
            C10.apply(sim, r, plan['reqs'][0]['ops'], [])
            attempt(sim, r.close)
            left = sim.disk
            crashed = left.crashed
    new_process()
    with Sim() as sim:
        d = sim.disk
        if left is not None:
            d.adopt(left)
            sim.probe('after a crash' if crashed else 'after another process')
            if d.files(foreign=True):
                sim.probe('files left by a crash')
        settings = []
        s = make_settings(sim, cfg)
        was = C10.settings_state(s)
        held = []
        sizes = []
        for k in range(plan['rounds']):
            for i, q in enumerate(plan['reqs']):
                what = 'request %d of round %d' % (i, k)
                if not plan.get('shared'):
                    s = make_settings(sim, cfg_for(plan, q))
                    was = C10.settings_state(s)
                fired = len(d.fired)
                if q.get('disk'):
                    d.counts, d.total_ops = {}, 0
                    d.faults = [dict(q['disk'])]
                r, o = serve(sim, q, s)
                broken = len(d.fired) > fired
                d.faults = []
                if not broken:
                    must('differs from alone', o, alone[i], '%s: ' % what)
                else:
                    sim.probe('disk failure in one request')
                must('settings changed', C10.settings_state(s), was, '%s: settings' % what)
                held.append((q.get('hold') or 0, r, o, what, broken))
                now, held = [h for h in held if h[0] <= 0], [(h[0] - 1,) + h[1:] for h in held if h[0] > 0]
                for _, r0, o0, what0, broken0 in now:
                    if r0 is not r and not broken0:
                        files, e = attempt(sim, snap_files, r0.FILES)
                        must('earlier request affected', files if e is None else err_kind(e), o0['files'], '%s, after %s: ' % (what0, what))
                        must('earlier request affected', plain(r0.POST), o0['post'], '%s, after %s: ' % (what0, what))
                        sim.probe('open while another was served')
                    finish(sim, r0, what0, broken0)
            for _, r0, o0, what0, broken0 in held:
                finish(sim, r0, what0, broken0)
            held = []
            rest = residue(sim)
            if rest:
                fail('file left', '%s is left after %d rounds', rest[0], k + 1)
            if d.open_fds and not d.fired:
                fail('descriptor left', '%d files are open after every request of round %d was closed', d.open_fds, k)
            check_disk(sim)
            if plan['rounds'] > 1:
                sizes.append(weigh(s))
        if len(sizes) > 2 and plan.get('shared') and sizes[-1] > sizes[-2] > sizes[0]:
            fail('growth', 'what the library holds grows with every round of the same requests: %s', sizes)
        digest(sim, alone)
        return len(plan['reqs']) * plan['rounds'] > 1
