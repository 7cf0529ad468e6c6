"""A disk failure during an upload surfaces and corrupts nothing."""
from lib import *

ERRS = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'ENFILE', 'EDQUOT', 'ENOENT', 'EPERM', 'EFBIG']


def gen(rng, tier):
    spec = G.gen_request(rng, 'multi', rng.pick([20, 300, 5000, 30000]), {'mix': [(7, 'file'), (2, 'field')], 'parts': rng.weighted([(3, 1), (3, 2), (2, 4)]), 'plainfn': rng.chance(.7)})
    b = G.build(spec)
    cfg = {'lineup': rng.weighted([(4, 'default'), (3, 'temp'), (2, 'memtmp')]), 'mhs': 16, 'chunk': G.gen_chunk(rng, b)}
    cfg['fmax'] = rng.weighted([(3, 0), (1, rng.below(50)), (2, rng.below(len(b.body) + 1))])
    d = {'bufsize': rng.weighted([(4, 8192), (2, 1), (2, 100), (1, 1000)]), 'keepbuf': rng.chance(.6), 'nt': rng.chance(.12)}
    plan = {'spec': spec, 'stream': G.gen_cuts(rng, b), 'cfg': cfg, 'disk': d, 'gone': None}
    def once():
        with Sim(d) as sim:
            s = make_settings(sim, cfg_of(spec, cfg))
            r, st = new_request(sim, b, {}, s)
            attempt(sim, r.parse)
            out = list(sim.disk.trace), sim.disk.used()
            attempt(sim, r.close)
            return out
    trace, used = dry(once, (['create', 'write', 'write'], 10))
    if not trace:
        raise Invalid('no disk')
    k = rng.below(10)
    if k == 0:
        d['capacity'] = rng.below(used + 1)
    elif k == 1:
        plan['gone'] = rng.pick(['removed', 'readonly', 'file'])
    else:
        i = rng.below(len(trace))
        if rng.chance(.6):
            # equally often each kind of operation
            op = rng.pick(sorted(set(trace)))
            i = rng.pick([j for j in range(len(trace)) if trace[j] == op])
        d['faults'] = [{'op': trace[i], 'nth': len([x for x in trace[:i] if x == trace[i]]), 'err': rng.pick(ERRS), 'last': rng.chance(.4),
                        'torn': rng.pick([0, 0, 1, 50, 100000])}]
        if rng.chance(.15):
            d['faults'].append({'op': rng.pick(['close', 'unlink']), 'nth': rng.below(2), 'err': 'EIO', 'last': rng.chance(.5)})
    return plan


def run(plan):
    spec, cfg = plan['spec'], plan['cfg']
    b = G.build(spec)
    if cfg.get('lineup') == 'mem' or spec['kind'] != 'multi':
        raise Invalid('line-up')
    dp = plan.get('disk') or {}
    if [f for f in dp.get('faults') or [] if f['op'] == '*' or f['err'] == 'EEXIST']:
        raise Invalid('fault')
    with Sim(dp) as sim:
        d = sim.disk
        s = make_settings(sim, cfg_of(spec, cfg))
        gone = plan.get('gone')
        if gone == 'removed':
            del d.nodes[UP]
        elif gone == 'readonly':
            d.nodes[UP].mode = 0500
        elif gone == 'file':
            del d.nodes[UP]
            d.add_file(UP, 'not a directory')
        if gone:
            sim.fault('directory ' + gone)
        r, st = new_request(sim, b, plan['stream'], s)
        _, e = attempt(sim, r.parse)
        bad = [f for f in d.fired if f[0] in ('create', 'write', 'seek', 'truncate', 'fsync', 'open')]
        where = 'disk failures %s%s' % (bad[:3], ', upload directory ' + gone if gone else '')
        if e is None:
            if bad:
                fail('failure swallowed', '%s: parse() succeeded', where)
            if gone and [f for f in files_of(r) if is_disk(f)]:
                fail('failure swallowed', '%s: parse() succeeded', where)
            files, e2 = attempt(sim, snap_files, r.FILES)
            if e2 is not None:
                # a failure that only happens on reading
                if not d.fired:
                    fail('file unreadable', 'reading the files raised %s', exc_name(e2))
            else:
                must('files differ', files, want_files(b), 'FILES')
                must('fields differ', snap_post(r.POST), b.post, 'POST')
            sim.probe('no failure reached')
        else:
            if not bad and not gone:
                fail('refused', 'no disk failure, but parse() raised %s', exc_name(e))
            if not isinstance(e, (IOError, OSError)):
                fail('wrong error', '%s: parse() raised %s', where, exc_name(e))
            if plain(r.FILES) or plain(r.POST):
                fail('exposed after failure', '%s: FILES %s', where, short(plain(r.FILES)))
            left = residue(sim)
            if left:
                fail('left after failure', '%s: %s is left', where, left[0])
            sim.probe('failure surfaced')
        attempt(sim, r.close)
        # the disk recovers
        d.heal()
        if gone in ('removed', 'file'):
            d.nodes.pop(UP, None)
            d.add_dir(UP)
        elif gone == 'readonly':
            d.nodes[UP].mode = 0755
        obj, st2 = make_stream(b.data, {'name': 'retry'}, sim)
        r.stream = obj
        _, e2 = attempt(sim, r.parse)
        if e2 is not None:
            fail('no recovery', 'after %s and recovery parse() raised %s', where, exc_name(e2))
        files, e2 = attempt(sim, snap_files, r.FILES)
        if e2 is not None:
            fail('no recovery', 'after %s and recovery reading the files raised %s', where, exc_name(e2))
        must('no recovery', files, want_files(b), 'after recovery FILES')
        must('no recovery', snap_post(r.POST), b.post, 'after recovery POST')
        attempt(sim, r.close)
        left = residue(sim)
        if left:
            fail('left after failure', 'after recovery and close() %s is left', left[0])
        check_disk(sim)
        digest(sim, err_kind(e), files)
        return bool(d.fired or gone)
