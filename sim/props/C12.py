"""Temporary upload files are contained, never clobber, and are cleaned up."""
from lib import *
from props.C07 import place
import handlers as HD

NASTY = ['../../etc/x.txt', '/etc/passwd', 'a.txt/../../b', 'x.tar/../y', 'f./x', 'name.\0txt', 'a.' + 'e' * 300, 'b' * 300 + '.txt', '..', '.', 'con.txt', '~/.ssh/x',
         'x./../../../evil', 'a.b/c.d', 'x.\xe9\xe8', 'a. .b', 'a.sh;rm -rf', '$(x).y', 'a.%2f..', 'a.t\txt', 'a.*', 'x.\\..\\..\\y', 'up.d/.hidden', '.', 'x.\xff\xfe']


def gen(rng, tier):
    spec = G.gen_request(rng, 'multi', rng.pick([20, 200, 3000]), {'mix': [(6, 'file'), (2, 'field')], 'parts': rng.weighted([(3, 1), (3, 2), (2, 4)])})
    for p in spec['parts']:
        if p['k'] == 'file' and rng.chance(.5):
            p['fn'] = rng.pick(NASTY)
            p['star'] = False
    G.fix_boundary(spec)
    try:
        b = G.build(spec)
    except Invalid:
        for p in spec['parts']:
            if p['k'] == 'file' and p['fn'] in NASTY:
                p['fn'] = 'a' + p['fn'].replace('\0', '').rstrip('/.\\ ') + 'z'
        b = G.build(spec)
    cfg = {'lineup': rng.weighted([(4, 'default'), (4, 'temp'), (3, 'memtmp'), (1, 'convtmp'), (1, 'tmptmp'), (1, 'tmpconv')]), 'mhs': 16, 'chunk': G.gen_chunk(rng, b)}
    cfg['fmax'] = rng.weighted([(2, 0), (1, 50), (1, 500), (1, 31457280)])
    st = G.gen_cuts(rng, b)
    how = rng.weighted([(3, 'ok'), (2, 'fault'), (1, 'end'), (2, 'limit'), (2, 'script'), (3, 'disk'), (1, 'damage')])
    d = {'bufsize': rng.pick([8192, 1, 100]), 'collide': rng.weighted([(3, 0), (1, 1), (1, rng.between(2, 9))]), 'keepbuf': rng.chance(.5), 'nt': rng.chance(.15)}
    plan = {'spec': spec, 'stream': st, 'cfg': cfg, 'disk': d, 'how': how, 'script': None, 'foreign': rng.sample(
        ['a.txt', 'tmpx.upload.txt', 'photo.JPG', 'passwd', 'x.upload'], rng.below(3)), 'after': rng.weighted([(4, 'close'), (2, 'each'), (1, 'reuse'), (1, 'moved'), (1, 'twice')])}
    if how == 'fault':
        st['fault'] = {'at': place(rng, b, len(b.data)), 'err': rng.pick(sorted(core.ERRORS)), 'after': rng.pick(['eof', 'raise'])}
    elif how == 'end':
        st['end'] = place(rng, b, len(b.data))
    elif how == 'limit':
        cfg['dmax'] = rng.below(60)
        cfg['nmax'] = rng.pick([None, 1, 2])
    elif how == 'script':
        plan['script'] = [{'do': rng.pick(['skip', 'stop', 'reset', 'error', 'baseerror']), 'call': rng.pick(['new', 'chunk', 'chunk', 'complete', 'end', 'raw']),
                           'file': rng.below(3), 'chunk': rng.small(5)}]
        plan['last'] = rng.chance(.5)
        # a handler of the application that returns files of its own
        plan['object'] = rng.chance(.25)
    elif how == 'damage':
        plan['cut'] = [b.head_len + rng.below(len(b.body)), rng.between(1, 5), rng.pick(['', '"', '\r\n', '\0', '\xff'])]
    elif how == 'disk':
        n = dry_ops(plan)
        if n:
            for _ in range(rng.weighted([(4, 1), (1, 2)])):
                d.setdefault('faults', []).append({'op': '*', 'nth': rng.below(n + 3), 'err': rng.pick(['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS']),
                                                   'last': rng.chance(.3), 'torn': rng.pick([0, 0, 1, 10])})
    return plan


def dry_ops(plan):
    def once():
        with Sim(plan['disk']) as sim:
            go(plan, sim)
            return sim.disk.total_ops
    return dry(once, 0)


def go(plan, sim):
    spec, cfg = plan['spec'], plan['cfg']
    b = G.build(spec)
    s = make_settings(sim, cfg_of(spec, cfg))
    for n in plan.get('foreign') or []:
        sim.disk.add_file(UP + '/' + n, 'belongs to someone else: ' + n)
        sim.disk.add_file(disk.CWD + '/' + n, 'belongs to the application: ' + n)
    if plan.get('cut'):
        a, n, x = plan['cut']
        b.data = b.data[:a] + x + b.data[a + n:]
        sim.fault('damage: cut')
    if plan.get('script') is not None:
        HD.install(s, cfg, plan['script'], plan.get('last'), sim)
        HD.S.behave = [{'object': bool(plan.get('object'))}]
    r, st = new_request(sim, b, plan['stream'], s)
    _, e = attempt(sim, r.parse)
    return b, s, r, st, e


def run(plan):
    with Sim(plan.get('disk')) as sim:
        d = sim.disk
        b, s, r, st, e = go(plan, sim)
        check_disk(sim)
        on_disk = [f for f in files_of(r) if is_disk(f)]
        if e is not None:
            if on_disk:
                fail('exposed after failure', 'FILES holds a temporary file after %s', exc_name(e))
            left = residue(sim)
            if left:
                fail('left after failure', '%s is left after parse() raised %s', left[0], exc_name(e))
            sim.probe('failed parse')
        else:
            want = {}
            for f in on_disk:
                p = f.temporary_file_path()
                if p in d.excused:
                    continue
                node = d.nodes.get(p)
                if node is None:
                    fail('file gone', 'the temporary file of %s is not there after the parse', short(plain(f.name)))
                if os_dirname(p) != UP:
                    fail('disk place', 'temporary file at %s', p)
                want[p] = node
            left = residue(sim)
            if sorted(left) != sorted(p for p in want):
                extra = [p for p in left if p not in want]
                fail('left after upload', '%s is no uploaded file of this request', extra[0] if extra else left)
            if not d.fired and plan['how'] in ('ok', 'disk'):
                files, e2 = attempt(sim, snap_files, r.FILES)
                if e2 is None:
                    must('files differ', files, dict((k, [dict(x, name=y['name']) for x, y in zip(v, files.get(k, []) or v)]) for k, v in want_files(b).items()), 'FILES')
                    for f in on_disk:
                        node = want.get(f.temporary_file_path())
                        data, e2 = attempt(sim, f.read)
                        if e2 is not None:
                            continue
                        attempt(sim, f.seek, 0)
                        if node is not None and node.get() != data:
                            fail('files differ', 'the temporary file does not hold the upload')
            if on_disk:
                sim.probe('uploaded to disk')
        # the client's name steers nothing but a harmless suffix
        for p in d.created:
            base = p[len(UP) + 1:]
            if len(base) > 255 or not base or base.startswith('.'):
                fail('disk place', 'file created at %s', short(p))
        after = plan.get('after')
        if after == 'each':
            for i, f in enumerate(on_disk):
                p = f.temporary_file_path()
                _, e2 = attempt(sim, f.close)
                if e2 is not None and not d.fired:
                    fail('close failed', 'close() of a file raised %s', exc_name(e2))
                if p in d.nodes and p not in d.excused:
                    fail('left after close', '%s is left after its file was closed', p)
                for g in on_disk[i + 1:]:
                    if g.temporary_file_path() not in d.nodes and g.temporary_file_path() not in d.excused:
                        fail('file gone', 'closing one file removed another')
        elif after == 'moved' and on_disk:
            # the application has taken the file away
            p = on_disk[0].temporary_file_path()
            node = d.nodes.pop(p, None)
            if node is not None:
                d.add_file(disk.VROOT + '/kept', node.get())
        elif after == 'twice':
            attempt(sim, r.close)
        _, e2 = attempt(sim, r.close)
        if e2 is not None and not d.fired:
            fail('close failed', 'close() raised %s', exc_name(e2))
        left = residue(sim)
        if left:
            fail('left after close', '%s is left after close()', left[0])
        if d.open_fds and not d.fired:
            sim.probe('descriptor open after close')
        check_disk(sim)
        if after == 'reuse':
            b2 = G.build(plan['spec'])
            obj, st2 = make_stream(b2.data, {'name': 'again'}, sim)
            r.stream = obj
            _, e3 = attempt(sim, r.parse)
            attempt(sim, r.close)
            left = residue(sim)
            if left:
                fail('left after close', '%s is left after a second request and close()', left[0])
            check_disk(sim)
        digest(sim, err_kind(e), plain(r.POST))
        return bool(d.created) or e is not None


def os_dirname(p):
    return p[:p.rfind('/')]
