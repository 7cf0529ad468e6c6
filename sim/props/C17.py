"""Upload-directory checks are truthful, traceless and safe in parallel."""
from lib import *
from lib import dry as lib_dry

ERRS = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EPERM', 'ENOENT', 'ENFILE', 'EDQUOT', 'EINTR']
INITS = ('absent', 'present', 'left-overs', 'readonly', 'full', 'file', 'no parent', 'parent readonly', 'parent file')
USABLE = ('absent', 'present', 'left-overs')
LATER = ('gone', 'present', 'file', 'readonly', 'full', 'create fails', 'write fails')
OPS = ('create', 'write', 'close', 'unlink', 'mkdir', 'stat', 'seek', '*')


def gen(rng, tier):
    n = rng.weighted([(3, 1), (5, 2), (2, 3), (1, 4)])
    kind = rng.weighted([(6, 'abs'), (2, 'slash'), (1, 'dots'), (2, 'relative'), (1, 'default'), (1, 'unicode'), (1, 'long')])
    init = rng.weighted([(5, 'absent'), (3, 'present'), (2, 'left-overs'), (1, 'readonly'), (1, 'full'), (1, 'file'), (1, 'no parent'), (1, 'parent readonly'),
                         (1, 'parent file')])
    if kind in ('relative', 'default') and init in ('no parent', 'parent readonly', 'parent file'):
        init = 'absent'
    d = {'bufsize': rng.pick([8192, 1, 7]), 'keepbuf': rng.chance(.5), 'collide': rng.weighted([(5, 0), (1, 1), (1, rng.between(2, 6))])}
    plan = {'n': n, 'kind': kind, 'init': init, 'disk': d, 'first': rng.below(n), 'switches': [], 'crash': None, 'upload': rng.chance(.3)}
    mode = rng.weighted([(4, 'healthy'), (3, 'transient'), (2, 'persistent'), (2, 'crash')])
    if mode in ('transient', 'persistent'):
        d['faults'] = [{'op': rng.pick(OPS), 'nth': rng.weighted([(3, 0), (2, rng.below(4)), (1, rng.below(12))]), 'err': rng.pick(ERRS), 'last': mode == 'persistent',
                        'torn': rng.pick([0, 0, 5])} for _ in range(rng.weighted([(3, 1), (1, 2)]))]
        if rng.chance(.2):
            d['capacity'] = rng.below(30)
    elif mode == 'crash':
        plan['crash'] = rng.below(9)
    if kind in ('abs', 'slash', 'dots', 'unicode') and init in ('absent', 'present', 'left-overs', 'readonly', 'full', 'file') and rng.chance(.4):
        # what happens to the directory afterwards, each followed by another check
        plan['later'] = [[rng.pick(LATER), rng.pick(ERRS)] for _ in range(rng.between(1, 5))]
    sim = lib_dry(lambda: run(plan, dry=True), None)
    total = sim.yields if sim is not None else 0
    if sim is not None and n > 1 and rng.chance(.4):
        plan['switches'] = focus(rng, sim, n, plan['first'])
    elif n > 1 and total:
        at = set(rng.below(total) for _ in range(rng.weighted([(4, rng.between(1, 4)), (3, rng.between(5, 40))])))
        plan['switches'] = [[i, rng.below(n)] for i in sorted(at)]
    return plan


def target(kind):
    """(what the application gives, the directory it means)"""
    pkg = disk.PKG[0]
    if kind == 'abs':
        return UP, UP
    if kind == 'slash':
        return UP + '//', UP
    if kind == 'dots':
        return disk.VROOT + '/./x/../up', UP
    if kind == 'relative':
        return 'files/spool', pkg + '/files/spool'
    if kind == 'default':
        return None, pkg + '/files/file_uploads'
    if kind == 'unicode':
        return unicode(UP), UP
    if kind == 'long':
        return UP + 'n' * 100, UP + 'n' * 100
    raise Invalid('kind')


def prepare(d, init, path):
    parent = path[:path.rfind('/')]
    if init in ('present', 'left-overs', 'readonly', 'full'):
        d.add_dir(path)
    if init in ('present', 'left-overs'):
        d.add_file(path + '/mine.txt', 'a file of someone else')
    if init == 'left-overs':
        for n in ('acdr423x.tmp', 'acdr423x', 'acdr423xq1aaa.tmp', 'tmpq1aaa.upload', 'test', 'x.tmp'):
            d.add_file(path + '/' + n, 'left by an earlier process: ' + n)
    if init == 'readonly':
        d.nodes[path].mode = 0500
    if init == 'file':
        d.add_file(path, 'this is a file')


def build(kind):
    given, path = target(kind)
    if given is None:
        return Settings.default(check_presence=True)
    return Settings({K.FILE_UPLOAD_DIR: given})


def run(plan, dry=False):
    kind, init, n = plan['kind'], plan['init'], plan['n']
    given, path = target(kind)
    virtual = path.startswith(disk.VROOT)
    if init not in INITS or n < 1 or n > 6 or not virtual and init.find('parent') >= 0:
        raise Invalid('plan')
    old = None
    if plan.get('crash') is not None:
        dp = dict(plan['disk'])
        dp['faults'] = [{'op': '*', 'nth': plan['crash'], 'err': 'CRASH'}]
        with Sim(dp) as sim:
            d = sim.disk
            start(d, init, path)
            _, e = attempt(sim, build, kind)
            if d.crashed:
                sim.probe('crashed')
            elif e is not None and not isinstance(e, InvalidDirectory):
                fail('wrong error', 'building settings raised %s', exc_name(e))
            old = d
    with Sim(plan['disk'], plan['switches'], True) as sim:
        d = sim.disk
        if old is None:
            start(d, init, path)
        else:
            d.adopt(old)
            d.arm()
            if init == 'full':
                d.capacity = d.used()
        if init == 'full':
            d.capacity = d.used()
        res = sim.run_tasks([lambda: build(kind) for _ in range(n)], plan.get('first', 0))
        if dry:
            return sim
        failed = 0
        for i, (s, e) in enumerate(res):
            if isinstance(e, core.Deadlock):
                raise e
            if isinstance(e, core.StepLimit):
                raise e
            if e is not None:
                failed += 1
                if not isinstance(e, InvalidDirectory):
                    fail('wrong error', 'building settings raised %s (directory: %s, disk failures %s)', exc_name(e), init, d.fired[:3])
                continue
            got = plain(s.FILE_UPLOAD_TEMP_DIR)
            if got != path:
                fail('wrong directory', 'settings for %s have the directory %s', short(given), short(got))
            node = d.lookup(path)
            if node is None or node.kind != 'd':
                fail('untruthful', 'settings are returned, but %s is no directory (at first: %s)', path, init)
            if init not in USABLE:
                fail('untruthful', 'settings are returned for a directory that takes no files (%s)', init)
            if d.capacity is not None and d.capacity <= 0:
                fail('untruthful', 'settings are returned though the disk is full')
        faults = d.faults
        lasting = [f for f in faults if f.get('last') and f['nth'] == 0 and f['op'] in ('create', 'write')]
        if lasting and failed < n and [f for f in d.fired if f[0] in ('create', 'write')]:
            fail('untruthful', 'settings are returned though every %s fails', lasting[0]['op'])
        if init in USABLE and d.capacity is None and len(path) < 250:
            limit = len(d.fired) if not [f for f in faults if f.get('last')] else n
            if failed > limit:
                fail('refused', '%d of %d builders failed (directory at first: %s, disk failures: %s): %s', failed, n, init, d.fired[:3],
                     [exc_name(e) for s, e in res if e is not None][0])
        left = [p for p in d.files() + d.files(disk.PKG[0]) if p not in d.excused]
        if left:
            fail('probe left', '%s is left behind (disk failures: %s)', left[0], d.fired[:3])
        bad = d.foreign_damage()
        if bad:
            fail('clobber', 'a file of someone else: %s', bad[0])
        if d.escapes:
            fail('escape', d.escapes[0])
        dirs = [p for p in d.made_dirs if p != path]
        if dirs:
            fail('escape', 'the directory %s was made', dirs[0])
        if d.open_fds and not [f for f in d.fired]:
            fail('descriptor left', '%d files are left open', d.open_fds)
        if plan.get('upload') and not failed and virtual:
            # what was promised
            d.heal()
            s = res[-1][0]
            f, e = attempt(sim, UFM.TemporaryUploadedFile, 'a.txt', 'text/plain', 0, None, s)
            if e is not None:
                fail('untruthful', 'the directory takes no file: %s', exc_name(e))
            attempt(sim, f.close)
        if virtual and init.find('parent') < 0:
            for what, err in plan.get('later') or []:
                later(sim, d, kind, path, what, err)
        sim.probe('%d builders' % n)
        sim.probe('refused' if failed else 'accepted')
        digest(sim, [err_kind(e) for s, e in res])
        return n > 1 and sim.switched > 0 or bool(d.fired) or init != 'present' or plan.get('crash') is not None


def start(d, init, path):
    parent = path[:path.rfind('/')]
    if init == 'no parent':
        # the parent of the directory
        d.nodes.pop(parent, None)
    elif init == 'parent readonly':
        d.nodes[parent].mode = 0500
    elif init == 'parent file':
        d.nodes.pop(parent, None)
        d.add_file(parent, 'this is a file')
    else:
        prepare(d, init, path)
    d.arm()


def later(sim, d, kind, path, what, err):
    """The directory changes, and settings are built again."""
    d.heal()
    node = d.nodes.get(path)
    if what == 'gone' or what == 'file' or node is not None and node.kind != 'd':
        for p in [p for p in d.nodes if p == path or p.startswith(path + '/')]:
            del d.nodes[p]
    if what == 'file':
        d.add_file(path, 'this is a file now')
    elif what != 'gone' and path not in d.nodes:
        d.add_dir(path)
    if what == 'readonly':
        d.nodes[path].mode = 0500
    elif what == 'full':
        d.capacity = d.used()
    elif what in ('create fails', 'write fails'):
        op = what.split()[0]
        d.faults = [{'op': op, 'nth': d.counts.get(op, 0), 'err': err, 'last': True}]
        d.healed = False
    elif what not in LATER:
        raise Invalid('later')
    fired = len(d.fired)
    s, e = attempt(sim, build, kind)
    fired = d.fired[fired:]
    sim.probe('later ' + what)
    if e is not None and not isinstance(e, InvalidDirectory):
        if isinstance(e, (core.Deadlock, core.StepLimit)):
            raise e
        fail('wrong error', 'building settings raised %s (the directory later: %s, disk failures %s)', exc_name(e), what, fired[:3])
    node = d.lookup(path)
    if what in ('gone', 'present'):
        if e is not None:
            fail('refused', 'a usable directory (%s after an earlier check) is refused: %s', what, exc_name(e))
    elif e is None and (what != 'write fails' or fired):
        fail('untruthful', 'settings are returned again though the directory takes no files by now (%s)', what)
    if e is None and (node is None or node.kind != 'd'):
        fail('untruthful', 'settings are returned again, but %s is no directory by now (%s)', path, what)
    left = [p for p in d.files() if p not in d.excused]
    if left:
        fail('probe left', '%s is left behind by a later check (%s)', left[0], what)
    bad = d.foreign_damage()
    if bad:
        fail('clobber', 'a file of someone else: %s', bad[0])
