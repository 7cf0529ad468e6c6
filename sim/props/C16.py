"""Uploaded files read back exactly, in memory or on disk."""
import re

from lib import *

LINES = re.compile('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+')


def gen(rng, tier):
    n = rng.weighted([(4, 1), (3, 2), (1, 3)])
    size = rng.pick([5, 60, 600, 5000] if tier == 'quick' else [5, 60, 600, 5000, 200000])
    spec = G.gen_request(rng, 'multi', size, {'mix': [(1, 'file')], 'parts': n, 'plainfn': True})
    for p in spec['parts']:
        if rng.chance(.6):
            # much line structure
            p['body'] = [['pick', rng.below(10000), rng.below(size) + 1, rng.pick(['\r\n', 'a\r\n', 'ab\r\n\r', '\n', '\r', 'a\x0b\x0c\x1c\x1e\x85\r\n', 'a\r'])]]
        p['te'] = None
    G.fix_boundary(spec)
    b = G.build(spec)
    cfg = {'mhs': 64, 'lineup': rng.weighted([(4, 'default'), (4, 'temp'), (2, 'mem')]), 'chunk': rng.pick([65536, 100])}
    cfg['fmax'] = 31457280 if cfg['lineup'] == 'mem' else rng.pick([0, 31457280, rng.below(size)])
    ops = []
    for _ in range(rng.weighted([(3, rng.between(1, 6)), (4, rng.between(6, 25)), (1, 60)])):
        i = rng.below(n)
        k = rng.weighted([(5, 'read'), (2, 'all'), (3, 'readline'), (1, 'readlines'), (4, 'seek'), (1, 'tell'), (3, 'chunks'), (2, 'somechunks'), (4, 'lines'), (2, 'somelines'),
                          (2, 'open'), (1, 'multiple'), (1, 'len'), (1, 'with')])
        x = 0
        if k == 'read':
            x = rng.weighted([(4, rng.below(size + 3)), (2, rng.below(6)), (1, -1)])
        elif k == 'seek':
            x = [rng.weighted([(3, rng.below(size + 3)), (3, 0), (2, rng.below(6))]), rng.weighted([(6, 0), (1, 1), (1, 2)])]
            if x[1] == 2:
                x[0] = -x[0]
        elif k in ('chunks', 'somechunks', 'lines', 'somelines', 'multiple'):
            x = [rng.weighted([(4, 1 + rng.below(8)), (3, 1 + rng.below(size + 2)), (1, 65536), (1, size)]), rng.below(5)]
        ops.append([i, k, x])
    plan = {'spec': spec, 'cfg': cfg, 'ops': ops, 'close': rng.chance(.3), 'simple': rng.chance(.12), 'disk': {'bufsize': rng.pick([8192, 1, 50]), 'nt': rng.chance(.15)}}
    if rng.chance(.25):
        plan['faults'] = [{'op': rng.weighted([(5, 'read'), (1, 'seek')]), 'nth': rng.below(12), 'err': rng.pick(['EIO', 'EACCES', 'ENOENT']), 'last': rng.chance(.3)}
                          for _ in range(rng.between(1, 2))]
    return plan


def run(plan):
    spec, cfg = plan['spec'], plan['cfg']
    if spec['kind'] != 'multi' or [p for p in spec['parts'] if p['k'] != 'file']:
        raise Invalid('kind')
    b = G.build(spec)
    if cfg.get('lineup') == 'mem' and cfg.get('fmax', 31457280) < len(b.body):
        raise Invalid('memory only')
    with Sim(plan.get('disk')) as sim:
        s = make_settings(sim, cfg_of(spec, cfg))
        r, st = new_request(sim, b, {}, s)
        _, e = attempt(sim, r.parse)
        if e is not None:
            fail('refused', 'parse() raised %s', exc_name(e))
        files = []
        left = dict((k, list(v)) for k, v in r.FILES.lists())
        for p in b.parts:
            v = left.get(p['name'].decode('utf-8'), left.get(p['name']))
            if not v:
                fail('file missing', 'no file %s', short(p['name']))
            f = v.pop(0)
            if plan.get('simple'):
                f = UFM.SimpleUploadedFile(p['value']['name'], p['raw'])
            files.append(One(sim, f, p['raw'], p['value']['name']))
        if not files:
            raise Invalid('no file')
        sim.disk.arm()
        sim.disk.faults = [dict(f) for f in plan.get('faults') or []]
        for i, k, x in plan['ops']:
            files[i % len(files)].do(k, x)
        sim.disk.faults = []
        for f in files:
            f.whole()
        if plan.get('close'):
            for f in files:
                # someone else's file of that name
                sim.disk.add_file(disk.CWD + '/' + f.name, 'not the upload')
                f.close()
        attempt(sim, r.close)
        check_disk(sim)
        return bool(plan['ops'])


class One(object):
    def __init__(self, sim, f, data, name):
        self.sim, self.f, self.data, self.name = sim, f, data, name
        self.pos = 0
        self.disk = is_disk(f)
        if f.size != len(data) or len(f) != len(data):
            fail('size', 'size %s, len() %s of %d bytes', f.size, len(f), len(data))
        sim.probe('on disk' if self.disk else 'in memory')

    def call(self, what, fn, *a):
        """The result, or None after a disk error (the file is rewound then)."""
        fired = len(self.sim.disk.fired)
        r, e = attempt(self.sim, fn, *a)
        hit = len(self.sim.disk.fired) > fired
        if e is None:
            if hit:
                fail('error swallowed', '%s succeeded in spite of a disk error', what)
            self.sim.log('%s %d' % (what, self.pos))
            return r, True
        if not hit:
            fail('wrong error', '%s raised %s', what, exc_name(e))
        if not isinstance(e, (IOError, OSError)):
            fail('wrong error', '%s: a disk error came out as %s', what, exc_name(e))
        faults, self.sim.disk.faults = self.sim.disk.faults, []
        _, e = attempt(self.sim, self.f.seek, 0)
        self.sim.disk.faults = faults
        if e is not None:
            fail('wrong error', 'seek(0) after a disk error raised %s', exc_name(e))
        self.pos = 0
        return None, False

    def got(self, what, r, want):
        if not isinstance(r, str) or r != want:
            fail('content', '%s at %d of a file %s returned %s, wanted %s', what, self.pos, 'on disk' if self.disk else 'in memory', short(r), short(want))

    def rest(self):
        return self.data[self.pos:]

    def whole(self):
        self.do('open', 0)
        self.do('all', 0)

    def resync(self, what, least):
        t, ok = self.call('tell()', self.f.tell)
        if not least <= t <= len(self.data):
            fail('position', 'after %s tell() is %s', what, t)
        self.pos = t

    def do(self, k, x):
        f, d = self.f, self.data
        if k in ('chunks', 'somechunks', 'lines', 'somelines', 'multiple') and x[0] < 1:
            raise Invalid('chunk size')
        if k == 'read':
            r, ok = self.call('read(%d)' % x, f.read, x)
            if ok:
                want = self.rest() if x < 0 else self.rest()[:x]
                self.got('read(%d)' % x, r, want)
                self.pos += len(want)
        elif k == 'all':
            r, ok = self.call('read()', f.read)
            if ok:
                self.got('read()', r, self.rest())
                self.pos = max(self.pos, len(d))
        elif k == 'readline':
            r, ok = self.call('readline()', f.readline)
            if ok:
                w = self.rest()
                w = w[:w.find('\n') + 1 or len(w)]
                self.got('readline()', r, w)
                self.pos += len(w)
        elif k == 'readlines':
            r, ok = self.call('readlines()', f.readlines)
            if ok:
                self.got('readlines()', ''.join(r), self.rest())
                if [x for x in r if '\n' in x[:-1]] or [x for x in r[:-1] if not x.endswith('\n')]:
                    fail('content', 'readlines() returned %s', short(r))
                self.pos = max(self.pos, len(d))
        elif k == 'seek':
            off, whence = x
            if whence == 2:
                off = max(off, -len(d))
            new = off + (0 if whence == 0 else self.pos if whence == 1 else len(d))
            if new < 0 or whence not in (0, 1, 2) or whence == 2 and off > 0:
                raise Invalid('seek')
            r, ok = self.call('seek(%d, %d)' % (off, whence), f.seek, off, whence)
            if ok:
                self.pos = new
        elif k == 'tell':
            t, ok = self.call('tell()', f.tell)
            if t != self.pos:
                fail('position', 'tell() is %s at %d', t, self.pos)
        elif k == 'chunks':
            r, ok = self.call('chunks(%d)' % x[0], lambda: list(f.chunks(x[0])))
            if ok:
                self.got('chunks(%d)' % x[0], ''.join(r), d)
                if self.disk and [c for c in r if len(c) > x[0]]:
                    fail('content', 'chunks(%d) returned a piece of %d', x[0], max(len(c) for c in r))
                self.pos = len(d)
                self.do('tell', 0)
        elif k == 'somechunks':
            def some():
                out = []
                for c in f.chunks(x[0]):
                    out.append(c)
                    if len(out) >= x[1]:
                        break
                return out
            r, ok = self.call('chunks(%d)' % x[0], some)
            if ok:
                j = ''.join(r)
                self.got('some of chunks(%d)' % x[0], j, d[:len(j)])
                self.resync('some chunks', len(j))
        elif k == 'lines':
            f.DEFAULT_CHUNK_SIZE = x[0]
            r, ok = self.call('line iteration by %d' % x[0], lambda: list(f))
            if ok:
                want = LINES.findall(d)
                if r != want:
                    must('lines', r, want, 'line iteration by %d' % x[0])
                self.pos = len(d)
                self.do('tell', 0)
        elif k == 'somelines':
            f.DEFAULT_CHUNK_SIZE = x[0]

            def lines():
                out = []
                for c in f:
                    out.append(c)
                    if len(out) >= x[1]:
                        break
                return out
            r, ok = self.call('some lines by %d' % x[0], lines)
            if ok:
                want = LINES.findall(d)[:max(1, x[1])]
                if r != want:
                    must('lines', r, want, 'some lines by %d' % x[0])
                self.resync('some lines', len(''.join(r)))
        elif k == 'open':
            r, ok = self.call('open()', f.open)
            if ok:
                if r is not f:
                    fail('open', 'open() returned something else')
                self.pos = 0
                self.do('tell', 0)
        elif k == 'multiple':
            r, ok = self.call('multiple_chunks(%d)' % x[0], f.multiple_chunks, x[0])
            if self.disk and bool(r) != (len(d) > x[0]) or not self.disk and r:
                fail('content', 'multiple_chunks(%d) of %d bytes is %s', x[0], len(d), r)
        elif k == 'len':
            if len(f) != len(d) or f.size != len(d):
                fail('size', 'size %s, len() %s of %d bytes', f.size, len(f), len(d))
        elif k == 'with':
            if f.closed or not f.readable() or not f.seekable():
                fail('content', 'closed %s, readable %s, seekable %s', f.closed, f.readable(), f.seekable())
        else:
            raise Invalid('op')

    def close(self):
        f = self.f
        _, e = attempt(self.sim, f.close)
        if e is not None:
            fail('close', 'close() raised %s', exc_name(e))
        if not f.closed:
            fail('close', 'not closed after close()')
        _, e = attempt(self.sim, f.close)
        if e is not None:
            fail('close', 'the second close() raised %s', exc_name(e))
        r, e = attempt(self.sim, f.open)
        if e is None:
            r, e = attempt(self.sim, f.read)
            if e is None and r != self.data:
                fail('reopened', 'after close() and open() the file reads %s', short(r))
        elif not isinstance(e, (ValueError, IOError, OSError)):
            fail('reopened', 'open() after close() raised %s', exc_name(e))
        self.sim.probe('closed')
