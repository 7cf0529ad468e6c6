"""Upload handlers are driven by a fixed protocol."""

from lib import *
import handlers as HD

STOCK = {'temp': 'request_parser.files.uploadhandler.TemporaryFileUploadHandler',
         'mem': 'request_parser.files.uploadhandler.MemoryFileUploadHandler',
         'conv': 'request_parser.files.uploadhandler.ConvenientFileUploadHandler'}


def gen(rng, tier):
    spec = G.gen_request(rng, 'multi', rng.pick([20, 200, 2000] if tier == 'quick' else [20, 200, 2000, 20000]),
                         {'mix': [(6, 'file'), (3, 'field'), (1, 'anon')], 'parts': rng.weighted([(2, 1), (3, 2), (3, 4), (1, 7)])})
    b = G.build(spec)
    n = rng.weighted([(2, 1), (4, 2), (3, 3)])
    files = len([p for p in spec['parts'] if p['k'] == 'file'])
    behave = []
    for i in range(n):
        h = {'how': rng.weighted([(4, 'pass'), (1, 'absorb'), (1, 'upper'), (1, 'double'), (1, 'half'), (1, 'prefix'), (1, 'odd')]),
             'object': rng.chance(.4), 'claim': sorted(rng.sample(range(files), rng.below(files + 1))) if files and rng.chance(.4) else []}
        if rng.chance(.7):
            h['chunk'] = G.gen_chunk(rng, b)
        if h['claim'] and rng.chance(.5):
            # what it claims it does not keep, or does not return
            h['loose'] = rng.pick(['data', 'file', 'both'])
        behave.append(h)
    if rng.chance(.12):
        # one parses the input itself
        rng.pick(behave)['raw'] = {'how': rng.pick(['all', 'pieces', 'lines', 'none']), 'n': 1 + rng.below(300), 'fields': rng.below(3), 'files': rng.below(3)}
    cfg = {'mhs': 16, 'chunk': G.gen_chunk(rng, b)}
    if rng.chance(.3):
        cfg['fmax'] = rng.below(500)
    return {'spec': spec, 'cfg': cfg, 'stream': G.gen_cuts(rng, b), 'behave': behave, 'stock': rng.weighted([(3, None), (2, 'temp'), (1, 'mem'), (2, 'conv')]),
            'install': rng.weighted([(3, 'settings'), (3, 'setter'), (3, 'late')]), 'again': rng.chance(.3)}


def run(plan):
    spec, cfg, behave = plan['spec'], plan['cfg'], plan['behave']
    if spec['kind'] != 'multi' or not 1 <= len(behave) <= 3:
        raise Invalid('kind')
    b = G.build(spec)
    if plan.get('stock') == 'mem' and cfg.get('fmax', 31457280) < len(b.body):
        raise Invalid('memory only')
    n = len(behave)
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, cfg))
        names = ['handlers.H%d' % i for i in range(n)]
        stock = plan.get('stock')
        if stock:
            names.append(STOCK[stock])
        how = plan['install']
        HD.reset(sim, [], behave)
        if how == 'settings':
            s.FILE_UPLOAD_HANDLERS = names
        r, st = new_request(sim, b, plan['stream'], s)
        if how == 'late':
            _, e = attempt(sim, r.parse_request_header)
            if e is not None:
                fail('refused', 'the header was refused: %s', exc_name(e))
        if how != 'settings':
            r.upload_handlers = [c(r) for c in HD.CLASSES[:n]] + ([UH.load_handler(STOCK[stock], r)] if stock else [])
        _, e = attempt(sim, r.parse_request_body if how == 'late' else r.parse)
        check(sim, spec, b, r, e, n, stock)
        if plan.get('again') and how == 'settings':
            HD.reset(sim, [], behave)
            obj, st = make_stream(b.data, {'name': 'again'}, sim)
            r.stream = obj
            _, e = attempt(sim, r.parse)
            check(sim, spec, b, r, e, n, stock)
        attempt(sim, r.close)
        return bool([p for p in b.parts if p['k'] == 'file'])


class Log(object):
    def __init__(self, events):
        self.events = list(events)
        self.i = 0

    def peek(self):
        return self.events[self.i] if self.i < len(self.events) else (None, 'nothing')

    def take(self, what, idx=None):
        e = self.peek()
        if e[1] != what or (idx is not None and e[0] != idx):
            fail('protocol', 'call %d of the upload handlers should be %s of handler %s, but it is %s of handler %s',
                 self.i, what, 'any' if idx is None else idx, e[1], e[0])
        self.i += 1
        return e


def check(sim, spec, b, r, e, n, stock):
    if e is not None:
        fail('refused', 'parse() raised %s', exc_name(e))
    log = Log(HD.S.log)
    behave = HD.S.behave
    for i in range(n):
        ev = log.take('raw', i)
        if ev[3] != spec['boundary']:
            fail('raw arguments', 'handle_raw_input() was given the boundary %s', short(ev[3]))
        if ev[2] != len(b.body):
            fail('raw arguments', 'handle_raw_input() was given the length %s, the body has %d bytes', ev[2], len(b.body))
        if behave[i].get('raw'):
            return own(sim, b, r, behave[i]['raw'], log, n)
    want = {}
    k = -1
    for p in b.parts:
        if p['k'] != 'file':
            continue
        k += 1
        v = p['value']
        last = n - 1
        for i in range(n):
            ev = log.take('new', i)
            told = dict(zip(('field', 'name', 'type', 'length', 'charset', 'extra', 'te'), [plain(x) for x in ev[2:]]))
            length = told.pop('length')
            if length not in (None, len(p['wire'])):
                fail('new_file arguments', 'new_file() was given the length %s of %d bytes', length, len(p['wire']))
            told['name'] = G.base(told['name'])
            told['type'] = low(told['type'])
            must('new_file arguments', told, {'field': p['name'], 'name': v['name'], 'type': v['content_type'],
                                              'charset': v['charset'], 'extra': v['extra'], 'te': v['te']}, 'file %d, handler %d: new_file' % (k, i))
            if k in (behave[i].get('claim') or []):
                last = i
                break
        got = [''] * n
        while log.peek()[1] == 'chunk':
            i, data = 0, None
            while 1:
                ev = log.take('chunk', i)
                if not isinstance(ev[2], str):
                    fail('chunk', 'file %d, handler %d was given a %s', k, i, type(ev[2]).__name__)
                if data is not None and ev[2] != data:
                    fail('chunk', 'file %d: handler %d was given %s, handler %d had passed on %s', k, i, short(ev[2]), i - 1, short(data))
                if ev[3] != len(got[i]):
                    fail('chunk start', 'file %d, handler %d: start %s after %d bytes', k, i, ev[3], len(got[i]))
                got[i] += ev[2]
                data = log.take('out', i)[2]
                if data is None or i == last:
                    break
                i += 1
                # the next handler's turn, unless a stock handler is next
        if got[0] != p['raw']:
            must('content', got[0], p['raw'], 'file %d: what the first handler was given' % k)
        obj = None
        claimed = False
        for i in range(n):
            if obj is not None or i > last:
                break
            ev = log.take('complete', i)
            if ev[2] != len(got[i]):
                fail('complete size', 'file %d, handler %d: file_complete(%s) after %d bytes', k, i, ev[2], len(got[i]))
            claims = k in (behave[i].get('claim') or [])
            claimed = claimed or claims
            if behave[i].get('object') or claims and behave[i].get('loose') not in ('file', 'both'):
                obj = ('by-%d' % i, got[i])
        if obj is None and stock and not claimed:
            # what the last of the recording handlers has passed on
            outs = [x[2] for x in passed(log, k, n - 1) if x[2] is not None]
            obj = (v['name'], ''.join(outs))
        while log.peek()[1] == 'complete':
            # handlers after the one that returned the file may be told, once
            ev = log.take('complete')
            fail('protocol', 'file %d: handler %d is told of the completion after the file was returned', k, ev[0])
        if obj is not None:
            want.setdefault(p['name'], []).append({'name': obj[0], 'data': obj[1], 'size': len(obj[1])})
    ends = [log.take('end')[0] for i in range(n)]
    if sorted(ends) != range(n):
        fail('protocol', 'upload_complete() of handlers %s', ends)
    if log.peek()[0] is not None:
        fail('protocol', '%s of handler %d after the end', log.peek()[1], log.peek()[0])
    files, e2 = attempt(sim, snap_files, r.FILES)
    if e2 is not None:
        fail('exposed', 'reading the files raised %s', exc_name(e2))
    files = dict((k, [dict((x, f[x]) for x in ('name', 'data', 'size')) for f in v]) for k, v in files.items())
    must('exposed', files, want, 'FILES')
    must('exposed', snap_post(r.POST), b.post, 'POST')
    digest(sim, files)


def own(sim, b, r, raw, log, n):
    """A handler has parsed the input itself: what it returned is the result."""
    given = HD.S.given
    if raw['how'] != 'none' and given != b.body:
        must('raw input', given, b.body, 'what the handler read')
    while log.peek()[1] == 'end':
        log.take('end')
    if log.peek()[0] is not None:
        fail('protocol', '%s of handler %d although a handler has taken the raw input', log.peek()[1], log.peek()[0])
    must('exposed', dict((k, r.POST[k]) for k in r.POST), HD.own_fields(raw), 'POST')
    files, e = attempt(sim, lambda: dict((k, r.FILES[k].read()) for k in r.FILES))
    if e is not None:
        fail('exposed', 'reading the files raised %s', exc_name(e))
    must('exposed', files, HD.own_files(raw), 'FILES')
    digest(sim, files)


def passed(log, k, i):
    """The 'out' entries of handler i for file k."""
    f = -1
    out = []
    for ev in log.events[:log.i]:
        if ev[1] == 'new' and ev[0] == 0:
            f += 1
        elif f == k and ev[1] == 'out' and ev[0] == i:
            out.append(ev)
    return out
