"""Upload handlers that record what they are told and do as scripted."""
import core
from request_parser.files import uploadhandler as UH
from request_parser.files.uploadedfile import InMemoryUploadedFile, SimpleUploadedFile
from request_parser.utils.datastructures import MultiValueDict


class Scripted(RuntimeError):
    pass


class State(object):
    def __init__(self):
        self.sim = None
        self.script = []
        self.log = []
        self.behave = []
        self.stream = None
        self.pulls = 0
        self.nfile = -1
        self.got = {}


S = State()


def take(input_data, raw):
    """The raw input, read in one of a few ways."""
    how, n = raw['how'], max(1, raw['n'])
    if how == 'none':
        return None
    if how == 'all':
        return input_data.read()
    out = []
    while 1:
        data = input_data.read(n) if how == 'pieces' else input_data.readline()
        if not data:
            return ''.join(out)
        out.append(data)


def own_result(raw):
    return (MultiValueDict((k, [v]) for k, v in own_fields(raw).items()),
            MultiValueDict((k, [SimpleUploadedFile(k, v)]) for k, v in own_files(raw).items()))


def own_fields(raw):
    return dict(('own-%d' % i, 'v%d' % i) for i in range(raw['fields']))


def own_files(raw):
    return dict(('file-%d' % i, 'f' * i) for i in range(raw['files']))


class Handler(UH.FileUploadHandler, object):
    """behave: pass | absorb | claim | upper | double | drop | half | none-complete ..."""
    idx = 0

    def __init__(self, request=None):
        super(Handler, self).__init__(request)
        self.nfile = -1
        self.nchunk = 0
        self.claimed = False
        self.data = []
        self.rng_chunk = None
        b = S.behave[self.idx] if self.idx < len(S.behave) else {}
        self.b = b
        if b.get('chunk') is not None:
            self.chunk_size = b['chunk']

    def note(self, *what):
        S.log.append((self.idx,) + what)
        if S.sim is not None:
            S.sim.log('h%d %s' % (self.idx, what[0]))

    def act(self, call):
        for a in S.script:
            if a.get('h', 0) != self.idx or a['call'] != call:
                continue
            if call in ('new', 'chunk', 'complete') and a.get('file', 0) != self.nfile:
                continue
            if call == 'chunk' and a.get('chunk', 0) != self.nchunk:
                continue
            do = a['do']
            S.log.append((self.idx, 'raise', do))
            if S.stream is not None:
                S.pulls = S.stream.pulls
            if S.sim is not None:
                S.sim.fault('handler: %s at %s' % (do, call))
            if do == 'skip':
                raise UH.SkipFile()
            if do == 'stop':
                raise UH.StopUpload(connection_reset=False)
            if do == 'reset':
                raise UH.StopUpload(connection_reset=True)
            if do == 'error':
                raise Scripted('scripted failure')
            if do == 'baseerror':
                raise core.ForeignBase('scripted cancellation')

    def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
        self.note('raw', content_length, boundary)
        self.act('raw')
        raw = self.b.get('raw')
        if raw:
            S.given = take(input_data, raw)
            return own_result(raw)

    def new_file(self, field_name, file_name, content_type, content_length, charset=None, content_type_extra=None, transfer_encoding=None):
        super(Handler, self).new_file(field_name, file_name, content_type, content_length, charset, content_type_extra, transfer_encoding)
        self.nfile += 1
        self.nchunk = 0
        self.data = []
        self.note('new', field_name, file_name, content_type, content_length, charset, content_type_extra, transfer_encoding)
        self.act('new')
        if self.idx == 0:
            S.nfile += 1
        self.claimed = bool(self.b.get('claim')) and S.nfile in self.b['claim']
        if self.claimed:
            raise UH.StopFutureHandlers()

    def receive_data_chunk(self, raw_data, start):
        self.note('chunk', raw_data, start)
        self.act('chunk')
        self.nchunk += 1
        if self.idx == 0:
            S.got[self.nfile] = S.got.get(self.nfile, 0) + len(raw_data)
        self.data.append(raw_data)
        how = self.b.get('how', 'pass')
        loose = self.b.get('loose') if self.claimed else None
        if self.claimed and loose not in ('data', 'both') or how == 'absorb':
            out = None
        elif how == 'upper':
            out = raw_data.upper()
        elif how == 'double':
            out = raw_data + raw_data
        elif how == 'half':
            out = raw_data[:len(raw_data) // 2]
        elif how == 'prefix':
            out = '>' + raw_data
        elif how == 'odd':
            out = None if self.nchunk % 2 else raw_data
        else:
            out = raw_data
        S.log.append((self.idx, 'out', out))
        return out

    def file_complete(self, file_size):
        self.note('complete', file_size)
        self.act('complete')
        if self.claimed and self.b.get('loose') not in ('file', 'both') or self.b.get('object'):
            return SimpleUploadedFile('by-%d' % self.idx, ''.join(self.data))
        return None

    def upload_complete(self):
        self.note('end')
        self.act('end')


class H0(Handler):
    idx = 0


class H1(Handler):
    idx = 1


class H2(Handler):
    idx = 2


CLASSES = [H0, H1, H2]


def reset(sim, script=(), behave=()):
    S.sim = sim
    S.script = list(script)
    S.behave = list(behave)
    S.log = []
    S.stream = None
    S.nfile = -1
    S.given = None
    S.got = {}


def install(settings, cfg, script, last, sim):
    """One scripted handler before or after the configured ones."""
    import lib
    reset(sim, script)
    line = list(lib.LINEUPS[cfg.get('lineup') or 'default'] or settings.FILE_UPLOAD_HANDLERS)
    settings.FILE_UPLOAD_HANDLERS = line + ['handlers.H0'] if last else ['handlers.H0'] + line
