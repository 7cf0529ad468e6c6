"""What the property modules share: running requests and looking at them."""
import zlib

import java.lang.Throwable as Throwable

import boot
import core
import disk
import gen as G
from core import Invalid, Sim, Stop, Violation, make_stream

from request_parser.conf.settings import Settings, InvalidDirectory
from request_parser.exceptions import exceptions as X
from request_parser.files import uploadhandler as UH
from request_parser.files import uploadedfile as UFM
from request_parser.http import multipartparser as MP
from request_parser.http import request as RQ
from request_parser.http.constants import MetaDict

UP = disk.VROOT + '/up'
K = Settings.Key
LINEUPS = {
    'default': None,
    'temp': ['request_parser.files.uploadhandler.TemporaryFileUploadHandler'],
    'mem': ['request_parser.files.uploadhandler.MemoryFileUploadHandler'],
    'memtmp': ['request_parser.files.uploadhandler.MemoryFileUploadHandler',
               'request_parser.files.uploadhandler.TemporaryFileUploadHandler'],
    # the first returns the file, the others receive it in vain
    'convtmp': ['request_parser.files.uploadhandler.ConvenientFileUploadHandler',
                'request_parser.files.uploadhandler.TemporaryFileUploadHandler'],
    'tmptmp': ['request_parser.files.uploadhandler.TemporaryFileUploadHandler'] * 2,
    'tmpconv': ['request_parser.files.uploadhandler.TemporaryFileUploadHandler',
                'request_parser.files.uploadhandler.ConvenientFileUploadHandler'],
}
CFG_KEYS = (('mhs', K.MAX_HEADER_SIZE), ('fmax', K.FILE_UPLOAD_MAX_MEMORY), ('dmax', K.DATA_UPLOAD_MAX_MEMORY),
            ('nmax', K.DATA_UPLOAD_MAX_FIELDS))


def fail(cls, msg, *args):
    raise Violation(cls, msg % args if args else msg)


def make_settings(sim, cfg):
    if UP not in sim.disk.nodes:
        sim.disk.add_dir(UP)
    d = {K.FILE_UPLOAD_DIR: UP}
    for k, key in CFG_KEYS:
        if k in cfg:
            d[key] = cfg[k]
    if cfg.get('charset'):
        d[K.DEFAULT_CHARSET] = cfg['charset']
    s = Settings(d)
    line = LINEUPS[cfg.get('lineup') or 'default']
    if line is not None:
        s.FILE_UPLOAD_HANDLERS = list(line)
    set_chunk(cfg.get('chunk', 65536))
    arm(sim.disk)
    return s


_chunk = [None]


def set_chunk(n):
    """How much the handlers ask for at a time."""
    n = max(1, n)
    if _chunk[0] == n:
        return
    _chunk[0] = n
    # on every class itself: Jython does not see a change of an old-style base class
    for c in vars(UH).values():
        if isinstance(c, type) and issubclass(c, UH.FileUploadHandler):
            c.chunk_size = n


def new_process():
    """The library as it is when it has just been imported."""
    boot.restart()
    _chunk[0] = None


def arm(d):
    """Planned disk faults count from here."""
    d.arm()


def dry(fn, default):
    """What a fault-free run of the plan in the making tells, for placing faults and switches."""
    was, core.RUN.quiet = core.RUN.quiet, True
    try:
        return fn()
    except Invalid:
        raise
    except (Violation, Exception, core.Stop, core.ForeignBase):
        # the real run is where this is reported
        return default
    except Throwable:
        return default
    finally:
        core.RUN.quiet = was
        core.end()


def focus(rng, sim, n, first):
    """Switches at one of the lines the first task executes, each line as likely as any other."""
    t = sim.tracer
    k = t.places()
    if not k or n < 2:
        return []
    at = [t.place(rng.below(k), rng.below(1000)) for _ in range(rng.weighted([(5, 1), (2, 2), (1, 3)]))]
    if rng.chance(.3):
        at.append(at[0] + rng.between(1, 12))
    if rng.chance(.3):
        at.append(at[0] + rng.between(10, 600))
    out = []
    for i in sorted(set(at)):
        out.append([i, (first + 1 + rng.below(n - 1)) % n if not out else rng.below(n)])
    return out


def cfg_of(spec, cfg):
    c = dict(cfg or {})
    c['charset'] = spec.get('default_charset')
    return c


def attempt(sim, fn, *args, **kw):
    """(result, None) or (None, what was raised)."""
    try:
        return fn(*args, **kw), None
    except (Stop, Violation, Invalid):
        raise
    except BaseException, e:
        sim.log('! %s' % e.__class__.__name__)
        return None, e
    except Throwable, e:
        sim.log('! %s' % e.getClass().getName())
        return None, e


def b8(x):
    return x.encode('utf-8', 'replace') if isinstance(x, unicode) else x


def plain(x):
    """Comparable form of what the code hands out."""
    if isinstance(x, unicode):
        return x.encode('utf-8')
    if isinstance(x, (str, int, long, float)) or x is None:
        return x
    if isinstance(x, dict):
        if hasattr(x, 'lists'):
            return dict((plain(k), [plain(i) for i in v]) for k, v in x.lists())
        return dict((plain(k), plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    return repr(type(x))


def txt(x):
    return plain(x) if x is not None else None


def snap_head(r):
    meta = r.META
    return {
        'method': txt(r.get_method()), 'proto': txt(r.get_protocol_info()), 'path': txt(r.get_path()),
        'query': txt(meta.get(MetaDict.Info.QUERY_STRING)), 'host': txt(r.get_host()), 'scheme': txt(r.get_scheme()),
        'port': txt(r.get_port()), 'ctype': txt(r.content_type), 'encoding': txt(r.encoding),
        'GET': plain(r.GET), 'headers': known_names(plain(meta.get(MetaDict.Info.REQ_HEADERS) or {})),
    }


def known_names(d):
    """A parser may well report these three under one spelling."""
    return dict((G.LOOKED_UP.get(k.lower(), k), v) for k, v in d.items())


def want_head(b):
    w = dict(b.line)
    w['GET'] = b.get
    w['headers'] = b.headers
    return w


def low(x):
    return x.lower() if x is not None else x


def snap_file(f):
    data = f.read()
    f.seek(0)
    return {'name': txt(f.name), 'data': str(data), 'size': f.size, 'content_type': low(txt(f.content_type)),
            'charset': txt(f.charset), 'extra': plain(f.content_type_extra), 'te': txt(f.transfer_encoding),
            'type': isinstance(data, str)}


def is_disk(f):
    return hasattr(f, 'temporary_file_path')


def snap_files(files):
    return dict((plain(k), [snap_file(f) for f in v]) for k, v in files.lists())


def snap_post(post):
    return plain(post)


def want_files(b, upto=None):
    out = {}
    for k, v in b.files.items():
        out[k] = [dict(x, type=True) for x in v]
    return out


def files_of(r):
    return [f for k, v in r.FILES.lists() for f in v]


def short(x, n=70):
    s = repr(x)
    return s if len(s) <= n else '%s...(%d, crc %08x)' % (s[:n], len(s), zlib.crc32(s) & 0xffffffff)


def diff(got, want, path=''):
    """First difference, or None."""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in sorted(set(want) | set(got)):
            if k not in got:
                return '%s[%r] is missing (wanted %s)' % (path, k, short(want[k]))
            if k not in want:
                return '%s[%r] is too much: %s' % (path, k, short(got[k]))
            d = diff(got[k], want[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return '%s has %d items, wanted %d' % (path, len(got), len(want))
        for i in range(len(want)):
            d = diff(got[i], want[i], '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if got != want:
        if isinstance(got, str) and isinstance(want, str) and len(want) > 60:
            i = 0
            while i < min(len(got), len(want)) and got[i] == want[i]:
                i += 1
            return '%s differs at %d: got %s (%d), wanted %s (%d)' % (
                path, i, short(got[i:i + 30]), len(got), short(want[i:i + 30]), len(want))
        return '%s is %s, wanted %s' % (path, short(got), short(want))
    return None


def must(cls, got, want, path):
    d = diff(got, want, path)
    if d:
        raise Violation(cls, d)


def digest(sim, *xs):
    for x in xs:
        sim.log('= %08x' % (zlib.crc32(repr(x)) & 0xffffffff))


def exc_name(e):
    if e is None:
        return None
    if isinstance(e, BaseException):
        return '%s(%s)' % (e.__class__.__name__, str_exc(e))
    return 'java %s' % e


def str_exc(e):
    try:
        s = str(e)
    except Exception:
        s = '?'
    return s if len(s) < 120 else s[:120] + '...'


def new_request(sim, built, stream, settings):
    obj, s = make_stream(built.data, stream, sim)
    return RQ.HttpRequest(obj, settings), s


def close_quietly(sim, r):
    return attempt(sim, r.close)[1]


# what parsing damaged input may raise (C09)
def parse_error(e):
    if isinstance(e, (RQ.InvalidHttpRequest, RQ.NoHostFoundException, RQ.RequestHeaderParseException,
                      RQ.RawPostDataException, MP.MultiPartParserError, X.SuspiciousOperation, X.InputStreamExhausted,
                      InvalidDirectory)):
        return True
    if isinstance(e, IOError):
        return True
    if isinstance(e, ValueError):        # and UnicodeError
        return True
    return type(e) is LookupError


def residue(sim):
    """Temporary files that are left, but for those whose removal the disk refused."""
    return [p for p in sim.disk.files() if p not in sim.disk.excused]


def check_disk(sim, cls='disk'):
    d = sim.disk
    if d.escapes:
        fail(cls + ' escape', 'file system touched outside the upload directory: %s', d.escapes[0])
    bad = d.foreign_damage()
    if bad:
        fail(cls + ' clobber', 'a file of someone else: %s', bad[0])
    for p in d.created:
        if not p.startswith(UP + '/') or '/' in p[len(UP) + 1:]:
            fail(cls + ' place', 'file created at %s', short(p))


def err_kind(e):
    """For comparing failures of two runs."""
    if e is None:
        return None
    if not isinstance(e, BaseException):
        return 'java'
    return e.__class__.__name__


def outcome(sim, r, exc):
    """Everything a caller can see after a parse, as plain data."""
    o = {'exc': err_kind(exc)}
    h, e = attempt(sim, snap_head, r)
    o['head'] = h if e is None else err_kind(e)
    h, e = attempt(sim, snap_post, r.POST)
    o['post'] = h if e is None else err_kind(e)
    h, e = attempt(sim, snap_files, r.FILES)
    o['files'] = h if e is None else err_kind(e)
    o['tiers'] = sorted((plain(k), [is_disk(f) for f in v]) for k, v in r.FILES.lists())
    return o
