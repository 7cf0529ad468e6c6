"""
Requests by construction: a spec (plain JSON data) says what a request means;
build() writes its bytes and, independently of the code under test, what a
parser has to report.
"""
import base64

from core import Invalid
from rng import Rng

UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
DIGIT = '0123456789'
ALNUM = UPPER + LOWER + DIGIT
TOKEN = ALNUM + '-_.!~'
BCHARS = ALNUM + "'()+_,-./:=?"
TEXTS = [u'', u'a', u'x y', u'v=1', u'caf\xe9', u'na\xefve', u'\u20ac5', u'\u65e5\u672c', u'a+b', u'100%', u'k&v;w',
         u'\xfc\xdf', u'q?', u'#h', u'/p/q', u'\U0001f600' if len(u'\U0001f600') == 1 else u'\u2603', u'0', u'long ' * 9]


def u8(text):
    return text.encode('utf-8') if isinstance(text, unicode) else text


# ------------------------------------------------------------ content atoms

def near(boundary, k):
    b = boundary
    v = ['\r\n--' + b[:-1], '--' + b[:-1] + '~', '\r\n--', '-' + b, '\r\n-' + b, '\r', '\n', '\r\n', '--', '\n--' + b[:-1],
         '\r\n\r\n', '\r--', '\r\n--' + b[:len(b) // 2], '-', '\r\n\r\n--' + b[:1], b[:-1] + '--\r\n',
         '--\r\n', '\r\n--' + b[1:] if len(b) > 1 else '\r\n-']
    return v[k % len(v)]


def content(atoms, boundary='B'):
    out = []
    for a in atoms:
        kind = a[0]
        if kind == 'lit':
            out.append(a[1])
        elif kind == 'rep':
            out.append((a[1] or 'x') * max(0, min(a[2], 2000000)))
        elif kind == 'rnd':
            n = max(0, a[2])
            r = Rng('content', a[1])
            alpha = {'bin': ''.join(chr(i) for i in range(256)), 'txt': ALNUM + ' ', 'crlf': 'a\r\n-', 'b64': ALNUM + '+/',
                     'low': 'ab'}[a[3]]
            block = r.text(alpha, min(n, 509), min(n, 509))
            out.append((block * (n // max(1, len(block)) + 1))[:n])
        elif kind == 'pick':
            out.append(Rng('content', a[1]).text(a[3] or 'x', min(a[2], 300000), min(a[2], 300000)))
        elif kind == 'near':
            out.append(near(boundary, a[1]))
        elif kind == 'hdr':
            # what looks like the start of another part
            out.append('Content-Disposition: form-data; name="%s"%s\r\n\r\n' % (
                a[1], '; filename="%s"' % a[2] if len(a) > 2 and a[2] else ''))
        else:
            raise Invalid('atom')
    return ''.join(out)


def gen_content(rng, size):
    """Atoms for a content of roughly up to size bytes."""
    atoms = []
    for _ in range(rng.weighted([(1, 0), (5, 1), (3, 2), (2, 3), (1, 5)])):
        k = rng.below(10)
        n = rng.small(max(1, size))
        if k < 2:
            atoms.append(['lit', rng.text(ALNUM + ' ', 0, 12)])
        elif k == 2:
            atoms.append(['rep', rng.pick(['\r\n', '-', 'ab', '\n', '\r', '\0']), rng.small(max(1, min(size, 300)))])
        elif k < 7:
            atoms.append(['rnd', rng.below(1000), n, rng.pick(['bin', 'txt', 'crlf', 'bin'])])
        elif rng.chance(.9):
            atoms.append(['near', rng.below(18)])
        else:
            atoms.append(['hdr', 'forged', rng.pick(['', 'forged.txt'])])
            atoms.append(['lit', 'forged'])
    return atoms


# ------------------------------------------------------------ text encoding

def pct(text, charset, rng_style):
    """Percent-encode a text in one of a few styles."""
    out = []
    for ch in text.encode(charset):
        if rng_style == 'raw' and ord(ch) >= 128:
            out.append(ch)
        elif rng_style == 'bare' and ch in "=/?:@!$'()*,|{}^":
            out.append(ch)
        elif ch in ALNUM + '-_.~' and rng_style != 'all':
            out.append(ch)
        elif ch == ' ' and rng_style != 'all':
            out.append('+' if rng_style == 'plus' else '%20')
        else:
            out.append(('%%%02x' if rng_style == 'low' else '%%%02X') % ord(ch))
    return ''.join(out)


def gen_pairs(rng, charset, n, raw=False):
    pairs = []
    styles = ['plus', 'all', 'low', 'up', 'bare'] + (['raw'] if raw else [])
    names = [rng.pick(TEXTS[1:]) for _ in range(3)] + [unicode(rng.text(LOWER, 1, 6))]
    for _ in range(n):
        k = rng.pick(names)
        v = rng.pick(TEXTS) if rng.chance(.7) else unicode(rng.text(ALNUM + ' ', 0, 20))
        try:
            (k + v).encode(charset)
        except UnicodeError:
            k, v = u'k', u'plain'
        pairs.append([u8(k), u8(v), rng.pick(styles), rng.weighted([(8, '='), (1, '')])])
    return pairs


def pairs_text(pairs, charset, seps='&'):
    out = []
    for i, (k, v, style, eq) in enumerate(pairs):
        if i:
            out.append(seps[i % len(seps)])
        try:
            # an equals sign in a name has to be encoded
            k = pct(k.decode('utf-8'), charset, 'up' if style == 'bare' else style)
            v = pct(v.decode('utf-8'), charset, style)
        except UnicodeError:
            raise Invalid('charset')
        if not k:
            raise Invalid('empty name')
        out.append(k if eq == '' and not v else k + '=' + v)
    return ''.join(out)


def pairs_expect(pairs):
    d = {}
    for k, v, style, eq in pairs:
        d.setdefault(k, []).append(v)
    return d


# ------------------------------------------------------------ specs

CHARSETS = ['utf-8', 'UTF-8', 'iso-8859-1', 'ISO-8859-1', 'us-ascii', 'windows-1252', 'iso-8859-15']


def gen_header(rng, opts=None):
    opts = opts or {}
    s = {
        'method': rng.pick(['GET', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'X']),
        'proto': rng.pick(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2']),
        'host': rng.pick(['example.com', 'WWW.Example.COM', 'h', '127.0.0.1', '[::1]', '[fe80::1:2]', 'a.b.c.d.e', 'x.com.']),
        'port': rng.weighted([(2, None), (1, '80'), (1, '8080'), (1, '65535')]),
        'abs': rng.weighted([(3, None), (1, 'http'), (1, 'https'), (1, 'HTTP')]),
        'path': '/' + '/'.join(rng.text(TOKEN + ':@,$()*', 0, 8) for _ in range(rng.below(4))),
        'query': gen_pairs(rng, opts.get('charset') or 'ISO-8859-1', rng.weighted([(3, 0), (3, 1), (2, 3), (1, 8)])),
        'seps': rng.weighted([(4, '&'), (1, ';'), (1, '&;')]),
        'frag': rng.weighted([(5, ''), (1, 'top')]),
        'headers': [],
        'hostpos': rng.below(4),
        'ncase': rng.weighted([(5, 0), (1, 1), (1, 2), (1, 3), (1, 4)]),
        'hosttoo': rng.chance(.3),
    }
    if s['path'].startswith('//'):
        s['path'] = '/x' + s['path'][1:]
    if rng.chance(.2):
        s['path'] += pct(rng.pick(TEXTS[1:]), 'utf-8', 'low')
    names = ['Accept', 'Cookie', 'X-' + rng.text(ALNUM + '-', 1, 10), 'User-Agent', 'accept', 'Via', 'X']
    for _ in range(rng.weighted([(2, 0), (3, 1), (3, 3), (2, 6), (1, 20)])):
        v = rng.weighted([(5, rng.text(ALNUM + ' ;,=/()*:"%', 0, 40).strip()), (1, ''), (1, 'a: b'),
                          (1, 'x' * rng.below(700)), (1, ':'), (1, '--B')])
        s['headers'].append([rng.pick(names), v, rng.pick([' ', '', '  ', '\t'])])
    return s


LOOKED_UP = {'host': 'Host', 'content-type': 'Content-Type', 'content-length': 'Content-Length'}


def any_case(name, c):
    if not c:
        return name
    return [name.lower, name.upper, name.swapcase, lambda: name[:1].lower() + name[1:]][(c - 1) % 4]()


def check_header(s):
    if not s['method'] or ' ' in s['method'] + s['path'] + s['proto'] or not s['path'].startswith('/') \
            or s['path'].startswith('//') or ';' in s['path'] or '?' in s['path'] or '#' in s['path']:
        raise Invalid('request line')
    if not s['proto'] or not s['host']:
        raise Invalid('request line')
    for n, v, sp in s['headers']:
        if not n or ':' in n or v != v.strip() or n.lower() in LOOKED_UP:
            raise Invalid('header')


class Built(object):
    pass


def build(spec):
    """
    -> Built: data, head_len, body, expectations:
       line/hosts..., get (name -> values), headers (name -> values),
       post, files (multipart), marks (interesting offsets)
    """
    b = Built()
    h = spec['head']
    check_header(h)
    kind = spec['kind']
    cs = spec.get('charset')            # in Content-Type
    default = spec.get('default_charset') or 'ISO-8859-1'
    charset = cs or default
    marks = []
    body_marks = []
    ctype = None
    if kind == 'none':
        body = content(spec.get('body') or [])
        ctype = spec.get('ctype')
    elif kind == 'text':
        ctype = spec.get('ctype')
        body = content(spec['body'])
        if spec.get('text') is not None:
            try:
                body = spec['text'].decode('utf-8').encode(charset) * spec.get('times', 1)
            except UnicodeError:
                raise Invalid('charset')
    elif kind == 'form':
        ctype = 'application/x-www-form-urlencoded'
        body = pairs_text(spec['pairs'], charset, spec.get('bseps') or '&')
        body += ('&' if body else '') + '&'.join(['z=1'] * spec['many']) if spec.get('many') else ''
    elif kind == 'multi':
        ctype = 'multipart/form-data'
        body, body_marks = build_multipart(spec, b, charset)
    else:
        raise Invalid('kind')
    if ctype is None and cs:
        raise Invalid('charset without a type')
    lines = []
    q = pairs_text(h['query'], charset, h['seps']) if h['query'] else ''
    if spec.get('qmany'):
        q += ('&' if q else '') + '&'.join(['z=1'] * spec['qmany'])
    target = h['path'] + ('?' + q if q else '') + ('#' + h['frag'] if h['frag'] else '')
    hp = h['host'] + (':' + h['port'] if h['port'] else '')
    if h['abs']:
        target = '%s://%s%s' % (h['abs'], hp, target)
    lines.append('%s %s %s' % (h['method'], target, h['proto']))
    hdrs = [['H', n, v, sp] for n, v, sp in h['headers']]
    if ctype is not None:
        t = ctype
        if spec.get('ctype_case'):
            t = t.upper() if spec['ctype_case'] != 2 else t.title()
        params = []
        if kind == 'multi':
            bd = spec['boundary']
            params.append('boundary=' + ('"%s"' % bd if spec.get('bquote') or needs_quote(bd) else bd))
        if cs:
            params.append('charset=' + ('"%s"' % cs if spec.get('csquote') else cs))
        if spec.get('more'):
            params.append(spec['more'])
        if spec.get('order'):
            params.reverse()
        t += ''.join(rng_sep(spec) + x for x in params)
        b.content_type_value = t
        hdrs.insert(len(hdrs) // 2, ['H', 'Content-Type', t, ' '])
    if kind in ('text', 'form', 'multi') and not spec.get('nolength'):
        hdrs.append(['H', 'Content-Length', str(spec.get('length', len(body))), ' '])
    if not h['abs'] or h.get('hosttoo'):
        hdrs.insert(min(h['hostpos'], len(hdrs)), ['H', 'Host', hp, ' '])
    if not hdrs:
        hdrs.append(['H', 'X-Only', 'one', ' '])
    b.headers = {}
    for _, n, v, sp in hdrs:
        lines.append('%s:%s%s' % (any_case(n, h.get('ncase')) if n.lower() in LOOKED_UP else n, sp, v))
        if n != 'Host' or h['abs']:
            b.headers.setdefault(n, []).append(v)
    head = '\r\n'.join(lines) + '\r\n\r\n'
    b.data = head + body
    b.head_len = len(head)
    b.body = body
    b.marks = [len(lines[0]), len(head) - 4, len(head) - 2, len(head)] + [len(head) + m for m in body_marks]
    host = h['host'].lower()
    if host.endswith('.') and not host.endswith(']'):
        host = host[:-1]
    b.line = {
        'method': h['method'], 'proto': h['proto'], 'path': h['path'], 'query': q, 'host': host,
        'scheme': h['abs'].lower() if h['abs'] else 'UNKNOWN',
        'port': h['port'] or {'http': '80', 'https': '443'}.get((h['abs'] or '').lower(), '65536'),
        'ctype': ctype.lower() if ctype is not None else None,
        'encoding': charset,
    }
    b.get = pairs_expect(h['query'])
    if spec.get('qmany'):
        b.get.setdefault('z', []).extend(['1'] * spec['qmany'])
    b.charset = charset
    if kind == 'form':
        b.post = pairs_expect(spec['pairs'])
        if spec.get('many'):
            b.post.setdefault('z', []).extend(['1'] * spec['many'])
        b.files = {}
    elif kind != 'multi':
        b.post = {}
        b.files = {}
    return b


def rng_sep(spec):
    return ';' if spec.get('tight') else '; '


def needs_quote(bd):
    return any(c in bd for c in " ();,:=?/\"'")


# ------------------------------------------------------------ multipart

def gen_boundary(rng):
    return rng.weighted([
        (3, rng.text(ALNUM, 1, 20)), (2, '----WebKitFormBoundary' + rng.text(ALNUM, 16, 16)),
        (1, '-' * rng.between(1, 20) + rng.text(DIGIT, 1, 20)), (1, rng.text(BCHARS, 0, 30) + rng.pick(ALNUM)),
        (1, rng.pick(['B', '-', '--', 'a b', 'x' * 70]))])


FILENAMES = ['a.txt', ' padded.txt ', 'photo.JPG', 'noext', 'caf\xc3\xa9.png', 'a b.tar.gz', '.hidden', 'semi;colon.txt', 'eq=.txt', "quo'te.t",
             'C:\\dir\\win.doc', '\\\\srv\\x\\unc.bin', '/etc/passwd', '../../up.sh', 'dir/sub/deep.c', 'x.' + 'e' * 40, '%41.txt',
             'a..b', 'trail.', '~root', '-rf', 'R&D.txt', 'a&amp;b.txt', '&#65;&#x42;.txt', 'AT&T;.t', '..&#47;..&#47;up2.sh',
             'caf&eacute;.txt', '&euro;5.txt', 'a&#8364;b.x', '&#x1F600;.gif', '&#99999999999;.txt', '&#300;', 'a&copy.txt', '&bogus;.x',
             'x&#92;y.doc', '&lt;i&gt;.htm', 'say "hi".txt', '";x="y.txt', 'q"', 'one".two;three="four"', 'a\\"b;c.txt',
             'L' * 300 + '.txt', 'M' * 256, 'x.' + 'e' * 270, 'N' * 251 + '.txt', 'O' * 252 + '.txt', '.' + 'h' * 300]


HEADERS = 1022          # the parser looks for the end of the headers of a part in its first 1024 bytes, CRLF before them included


def is_b64(p):
    return (p.get('te') or '').lower() == 'base64'


def gen_part(rng, size, opts):
    k = rng.weighted(opts.get('mix') or [(5, 'field'), (5, 'file'), (1, 'anon')])
    p = {'k': k}
    fields = opts.get('names') or ['f', 'g', 'a b', 'f[]', 'caf\xc3\xa9', 'x;y=z', 'N', 'very' * 9, 'q"t', '"; name="o', 'b\\s', 'end\\']
    p['name'] = rng.pick(fields)
    p['body'] = gen_content(rng, size)
    p['headers'] = []
    if rng.chance(.25):
        p['headers'].append(rng.pick(['X-Extra: 1', 'Content-ID: <a@b>', 'Content-Description: form-data; name="other"',
                                      'nocolon', 'X-Long: ' + 'y' * rng.below(300)]))
    if rng.chance(.5):
        p['ctype'] = rng.pick(['text/plain', 'application/octet-stream', 'Text/HTML', 'image/png'])
        p['params'] = rng.weighted([(3, []), (1, [['charset', 'utf-8']]), (1, [['charset', 'Latin1'], ['x', 'y z']]),
                                    (1, [['Name', 'val']])])
    p['te'] = rng.weighted([(6, None), (1, 'binary'), (1, '8bit'), (1, 'Quoted-Printable'), (3 if k != 'anon' else 0, 'base64'),
                            (1 if k != 'anon' else 0, rng.pick(['BASE64', 'Base64']))])
    if is_b64(p):
        p['wrap'] = rng.pick([0, 76, 64, 4, 5, 1, 57])
        p['nl'] = rng.pick(['\r\n', '\n'])
        p['lastnl'] = rng.chance(.5)
    p['hcase'] = rng.pick([0, 0, 1, 2])
    p['order'] = rng.below(3)
    p['sp'] = rng.weighted([(6, 0), (1, 1), (1, 2)])
    p['lwsp'] = rng.weighted([(9, ''), (1, ' '), (1, '\t  ')])
    if rng.chance(.06):
        # the block of headers ends right at the limit, or a little before
        p['pad'] = rng.pick([HEADERS, HEADERS, HEADERS - 1, HEADERS - 2, HEADERS - 3, HEADERS - 4, HEADERS - rng.below(600)])
    p['unq'] = rng.chance(.15)
    if k == 'file':
        p['fn'] = rng.pick(FILENAMES)
        if opts.get('plainfn'):
            p['fn'] = rng.pick(['a.txt', 'b.bin', 'noext', 'c.tar.gz'])
        p['star'] = rng.chance(.12) and not opts.get('plainfn')
        if p['star'] and rng.chance(.5):
            p['starcs'] = rng.pick(['utf-8', 'ISO-8859-1', 'iso-8859-15', 'windows-1252', 'KOI8-R', 'us-ascii'])
            p['starlang'] = rng.pick(['', 'en', 'de-DE'])
            try:
                star_text(p).encode(p['starcs'])
            except (UnicodeError, Invalid):
                p['starcs'] = None
        if rng.chance(.2):
            p['clen'] = True
    elif k == 'anon':
        p['anon'] = rng.pick(['nodisp', 'noname', 'nohdr', 'nofn', 'nodispfn'])
        p['fake'] = [rng.pick(fields), rng.pick(['', 'fake.txt'])] if rng.chance(.6) else None
        p['fakesat'] = rng.below(2000) if rng.chance(.5) else rng.below(200)
    return p


def gen_multi(rng, size, nparts, opts=None):
    opts = opts or {}
    spec = {'kind': 'multi', 'boundary': gen_boundary(rng), 'parts': [gen_part(rng, size, opts) for _ in range(nparts)],
            'bquote': rng.chance(.3), 'pre': rng.weighted([(4, ''), (1, '\r\n'), (1, 'This is a preamble.\r\n')]),
            'post': rng.weighted([(4, '\r\n'), (1, '\r\nThe epilogue.'), (1, '\r\n\r\n')]),
            'lwsp': rng.weighted([(12, ''), (1, ' '), (1, '\t')]), 'order': rng.weighted([(4, 0), (1, 1)]),
            'more': rng.weighted([(6, ''), (1, 'x=y'), (1, 'start="<a;b=c>"')])}
    fix_boundary(spec)
    return spec


def fix_boundary(spec):
    """No content may hold the delimiter."""
    for _ in range(60):
        if not delimiter_inside(spec):
            return
        bd = spec['boundary']
        spec['boundary'] = (bd[:-1] if len(bd) >= 70 else bd) + 'Q' if bd[-1:] != 'Q' else 'x' + bd[:60] + 'R'
    spec['boundary'] = 'zZzZboundaryzZzZ'


def delimiter_inside(spec):
    d = '--' + spec['boundary']
    if d in spec['pre'] or d in spec['post']:
        return True
    for p in spec['parts']:
        if d in part_payload(p, spec['boundary'])[0] or d in part_head(p, spec['boundary']):
            return True
    return False


def part_payload(p, boundary):
    """(bytes on the wire, content it stands for)"""
    raw = content(p['body'], boundary)
    if p['k'] == 'anon':
        if p.get('fake'):
            f = content([['hdr'] + p['fake']]) + 'forged'
            at = p.get('fakesat', 0)
            raw = ('f' * at + '\r\n' if at else '') + f + raw
        return raw, raw
    if is_b64(p):
        e = base64.b64encode(raw)
        w = p.get('wrap') or 0
        nl = p.get('nl') or '\r\n'
        if w > 0:
            e = nl.join([e[i:i + w] for i in range(0, len(e), w)])
        if p.get('lastnl') and e:
            e += nl
        return e, raw
    return raw, raw


def hname(p, name):
    c = p.get('hcase')
    return name.lower() if c == 1 else name.upper() if c == 2 else name


def quote_param(p, v):
    if p.get('unq') and v and all(c in ALNUM + '-_.' for c in v):
        return v
    if '\r' in v or '\n' in v or v != v.strip() or not v:
        raise Invalid('parameter')
    if '"' in v or v.endswith('\\') or '\\\\' in v[1:]:
        v = v.replace('\\', '\\\\').replace('"', '\\"')
    return '"%s"' % v


def part_head(p, boundary):
    lines = []
    k = p['k']
    semi, eq, colon = [('; ', '=', ': '), (';', '=', ':'), (' ;  ', ' = ', ':  ')][p.get('sp') or 0]
    if k == 'anon':
        a = p['anon']
        if a == 'nohdr':
            # no header at all: the content must not have an empty line in the first 1024 bytes
            return ''
        if a == 'noname':
            lines.append('Content-Disposition: form-data')
        elif a == 'nofn':
            lines.append('Content-Disposition: form-data; name=%s; filename="C:\\"' % quote_param({}, p['name']))
        elif a == 'nodispfn':
            lines.append('Content-Disposition: attachment; filename="x.txt"')
        else:
            lines.append('Content-Type: text/plain')
        lines += [x for x in p['headers'] if not x.lower().startswith('content-d')]
        return '\r\n'.join(lines) + '\r\n\r\n'
    disp = 'form-data' + semi + 'name' + eq + quote_param(p, p['name'])
    if k == 'file':
        if p.get('star'):
            cs = p.get('starcs') or 'UTF-8'
            try:
                disp += semi + "filename*" + eq + cs + "'" + (p.get('starlang') or '') + "'" + pct(star_text(p), cs, 'all')
            except (UnicodeError, LookupError):
                raise Invalid('file name')
        else:
            disp += semi + 'filename' + eq + quote_param(p, p['fn'])
    lines.append(hname(p, 'Content-Disposition') + colon + disp)
    if p.get('ctype'):
        lines.append(hname(p, 'Content-Type') + colon + p['ctype']
                     + ''.join(semi + n + eq + quote_param(p, v) for n, v in p.get('params') or []))
    if p.get('te'):
        lines.append(hname(p, 'Content-Transfer-Encoding') + colon + p['te'])
    if p.get('clen'):
        lines.append('Content-Length: %d' % len(part_payload(p, boundary)[0]))
    if p.get('order') == 1:
        lines.reverse()
    elif p.get('order') == 2:
        lines = lines[1:] + lines[:1]
    lines += p['headers']
    out = '\r\n'.join(lines) + '\r\n\r\n'
    if p.get('pad'):
        lines.append('X-Pad: ' + 'p' * (p['pad'] - len(p.get('lwsp') or '') - len(out) - 9))
        out = '\r\n'.join(lines) + '\r\n\r\n'
    if len(out) + len(p.get('lwsp') or '') > HEADERS:
        raise Invalid('part header too long')
    return out


def star_text(p):
    try:
        return p['fn'].decode('utf-8').replace(u'\\', u'_').replace(u'/', u'_').replace(u"'", u'_')
    except UnicodeError:
        raise Invalid('file name')


REFS = (('&eacute;', u'\xe9'), ('&euro;', u'\u20ac'), ('&#8364;', u'\u20ac'), ('&#x1F600;', u'\U0001f600'), ('&#300;', u'\u012c'))


def bare(fn, charset='utf-8'):
    for e, c in REFS:
        try:
            fn = fn.replace(e, c.encode(charset))
        except UnicodeError:
            pass
    for e, c in (('&amp;', '&'), ('&lt;', '<'), ('&gt;', '>'), ('&#65;', 'A'), ('&#x42;', 'B'), ('&#47;', '/'), ('&#92;', '\\')):
        fn = fn.replace(e, c)
    return base(fn)


def base(fn):
    fn = fn[fn.rfind('\\') + 1:].strip()
    fn = fn[fn.rfind('/') + 1:]
    if len(fn) > 255:
        # shortened, with its extension kept as far as that goes
        dot = fn.rfind('.') if fn.lstrip('.').find('.') >= 0 else len(fn)
        ext = fn[dot:][:255]
        fn = fn[:dot][:255 - len(ext)] + ext
    return fn


def build_multipart(spec, b, charset):
    bd = spec['boundary']
    if not bd or len(bd) > 70 or bd != bd.strip() or any(c not in BCHARS + ' ' for c in bd):
        raise Invalid('boundary')
    if delimiter_inside(spec):
        raise Invalid('delimiter inside')
    if spec['pre'] and (not spec['pre'].endswith('\r\n') or '\r\n\r\n' in spec['pre']):
        raise Invalid('preamble')
    if not spec['post'].startswith('\r\n') or ':' in spec['post']:
        raise Invalid('epilogue')
    out = [spec['pre']]
    n = len(spec['pre'])
    marks = []
    b.post, b.files = {}, {}
    b.parts = []
    for p in spec['parts']:
        head = part_head(p, bd)
        wire, raw = part_payload(p, bd)
        if p['k'] == 'anon' and p['anon'] == 'nohdr' and '\r\n\r\n' in wire[:1030]:
            raise Invalid('not headless')
        lwsp = p.get('lwsp') or ''
        if lwsp.strip():
            raise Invalid('padding')
        piece = '--%s%s\r\n%s%s\r\n' % (bd, lwsp, head, wire)
        start = n
        hend = n + 4 + len(bd) + len(lwsp) + len(head)
        dend = hend + len(wire)
        marks += [start, start + 2 + len(bd), hend - 2, hend, dend, dend + 2]
        out.append(piece)
        n += len(piece)
        info = {'start': start, 'content': hend, 'end': dend, 'k': p['k'], 'wire': wire, 'raw': raw}
        b.parts.append(info)
        if p['k'] == 'field':
            v = {'data': raw, 'content-type': (p.get('ctype') or '').lower(), 'transfer-encoding': (p.get('te') or '').lower(),
                 'content-type-extra': dict((x[0].lower(), x[1]) for x in p.get('params') or []) if p.get('ctype') else {}}
            b.post.setdefault(p['name'], []).append(v)
            info['name'], info['value'] = p['name'], v
        elif p['k'] == 'file':
            if p.get('star'):
                name = bare(star_text(p).encode(charset, 'replace').strip(), charset)
            else:
                name = bare(p['fn'], charset)
            if not name:
                raise Invalid('empty file name')
            extra = dict((x[0].lower(), x[1]) for x in p.get('params') or []) if p.get('ctype') else {}
            v = {'name': name, 'data': raw, 'size': len(raw), 'content_type': (p.get('ctype') or '').lower(),
                 'charset': extra.get('charset'), 'extra': extra, 'te': p.get('te') and p['te'].lower()}
            b.files.setdefault(p['name'], []).append(v)
            info['name'], info['value'] = p['name'], v
    last = '--%s--%s%s' % (bd, spec.get('lwsp') or '', spec['post'])
    marks += [n, n + 2 + len(bd), n + 4 + len(bd)]
    b.last_delim = n
    out.append(last)
    return ''.join(out), marks


# ------------------------------------------------------------ whole requests

def gen_request(rng, kind=None, size=2000, opts=None):
    opts = opts or {}
    kind = kind or rng.weighted([(1, 'none'), (2, 'text'), (2, 'form'), (4, 'multi')])
    charset = rng.weighted([(3, None), (1, 'utf-8'), (1, rng.pick(CHARSETS))])
    default = rng.weighted([(3, None), (1, 'utf-8'), (1, 'us-ascii')])
    if opts.get('charset'):
        charset = opts['charset']
    if opts.get('default') is not None:
        default = opts['default']
    if kind == 'none' and opts.get('noctype', True):
        charset = None
    cs = charset or default or 'ISO-8859-1'
    head = gen_header(rng, {'charset': cs})
    spec = {'kind': kind, 'head': head, 'charset': charset, 'default_charset': default, 'tight': rng.chance(.2),
            'csquote': rng.chance(.2)}
    if kind == 'none':
        spec['body'] = []
        spec['ctype'] = None
    elif kind == 'text':
        spec['ctype'] = rng.pick(['text/plain', 'application/json', 'text/html', 'application/octet-stream', 'text/xml'])
        spec['ctype_case'] = rng.chance(.1)
        t = u''.join(rng.pick(TEXTS) for _ in range(rng.below(8)))
        if charset is None and rng.chance(.2):
            spec['ctype'] = None
        try:
            t.encode(cs)
        except UnicodeError:
            t = u'plain text'
        spec['text'] = u8(t)
        spec['times'] = rng.weighted([(3, 1), (1, rng.below(40)), (1, 1 + size // (len(t) + 1))])
        spec['body'] = []
    elif kind == 'form':
        spec['pairs'] = gen_pairs(rng, cs, rng.weighted([(1, 1), (3, 3), (2, 8), (1, 30)]), True)
        spec['bseps'] = rng.weighted([(4, '&'), (1, ';'), (1, '&;')])
    elif kind == 'multi':
        n = opts.get('parts') or rng.weighted([(1, 0), (2, 1), (4, 2), (3, 4), (1, 9)])
        m = gen_multi(rng, size, n, opts)
        spec.update(m)
        spec['ctype_case'] = rng.weighted([(8, 0), (1, 1), (1, 2)])
    return spec


# ------------------------------------------------------------ deliveries

def gen_cuts(rng, built, simple=False):
    """How the stream cuts the bytes."""
    n = len(built.data)
    k = rng.below(9)
    if k == 0:
        return {}
    if k == 1:
        return {'cuts': [rng.pick([1, 1, 2, 3, 5, 7, 16, 17, 64, 100, 1000])]}
    if k == 2:
        return {'lines': True}
    if k in (3, 4):
        cuts = []
        tot = 0
        top = rng.pick([2, 5, 20, 100, 600, 3000])
        while tot < n and len(cuts) < 40:
            c = 0 if rng.chance(.12) else 1 + rng.below(top)
            cuts.append(c)
            tot += c
        cuts.append(rng.pick([-1, 1 + rng.below(top), 50]))
        return {'cuts': cuts}
    # around the interesting offsets
    points = set()
    for m in rng.sample(built.marks, rng.between(1, 6)):
        points.add(min(n, max(0, m + rng.between(-3, 3))))
    cuts = []
    pos = 0
    for p in sorted(points):
        if p > pos:
            cuts.append(p - pos)
            if rng.chance(.15):
                cuts.append(0)
            pos = p
    cuts.append(rng.pick([-1, -1, 1, 33]))
    return {'cuts': cuts}


CHUNKS = [1, 2, 3, 4, 5, 7, 11, 16, 31, 50, 64, 100, 127, 256, 500, 1000, 1024, 4096, 65536]


def gen_chunk(rng, built):
    n = len(built.body)
    c = rng.weighted([(2, 65536), (5, rng.pick(CHUNKS)), (2, 1 + rng.below(200))])
    if built.marks and rng.chance(.3):
        m = rng.pick(built.marks) - built.head_len + rng.between(-3, 3)
        if m > 0:
            c = m
    while c < 8 and n > 6000 or c * 1000 < n:
        c *= 4
    return max(1, c)
