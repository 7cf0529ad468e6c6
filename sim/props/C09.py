"""Damaged input ends in a result or a parse error, in bounded work."""
import re

from lib import *

# header lines, of the request or of a part
LINE = re.compile(r'^([A-Za-z][A-Za-z-]{0,40}):([^\r\n]*)\r$', re.M)
VALUES = ['', ' ', '\t ', 'x', ':', '::', ':80', '[', ']', '[]', '[:', '[::1', '[]:', 'a:', '.', '%', ';', '=', '"', '""', ';=', '; ;', '/', ',', '\\', "'", "''", '-1', '1e3',
          '+5', '0x10', ' 12 ', '1,2', '9' * 30, '0', '\xe9', '\0', 'multipart/form-data', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=""',
          'multipart/form-data; boundary', 'multipart/form-data;boundary=B;boundary=C', 'multipart/form-data; boundary=' + 'b' * 300, 'multipart/form-data; boundary=\xff',
          'multipart/', 'multipart/mixed; boundary=B', '/form-data', ';boundary=B', 'form-data', 'form-data; name', 'form-data; name=', 'form-data; name=""', 'form-data; name=; filename=',
          'form-data; name="f"; filename', 'form-data; name="f"; filename=""', 'form-data; name="f"; filename="\\"', 'form-data; name="f"; filename="/"', 'form-data; name="f',
          'form-data; name="f"; filename*=x', "form-data; name=\"f\"; filename*=''", "form-data; name=\"f\"; filename*=utf-8''%ff", "form-data; name=\"f\"; filename*=no-such''a",
          "form-data; name*=utf-8''f", "form-data; name=\"f\"; filename*=hex''xyz", "form-data; name=\"f\"; filename*=zlib''%ff",
          "form-data; name=\"f\"; filename*=punycode''%e9", "form-data; name=\"f\"; filename*=''a", 'form-data; name="f"; name="g"', 'form-data; NAME="f"', 'form-data name="f"', '; name="f"', 'base64', 'BASE64', 'base64;x=y', 'quoted-printable',
          'text/plain; charset=', 'text/plain; charset', 'text/plain; charset=""', 'text/plain; charset=\xff', 'text/plain; charset=a\0b', 'text/plain; charset="utf-8', 'a/b; c=d; e']
CHARSETS = ['hex', 'zlib', 'bz2', 'base64', 'rot13', 'uu', 'idna', 'punycode', 'undefined', 'unicode_escape', 'raw_unicode_escape', 'string_escape', 'unicode_internal', 'utf-7',
            'utf-16', 'utf-32', 'utf_8_sig', 'utf-16-le', 'shift_jis', 'gb18030', 'iso-2022-jp', 'cp037', 'mbcs', 'quopri', 'palmos', 'latin1', 'u8', '../x', 'os', 'a' * 300, '.', '-', ' ',
            'UTF_8', 'ascii', 'charmap', '\xe9', 'x-user-defined', 'binary', 'none', '0', 'utf-8 ', 'utf8;', 'aliases', 'exec']

INS = ['\r\n', '\r\n\r\n', '--', '"', '=', ';', ':', '\0', '\xff', '%', '%zz', 'boundary=', 'Content-Disposition: form-data; name="z"\r\n\r\n',
       'filename=', "filename*=x'y'", "name*=utf-9''a", ' ', '\t', '&', 'Content-Transfer-Encoding: base64\r\n', 'Content-Type: multipart/form-data\r\n',
       '-1', '99999999999999999999', 'charset=nope', 'charset=utf-16', 'Content-Length: x\r\n', "*=''", '[', ']', 'http://', '//', '@', '\x80abc']


# what numbers become, and the request line
NUMBERS = ['65535', '65536', '99999', '2147483647', '2147483648', '4294967296', '9223372036854775808', '9' * 30, '1' + '0' * 400, '0', '00', '000080', '-1', '+1', '1.5', '1e9', '0x1f', '1_0', '1L', ' 1', '1 ',
           '', '\xb2', '\xd9\xa3', '1\x001', '1-2', '1:2', '1,1']
URI = ['http:', 'https:', 'HTTP:', 'ftp:', ':', '//', '//', '/', '/', '?', '?', '#', '@', '[', ']', '[::1]', '[::1', '::1]', ':80', ':99999999', ':', ':x', 'a', 'a.b', '..', '%', '%41', '%zz', '%C3%A9', '\xe9', '\0', ';', '&', '=',
       'a=b', '*', '\\', ' ', '\t', '1', '.', '"', "'", '-', 'x' * 300]
METHODS = ['GET', 'POST', 'CONNECT', '', 'get', '\xff', 'G\0T', ':', 'a b']
PROTOS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/', 'HTTP', '', 'HTTP/9.9.9', '\xff', '1', 'HTTP/1.1 x', 'HTTP/x.y']


MAINS = ['form-data', 'form-data', 'multipart/form-data', 'text/plain', 'application/x-www-form-urlencoded', 'base64', 'attachment', '', ' ', 'x']
PARAMS = ['name', 'filename', 'boundary', 'charset', 'x', '', 'NAME', ' name ', 'na me', '\xe9', '"name"']
STARS = ['', '', '', '*', '*', '*0', '*0*', '**', '*1']
TOKENS = ["'", "''", '"', '\\', '\\"', '%', '%41', '%e9', '%zz', '%u0041', 'utf-8', 'iso-8859-1', 'hex', 'nope', 'B', 'a', 'a.txt', ' ', ';', '=', ',', '/', '\xe9', '\0', '&#65;', '&#x110000;', '&bogus;',
          '&#99999999999;', '&', '[', '0', 'x' * 300]


def gen_value(rng):
    """A header value put together from what such values are made of."""
    out = rng.pick(MAINS)
    for _ in range(rng.weighted([(4, 1), (4, 2), (1, 0), (1, 5)])):
        out += rng.pick([';', '; ', '; ', ' ; ', ';;', ' ', '']) + rng.pick(PARAMS) + rng.pick(STARS) + rng.pick(['=', '=', '=', '=', ' = ', '==', ''])
        if rng.chance(.3):
            out += rng.pick(['utf-8', 'iso-8859-1', '', 'hex', 'x']) + "'" + rng.pick(['', 'en']) + rng.pick(["'", "'", '', "''"])
        q = rng.pick(['', '', '"'])
        out += q + ''.join(rng.pick(TOKENS) for _ in range(rng.below(4))) + (q if rng.chance(.8) else '')
    return out


def gen(rng, tier):
    spec = G.gen_request(rng, rng.weighted([(1, 'none'), (2, 'text'), (3, 'form'), (8, 'multi')]), rng.pick([40, 300, 2500]))
    b = G.build(spec)
    n = len(b.data)
    ops = []

    def where():
        k = rng.below(8)
        if k < 3:
            return max(0, min(n, rng.pick(b.marks) + rng.between(-8, 8)))
        if k == 3:
            return rng.below(b.head_len)
        if k == 4 and getattr(b, 'parts', None):
            p = rng.pick(b.parts)
            return b.head_len + p['start'] + rng.below(p['content'] - p['start'] + 1)
        return rng.below(n + 1)
    for _ in range(rng.weighted([(5, 1), (3, 2), (2, 4), (1, 10)])):
        k = rng.below(20)
        if k == 17:
            ops.append(['num', rng.below(60), rng.pick(NUMBERS)])
        elif k == 18:
            ops.append(['hval', rng.below(60), rng.pick(['a', 'a', 'a.b', '1.2.3.4', '[::1]', '']) + rng.pick(['', ':', ':', '.:', '::']) + rng.pick(NUMBERS)])
        elif k == 19:
            ops.append(['rline', rng.pick(METHODS), ''.join(rng.pick(URI) for _ in range(rng.between(0, 6))), rng.pick(PROTOS)])
        elif k == 11 or k > 14:
            ops.append(['hval', rng.below(60), rng.pick(VALUES) if rng.chance(.4) else gen_value(rng)])
        elif k == 12:
            ops.append(['hval', rng.below(60), rng.pick(['text/plain', 'application/x-www-form-urlencoded', 'multipart/form-data; boundary=B']) + '; charset=' + rng.pick(CHARSETS)])
        elif k == 13:
            ops.append(['hname', rng.below(60), rng.pick(['', 'Host', 'Content-Type', 'Content-Length', 'Content-Disposition', 'Content-Transfer-Encoding', 'X', ' ', '\xff'])])
        elif k == 14:
            ops.append(rng.pick([['hdel', rng.below(60)], ['hdup', rng.below(60)], ['hset', rng.pick(CHARSETS)]]))
        elif k < 2:
            ops.append(['set', where(), rng.pick(['\0', '\xff', '\r', '\n', ' ', '"', '-', ':', ';', '=', 'x', '\x80', '%', chr(rng.below(256))])])
        elif k < 4:
            ops.append(['drop', where(), rng.pick([1, 1, 2, 3, 4, 10, 100])])
        elif k == 4:
            ops.append(['dup', where(), rng.pick([1, 2, 4, 20, 200])])
        elif k == 5:
            ops.append(['swap', where(), where(), rng.pick([1, 2, 10, 50])])
        elif k < 9:
            ops.append(['ins', where(), rng.pick(INS), rng.pick([1, 1, 1, 1, 3, 60])])
        elif k == 9:
            ops.append(['trunc', where()])
        else:
            ops.append(['ins', where(), rng.text('\r\n-:;="abc\0\xe9', 1, 8), 1])
    cfg = {'lineup': rng.weighted([(3, 'default'), (2, 'temp'), (1, 'memtmp')]), 'mhs': rng.pick([16, 16, 1, 50, 4096]), 'chunk': G.gen_chunk(rng, b)}
    cfg['fmax'] = rng.pick([31457280, 0, 100, 1000])
    return {'spec': spec, 'stream': G.gen_cuts(rng, b), 'cfg': cfg, 'ops': ops, 'disk': {'bufsize': rng.pick([8192, 1])}}


def damage(data, ops, sim):
    for op in ops:
        k, p = op[0], op[1]
        if k == 'hset':
            # another charset where one is named
            data = re.sub(r'(?i)(charset=)"?[A-Za-z0-9_-]+"?', lambda m: m.group(1) + op[1], data, 1)
            sim.fault('damage: ' + k)
            continue
        if k == 'num':
            # another number where one is, in front of the body for the most part
            ms = list(re.finditer(r'\d+', data))[:60]
            if ms:
                m = ms[p % len(ms)]
                data = data[:m.start()] + op[2] + data[m.end():]
                sim.fault('damage: ' + k)
            continue
        if k == 'rline':
            data = '%s %s %s' % (op[1], op[2], op[3]) + data[max(0, data.find('\r\n')):]
            sim.fault('damage: ' + k)
            continue
        if k[:1] == 'h':
            ms = list(LINE.finditer(data))
            if ms:
                m = ms[p % len(ms)]
                if k == 'hval':
                    data = data[:m.start(2)] + op[2] + data[m.end(2):]
                elif k == 'hname':
                    data = data[:m.start(1)] + op[2] + data[m.end(1):]
                elif k == 'hdel':
                    data = data[:m.start()] + data[m.end() + 1:]
                elif k == 'hdup':
                    data = data[:m.start()] + data[m.start():m.end() + 1] + data[m.start():]
                else:
                    raise Invalid('op')
                sim.fault('damage: ' + k)
            continue
        p = max(0, min(p, len(data)))
        if k == 'set':
            if p < len(data):
                data = data[:p] + op[2][:1] + data[p + 1:]
        elif k == 'drop':
            data = data[:p] + data[p + op[2]:]
        elif k == 'dup':
            data = data[:p] + data[p:p + op[2]] + data[p:]
        elif k == 'swap':
            q = max(0, min(op[2], len(data)))
            p, q = min(p, q), max(p, q)
            n = min(op[3], q - p)
            data = data[:p] + data[q:q + n] + data[p + n:q] + data[p:p + n] + data[q + n:]
        elif k == 'ins':
            data = data[:p] + op[2] * max(1, min(op[3], 200)) + data[p:]
        elif k == 'trunc':
            data = data[:p]
        else:
            raise Invalid('op')
        sim.fault('damage: ' + k)
    return data


def run(plan):
    spec = plan['spec']
    b = G.build(spec)
    with Sim(plan.get('disk')) as sim:
        s = make_settings(sim, cfg_of(spec, plan['cfg']))
        b.data = damage(b.data, plan.get('ops') or [], sim)
        limit = 30000 + 3000 * len(b.data)
        sim.count_work(limit)
        r, st = new_request(sim, b, plan['stream'], s)
        try:
            _, e = attempt(sim, r.parse)
        except core.StepLimit:
            fail('endless work', 'more than %d source lines were executed for %d bytes', limit, len(b.data))
        finally:
            sim.trace_off()
        if e is not None:
            if not parse_error(e):
                fail('internal error ' + err_kind(e), 'parse() raised %s', exc_name(e))
            sim.probe('refused: ' + err_kind(e))
        else:
            sim.probe('accepted')
        if st.pulls_after_end > 60 + len(b.data) // 4:
            fail('endless work', 'the ended stream was asked %d times for more', st.pulls_after_end)
        _, e2 = attempt(sim, r.close)
        if e2 is not None:
            fail('close failed', 'close() raised %s after %s', exc_name(e2), exc_name(e))
        digest(sim, err_kind(e), plain(r.POST))
        return True
