"""
Runs cases inside one Jython process, as told by lines of JSON on stdin:
  batch  generate and run cases start, start+step, ... below count, until the deadline
  run    run one plan          shrink  make a failing plan smaller
Answers on the real stdout, one JSON object per line.
"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
sys.path.insert(0, HERE)
sys.path.append(sys.argv[2])

import json
import time
import traceback
from java.lang import System, Throwable

OUT = sys.stdout
_wall = System.currentTimeMillis


class Null(object):
    def write(self, s):
        pass
    flush = writelines = write


def say(**kw):
    OUT.write(json.dumps(kw, encoding='latin-1') + '\n')
    OUT.flush()


def narrow(x):
    """JSON texts carry bytes as latin-1."""
    if isinstance(x, unicode):
        return x.encode('latin-1')
    if isinstance(x, list):
        return [narrow(i) for i in x]
    if isinstance(x, dict):
        return dict((narrow(k), narrow(v)) for k, v in x.items())
    return x


def canon(x):
    """A plan as it is after writing and reading it."""
    return narrow(json.loads(json.dumps(x, encoding='latin-1')))


import boot
boot.boot(sys.argv[1])
sys.stdout = Null()
import core
from rng import Rng

MODS = {}


def mod(prop):
    if prop not in MODS:
        MODS[prop] = getattr(__import__('props.' + prop), prop)
    return MODS[prop]


def ours(tb):
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    while tb is not None:
        return tb.tb_frame.f_code.co_filename.startswith(boot.disk.PKG[0])
    return False


def execute(m, plan, keep=False):
    """-> {'ok'|'v'|'invalid'|'error': ..., 'crc', ...}"""
    boot.reset()
    core.begin(keep)
    out = {}
    try:
        out['ok'] = bool(m.run(plan))
    except core.Violation, e:
        out['v'] = e.cls
        out['msg'] = e.msg
    except core.Invalid, e:
        out['invalid'] = str(e)
    except core.StepLimit:
        out['v'] = 'endless work'
        out['msg'] = 'more than %s source lines executed without end' % core.LINES
    except core.Deadlock:
        out['v'] = 'deadlock'
        out['msg'] = 'every thread waits for a lock'
    except (Exception, core.Stop, core.ForeignBase), e:
        out['error'] = traceback.format_exc()
        if ours(sys.exc_info()[2]) or isinstance(e, Exception) and not isinstance(e, MemoryError):
            # raised by the code under test where nothing may be raised, or because of what it is
            out['v'] = 'unexpected error'
            out['msg'] = out.pop('error')[-1500:]
    except Throwable, e:
        out['error'] = 'java: %s' % e
    finally:
        core.end()
    out.update(core.summary())
    return out


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def make(m, c, i):
    boot.reset()
    for k in range(50):
        try:
            return canon(m.gen(Rng(c['seed'], c['prop'], c['tier'], i, k), c['tier']))
        except core.Invalid:
            pass
    return None


def batch(c):
    m = mod(c['prop'])
    t0 = _wall()
    end = t0 + int(c['seconds'] * 1000)
    st = {'runs': 0, 'nontrivial': 0, 'events': 0, 'yields': 0, 'switches': 0, 'faults': {}, 'probes': {}, 'invalid': 0,
          'lines': 0, 'sims': 0}
    crcs = []
    i = c['start']
    while i < c['count']:
        if _wall() > end:
            break
        say(at=i)
        try:
            plan = make(m, c, i)
        except Exception:
            say(error='gen %d: %s' % (i, traceback.format_exc()), at=i)
            return
        if plan is None:
            st['invalid'] += 1
            i += c['step']
            continue
        o = execute(m, plan)
        st['runs'] += 1
        if 'error' in o:
            say(error='run %d: %s' % (i, o['error']), at=i, plan=plan)
            return
        if 'invalid' in o:
            st['invalid'] += 1
        if 'v' in o:
            say(violation=dict(o, plan=plan, case=i))
            if not c.get('goon'):
                break
        elif o.get('ok'):
            st['nontrivial'] += 1
            crcs.append(o['crc'])
        st['events'] += o['events']
        st['yields'] += o['yields']
        st['switches'] += o['switches']
        st['sims'] += o['sims']
        st['lines'] += int(o['lines'])
        merge(st['faults'], o['faults'])
        merge(st['probes'], o['probes'])
        if o.get('ok') and len(st.setdefault('samples', [])) < 1 and len(repr(plan)) < 2500:
            st['samples'].append({'case': i, 'plan': plan, 'event_log_crc': o['crc']})
        i += c['step']
    say(done=st, crcs=crcs, next=i)


# ---------------------------------------------------------------- shrinking

def paths(x, here=()):
    """All places of a plan, outermost first."""
    yield here, x
    if isinstance(x, list):
        for i, v in enumerate(x):
            for p in paths(v, here + (i,)):
                yield p
    elif isinstance(x, dict):
        for k in sorted(x):
            for p in paths(x[k], here + (k,)):
                yield p


def put(x, path, v, delete=False):
    if not path:
        return v
    y = list(x) if isinstance(x, list) else dict(x)
    k = path[0]
    if len(path) == 1:
        if delete:
            del y[k]
        else:
            y[k] = v
    else:
        y[k] = put(x[k], path[1:], v, delete)
    return y


# Only changes after which a plan is still one that could have been generated.
ITEMS = frozenset('parts multi headers params query pairs body ops cuts faults switches eps tasks script calls foreign sizes claim schedules'.split())
GONE = frozenset('nt fault cuts lines form end ctype params te fake many disk faults capacity dmax nmax lineup chunk mhs fmax keepbuf '
                 'bufsize qmany'.split())
NONE = frozenset('te abs port charset default_charset fake crash cut script tail gone body fail nmax dmax'.split())
TEXT = frozenset('path frag text pre post'.split())
WORD = frozenset('name fn boundary'.split())
LEAST = {'mhs': 1, 'chunk': 1, 'bufsize': 1, 'n': 1, 'nmax': 1, 'times': 1}
WORDS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.')


def free_text(path):
    """May the string at this place be any string?"""
    k = path[-1]
    if isinstance(k, str):
        return k in TEXT
    if len(path) < 3 or not isinstance(path[-2], int):
        return False
    where = path[-3]
    if where in ('query', 'pairs'):
        return k < 2
    if where == 'headers':
        return k < 2
    if where == 'body':
        return k == 1
    return False


def smaller(v, path=()):
    """Simpler values to try for one place."""
    out = []
    key = path[-1] if path else None
    if isinstance(v, bool):
        if v:
            out.append(False)
    elif isinstance(v, (int, long)):
        if v > 0:
            out += [0, 1, v // 2, v - v // 4, v - 1]
        elif v < 0:
            out += [0, -1]
        out = [x for x in out if x >= LEAST.get(key, x)]
    elif isinstance(v, str):
        if v and key in WORD:
            out += [x for x in ('f', 'a.txt', 'B', v[:len(v) // 2], v[:-1], v[1:]) if len(x) < len(v) and x and WORDS.issuperset(x)]
        elif v and free_text(path):
            out += ['', v[:1], v[:len(v) // 2], v[len(v) // 2:], v[:-1], v[1:]]
            if v != 'a' * len(v):
                out.append('a' * len(v))
    elif isinstance(v, list):
        if key in ITEMS:
            n = len(v)
            if n > 3:
                out += [v[:n // 2], v[n // 2:]]
            for i in range(n):
                out.append(v[:i] + v[i + 1:])
    elif isinstance(v, dict):
        for k in sorted(v):
            if k in GONE and not (k == 'body'):
                d = dict(v)
                del d[k]
                out.append(d)
    if key in NONE and v is not None and not (key == 'body' and isinstance(v, list)):
        out.insert(0, None)
    res = []
    for o in out:
        if o != v and o not in res:
            res.append(o)
    return res


def at(x, path):
    for k in path:
        x = x[k]
    return x


def kind_of(o):
    """What kind of error it was, where the class does not tell."""
    if o.get('v') != 'unexpected error':
        return None
    return o['msg'].strip().split('\n')[-1].split(':')[0]


def shrink(c):
    m = mod(c['prop'])
    plan, cls = c['plan'], c['cls']
    want = kind_of(execute(m, plan))
    end = _wall() + int(c['seconds'] * 1000)
    best = None
    tried = 0
    progress = True
    while progress and _wall() < end:
        progress = False
        for path, v in list(paths(plan)):
            try:
                v = at(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            again = True
            while again and _wall() < end:
                again = False
                for w in smaller(v, path):
                    if _wall() > end:
                        break
                    cand = put(plan, path, w)
                    tried += 1
                    if tried % 50 == 0:
                        say(at=-1)
                    try:
                        o = execute(m, cand)
                    except Exception:
                        continue
                    if o.get('v') == cls and kind_of(o) == want:
                        plan, best, v = cand, o, w
                        progress = again = True
                        break
    say(shrunk=plan, tried=tried, msg=best['msg'] if best else None)


def history(c):
    """What happened in the process before the plan."""
    b = c.get('before')
    if not b:
        return
    m = mod(c['prop'])
    g = dict(b, prop=c['prop'])
    for i in b['cases']:
        say(at=i)
        plan = make(m, g, i)
        if plan is not None:
            execute(m, plan)
    if b.get('made') is not None:
        make(m, g, b['made'])


def main():
    say(ready=1)
    while 1:
        line = sys.stdin.readline()
        if not line:
            return
        c = narrow(json.loads(line))
        if c['cmd'] == 'batch':
            batch(c)
        elif c['cmd'] == 'run':
            history(c)
            o = execute(mod(c['prop']), c['plan'], c.get('keep'))
            if c.get('keep'):
                o['log'] = core.RUN.full
            say(result=o)
        elif c['cmd'] == 'case':
            say(plan=make(mod(c['prop']), c, c['case']))
        elif c['cmd'] == 'shrink':
            shrink(c)


if __name__ == '__main__':
    main()
