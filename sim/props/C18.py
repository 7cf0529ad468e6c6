"""The push-back stream conserves bytes."""
from lib import *
from request_parser.utils import datastructures as DS
from request_parser.exceptions.exceptions import SuspiciousOperation


class Producer(object):
    """Hands out pieces; may fail in between."""

    def __init__(self, pieces, fail_at, err, sim):
        self.pieces = pieces
        self.i = 0
        self.fail_at = fail_at
        self.err = err
        self.sim = sim
        self.out = ''
        self.failed = False
        self.calls = 0

    def __iter__(self):
        return self

    def next(self):
        self.calls += 1
        if self.fail_at == self.i and not self.failed:
            self.failed = True
            self.sim.fault('producer ' + self.err)
            raise core.ERRORS[self.err]()
        if self.i >= len(self.pieces):
            raise StopIteration
        p = self.pieces[self.i]
        self.i += 1
        self.out += p
        return p


def gen(rng, tier):
    deep = tier != 'quick'
    n = rng.weighted([(2, rng.below(4)), (4, rng.below(30)), (2, rng.below(150))])
    top = rng.pick([1, 3, 20, 300, 5000 if deep else 1500])
    sizes = [0 if rng.chance(.15) else 1 + rng.below(top) for _ in range(n)]
    total = sum(sizes)
    ops = []
    kinds = rng.pick([[(5, 'read'), (1, 'all'), (3, 'next'), (3, 'unget'), (1, 'tell'), (2, 'line')], [(5, 'unget'), (3, 'next'), (2, 'tell')],
                      [(8, 'read'), (1, 'unget')], [(6, 'next'), (3, 'unget'), (1, 'all')], [(6, 'line'), (2, 'unget'), (1, 'read')]])
    for _ in range(rng.weighted([(3, rng.between(1, 10)), (3, rng.between(10, 60)), (1, rng.between(60, 200))])):
        k = rng.weighted(kinds)
        if k == 'read':
            ops.append(['read', rng.weighted([(2, 0), (5, 1 + rng.below(top * 2)), (2, rng.below(total + 3)), (2, 1)])])
        elif k == 'unget':
            # how many bytes of what was handed out last
            ops.append(['unget', rng.weighted([(3, rng.below(top + 2)), (2, 1), (2, 'last'), (1, rng.below(total + 2)), (1, 0)])])
            if rng.chance(.12):
                ops[-1] = ['foreign', rng.pick(['X', 'yz', '\n', '\r\n', 'abc']), rng.pick([1, 1, 2, 7, 40])]
        elif k == 'line':
            ops.append(['line', rng.weighted([(3, None), (1, 1 + rng.below(20))])])
        elif k == 'all':
            ops.append(['all' if rng.chance(.5) else 'iter', rng.below(5)])
        else:
            ops.append([k])
    if rng.chance(.25):
        # a caller that is stuck: takes and pushes back the same over and over, at any place
        j = rng.below(len(ops) + 1)
        ops[j:j] = [['stuck', rng.weighted([(1, 1), (1, 'last'), (1, 1 + rng.below(top))]), rng.pick([5, 18, 19, 120, 120]), rng.pick(['next', 'next', 'read', 'read', 'all'])]]
    plan = {'sizes': sizes, 'seed': rng.below(1000), 'alpha': rng.pick(['ab\n', 'abcdefghijklmnop', '\n\r', 'x']), 'ops': ops}
    if rng.chance(.2):
        plan['fail'] = [rng.below(n + 1), rng.pick(['EIO', 'foreign', 'base', 'reset', 'value'])]
    return plan


class Stuck(Exception):
    pass


def run(plan):
    sizes = plan['sizes']
    data = G.content([['rnd', plan['seed'], sum(sizes), 'bin']]) if sum(sizes) else ''
    al = plan['alpha']
    if not al:
        raise Invalid('alphabet')
    data = ''.join(al[ord(c) % len(al)] for c in data)
    pieces, p = [], 0
    for n in sizes:
        pieces.append(data[p:p + n])
        p += n
    with Sim() as sim:
        f = plan.get('fail')
        prod = Producer(pieces, f[0] if f else None, f[1] if f else None, sim)
        s = DS.LazyStream(prod)
        st = Model(sim, s, prod, data)
        for op in plan['ops']:
            if not st.do(op):
                break
        st.finish()
        sim.log('end %d %d %d' % (st.pos, st.max_equal, prod.i))
        return len(data) > 0 and len(plan['ops']) > 1


class Model(object):
    """What is still to come (pushed back, then not yet produced); everything else follows."""

    def __init__(self, sim, s, prod, data):
        self.sim, self.s, self.prod, self.data = sim, s, prod, data
        self.pos = 0            # bytes handed out minus bytes pushed back
        self.base = 0           # bytes of data handed out for the first time
        self.back = ''          # pushed back, to come before data[base:]
        self.seen = ''          # handed out, most of it
        self.last = 0           # size of the last hand-out
        self.equal = {}         # pushes of a size since the producer gave something
        self.max_equal = 0
        self.calls = 0
        self.gone = False
        self.stuck = False

    def rest(self, n=None):
        if n is None:
            return self.back + self.data[self.base:]
        if len(self.back) >= n:
            return self.back[:n]
        return self.back + self.data[self.base:self.base + n - len(self.back)]

    def left(self):
        return len(self.back) + len(self.data) - self.base

    def fresh(self):
        if self.prod.i != self.calls:
            self.calls = self.prod.i
            self.equal = {}

    def call(self, fn, *a):
        r, e = attempt(self.sim, fn, *a)
        if e is None:
            return r, False
        if isinstance(e, StopIteration):
            raise Invalid('stop')
        if self.prod.failed and not self.gone and not isinstance(e, SuspiciousOperation):
            want = core.ERRORS[self.prod.err]()
            if type(e) is not type(want):
                fail('wrong error', 'the producer raised %s, the stream %s', exc_name(want), exc_name(e))
            self.gone = True
            # what was already taken for this read is lost, but nothing else
            rest = ''
            x = attempt(self.sim, self.s.read)
            if x[1] is not None:
                fail('no end after a failure', 'a read after the failure raised %s', exc_name(x[1]))
            rest = x[0]
            want = self.rest()
            if not want.endswith(rest):
                fail('bytes wrong', 'after a failure of the producer %s came, of the remaining %s', short(rest), short(want))
            later = sum(len(p) for p in self.prod.pieces[self.prod.fail_at:])
            if len(rest) < later:
                fail('bytes lost', 'after a failure of the producer %d of the %d bytes it had left were handed out', len(rest), later)
            return None, True
        if isinstance(e, SuspiciousOperation):
            self.fresh()
            # the stream pushes back what a sized read has left over, too
            if max(self.equal.values() or [0]) < 20:
                fail('called stuck', 'the stuck-parser error after %d equal push-backs', max(self.equal.values() or [0]))
            self.stuck = True
            self.sim.probe('stuck error')
            return None, True
        fail('wrong error', '%s raised %s', fn.__name__, exc_name(e))

    def got(self, what, r, want):
        if not isinstance(r, str):
            fail('bytes wrong', '%s returned a %s', what, type(r).__name__)
        if r != want:
            fail('bytes wrong', '%s at %d returned %s, wanted %s', what, self.pos, short(r), short(want))
        n = len(r)
        self.pos += n
        b = min(n, len(self.back))
        self.back = self.back[b:]
        self.base += n - b
        self.seen = (self.seen + r)[-max(n, 20000):]
        self.last = n
        self.sim.log('%s %d %d' % (what, len(r), self.prod.i))
        self.tell(what)

    def tell(self, what):
        t = self.s.tell()
        if t != self.pos:
            fail('position', 'after %s tell() is %s, handed out and not pushed back are %d', what, t, self.pos)

    def do(self, op):
        s = self.s
        k = op[0]
        if k == 'read':
            n = op[1]
            if n < 0:
                raise Invalid('size')
            r, over = self.call(s.read, n)
            if over:
                return False
            self.got('read(%d)' % n, r, self.rest(n))
            self.inside()
        elif k == 'line':
            n = op[1]
            if not hasattr(s, 'readline'):
                return True
            r, over = self.call(s.readline, n) if n is not None else self.call(s.readline)
            if over:
                return False
            want = self.rest(n)
            self.got('readline(%s)' % n, r, want[:want.find('\n') + 1 or len(want)])
            self.inside()
        elif k == 'all':
            r, over = self.call(s.read)
            if over:
                return False
            self.got('read()', r, self.rest())
        elif k == 'iter':
            def some():
                out = []
                for piece in s:
                    out.append(piece)
                    if op[1] and len(out) >= op[1]:
                        break
                return out
            r, over = self.call(some)
            if over:
                return False
            if not op[1]:
                self.got('iteration', ''.join(r), self.rest())
            else:
                j = ''.join(r)
                self.got('iteration', j, self.rest(len(j)))
                if len(r) < op[1] and self.left():
                    fail('bytes lost', 'the iteration ended %d bytes too early', self.left())
        elif k == 'next':
            return self.next()
        elif k == 'unget':
            n = self.last if op[1] == 'last' else op[1]
            return self.unget(self.seen[-n:] if n else '')
        elif k == 'foreign':
            # bytes that never were in the stream
            return self.unget(op[1] * max(0, op[2]))
        elif k == 'tell':
            self.tell('nothing')
        elif k == 'stuck':
            # ['stuck', how many bytes, how often, how they are taken]
            first = None
            for i in range(op[2]):
                if op[3] == 'next':
                    if not self.next():
                        return False
                    n = self.last
                elif op[3] == 'all':
                    if not self.do(['all', 0]):
                        return False
                    n = self.last
                else:
                    n = self.last if op[1] == 'last' else op[1]
                    if not self.do(['read', n]):
                        return False
                    n = self.last
                if n == 0 or n != first and first is not None:
                    return True
                first = n
                if not self.unget(self.seen[-n:]):
                    return False
            self.fresh()
            # sized reads push back themselves in between
            if op[3] in ('next', 'all') and op[2] > 100:
                fail('not called stuck', 'the same %d bytes were taken and pushed back %d times without an error', n, op[2])
        else:
            raise Invalid('op')
        return True

    def inside(self):
        # a sized read may push back what is left over
        self.fresh()
        n = len(self.back) + len(self.prod.out) - self.base
        if n:
            self.equal[n] = self.equal.get(n, 0) + 1

    def next(self):
        def one():
            try:
                return s.next()
            except StopIteration:
                return None
        s = self.s
        r, over = self.call(one)
        if over:
            return False
        if r is None:
            if self.left():
                fail('bytes lost', 'the stream ends %d bytes too early', self.left())
            self.last = 0
            return True
        self.got('next()', r, self.rest(len(r)))
        return True

    def unget(self, piece):
        n = len(piece)
        self.fresh()
        if n:
            self.equal[n] = self.equal.get(n, 0) + 1
            self.max_equal = max(self.equal.values())
        r, over = self.call(self.s.unget, piece)
        if over:
            return False
        self.pos -= n
        self.back = piece + self.back
        self.seen = self.seen[:-n] if n and self.seen.endswith(piece) else self.seen
        self.last = 0
        self.sim.log('unget %d' % n)
        self.tell('unget(%d)' % n)
        return True

    def finish(self):
        if self.gone:
            return
        if self.stuck:
            return
        r, over = self.call(self.s.read)
        if not over:
            self.got('the last read()', r, self.rest())
            r, over = self.call(self.s.read, 5)
            if r:
                fail('bytes twice', '%s after the end', short(r))
