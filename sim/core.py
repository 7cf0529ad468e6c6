"""
The simulator: one run's event log, its seeded (or replayed) schedule, the
simulated streams, and the switch that makes all of it current.
"""
import socket
import sys
import thread
import threading
import zlib
from java.lang import Throwable
from java.util.concurrent import Semaphore

import Tracer
import disk as D


class Invalid(Exception):
    """The plan does not describe a run (only while shrinking)."""


class Stop(BaseException):
    """Raised inside the code under test to end a run."""


class StepLimit(Stop):
    pass


# no simulation needs anywhere near so many source lines
LINES = 40000000


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Foreign(Exception):
    """An error of the application's own stream, which is no I/O error."""


class ForeignBase(BaseException):
    """Something like a timeout or a cancelled greenlet."""


ERRORS = {
    'EIO': lambda: IOError(5, 'simulated Input/output error'),
    'timeout': lambda: socket.timeout('simulated timed out'),
    'reset': lambda: socket.error(104, 'simulated Connection reset by peer'),
    'EINTR': lambda: IOError(4, 'simulated Interrupted system call'),
    'bare': lambda: IOError('simulated request data read error'),
    'os': lambda: OSError(5, 'simulated Input/output error'),
    'foreign': lambda: Foreign('simulated failure of the stream'),
    'value': lambda: ValueError('simulated I/O operation on closed file'),
    'base': lambda: ForeignBase('simulated cancellation'),
    'eof': lambda: EOFError('simulated end'),
    'key': lambda: KeyError('simulated key'),
    'attr': lambda: AttributeError('simulated attribute'),
    'assert': lambda: AssertionError('simulated assertion'),
    'memory': lambda: MemoryError('simulated allocation failure'),
    'unicode': lambda: UnicodeDecodeError('ascii', 'x', 0, 1, 'simulated'),
    'type': lambda: TypeError('simulated type error'),
    'index': lambda: IndexError('simulated index error'),
    'runtime': lambda: RuntimeError('simulated runtime error'),
}
IO_ERRORS = ('EIO', 'timeout', 'reset', 'EINTR', 'bare')


class Run(object):
    """What is collected over the simulations of one case."""

    def __init__(self):
        self.quiet = False          # dry runs are not counted
        self.clear(False)

    def clear(self, keep):
        self.keep = keep
        self.sims = []
        self.full = []
        self.dry = 0


RUN = Run()


def begin(keep=False):
    RUN.clear(keep)


def end():
    Tracer.off()
    D.CURRENT[0] = None
    SimLock.sim = None


def summary():
    crc, events, yields, switches, lines = 0, 0, 0, 0, 0
    faults, probes = {}, {}
    for s in RUN.sims:
        crc = zlib.crc32('%d' % s.crc, crc)
        events += s.events
        yields += s.yields
        switches += s.switched
        lines += s.tracer.steps
        for a, b in ((faults, s.faults), (probes, s.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
    return {'crc': crc & 0xffffffff, 'events': events, 'yields': yields, 'switches': switches, 'lines': lines, 'faults': faults,
            'probes': probes, 'sims': len(RUN.sims)}


# (module, name, what it is there, what it is on Windows)
WINDOWS = []


class Sim(object):
    def __init__(self, diskplan=None, switches=None, line_yields=False, step_limit=None):
        self.crc = 0
        self.events = 0
        self.tail = []
        self.keep = RUN.keep
        self.full = RUN.full
        if not RUN.quiet:
            RUN.sims.append(self)
        self.disk = D.Disk(diskplan, self)
        self.sched = None
        self.switches = dict((a, b) for a, b in switches or [])
        self.line_yields = line_yields
        self.step_limit = step_limit or LINES
        self.yield_kinds = {}
        t = self.tracer = Tracer()
        t.prefix = D.PKG[0]
        t.lines = bool(line_yields)
        t.limit = self.step_limit
        t.everything = True
        t.onSwitch = self._switch_at
        t.onLimit = self._over
        t.recording = RUN.quiet
        for i in self.switches:
            t.add(i)
        self.faults = {}
        self.probes = {}
        self.switched = 0

    # -- log
    def log(self, text):
        self.events += 1
        if self.sched is not None:
            text = '%s %s' % (self.sched.current, text)
        self.crc = zlib.crc32(text, self.crc)
        if self.keep:
            self.full.append(text)
        else:
            self.tail.append(text)
            if len(self.tail) > 80:
                del self.tail[:40]

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('fault ' + kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # -- schedule
    def yield_point(self, kind):
        s = self.sched
        if s is None:
            return
        if thread.get_ident() not in self.disk.threads:
            return
        t = self.tracer
        i = t.yields
        t.yields = i + 1
        self.yield_kinds[kind] = self.yield_kinds.get(kind, 0) + 1
        if i in self.switches and not Tracer.importing():
            s.switch(self.switches[i])

    @property
    def yields(self):
        return self.tracer.yields

    @property
    def steps(self):
        return self.tracer.steps

    def _switch_at(self, i):
        s = self.sched
        if s is not None and thread.get_ident() in self.disk.threads:
            s.switch(self.switches[i])

    def _over(self, i):
        # once more in a while, if someone catches it
        self.tracer.limit = self.tracer.steps + 200000
        raise StepLimit()

    # -- tracing of the code under test
    def trace_on(self):
        self.tracer.on()

    def trace_off(self):
        Tracer.off()

    def count_work(self, limit):
        """From here on, more than so many source lines are too many."""
        self.step_limit = limit
        self.tracer.limit = self.tracer.steps + limit
        self.tracer.everything = True
        self.trace_on()

    def __enter__(self):
        D.use(self.disk)
        SimLock.sim = self
        if self.disk.nt:
            for m, k, usual, other in WINDOWS:
                setattr(m, k, other)
        self.trace_on()
        return self

    def __exit__(self, *a):
        Tracer.off()
        D.CURRENT[0] = None
        SimLock.sim = None
        if self.disk.nt:
            for m, k, usual, other in WINDOWS:
                setattr(m, k, usual)
            self.probe('windows')
        for f in self.disk.fired:
            k = 'disk %s %s' % f
            self.faults[k] = self.faults.get(k, 0) + 1
        if self.disk.collided:
            self.faults['name collision'] = self.faults.get('name collision', 0) + self.disk.collided

    # -- tasks
    def run_tasks(self, tasks, first=0):
        """Run functions as threads of which one at a time proceeds; returns their (result, exception)."""
        s = Sched(self, tasks)
        self.sched = s
        try:
            return s.run(first)
        finally:
            self.sched = None


class Deadlock(Stop):
    pass


class Sched(object):
    def __init__(self, sim, tasks):
        self.sim = sim
        self.tasks = tasks
        self.sems = [Semaphore(0) for _ in tasks]
        self.main = Semaphore(0)
        self.state = ['ready'] * len(tasks)
        self.results = [None] * len(tasks)
        self.current = 0
        self.idents = [None] * len(tasks)
        self.abort = False

    def run(self, first):
        threads = []
        for i in range(len(self.tasks)):
            t = threading.Thread(target=self._main, args=(i,))
            t.setDaemon(True)
            threads.append(t)
            t.start()
        self.current = first % len(self.tasks)
        self.sems[self.current].release()
        self.main.acquire()
        for t in threads:
            t.join()
        return self.results

    def _main(self, i):
        self.sems[i].acquire()
        self.idents[i] = thread.get_ident()
        self.sim.disk.threads.add(self.idents[i])
        try:
            if self.abort:
                raise Deadlock()
            self.sim.trace_on()
            try:
                r = (self.tasks[i](), None)
            finally:
                Tracer.off()
        except Exception, e:
            r = (None, e)
        except Stop, e:
            r = (None, e)
        except BaseException, e:
            r = (None, e)
        except Throwable, e:
            r = (None, RuntimeError('java: %s' % e))
        self.results[i] = r
        self.sim.tracer.recording = False
        self.state[i] = 'done'
        self.sim.disk.threads.discard(self.idents[i])
        self.sim.log('end %d' % i)
        nxt = self._next(i)
        if nxt is None:
            left = [j for j in range(len(self.tasks)) if self.state[j] != 'done']
            if not left:
                self.main.release()
                return
            # everyone left waits for a lock
            self.abort = True
            nxt = left[0]
        self.current = nxt
        self.sems[nxt].release()

    def _next(self, i):
        n = len(self.tasks)
        for d in range(1, n + 1):
            j = (i + d) % n
            if self.state[j] == 'ready':
                return j
        return None

    def switch(self, to):
        me = self.current
        to = to % len(self.tasks)
        if to == me or self.state[to] != 'ready':
            return
        self.sim.switched += 1
        self.sim.log('switch %d' % to)
        self._go(me, to)

    def _go(self, me, to):
        self.current = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.abort:
            raise Deadlock()

    def block(self):
        """The current task waits; someone will make it ready."""
        me = self.current
        self.state[me] = 'blocked'
        nxt = self._next(me)
        if nxt is None:
            self.abort = True
            self.state[me] = 'ready'
            raise Deadlock()
        self._go(me, nxt)
        self.state[me] = 'ready'


_real_allocate = thread.allocate_lock


class SimLock(object):
    """Locks of the code under test: waiting is a decision of the simulator."""
    sim = None

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
        self.waiters = []

    def acquire(self, blocking=True, *a):
        sim = SimLock.sim
        s = sim.sched if sim is not None else None
        me = s.current if s is not None else 'main'
        if s is not None:
            sim.yield_point('lock')
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if s is None:
                raise Deadlock()
            self.waiters.append(me)
            s.block()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release of an unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            sim = SimLock.sim
            s = sim.sched if sim is not None else None
            if s is not None:
                for w in self.waiters:
                    if s.state[w] == 'blocked':
                        s.state[w] = 'ready'
            self.waiters = []

    def locked(self):
        return bool(self.count)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def sim_rlock(*a, **k):
    return SimLock(True)


# ---------------------------------------------------------------- streams

class SimStream(object):
    """
    The peer of a request: hands out the bytes in the planned pieces, and fails,
    ends or goes on for ever as planned.

    plan: cuts    [sizes] of the pieces, the last one repeating (0: an empty piece)
          fault   {'at': offset, 'err': kind, 'after': 'eof'|'raise'|'resume', 'short': bool}
          end     truncate to that many bytes
          tail    {'unit': text, 'max': n}: goes on after the bytes, up to n bytes
    """

    def __init__(self, data, plan, sim):
        plan = plan or {}
        end = plan.get('end')
        if end is not None:
            if end < len(data):
                sim.fault('truncation')
            data = data[:end]
        self.data = data
        self.pos = 0
        self.cuts = plan.get('cuts') or [0]
        self.lines = plan.get('lines', False)
        self.i = 0
        self.sim = sim
        self.pending = plan.get('fault')
        self.tail = plan.get('tail')
        self.tail_given = 0
        self.pulls = 0
        self.handed = 0
        self.asked = -1             # what had been handed out when the last piece was asked for
        self.on_pull = None
        self.fired = 0
        self.state = 'ok'
        self.raised = None
        self.ended = False
        self.pulls_after_end = 0
        self.name = plan.get('name', 's')

    def __iter__(self):
        return self

    def _raise(self):
        self.fired += 1
        self.sim.fault('stream ' + self.pending['err'])
        e = ERRORS[self.pending['err']]()
        self.raised = e
        raise e

    def next(self):
        sim = self.sim
        self.pulls += 1
        self.asked = self.handed
        if self.on_pull is not None:
            self.on_pull(self)
        sim.yield_point('stream')
        if self.state == 'failing':
            self._raise()
        if self.state == 'ended':
            self.pulls_after_end += 1
            raise StopIteration
        f = self.pending if self.state != 'resumed' else None
        if f is not None and self.pos >= f['at']:
            after = f.get('after', 'eof')
            self.state = {'eof': 'ended', 'raise': 'failing', 'resume': 'resumed'}[after]
            self._raise()
        left = len(self.data) - self.pos
        if left <= 0:
            t = self.tail
            if t is not None and self.tail_given < t['max']:
                piece = (t['unit'] * (t.get('piece', 4096) // len(t['unit']) + 1))[:t.get('piece', 4096)]
                self.tail_given += len(piece)
                self.handed += len(piece)
                sim.log('s%s+%d' % (self.name, len(piece)))
                return piece
            self.state = 'ended'
            self.ended = True
            sim.log('s%s.' % self.name)
            raise StopIteration
        if self.lines:
            k = self.data.find('\n', self.pos)
            n = (k + 1 if k >= 0 else len(self.data)) - self.pos
        else:
            n = self.cuts[self.i] if self.i < len(self.cuts) else self.cuts[-1]
            if self.i < len(self.cuts):
                self.i += 1
            elif n <= 0:
                n = left
            if n < 0:
                n = left
        n = min(n, left)
        if f is not None and not f.get('late') and self.pos + n > f['at']:
            n = f['at'] - self.pos
        piece = self.data[self.pos:self.pos + n]
        self.pos += n
        self.handed += n
        sim.log('s%s %d' % (self.name, n))
        return piece


def as_generator(stream):
    for piece in stream:
        yield piece


def make_stream(data, plan, sim):
    """Returns (object to hand to the code, SimStream)."""
    s = SimStream(data, plan, sim)
    if plan and plan.get('form') == 'gen':
        return as_generator(s), s
    return s, s
