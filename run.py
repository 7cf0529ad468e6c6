#!/usr/bin/env python3
"""
Decides one property by seeded simulation of /repo's code.

  run.py PROP [--tier quick|thorough] [--seed N] [--repo DIR] [--count N] [--seconds N] [--workers N]
  run.py --replay FILE        runs a replay file again
  run.py --setup              compiles the line tracer (every run does so if need be)
  run.py --selftest           the same seeds in other processes give the same executions

Exit 0: the property held on everything explored. 1: a VIOLATION line was printed. 2: the check itself failed.
"""
import argparse
import hashlib
import json
import os
import queue
import re
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, 'build', 'java')
JAR = '/usr/share/java/jython.jar'
# seconds without a sign of life
HANG = 75

# cases (quick, thorough)
CASES = {
    'C01': (6000, 250000), 'C02': (3000, 110000), 'C03': (4000, 160000), 'C04': (7000, 280000), 'C05': (2400, 80000),
    'C06': (3600, 130000), 'C07': (7000, 260000), 'C08': (5000, 180000), 'C09': (6000, 230000), 'C10': (2000, 70000),
    'C11': (800, 24000), 'C12': (3200, 120000), 'C13': (2400, 80000), 'C14': (2600, 90000), 'C15': (2600, 80000),
    'C16': (3000, 100000), 'C17': (7000, 260000), 'C18': (26000, 1000000), 'C23': (2000, 80000), 'C24': (2400, 90000),
    'C25': (1000, 36000), 'C26': (3000, 110000), 'C27': (2000, 75000),
}
DEFAULT_CASES = (4000, 400000)
CAP = {'quick': 150, 'thorough': 780}


def compile_tracer():
    src = os.path.join(SIM, 'java', 'Tracer.java')
    with open(src, 'rb') as f:
        digest = hashlib.sha1(f.read()).hexdigest()
    stamp = os.path.join(BUILD, 'stamp')
    try:
        if open(stamp).read() == digest and os.path.exists(os.path.join(BUILD, 'Tracer.class')):
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(BUILD), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(BUILD))
    subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', tmp, src], check=True, stdout=subprocess.DEVNULL)
    with open(os.path.join(tmp, 'stamp'), 'w') as f:
        f.write(digest)
    try:
        os.rename(tmp, BUILD)
    except OSError:
        # there already: replace the files in it
        for n in os.listdir(tmp):
            os.replace(os.path.join(tmp, n), os.path.join(BUILD, n))
        os.rmdir(tmp)


class Died(Exception):
    pass


class Worker(object):
    """A Jython process that runs simulations."""

    def __init__(self, repo, inbox=None, name=0):
        env = dict(os.environ, JYTHONPATH='/opt/jylib', HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC')
        for k in ('CLASSPATH', 'JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS', 'JYTHON_OPTS', 'JYTHONSTARTUP'):
            env.pop(k, None)
        self.scratch = tempfile.mkdtemp(prefix='simworker')
        self.err = open(os.path.join(self.scratch, 'stderr'), 'w+b')
        self.name = name
        self.proc = subprocess.Popen(
            ['java', '-Xss8m', '-Xmx1800m', '-XX:+UseSerialGC', '-jar', JAR, '-Dpython.home=/usr',
             '-Dpython.executable=/usr/bin/jython', '-Dpython.cachedir.skip=true', '-B', '-s',
             os.path.join(SIM, 'worker.py'), repo, BUILD],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.scratch,
            start_new_session=True)
        self.inbox = inbox if inbox is not None else queue.Queue()
        self.last = time.time()
        self.at = None
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.proc.stdout:
            try:
                m = json.loads(line.decode('utf-8'))
            except ValueError:
                continue
            self.last = time.time()
            if set(m) == {'at'}:
                self.at = m['at']
                continue
            self.inbox.put((self, m))
        self.inbox.put((self, {'eof': 1}))

    def send(self, **kw):
        self.last = time.time()
        try:
            self.proc.stdin.write(json.dumps(kw).encode('utf-8') + b'\n')
            self.proc.stdin.flush()
        except OSError:
            pass

    def ask(self, key, timeout, **kw):
        """Only with an inbox of its own."""
        self.send(**kw)
        end = time.time() + timeout
        while True:
            try:
                _, m = self.inbox.get(timeout=max(0.1, end - time.time()))
            except queue.Empty:
                raise TimeoutError()
            if key in m:
                return m[key]
            if 'eof' in m or 'error' in m:
                raise Died(m.get('error') or self.stderr())

    def stderr(self):
        self.err.flush()
        with open(self.err.name, 'rb') as f:
            lines = f.read().decode('utf-8', 'replace').splitlines()
        return '\n'.join([x for x in lines if ' ignored' not in x][-40:])

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        self.err.close()
        subprocess.call(['rm', '-rf', self.scratch])


def run_plan(repo, prop, plan, keep=False, timeout=HANG * 2, before=None):
    """
    One plan in a process of its own. If before is given, {'seed', 'tier', 'cases', 'made'}, these cases are generated and run in that
    process first, and if made is given the plan of that case is generated (which may run the code under test to learn its length).
    """
    w = Worker(repo)
    try:
        try:
            return w.ask('result', timeout, cmd='run', prop=prop, plan=plan, keep=keep, before=before)
        except TimeoutError:
            return {'v': 'no progress', 'msg': 'the run did not end within %d s' % timeout}
        except Died as e:
            return {'error': str(e)}
    finally:
        w.kill()


def known_findings():
    """Lines 'known: property=<id> class=<class> message=<regular expression>'; others are for the record."""
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) class=(.*?) message=(.*?) what=(.*)$', line.rstrip('\n'))
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def is_known(known, prop, v):
    for p, cls, pat, what in known:
        if p == prop and cls == v['v'] and re.search(pat, v.get('msg') or ''):
            return what
    return None


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


class Check(object):
    def __init__(self, args):
        self.a = args
        self.prop = args.prop
        self.t0 = time.time()
        self.stats = {'runs': 0, 'nontrivial': 0, 'events': 0, 'yields': 0, 'switches': 0, 'invalid': 0, 'lines': 0,
                      'sims': 0, 'faults': {}, 'probes': {}, 'samples': []}
        self.crcs = set()
        self.violation = None
        self.errors = []
        self.known = {}

    def explore(self):
        a = self.a
        inbox = queue.Queue()
        workers = {}
        cap = a.seconds
        end = self.t0 + cap
        n = a.workers
        known = known_findings()

        def launch(i, start):
            w = Worker(a.repo, inbox, i)
            workers[i] = w
            w.send(cmd='batch', prop=self.prop, seed=a.seed, tier=a.tier, start=start, step=n, count=a.count,
                   seconds=max(1, end - time.time() - 5), goon=1)

        for i in range(n):
            launch(i, i)
        busy = set(range(n))
        try:
            while busy and not self.violation and not self.errors:
                try:
                    w, m = inbox.get(timeout=1)
                except queue.Empty:
                    w = None
                if w is not None and workers.get(w.name) is w:
                    if 'done' in m:
                        d = m['done']
                        for k in ('runs', 'nontrivial', 'events', 'yields', 'switches', 'invalid', 'lines', 'sims'):
                            self.stats[k] += d[k]
                        merge(self.stats['faults'], d['faults'])
                        merge(self.stats['probes'], d['probes'])
                        self.stats['samples'] += d.get('samples', [])
                        self.crcs.update(m['crcs'])
                        busy.discard(w.name)
                    elif 'violation' in m:
                        v = m['violation']
                        what = is_known(known, self.prop, v)
                        if what is not None:
                            self.known[what] = self.known.get(what, 0) + 1
                        else:
                            self.violation = dict(v, worker=w.name)
                    elif 'error' in m:
                        self.errors.append(m['error'] + ('\nplan: %s' % json.dumps(m.get('plan')) if m.get('plan') else ''))
                    elif 'eof' in m and w.name in busy:
                        self.errors.append('worker %d died at case %s: %s' % (w.name, w.at, w.stderr()))
                for i in sorted(busy):
                    w = workers[i]
                    if time.time() - w.last > HANG:
                        case = w.at
                        w.kill()
                        self.hung(case)
                        busy.discard(i)
                        break
        finally:
            for w in workers.values():
                w.kill()

    def hung(self, case):
        """A case gave no sign of life: does it do so again?"""
        a = self.a
        if case is None:
            self.errors.append('a worker did not start')
            return
        w = Worker(a.repo)
        try:
            plan = w.ask('plan', 60, cmd='case', prop=self.prop, seed=a.seed, tier=a.tier, case=case)
        except (TimeoutError, Died) as e:
            self.errors.append('case %s cannot be made: %s' % (case, e))
            return
        finally:
            w.kill()
        o = run_plan(a.repo, self.prop, plan)
        if 'v' in o:
            self.violation = dict(o, plan=plan, case=case)
        else:
            self.errors.append('case %s did not end, but does now' % case)

    def report(self):
        """Makes the violation small, confirms it and writes the replay file."""
        a, v = self.a, self.violation
        plan, cls, tried = v['plan'], v['v'], 0
        if cls != 'no progress' and a.shrink > 0:
            w = Worker(a.repo)
            try:
                w.send(cmd='shrink', prop=self.prop, plan=plan, cls=cls, seconds=a.shrink)
                end = time.time() + a.shrink + HANG
                while time.time() < end:
                    try:
                        _, m = w.inbox.get(timeout=1)
                    except queue.Empty:
                        if time.time() - w.last > HANG:
                            break
                        continue
                    if 'shrunk' in m:
                        plan, tried = m['shrunk'], m['tried']
                        break
                    if 'eof' in m or 'error' in m:
                        break
            finally:
                w.kill()
        first = run_plan(a.repo, self.prop, plan, keep=True)
        if first.get('v') != cls and plan is not v['plan']:
            plan, tried = v['plan'], 0
            first = run_plan(a.repo, self.prop, plan, keep=True)
        before = None
        if first.get('v') != cls and 'worker' in v:
            before, again = self.history(v)
            if again:
                first, cls = again, again['v']
        if first.get('v') != cls:
            self.errors.append('the violation %s (%s) of case %s did not come again: %s' % (
                cls, v.get('msg'), v['case'], first.get('v') or first.get('error') or first))
            return None
        rec = {'property': self.prop, 'class': cls, 'message': first.get('msg'), 'tier': a.tier, 'seed': a.seed, 'case': v['case'],
               'event_log_crc': first.get('crc'), 'event_log': (first.get('log') or [])[-2000:], 'shrink_steps': tried,
               'plan': plan, 'plan_as_found': v['plan']}
        if before:
            # the code under test keeps something from one request to the next
            rec['before'] = before
        text = json.dumps(rec, indent=1, sort_keys=True)
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (self.prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text + '\n')
        return path, rec

    def history(self, v):
        """The plan alone does not fail: which of the cases that its process ran before does it need?"""
        a = self.a
        end = time.time() + 150
        earlier = list(range(v['worker'], v['case'], a.workers))

        def trial(cases):
            before = {'seed': a.seed, 'tier': a.tier, 'cases': cases, 'made': v['case']}
            o = run_plan(a.repo, self.prop, v['plan'], True, 240, before)
            return (before, o) if 'v' in o else None
        best, k = None, 0
        while best is None:
            best = trial(earlier[len(earlier) - k:])
            if k >= len(earlier):
                break
            k = min(len(earlier), k * 3 or 1)
        if best is None:
            return None, None
        n = 2
        while best[0]['cases'] and time.time() < end:
            cases = best[0]['cases']
            size = max(1, len(cases) // n)
            for i in range(0, len(cases), size):
                t = trial(cases[:i] + cases[i + size:]) if time.time() < end else None
                if t:
                    best, n = t, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(cases), n * 2)
        return best

    def evidence(self, violations):
        a, s = self.a, self.stats
        wall = time.time() - self.t0
        sys.path.insert(0, os.path.join(HERE, 'tools'))
        import about
        info = about.ABOUT[self.prop]
        cov = {
            'evaluations': s['runs'], 'distinct_nontrivial': len(self.crcs),
            'rule': '%s Non-trivial: %s Distinct: by the CRC of the complete event log of the case (every piece delivered, disk operation, '
                    'fault, thread switch and observed result).' % (info['cases'], info['nontrivial']),
            'samples': s['samples'][:2] or [{'note': 'no small case'}],
            'simulations': s['sims'], 'cases_per_hour': int(s['runs'] * 3600 / max(wall, 1e-3)),
            'simulations_per_hour': int(s['sims'] * 3600 / max(wall, 1e-3)),
            'seed': a.seed, 'first_case': 0, 'planned_cases': a.count,
            'simulated_time': 'the code uses no clock and no timer; progress is counted in events and source lines',
            'events': s['events'], 'source_lines_executed': s['lines'], 'faults_injected': s['faults'],
            'reached': s['probes'], 'scheduling_points': s['yields'], 'thread_switches': s['switches'],
            'plans_rejected': s['invalid'],
            'real_code': info['real'], 'simulated': info['stub'],
        }
        if self.known:
            cov['known_findings_seen'] = self.known
        e = {'property': self.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov,
             'assumptions': info['assume'], 'wall_s': round(wall, 2), 'violations': violations}
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(e, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(tmp, os.path.join(d, self.prop + '.json'))

    def main(self):
        self.explore()
        rep = self.report() if self.violation and not self.errors else None
        for what in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if self.errors:
            for e in self.errors:
                print('ERROR: %s' % e, file=sys.stderr)
            print('check of %s failed: %s' % (self.prop, self.errors[0].strip().splitlines()[-1][:300]))
            return 2
        self.evidence(1 if rep else 0)
        s = self.stats
        if rep:
            path, rec = rep
            print('%s: %s' % (rec['class'], rec['message']))
            print('found by seed %d, case %d; reproduced in a new process' % (self.a.seed, rec['case']))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if s['runs'] < self.a.count:
            print('note: stopped by the time limit')
        print('%s held: %d cases (%d simulations, %d distinct non-trivial) in %.0f s' % (
            self.prop, s['runs'], s['sims'], len(self.crcs), time.time() - self.t0))
        return 0


def replay(path, repo):
    with open(path) as f:
        rec = json.load(f)
    o = run_plan(repo, rec['property'], rec['plan'], keep=True, before=rec.get('before'))
    if 'error' in o:
        print(o['error'])
        return 2
    same = o.get('v') == rec['class']
    print('%s: %s' % (o.get('v', 'no violation'), o.get('msg', '')))
    print('recorded: %s: %s' % (rec['class'], rec['message']))
    print('event log: crc %s, recorded %s (%s)' % (o.get('crc'), rec['event_log_crc'],
                                                   'the same' if o.get('crc') == rec['event_log_crc'] else 'differs'))
    if 'v' in o:
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    return 0


def selftest(args):
    """Each case twice, in two processes: the event logs are the same."""
    bad = 0
    props = [args.prop] if args.prop else sorted(CASES)
    for prop in props:
        got = []
        for i in range(2):
            w = Worker(args.repo)
            w.send(cmd='batch', prop=prop, seed=args.seed, tier='quick', start=0, step=1, count=args.count or 150, seconds=120, goon=1)
            while 1:
                _, m = w.inbox.get(timeout=150)
                if 'crcs' in m or 'error' in m or 'eof' in m:
                    break
            got.append((m.get('crcs'), m.get('done', {}).get('events'), m.get('done', {}).get('lines')))
            w.kill()
        same = got[0][0] == got[1][0] and got[0][0] and got[0][1] == got[1][1]
        print('%s %s: %d cases, %s events%s' % (prop, 'same' if same else 'DIFFERENT', len(got[0][0] or []), got[0][1],
                                               '' if got[0][2] == got[1][2] else ' (lines %s/%s)' % (got[0][2], got[1][2])))
        bad += not same
    return 1 if bad else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--repo', default='/repo')
    p.add_argument('--count', type=int)
    p.add_argument('--seconds', type=float)
    p.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument('--shrink', type=float)
    p.add_argument('--replay')
    p.add_argument('--selftest', action='store_true')
    p.add_argument('--setup', action='store_true')
    a = p.parse_args()
    compile_tracer()
    if a.setup:
        return 0
    if a.replay:
        return replay(a.replay, a.repo)
    if a.selftest:
        return selftest(a)
    if a.tier not in CAP:
        a.tier = 'quick'
    if a.count is None:
        a.count = CASES.get(a.prop, DEFAULT_CASES)[a.tier == 'thorough']
    if a.seconds is None:
        a.seconds = CAP[a.tier]
    if a.shrink is None:
        a.shrink = 25 if a.tier == 'quick' else 60
    return Check(a).main()


if __name__ == '__main__':
    sys.exit(main())
