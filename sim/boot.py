"""
Puts every source of nondeterminism behind the simulator and then imports the
code under test. Import this first; boot(repo) once.
"""
import collections
import os
import random
import sys
import tempfile
import thread
import threading
import time
import types
from java.io import File
from java.nio.file import Files

# imported before the patches, so that their own locks and files stay real
import base64, cgi, io, json, Queue, socket, StringIO, traceback, urllib, urlparse, uuid, zlib  # noqa

import core
import disk

_now = [1000000000.0]


def _tick():
    _now[0] += 1e-6
    return _now[0]


def _sleep(n):
    _now[0] += max(0, n)
    s = core.SimLock.sim
    if s is not None:
        s.yield_point('sleep')


def _urandom(n):
    return ''.join(chr(random.getrandbits(8)) for _ in xrange(n))


def reset():
    """What every run starts from."""
    _now[0] = 1000000000.0
    random.seed(12345)


class Library(object):
    """The state that the modules under test keep, so that a run can start as a new process does."""

    def __init__(self):
        self.saved = []
        seen = set()
        todo = [m for n, m in sorted(sys.modules.items()) if m is not None and n.split('.')[0] == 'request_parser' and '.tests' not in n]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, dict):
                self.saved.append((x, dict(x)))
                todo += list(x.keys()) + list(x.values())
            elif isinstance(x, (list, set, collections.deque, bytearray)):
                self.saved.append((x, list(x)))
                todo += list(x)
            elif isinstance(x, (tuple, frozenset)):
                todo += list(x)
            elif isinstance(x, types.ModuleType):
                if (getattr(x, '__name__', '') or '').split('.')[0] == 'request_parser':
                    todo += self.attributes(x)
            elif isinstance(x, types.FunctionType):
                if own(x):
                    todo += self.attributes(x) + list(x.func_defaults or ()) + [c.cell_contents for c in x.func_closure or ()]
            elif isinstance(x, types.MethodType):
                todo.append(x.im_func)
            elif isinstance(x, (staticmethod, classmethod)):
                todo.append(x.__get__(None, object))
            elif isinstance(x, property):
                todo += [x.fget, x.fset, x.fdel]
            elif isinstance(x, (type, types.ClassType)) or hasattr(x, '__dict__'):
                if own(x) or own(type(x)) or isinstance(x, types.InstanceType):
                    todo += self.attributes(x)

    def attributes(self, x):
        d = dict((k, v) for k, v in vars(x).items() if not (k.startswith('__') and k.endswith('__')))
        self.saved.append((x, d))
        return list(d.values())

    def restore(self):
        for x, was in self.saved:
            if isinstance(x, dict):
                if x != was or any(x[k] is not was[k] for k in was):
                    x.clear()
                    x.update(was)
            elif isinstance(x, list):
                x[:] = was
            elif isinstance(x, set):
                x.clear()
                x.update(was)
            elif isinstance(x, collections.deque):
                x.clear()
                x.extend(was)
            elif isinstance(x, bytearray):
                x[:] = was
            else:
                now = vars(x)
                for k in [k for k in now.keys() if k not in was and not (k.startswith('__') and k.endswith('__'))]:
                    delattr(x, k)
                for k, v in was.items():
                    if now.get(k, now) is not v:
                        setattr(x, k, v)


def own(x):
    m = getattr(x, '__module__', None)
    return isinstance(m, str) and m.split('.')[0] == 'request_parser'


_library = []


def restart():
    """As if the process were a new one."""
    reset()
    _library[0].restore()


class Sources(object):
    """Imports the code under test from its sources only, whatever compiled files lie beside them."""

    def __init__(self, root):
        self.root = root

    def find_module(self, name, path=None):
        if name.split('.')[0] == 'request_parser' and self.where(name):
            return self

    def where(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for f, isdir in ((os.path.join(p, '__init__.py'), True), (p + '.py', False)):
            # not through the simulated disk
            if File(f).isFile():
                return f, isdir

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        f, isdir = self.where(name)
        src = Files.readAllBytes(File(f).toPath()).tostring()
        m = types.ModuleType(name)
        m.__file__ = f
        m.__loader__ = self
        if isdir:
            m.__path__ = [os.path.dirname(f)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        sys.modules[name] = m
        try:
            exec compile(src, f, 'exec', 0, 1) in m.__dict__
        except:
            del sys.modules[name]
            raise
        parent, _, last = name.rpartition('.')
        if parent:
            setattr(sys.modules[parent], last, m)
        return m


def boot(repo):
    pkg = os.path.join(os.path.realpath(repo), 'request_parser')
    sys.meta_path.insert(0, Sources(os.path.realpath(repo)))
    sys.dont_write_bytecode = True
    import six, future.backports.urllib.parse, future.types  # noqa
    disk.install(pkg)
    threading.Lock = core.SimLock
    threading.RLock = core.sim_rlock
    thread.allocate_lock = core.SimLock
    tempfile._once_lock = core.SimLock()
    import request_parser.http.request
    import request_parser.files.uploadhandler
    import request_parser.conf.settings
    # so that no run imports anything for the first time
    for d, _, names in sorted(os.walk(pkg)):
        for n in sorted(names):
            if n.endswith('.py') and 'tests' not in d[len(pkg):]:
                name = os.path.join('request_parser', os.path.relpath(os.path.join(d, n[:-3]), pkg)).replace('/', '.').replace('.__init__', '')
                try:
                    __import__(name)
                except Exception:
                    pass
    threading.Lock, threading.RLock, thread.allocate_lock = core.SimLock, core.sim_rlock, core.SimLock
    time.time = _tick
    time.clock = _tick
    time.sleep = _sleep
    os.urandom = _urandom
    os.getpid = lambda: 4242
    f = request_parser.http.request.__file__
    if not os.path.realpath(f).startswith(pkg + '/'):
        raise ImportError('not the code under test: %s' % f)
    windows()
    _library.append(Library())


class Builtin(object):
    """A function that, as a built-in one, doesn't become a method of a class."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def windows():
    """The temporary file class that the library defines where os.name is nt, and everybody who refers to the usual one."""
    temp = sys.modules.get('request_parser.files.temp')
    usual = getattr(temp, 'NamedTemporaryFile', None)
    if usual is None:
        return
    name, unlink, remove = os.name, os.unlink, os.remove
    m = types.ModuleType(temp.__name__)
    m.__file__ = temp.__file__
    os.name, os.unlink, os.remove = 'nt', Builtin(unlink), Builtin(remove)
    try:
        exec compile(Files.readAllBytes(File(temp.__file__).toPath()).tostring(), temp.__file__, 'exec', 0, 1) in m.__dict__
        other = m.__dict__.get('NamedTemporaryFile')
    except Exception:
        return
    finally:
        os.name, os.unlink, os.remove = name, unlink, remove
    if other is None or other is usual:
        return
    for n, x in sorted(sys.modules.items()):
        if x is not None and n.split('.')[0] == 'request_parser' and '.tests' not in n:
            for k, v in list(vars(x).items()):
                if v is usual:
                    core.WINDOWS.append((x, k, usual, other))

