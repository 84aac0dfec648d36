"""Loads real code over the simulated machine.

- stdlib modules that touch the outside (os, pathlib, shutil, glob, tempfile, zipfile, uuid,
  random, ...) are executed from their real sources with a private import function, so that they
  end at the simulated `posix`, clock and random source; they are shared by all simulated processes
  except the few that hold state;
- the modules of /repo are executed afresh for every simulated process, so that the death of a
  process loses exactly its memory.
Everything else (json, hashlib, zlib, argparse, attr, ...) is the real thing.
"""

import ast
import builtins
import datetime as real_datetime
import importlib
import io as real_io
import os as real_os
import sys as real_sys
import time as real_time
import types

from . import simposix, simsql
from .kernel import K, HarnessError

REPO = real_os.environ.get('VERIF_REPO', '/repo')
STDLIB = real_os.path.dirname(real_os.__file__)

SHARED_SOURCES = {
    'os': 'os.py', 'posixpath': 'posixpath.py', 'genericpath': 'genericpath.py', 'pathlib': 'pathlib.py',
    'shutil': 'shutil.py', 'glob': 'glob.py', 'zipfile': 'zipfile/__init__.py',
    'zipfile._path': 'zipfile/_path/__init__.py', 'zipfile._path.glob': 'zipfile/_path/glob.py',
    'fileinput': 'fileinput.py', 'filecmp': 'filecmp.py', 'tarfile': 'tarfile.py', 'gzip': 'gzip.py',
    'linecache': 'linecache.py', 'getpass': 'getpass.py', 'fcntl': None, '_uuid': None, 'nt': None,
    'winreg': None, 'msvcrt': None, '_winapi': None,
}
PROCESS_SOURCES = {'random': 'random.py', 'uuid': 'uuid.py', 'tempfile': 'tempfile.py'}
REPO_TOPS = ('bead', 'bead_cli', 'tracelog')

shared = {}             # name -> module, per worker
_repo_code = {}         # name -> (code, is_package, path)
_std_code = {}
_sim_builtins = {}


class _Delegate(types.ModuleType):
    """A module that falls back to a real one for names it does not define."""

    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__['_real'] = real

    def __getattr__(self, name):
        if name == '__all__':
            raise AttributeError(name)
        return getattr(self.__dict__['_real'], name)


def _current():
    p = K.current
    if p is None:
        raise HarnessError('simulated module used outside any simulated process')
    return p


# -- clock

def _now_us():
    p = _current()
    w = p.world
    w.tick()
    return w.now_us(p)


def make_time():
    m = _Delegate('time', real_time)
    m.time = lambda: _now_us() / 1e6
    m.time_ns = lambda: _now_us() * 1000
    m.monotonic = m.perf_counter = lambda: (_now_us() - _current().world.start_us) / 1e6
    m.monotonic_ns = m.perf_counter_ns = lambda: (_now_us() - _current().world.start_us) * 1000
    m.process_time = m.monotonic

    def sleep(secs):
        p = _current()
        p.world.sleep(p, int(secs * 1e6))
    m.sleep = sleep

    def localtime(secs=None):
        return real_time.localtime(m.time() if secs is None else secs)

    def gmtime(secs=None):
        return real_time.gmtime(m.time() if secs is None else secs)

    def strftime(fmt, t=None):
        return real_time.strftime(fmt, localtime() if t is None else t)

    def ctime(secs=None):
        return real_time.ctime(m.time() if secs is None else secs)
    m.localtime, m.gmtime, m.strftime, m.ctime = localtime, gmtime, strftime, ctime
    m.asctime = lambda t=None: real_time.asctime(localtime() if t is None else t)
    m.tzset = lambda: None
    return m


def make_datetime():
    m = _Delegate('datetime', real_datetime)
    epoch = real_datetime.datetime(1970, 1, 1, tzinfo=real_datetime.timezone.utc)

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_datetime.datetime)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real_datetime.datetime)

    class datetime(real_datetime.datetime, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            us = _now_us()
            if tz is None:
                t = real_time.localtime(us // 1_000_000)
                r = cls(*t[:6], us % 1_000_000)
                return r
            utc = cls.fromtimestamp(0, tz=real_datetime.timezone.utc) + real_datetime.timedelta(microseconds=us)
            if tz is real_datetime.timezone.utc:
                return utc
            return tz.fromutc(utc.replace(tzinfo=tz))

        @classmethod
        def utcnow(cls):
            return cls.now(real_datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    datetime.__module__ = 'datetime'
    datetime.__qualname__ = 'datetime'

    class date(real_datetime.date):
        @classmethod
        def today(cls):
            t = real_time.localtime(_now_us() // 1_000_000)
            return cls(*t[:3])
    date.__qualname__ = 'date'
    m.datetime = datetime
    del epoch
    return m


# -- environment, sys, atexit, children

class _Environ:
    """os.environ of whichever simulated process runs."""

    def __getitem__(self, k):
        return _current().env[k]

    def __setitem__(self, k, v):
        _current().env[k] = v

    def __delitem__(self, k):
        del _current().env[k]

    def __iter__(self):
        return iter(list(_current().env))

    def __len__(self):
        return len(_current().env)

    def __contains__(self, k):
        return k in _current().env

    def get(self, k, default=None):
        return _current().env.get(k, default)

    def copy(self):
        return dict(_current().env)

    def keys(self):
        return _current().env.keys()

    def items(self):
        return _current().env.items()

    def values(self):
        return _current().env.values()

    def setdefault(self, k, v):
        return _current().env.setdefault(k, v)

    def pop(self, k, *default):
        return _current().env.pop(k, *default)

    def update(self, *a, **kw):
        _current().env.update(*a, **kw)


class _Sys(_Delegate):
    @property
    def argv(self):
        return _current().argv

    @property
    def modules(self):
        p = K.current
        mods = dict(real_sys.modules)
        mods.update(shared)
        if p is not None and p.modules:
            mods.update(p.modules)
        return mods


def make_atexit():
    m = types.ModuleType('atexit')

    def register(fn, *a, **kw):
        _current().atexit.append((fn, a, kw))
        return fn

    def unregister(fn):
        p = _current()
        p.atexit = [x for x in p.atexit if x[0] != fn]
    m.register, m.unregister = register, unregister
    m._run_exitfuncs = lambda: None
    return m


def make_subprocess():
    import subprocess
    m = _Delegate('subprocess', subprocess)

    def refuse(cmd, *a, **kw):
        p = _current()
        p.world.enter(p, 'spawn', str(cmd))
        p.world.probe('subprocess refused')
        raise FileNotFoundError(2, 'No such file or directory', str(cmd))
    m.run = m.call = m.check_call = m.check_output = m.Popen = refuse
    return m


def make_webbrowser():
    m = types.ModuleType('webbrowser')

    def open(url, new=0, autoraise=True):
        p = _current()
        p.world.enter(p, 'browse', url)
        p.events.append(('browse', url))
        return True
    m.open = m.open_new = m.open_new_tab = open
    return m


def make_io():
    m = _Delegate('io', real_io)
    m.open = simposix.sim_open
    m.FileIO = simposix.FileIO
    m.open_code = lambda path: simposix.sim_open(path, 'rb')
    return m


class _Missing(ImportError):
    pass


# -- code objects

def _compile(path, name):
    with real_io.open(path, 'rb') as f:
        return compile(f.read(), path, 'exec', dont_inherit=True)


def load_repo_sources():
    """Compile every non-test module of the repository's working tree."""
    _repo_code.clear()
    for top in REPO_TOPS:
        base = real_os.path.join(REPO, top)
        if real_os.path.isfile(base + '.py'):
            _repo_code[top] = (_compile(base + '.py', top), False, base + '.py')
        for root, dirs, files in real_os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py') or f.startswith('test_') or f == 'conftest.py':
                    continue
                path = real_os.path.join(root, f)
                parts = real_os.path.relpath(path, REPO)[:-3].split(real_os.sep)
                pkg = parts[-1] == '__init__'
                if pkg:
                    parts = parts[:-1]
                _repo_code['.'.join(parts)] = (_compile(path, f), pkg, path)


def repo_files():
    return sorted(v[2] for v in _repo_code.values())


def _std(name, rel):
    if name not in _std_code:
        if rel is None:
            _std_code[name] = None
        else:
            path = real_os.path.join(STDLIB, rel)
            _std_code[name] = (_compile(path, name), rel.endswith('__init__.py'), path)
    return _std_code[name]


def _exec(name, entry, registry):
    code, is_pkg, path = entry
    m = types.ModuleType(name)
    m.__file__ = path
    m.__builtins__ = _sim_builtins
    if is_pkg:
        m.__path__ = [real_os.path.dirname(path)]
        m.__package__ = name
    else:
        m.__package__ = name.rpartition('.')[0]
    registry[name] = m
    try:
        exec(code, m.__dict__)
    except BaseException:
        registry.pop(name, None)
        raise
    parent, _, leaf = name.rpartition('.')
    if parent and parent in registry:
        setattr(registry[parent], leaf, m)
    return m


def _after_exec(name, m):
    if name == 'random':
        real_seed = m.Random.seed

        def seed(self, a=None, version=2):
            if a is None:
                a = _current().rng.getrandbits(256)
            return real_seed(self, a, version)
        m.Random.seed = seed
        m._inst.seed()
    elif name == 'uuid':
        node = int.from_bytes(_current().host.name.encode()[:5].ljust(6, b'\x01'), 'big') & ~(1 << 40)
        m.getnode = lambda: node
        m._node = node
    elif name == 'os':
        m.environ = _ENVIRON
        m.getenv = lambda k, default=None: _current().env.get(k, default)
        m.system = None
        del m.system
        m.fork = None
        del m.fork


_ENVIRON = _Environ()


def find(name):
    """The simulated module called name, or None when the real one is to be used."""
    p = K.current
    if p is not None and p.modules is not None and name in p.modules:
        return p.modules[name]
    if name in shared:
        return shared[name]
    if name in _repo_code:
        if p is None:
            raise HarnessError(f'{name} imported outside any simulated process')
        parent = name.rpartition('.')[0]
        if parent:
            find(parent)
            if name in p.modules:
                return p.modules[name]
        return _exec(name, _repo_code[name], p.modules)
    if name in SHARED_SOURCES:
        entry = _std(name, SHARED_SOURCES[name])
        if entry is None:
            raise ImportError(f'no module {name} in the simulation')
        m = _exec(name, entry, shared)
        _after_exec(name, m)
        return m
    if name in PROCESS_SOURCES:
        m = _exec(name, _std(name, PROCESS_SOURCES[name]), p.modules)
        _after_exec(name, m)
        return m
    if name == 'os.path':
        return find('posixpath')
    if name == 'appdirs':
        mod = importlib.import_module('appdirs')
        _std_code.setdefault('appdirs', (_compile(mod.__file__, 'appdirs'), False, mod.__file__))
        return _exec('appdirs', _std_code['appdirs'], shared)
    if name.split('.')[0] in REPO_TOPS:
        raise ModuleNotFoundError(f'No module named {name!r}', name=name)
    return None


def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals['__package__']
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        full = f'{pkg}.{name}' if name else pkg
    else:
        full = name
    m = find(full)
    if m is None:
        if level:
            m = importlib.import_module(full)
        else:
            return builtins.__import__(name, None, None, fromlist, 0) if fromlist is None or not fromlist \
                else _from_real(name, fromlist)
    if fromlist:
        if hasattr(m, '__path__'):
            for f in fromlist:
                if f != '*' and f not in m.__dict__:
                    try:
                        find(f'{full}.{f}')
                    except ModuleNotFoundError:
                        pass
        return m
    if level:
        return m
    top = name.split('.')[0]
    return find(top) if top != name else m


def _from_real(name, fromlist):
    return builtins.__import__(name, None, None, fromlist, 0)


class _ImportlibFacade(_Delegate):
    pass


def init():
    """Set up this interpreter once."""
    if shared:
        return
    import appdirs, argcomplete, attr, cached_property, json, importlib.metadata  # noqa: F401 (real ones, loaded now)
    import zipfile, tempfile, uuid, random, shutil, traceback, inspect, textwrap, argparse  # noqa: F401
    load_repo_sources()
    _sim_builtins.update(vars(builtins))
    _sim_builtins['__import__'] = sim_import
    _sim_builtins['open'] = simposix.sim_open
    shared['posix'] = simposix.posix
    shared['io'] = make_io()
    shared['_io'] = shared['io']
    shared['time'] = make_time()
    shared['datetime'] = make_datetime()
    shared['sys'] = _Sys('sys', real_sys)
    shared['atexit'] = make_atexit()
    shared['subprocess'] = make_subprocess()
    shared['webbrowser'] = make_webbrowser()
    shared['sqlite3'] = simsql.module()
    shared['builtins'] = _Delegate('builtins', builtins)
    shared['builtins'].open = simposix.sim_open
    imp = _Delegate('importlib', importlib)

    def import_module(name, package=None):
        if name.startswith('.'):
            raise HarnessError('relative import_module')
        m = find(name)
        return m if m is not None else importlib.import_module(name, package)
    imp.import_module = import_module
    shared['importlib'] = imp
    real_sys.unraisablehook = lambda *a: None


def boot(p):
    """Give process p its own, empty module table."""
    p.modules = {}


def load(p, *names):
    return [find(n) for n in names]
