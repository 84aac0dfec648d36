"""A convenient simulated machine: users, boxes, commands, faults placed by probing."""

import copy
import errno
import hashlib
import random

from . import loader
from .kernel import ERR_OK, MUTATING, Fault, HarnessError, Policy, Process, World, use_tz

CONFIG = '.config/bead_cli-6a4d9d98-8e64-4a2a-b6c2-8a753ea61daf'
TZS = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
       'NST3:30NDT,M3.2.0,M11.1.0', 'XXX-14', 'YYY12', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0']
STARTS = ['2024-03-05T10:00:00', '2023-12-31T23:59:59', '2024-02-29T12:00:00', '2021-07-15T03:30:00',
          '2024-10-27T00:30:00', '2024-03-31T00:59:58', '2038-01-19T03:14:00']


def gen_params(rng, **over):
    d = dict(
        seed=rng.getrandbits(40),
        personality=rng.choice(['ordered', 'ordered', 'strict']),
        blk=rng.choice([512, 1000, 4096, 4096, 8192, 65536]),
        start=rng.choice(STARTS[:4]),
        tz=rng.choice(TZS),
        salted=rng.random() < .8,
        cost=rng.choice([[1, 40], [1, 3], [100, 9000]]),
    )
    if random.Random(d['seed']).random() < .1:
        d['nolink'] = True
    d.update(over)
    return d


def content(spec):
    """Bytes of a file from its JSON-able description."""
    kind, _, rest = spec.partition(':')
    if kind == 't':
        return rest.encode('utf-8')
    if kind == 'z':
        return bytes(int(rest))
    if kind == 'r':
        seed, _, n = rest.partition(':')
        return random.Random(seed).randbytes(int(n))
    if kind == 'p':                     # compressible
        seed, _, n = rest.partition(':')
        n = int(n)
        return (f'line {seed}\n'.encode() * (n // 6 + 1))[:n]
    raise ValueError(spec)


SIZES = [0, 1, 7, 100, 511, 512, 513, 1000, 4095, 4096, 4097, 5000, 20000]
BIG = [65535, 65536, 65537, 70000, 131072, 1048575, 1048576, 1048577, 1300000, 2097157]


def gen_content(rng, big=0.02):
    r = rng.random()
    if r < .35:
        return 't:' + ''.join(rng.choice('abc xyz\n') for _ in range(rng.randint(0, 20)))
    n = rng.choice(BIG) if rng.random() < big else rng.choice(SIZES)
    k = rng.choice('rrpz')
    return f'z:{n}' if k == 'z' else f'{k}:{rng.randrange(1000)}:{n}'


NAMES = ['a', 'b', 'README', 'file.txt', 'x y', '.hidden', 'ünï©ode', '日本', 'data', 'code', 'meta', 'bead', 'manifest',
         'input', 'output', 'temp', '.bead-meta', '-dash', 'st*r', 'q?', '[b]', 'per%cent', "quo'te", 'back\\slash',
         'tail.', 'UPPER', 'upper', 'a.zip', 'dunder__x', '~', '#hash', 'new\nline', 'env.json', ' lead', 'n' * 120,
         'semi;colon', 'co:lon', 'a_20200101T000000000000+0000.zip', 'Thumbs.db', '__pycache__', '$HOME', '..dots', '...']


# names that resemble those of the layout
NEAR = ['Input', 'INPUT', 'Output', 'OUTPUT', 'Temp', 'TEMP', '.Bead-Meta', '.BEAD-META', 'inputs', 'input.py', 'output2', 'outputs', 'tempo', 'temp.txt', '.bead-meta2',
        '.bead', 'bead-meta', '.input', '_temp', 'input ', ' output', 'inpuT', 'code', 'data', 'meta', 'Code', 'DATA', 'tmp', '.tmp', 'bead', 'manifest']
LAYOUT = ['input', 'output', 'temp', '.bead-meta', 'meta', 'code', 'data', 'bead', 'manifest']


def gen_tree(rng, max_files=6, top_reserved=(), big=0.02):
    """{relative path: content spec}: no path is a directory of another."""
    files, dirs = {}, set()
    for _ in range(rng.randint(0, max_files)):
        depth = rng.choice([0, 0, 0, 1, 1, 2, 3])
        parts = [rng.choice(NAMES) for _ in range(depth + 1)]
        if rng.random() < .25:
            parts[0] = rng.choice(NEAR)
        if depth and rng.random() < .2:
            parts[-1] = rng.choice(LAYOUT)
        if parts[0] in top_reserved:
            continue
        path = '/'.join(parts)
        if path in files or path in dirs:
            continue
        ups = ['/'.join(parts[:i]) for i in range(1, len(parts))]
        if any(u in files for u in ups):
            continue
        files[path] = gen_content(rng, big)
        dirs.update(ups)
    return files


RESERVED = ('input', 'output', 'temp', '.bead-meta')


def put_tree(m, base, files, uid):
    for rel, spec in files.items():
        path = f'{base}/{rel}'
        m.fs.h_mkdirs(path.rpartition('/')[0], uid=uid)
        m.fs.h_write(path, content(spec), uid=uid)


class Machine:
    def __init__(self, params):
        self.params = params
        self.w = World(params['seed'], params['personality'], params['blk'], params['start'], tuple(params['cost']))
        self.fs = self.w.fs
        self.w.nolink = params.get('nolink', False)
        if not params.get('salted', True):
            self.fs.order_salt = 0
        self.users = {}
        self.last = None
        self.procs = []
        self.fs.h_mkdirs('/tmp', uid=0, mode=0o1777).mode = 0o777
        self.fs.h_mkdirs('/box')

    # -- set-up
    def user(self, name, host=None, uid=None, tz=None, offset_us=0, tick_us=1):
        if name in self.users:
            return self.users[name]
        uid = 1000 + len(self.users) if uid is None else uid
        h = self.w.host(host or f'h-{name}', tz=tz or self.params.get('tz', 'UTC0'), offset_us=offset_us, tick_us=tick_us)
        home = f'/home/{name}'
        self.fs.h_mkdirs(home, uid=uid)
        self.fs.h_lookup(home).uid = uid
        self.fs.h_mkdirs(f'{home}/w', uid=uid)
        self.users[name] = (uid, h, home)
        return self.users[name]

    def box(self, name, path=None):
        path = path or f'/box/{name}'
        node = self.fs.h_mkdirs(path, uid=1000)
        node.mode = 0o777
        return path

    def set_config(self, user, boxes):
        import json
        uid, h, home = self.users[user]
        d = f'{home}/{CONFIG}'
        self.fs.h_mkdirs(d, uid=uid)
        self.fs.h_write(f'{d}/env.json', json.dumps({'boxes': [{'name': n, 'directory': p} for n, p in boxes]}).encode(),
                        uid=uid)

    # -- running
    def process(self, user, cwd=None, argv=(), fault=None, env=None, label=''):
        uid, h, home = self.users[user]
        e = {'HOME': home}
        e.update(env or {})
        p = Process(self.w, h, cwd=cwd or f'{home}/w', uid=uid, env=e, argv=argv, fault=fault, label=label)
        loader.boot(p)
        return p

    @staticmethod
    def _cli_main():
        loader.find('bead_cli.main').main()

    def cli(self, user, *argv, cwd=None, fault=None, env=None):
        argv = [str(a) for a in argv]
        if fault is not None and 'frac' in fault:
            fault = self.place(fault, lambda f: self._cli(user, argv, cwd, f, env))
        return self._cli(user, argv, cwd, fault, env)

    def _cli(self, user, argv, cwd=None, fault=None, env=None):
        p = self.process(user, cwd, ['bead', *argv], fault, env, label=' '.join(argv))
        self.w.log('CLI', user, argv)
        self.w.run(p, self._cli_main)
        self.last = p
        return p

    def lib(self, user, fn, cwd=None, fault=None, env=None):
        """Run fn() in a fresh process of user; p.result holds what came of it."""
        if fault is not None and 'frac' in fault:
            fault = self.place(fault, lambda f: self._lib(user, fn, cwd, f, env))
        return self._lib(user, fn, cwd, fault, env)

    def _lib(self, user, fn, cwd, fault, env):
        p = self.process(user, cwd, ['lib'], fault, env, label=getattr(fn, '__name__', 'lib'))
        self.w.run(p, fn)
        self.last = p
        return p

    # -- probing
    def save_state(self):
        w = self.w
        w._flush_log()
        return (w.fs.snapshot(), w.true_us, w._lcg, w.steps, w.last_pid, dict(w.fired), dict(w.probes), w.hash.copy(),
                w.rng.getstate(), dict(w.power_stats), w.procs_run, w.switches)

    def load_state(self, s):
        w = self.w
        w._hbuf = []
        w.fs.restore(s[0])
        (w.true_us, w._lcg, w.steps, w.last_pid) = s[1:5]
        w.fired, w.probes, w.hash = dict(s[5]), dict(s[6]), s[7].copy()
        w.rng.setstate(s[8])
        w.power_stats = dict(s[9])
        w.procs_run, w.switches = s[10], s[11]

    def probe(self, run):
        """Run something, forget its effects, return its process."""
        s = self.save_state()
        p = run(None)
        self.load_state(s)
        return p

    def place(self, plan, run):
        """Resolve a relative plan in place: it then names a system call number."""
        p = self.probe(run)
        f = place_fault(plan, p.calls)
        plan.clear()
        plan.update(f)
        return plan

    def place_all(self, cases, run):
        """Resolve the fault plans of many cases of one command with a single dry run."""
        todo = [c['fault'] for c in cases if c.get('fault') and 'frac' in c['fault']]
        if todo:
            calls = self.probe(run).calls
            for plan in todo:
                f = place_fault(plan, calls)
                plan.clear()
                plan.update(f)

    def fork_point(self):
        """Remember this state: `rewind` returns to it any number of times, keeping all statistics."""
        w = self.w
        return [w.fs.snapshot(), w.true_us, w._lcg, w.rng.getstate(), w.last_pid]

    def rewind(self, point):
        w = self.w
        w.elapsed_us += w.true_us - point[1]
        w.fs.restore(point[0])
        point[0] = w.fs.snapshot()
        w.true_us, w._lcg = point[1], point[2]
        w.rng.setstate(point[3])
        w.last_pid = point[4]
        w.log('REWIND')

    # -- queries with fresh eyes
    def list_box(self, user, path, name='b', fault=None):
        """('ok', [bead dicts]) or ('exc', text)."""
        def query():
            Box = loader.find('bead.box').Box
            Path = loader.find('pathlib').Path
            return [bead_dict(b) for b in Box(name, Path(path)).all_beads()]
        p = self.lib(user, query, fault=fault)
        return outcome(p)

    def digest(self):
        return self.w.digest()


def bead_dict(b):
    return dict(name=str(b.name), content_id=b.content_id, kind=b.kind, time=b.freeze_time_str, box=b.box_name,
                inputs=sorted([str(i.name), i.kind, i.content_id, i.freeze_time_str] for i in b.inputs))


def outcome(p):
    if p.result[0] == 'return':
        return 'ok', p.result[1]
    if p.result[0] == 'exc':
        e = p.result[1]
        return 'exc', f'{type(e).__name__}: {e}'
    return p.result[0], None


def ok(p):
    return p.result[0] == 'return' or p.result == ('exit', 0)


def crashed(p):
    """The command died of an exception nobody foresaw (bead writes an error report)."""
    return p.result[0] == 'exc' or p.result == ('exit', -1) or p.result[0] == 'hang'


def describe(p):
    r = p.result
    s = f'{p.label!r} -> {r[0]}' + (f' {r[1]!r}' if len(r) > 1 else '')
    tail = p.stdout.strip()[-300:]
    return f'{s}; output: {tail!r}' if tail else s


def place_fault(plan, calls):
    """Turn a relative fault plan into the number of a system call."""
    kind = plan['kind']
    f = {k: v for k, v in plan.items() if k not in ('frac', 'bias')}
    idx = list(range(len(calls)))
    if kind == 'err':
        idx = [i for i in idx if calls[i] in ERR_OK[plan['errno']]]
    elif kind == 'short':
        idx = [i for i in idx if calls[i] in ('read', 'write')]
    elif kind == 'rot':
        idx = [i for i in idx if calls[i] == 'read']
    elif kind == 'tornkill':
        idx = [i for i in idx if calls[i] == 'write']
    if 'names' in plan:
        idx = [i for i in idx if calls[i] in plan['names']]
    if plan.get('bias') == 'mut' and idx:
        mut = [i for i in idx if calls[i] in MUTATING]
        if mut and kind in ('kill', 'power', 'int'):
            mut = sorted(set(mut + [i + 1 for i in mut]))
        idx = mut or idx
    elif plan.get('bias') == 'read' and idx:
        idx = [i for i in idx if calls[i] in ('read', 'open', 'sqlread', 'readdir')] or idx
    if not idx:
        f['at'] = len(calls) + 1000
    else:
        f['at'] = idx[min(len(idx) - 1, int(plan['frac'] * len(idx)))] + 1
    return f


def gen_fault(rng, kinds=('kill', 'power', 'int', 'err', 'short', 'tornkill'), bias=.85):
    kind = rng.choice(kinds)
    f = {'kind': kind, 'frac': round(rng.random(), 5)}
    if rng.random() < bias:
        f['bias'] = 'mut'
    if kind == 'err':
        f['errno'] = rng.choice([errno.EIO, errno.EIO, errno.ENOSPC, errno.ENOSPC, errno.EACCES, errno.ESTALE,
                                 errno.EMFILE, errno.ENOMEM])
        if f['errno'] in (errno.EACCES, errno.ESTALE, errno.EMFILE, errno.ENOMEM):
            f['bias'] = 'read' if rng.random() < .5 else 'mut'
        if rng.random() < .3:
            f['sticky'] = rng.choice([1, 3, 1000])
        if f['errno'] == errno.ENOMEM and rng.random() < .5:
            f['memerror'] = True
    return f


def tree_digest(tree):
    h = hashlib.sha256()
    for k in sorted(tree):
        h.update(repr((k, tree[k])).encode('utf-8', 'surrogateescape'))
    return h.hexdigest()[:16]
