"""Simulated machine: processes, system calls, clock, scheduler, fault injection.

`K.world` is the only world alive in this interpreter and `K.current` the
simulated process that runs now (None: harness code).  Exactly one simulated
process runs at a time; who runs next is decided here only.
"""

import errno
import gc
import hashlib
import os
import random
import sys
import threading
import time as real_time

from .vfs import FS, err


class Killed(BaseException):
    """The simulated process is dead: nothing it does has any effect any more."""


class StepLimit(BaseException):
    """The simulated process exceeded its system call budget."""


class HarnessError(Exception):
    """The simulator itself cannot continue: never a verdict about the code."""


class _K:
    world = None
    current = None


K = _K()

MUTATING = frozenset([
    'creat', 'write', 'truncate', 'mkdir', 'rmdir', 'unlink', 'rename', 'link', 'symlink',
    'chmod', 'utime', 'fsync', 'sqlwrite', 'sqlcommit'])

# where processes meet
SHARED = MUTATING - {'write', 'chmod', 'utime'} | {'readdir', 'sqlread'}

# which system calls can legally fail in which way
ERR_OK = {
    errno.EIO: frozenset(['open', 'creat', 'read', 'write', 'truncate', 'readdir', 'stat', 'mkdir',
                          'rmdir', 'unlink', 'rename', 'link', 'fsync', 'chmod', 'sqlread', 'sqlwrite',
                          'sqlcommit']),
    errno.ENOSPC: frozenset(['creat', 'write', 'mkdir', 'rename', 'link', 'symlink', 'fsync', 'sqlwrite',
                             'sqlcommit']),
    errno.EACCES: frozenset(['open', 'creat', 'mkdir', 'unlink', 'rename', 'link', 'readdir', 'rmdir',
                             'sqlread', 'sqlwrite']),
    errno.ESTALE: frozenset(['open', 'read', 'write', 'readdir', 'rename', 'fsync']),
    errno.EMFILE: frozenset(['open', 'creat', 'readdir']),
    errno.EBUSY: frozenset(['sqlread', 'sqlwrite', 'sqlcommit']),     # database is locked
    errno.ENOMEM: frozenset(['open', 'creat', 'read', 'readdir', 'sqlread', 'sqlwrite']),
}
DATA_PLANE = frozenset(['open', 'creat', 'read', 'write', 'truncate', 'readdir', 'mkdir', 'rmdir', 'unlink',
                        'rename', 'link', 'symlink', 'chmod', 'fsync', 'sqlread', 'sqlwrite', 'sqlcommit'])


class Host:
    def __init__(self, name, tz='UTC0', offset_us=0, tick_us=1):
        self.name = name
        self.tz = tz
        self.offset_us = offset_us      # clock error against true time
        self.tick_us = tick_us          # clock resolution


class Process:
    MAX_STEPS = 60_000

    def __init__(self, world, host, cwd='/', uid=1000, env=None, argv=(), fault=None, label=''):
        self.world = world
        self.host = host
        self.uid = uid
        self.env = {'HOME': '/home', 'PATH': '/bin', 'LANG': 'C.UTF-8', **(env or {})}
        self.argv = list(argv)
        self.label = label
        world.last_pid += 1
        self.pid = world.last_pid
        self.umask = 0o022
        node = world.fs.h_lookup(cwd)
        if node is None or node.kind != 'd':
            raise HarnessError(f'no such cwd: {cwd}')
        self.cwd = (node, cwd)
        self.fds = {}
        self.dead = False
        self.ended = False
        self.nsys = 0
        self.fault = Fault(fault) if fault else None
        self.events = []                # mutations: (what, path[, path2])
        self.calls = []                 # names of system calls (probing)
        self.out = []
        self.modules = None             # set by loader
        self.writers = []               # open buffered writers, flushed at exit
        self.atexit = []
        self.result = None              # ('exit', code) | ('return', v) | ('exc', e) | ('killed',) | ('hang',)
        self.rng = random.Random(f'{world.seed}/p{self.pid}')
        self.blocked = None             # (deadline_us or None, predicate)
        self.thread = None
        self.baton = None
        self.sqlconns = []

    @property
    def stdout(self):
        return ''.join(self.out)


class Fault:
    """One planned fault of one process: fires at the `at`-th eligible call.

    kind: kill | power | int | err | short | tornkill | rot

    `names`, if given, restricts it to these system calls, `path` (of rot) to files whose path ends so.
    rot: one bit of what is read is wrong.
    """

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec['kind']
        self.at = spec['at']
        self.errno = spec.get('errno')
        self.sticky = spec.get('sticky', 0)
        self.fired = 0
        self.pending_name = None

    def eligible(self, name, path=''):
        if name not in self.spec.get('names', (name,)):
            return False
        if self.kind == 'err':
            return name in ERR_OK[self.errno]
        if self.kind == 'short':
            return name in ('read', 'write')
        if self.kind == 'rot':
            return name == 'read' and path.endswith(self.spec.get('path', ''))
        return True


class World:
    def __init__(self, seed, personality='ordered', blksize=4096, start='2024-03-05T10:00:00', cost=(1, 40)):
        self.seed = seed
        self.rng = random.Random(f'{seed}/world')
        self.personality = personality
        self.nolink = False             # file system without hard links
        self.true_us = int(_parse_utc(start) * 1_000_000)
        self.start_us = self.true_us
        self.elapsed_us = 0             # simulated time of rewound branches
        self.cost = cost
        self._lcg = self.rng.getrandbits(31)
        self.fs = FS(lambda: self.true_us * 1000, blksize, self.rng.getrandbits(30))
        self.last_pid = 100
        self.steps = 0
        self.switches = 0
        self.hosts = {}
        self.fired = {}                 # fault kind -> times it actually fired
        self.probes = {}                # rare condition -> times reached
        self.group = None
        self.trace = None               # list when recording
        self.hash = hashlib.sha256()
        self._hbuf = []
        self.procs_run = 0
        self.power_stats = {'namespace_dropped': 0, 'files_torn': 0}
        self.monitor = None

    def host(self, name='h', **kw):
        if name not in self.hosts:
            self.hosts[name] = Host(name, **kw)
        return self.hosts[name]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- time
    def advance(self, us):
        self.true_us += us

    def tick(self):
        self._lcg = (self._lcg * 1103515245 + 12345) & 0x7fffffff
        lo, hi = self.cost
        self.true_us += lo + (self._lcg >> 8) % (hi - lo + 1)

    def now_us(self, proc):
        t = self.true_us + proc.host.offset_us
        return t - t % proc.host.tick_us

    # -- recording
    def log(self, *rec):
        self._hbuf.append(repr(rec))
        if len(self._hbuf) > 200:
            self._flush_log()
        if self.trace is not None:
            self.trace.append(rec)

    def _flush_log(self):
        self.hash.update('\n'.join(self._hbuf).encode('utf-8', 'surrogateescape'))
        self._hbuf = []

    def digest(self):
        self._flush_log()
        return self.hash.hexdigest()

    # -- the system call boundary
    def enter(self, p, name, path=''):
        """Account for one system call of p; schedule; inject faults.  Returns a directive or None."""
        if p.dead or p.ended:
            raise Killed
        p.nsys += 1
        self.steps += 1
        if p.nsys > p.MAX_STEPS:
            p.dead = True
            p.result = ('hang',)
            raise StepLimit
        self.tick()
        self.log(p.pid, name, path)
        if self.group is not None:
            self.group.point(p, name)
            if p.dead:
                raise Killed
        p.calls.append(name)
        f = p.fault
        if f is None:
            return None
        if f.fired:
            if f.sticky and f.kind == 'err' and f.eligible(name, path):
                f.sticky -= 1
                self.log(p.pid, 'FAULT', f.kind, f.errno, name)
                self._throw(p, f, name, path)
            return None
        if p.nsys < f.at or not f.eligible(name, path):
            return None
        f.fired += 1
        tag = f.kind if f.kind != 'err' else 'err:' + errno.errorcode[f.errno]
        self.fired[tag] = self.fired.get(tag, 0) + 1
        self.log(p.pid, 'FAULT', f.kind, f.errno, name)
        if f.kind in ('short', 'rot'):
            return f.kind
        if f.kind == 'tornkill':
            if name == 'write':
                return 'tornkill'
            p.dead = True
            raise Killed
        if f.kind == 'kill':
            p.dead = True
            raise Killed
        if f.kind == 'power':
            self.power_off(p)
            raise Killed
        if f.kind == 'int':
            raise KeyboardInterrupt
        self._throw(p, f, name, path)

    def _throw(self, p, f, name, path):
        if name.startswith('sql'):
            return_sql_error(f.errno, name)
        if f.errno == errno.ENOMEM and f.spec.get('memerror'):
            raise MemoryError
        raise err(f.errno, path)

    def power_off(self, p=None):
        group = self.group
        for q in (group.procs if group is not None else [p] if p is not None else []):
            q.dead = True
        st = self.fs.power_loss(random.Random(f'{self.seed}/power/{self.steps}'), self.personality)
        for k, v in st.items():
            self.power_stats[k] += v
        self.log('POWER', sorted(st.items()))

    def power_cut_between_ops(self):
        self.fired['power-idle'] = self.fired.get('power-idle', 0) + 1
        self.power_off()

    # -- running processes
    def run(self, p, main):
        """Run main() as process p to its end, alone."""
        self._body(p, main)
        return p

    def _body(self, p, main):
        prev = K.current
        K.current = p
        use_tz(p.host.tz)
        self.procs_run += 1
        try:
            p.result = ('return', main())
        except SystemExit as e:
            code = e.code
            p.result = ('exit', 0 if code is None else code if isinstance(code, int) else 1)
        except Killed:
            p.result = p.result or ('killed',)
        except StepLimit:
            p.result = ('hang',)
        except KeyboardInterrupt:
            p.result = ('interrupted',)
        except HarnessError:
            raise
        except BaseException as e:
            if p.dead:
                p.result = ('killed',)
            else:
                p.result = ('exc', e)
        finally:
            try:
                self._end(p)
            finally:
                K.current = prev
                use_tz(prev.host.tz if prev is not None else 'UTC0')

    def _end(self, p):
        if not p.dead:
            # what the interpreter does at exit: atexit handlers, then flush what is still open
            for fn, a, kw in reversed(p.atexit):
                try:
                    fn(*a, **kw)
                except Killed:
                    break
                except Exception:
                    pass
            p.atexit = []
            for ref in p.writers:
                w = ref()
                if w is not None and not w.closed:
                    try:
                        w.close()
                    except Killed:
                        break
                    except Exception:
                        pass
        if p.dead and p.result is None:
            p.result = ('killed',)
        p.ended = True
        for c in p.sqlconns:
            c._sim_release()
        p.sqlconns = []
        p.fds.clear()
        p.modules = None
        if p.thread is None:
            self.log(p.pid, 'END', str(p.result[0]))

    def run_group(self, jobs, policy, on_switch=None):
        """Run several (process, main) concurrently under a scheduling policy."""
        group = Group(self, jobs, policy)
        self.group = group
        try:
            group.go()
        finally:
            self.group = None
        return group

    def sleep(self, p, us):
        self.enter(p, 'sleep')
        self.block(p, self.true_us + us, None)

    def block(self, p, deadline, predicate):
        """Block p until predicate() or deadline (true time); True if the predicate came true."""
        if self.group is not None:
            return self.group.block(p, deadline, predicate)
        if predicate is not None and predicate():
            return True
        if deadline is None:
            raise HarnessError('deadlock: a lone process blocks for ever')
        self.true_us = max(self.true_us, deadline)
        return predicate is not None and predicate()


def return_sql_error(no, name):
    import sqlite3
    msg = {errno.EIO: 'disk I/O error', errno.ENOSPC: 'database or disk is full',
           errno.EBUSY: 'database is locked', errno.EACCES: 'unable to open database file',
           errno.ENOMEM: 'out of memory'}[no]
    if no == errno.ENOMEM:
        raise MemoryError
    if no == errno.EBUSY:
        # the busy handler waited for its whole timeout
        K.world.block(K.current, K.world.true_us + 5_000_000, None)
    raise sqlite3.OperationalError(msg)


class Group:
    """Concurrent processes on real threads, released one at a time."""

    def __init__(self, world, jobs, policy):
        self.world = world
        self.jobs = jobs
        self.procs = [p for p, _ in jobs]
        self.policy = policy
        self.done = threading.Lock()
        self.step = 0
        self.failure = None
        self.picks = 0
        self.switch_log = []            # (decision number, process index): replays exactly

    def go(self):
        self.done.acquire()
        for i, (p, main) in enumerate(self.jobs):
            p.gidx = i
            p.baton = threading.Lock()
            p.baton.acquire()
            p.thread = threading.Thread(target=self._thread, args=(p, main), daemon=True)
        for p in self.procs:
            p.thread.start()
        first = self._pick('start', None, list(self.procs))
        self._give(first)
        self.done.acquire()
        for p in self.procs:
            p.thread.join()
            p.thread = None
        K.current = None
        use_tz('UTC0')
        for p in self.procs:
            self.world.log(p.pid, 'END', str(p.result and p.result[0]))
        if self.failure:
            raise self.failure

    def _give(self, p):
        K.current = p
        use_tz(p.host.tz)
        p.baton.release()

    def _thread(self, p, main):
        p.baton.acquire()
        try:
            self.world._body(p, main)
        except BaseException as e:      # harness bug: surface it in the main thread
            self.failure = e
        p.ended = True
        live = [q for q in self.procs if not q.ended]
        if not live:
            self.done.release()
            return
        try:
            nxt = self._next_runnable(live, 'exit', None)
        except BaseException as e:
            self.failure = self.failure or e
            for q in live:
                q.dead = True
            nxt = live[0]
            nxt.blocked = None
        self._give(nxt)

    def _runnable(self, q):
        if q.ended:
            return False
        if q.dead or q.blocked is None:
            return True
        deadline, pred = q.blocked
        if pred is not None and pred():
            return True
        return deadline is not None and self.world.true_us >= deadline

    def _next_runnable(self, cands, why, current):
        run = [q for q in cands if self._runnable(q)]
        if not run:
            deadlines = [q.blocked[0] for q in cands if q.blocked and q.blocked[0] is not None]
            if not deadlines:
                raise HarnessError('deadlock: every simulated process is blocked')
            self.world.true_us = max(self.world.true_us, min(deadlines))
            run = [q for q in cands if self._runnable(q)]
        return self._pick(why, current, run)

    def _pick(self, why, current, run):
        """One scheduling decision; decisions other than the default one are logged for replay."""
        if not run:
            raise HarnessError('nothing runnable')
        default = current if current in run else run[0]
        n = self.picks
        self.picks += 1
        if self.policy.mode == 'replay':
            nxt = self.policy.replay(n, run, default)
        else:
            nxt = self.policy.pick(self, why, current, run)
        if nxt is not default:
            self.switch_log.append((n, nxt.gidx))
        return nxt

    def point(self, p, name):
        self.step += 1
        cands = [q for q in self.procs if not q.ended]
        if len(cands) == 1:
            return
        run = [q for q in cands if self._runnable(q)]
        nxt = self._pick(name, p, run)
        if nxt is not p:
            self._switch(p, nxt)

    def _switch(self, p, nxt):
        self.world.switches += 1
        self._give(nxt)
        p.baton.acquire()

    def block(self, p, deadline, predicate):
        p.blocked = (deadline, predicate)
        while not self._runnable(p):
            cands = [q for q in self.procs if not q.ended]
            nxt = self._next_runnable(cands, 'block', p)
            if nxt is not p:
                self._switch(p, nxt)
        p.blocked = None
        if p.dead:
            raise Killed
        return predicate is not None and predicate()


class Policy:
    """Seeded scheduling policies; `replay` follows a recorded switch list."""

    def __init__(self, spec):
        self.spec = spec
        self.mode = spec['mode']
        if self.mode == 'replay':
            self.todo = dict(map(tuple, spec['switches']))
        else:
            self.rng = random.Random(f"{spec['seed']}/sched")
            self.prio = None
            if self.mode == 'pct':
                n = max(2, spec.get('horizon', 400))
                self.changes = sorted(self.rng.randrange(1, n) for _ in range(spec.get('depth', 2)))

    def replay(self, n, run, default):
        want = self.todo.get(n)
        for q in run:
            if q.gidx == want:
                return q
        return default

    def pick(self, group, why, current, run):
        if self.mode in ('pct', 'hot'):
            if self.prio is None:
                order = list(range(len(group.procs)))
                self.rng.shuffle(order)
                self.prio = {i: len(order) - k for k, i in enumerate(order)}
                self.low = 0
            park = False
            if self.mode == 'hot':      # let the others go on for long, when about to use what is shared
                park = current in run and why in SHARED and self.rng.random() < self.spec.get('p', .1)
            else:
                while self.changes and group.step >= self.changes[0]:
                    self.changes.pop(0)
                    park = True
            if park and current is not None:
                self.low -= 1
                self.prio[current.gidx] = self.low
            return max(run, key=lambda q: self.prio[q.gidx])
        # random walk, more eager around calls that change shared state
        if current in run:
            prob = self.spec.get('p', .1)
            if why in MUTATING:
                prob = min(.9, prob * 3)
            if self.rng.random() >= prob:
                return current
        return self.rng.choice(run)


_tz = None


def use_tz(tz):
    global _tz
    if tz != _tz:
        os.environ['TZ'] = tz
        real_time.tzset()
        _tz = tz


def _parse_utc(s):
    import calendar
    return calendar.timegm(real_time.strptime(s, '%Y-%m-%dT%H:%M:%S'))


class StdDispatch:
    """sys.stdout/sys.stderr of whichever simulated process runs; the real stream for the harness."""

    def __init__(self, real):
        self._real = real
        self.encoding = 'utf-8'
        self.errors = 'strict'

    def write(self, s):
        p = K.current
        if p is None:
            return self._real.write(s)
        p.out.append(s)
        return len(s)

    def flush(self):
        if K.current is None:
            self._real.flush()

    def isatty(self):
        return False

    def fileno(self):
        if K.current is None:
            return self._real.fileno()
        raise OSError('no fileno in simulation')

    def writable(self):
        return True

    def __getattr__(self, name):
        return getattr(self._real, name)


def install_stdio():
    if not isinstance(sys.stdout, StdDispatch):
        sys.stdout = StdDispatch(sys.stdout)
        sys.stderr = StdDispatch(sys.stderr)
    gc.disable()
