"""What a check is made of: context, violations, shrinking."""

import copy
import hashlib
import json
import os
import time
import traceback

from .kernel import HarnessError, Killed, K, use_tz
from .machine import Machine

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg


class Ctx:
    """One simulated run of one scenario (sc is resolved in place: faults get their call numbers)."""

    def __init__(self, sc, trace=False):
        self.sc = sc
        self.machines = []
        self.keys = []
        self.cases = 0
        self.counts = {}
        self.trace = trace

    def machine(self, params):
        m = Machine(params)
        if self.trace:
            m.w.trace = []
        self.machines.append(m)
        return m

    def case(self, nontrivial, *key):
        """One evaluated case: `key` identifies it among the distinct ones."""
        self.cases += 1
        if nontrivial:
            self.keys.append(hashlib.sha256(repr(key).encode('utf-8', 'surrogateescape')).hexdigest()[:16])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


UNEXPECTED = 'unexpected-outcome'
SIMULATOR = ('kernel.py', 'loader.py', 'simposix.py', 'simsql.py', 'machine.py', 'harness.py')


def from_check(e):
    """Did a check stumble upon what it got from the code under test (and not the simulator)?"""
    if isinstance(e, (HarnessError, MemoryError, RecursionError)):
        return False
    last = [os.path.basename(f.filename) for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(ROOT)][-1]
    return last not in SIMULATOR


def run_scenario(check, sc, trace=False):
    """Execute a scenario -> (result dict, ctx)."""
    sc = copy.deepcopy(sc)
    ctx = Ctx(sc, trace)
    res = {'violation': None}
    t = time.perf_counter()
    try:
        check.execute(ctx, sc)
    except Violation as v:
        res['violation'] = [v.cls, v.msg]
    except Exception as e:
        if not from_check(e):
            raise
        # files, outputs or answers are not at all like what the check is about
        res['violation'] = [UNEXPECTED, ''.join(traceback.format_exception(e))[-1500:]]
    finally:
        K.current = None
        use_tz('UTC0')
    res['wall'] = time.perf_counter() - t
    fired, probes, power = {}, {}, {}
    sim_us = procs = steps = switches = 0
    digest = []
    for m in ctx.machines:
        w = m.w
        for src, dst in ((w.fired, fired), (w.probes, probes), (w.power_stats, power)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
        sim_us += w.true_us - w.start_us + w.elapsed_us
        procs += w.procs_run
        steps += w.steps
        switches += w.switches
        digest.append(w.digest())
    for k, n in ctx.counts.items():
        probes[k] = probes.get(k, 0) + n
    res.update(fired=fired, probes=probes, power=power, sim_us=sim_us, procs=procs, steps=steps, switches=switches,
               digest='/'.join(digest), keys=ctx.keys, cases=ctx.cases, resolved=sc)
    if trace:
        res['trace'] = [r for m in ctx.machines for r in (m.w.trace or [])]
    return res


# -- shrinking

DROP_LISTS = ('cases', 'ops', 'damage', 'bads', 'switches', 'setup', 'jobs', 'beads', 'boxes', 'inputs', 'conds', 'extra', 'queries',
              'edits', 'versions', 'users')
DROP_DICTS = ('tree', 'data', 'code', 'files', 'output', 'src')
SIMPLE_PARAMS = {'nolink': False, 'personality': 'ordered', 'blk': 4096, 'tz': 'UTC0', 'salted': False, 'cost': [1, 3],
                 'start': '2024-03-05T10:00:00'}


def _paths(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in sorted(node, key=str):
            yield from _paths(node[k], path + (k,))
    elif isinstance(node, list):
        for i, x in enumerate(node):
            yield from _paths(x, path + (i,))


def _at(sc, path):
    for k in path:
        sc = sc[k]
    return sc


def candidates(sc):
    for path, node in list(_paths(sc)):
        key = path[-1] if path else None
        if isinstance(node, list) and key in DROP_LISTS and node:
            n = len(node)
            size = n
            while size >= 1:
                for lo in range(0, n, size):
                    if size == n and n == 1 and key == 'jobs':
                        continue
                    c = copy.deepcopy(sc)
                    del _at(c, path)[lo:lo + size]
                    yield c
                size //= 2
        elif isinstance(node, dict) and key in DROP_DICTS:
            for k in list(node):
                c = copy.deepcopy(sc)
                del _at(c, path)[k]
                yield c
        elif key == 'fault' and node is not None:
            c = copy.deepcopy(sc)
            _at(c, path[:-1])['fault'] = None
            yield c
            if isinstance(node, dict) and node.get('sticky'):
                c = copy.deepcopy(sc)
                _at(c, path)['sticky'] = 0
                yield c
        elif key == 'params' and isinstance(node, dict):
            for k, v in SIMPLE_PARAMS.items():
                if k in node and node[k] != v:
                    c = copy.deepcopy(sc)
                    _at(c, path)[k] = v
                    yield c
        elif isinstance(node, str) and node[:2] in ('r:', 'p:', 'z:') and len(path) > 1:
            c = copy.deepcopy(sc)
            _at(c, path[:-1])[path[-1]] = 't:x'
            yield c


def shrink(check, sc, cls, budget_s=60, max_tries=600):
    best = sc
    if cls == UNEXPECTED:
        return best     # (any senseless scenario gives that)
    deadline = time.monotonic() + budget_s
    tries = 0
    progress = True
    while progress and time.monotonic() < deadline and tries < max_tries:
        progress = False
        for c in candidates(best):
            tries += 1
            if time.monotonic() > deadline or tries >= max_tries:
                break
            try:
                r = run_scenario(check, c)
            except (HarnessError, LookupError, ValueError, TypeError, AttributeError, AssertionError):
                continue
            if r['violation'] and r['violation'][0] == cls:
                new = r['resolved']
                if len(json.dumps(new)) <= len(json.dumps(best)) and new != best:
                    best = new
                    progress = True
                    break
    return best
