"""Driver: many seeded runs of one check over worker processes, evidence, replay files.

  python -m sim.runner check C02           run a check (VERIF_SEED, VERIF_TIER)
  python -m sim.runner replay FILE [-v]    re-execute a replay file
  python -m sim.runner worker ...          (internal)
  python -m sim.runner digests C02 LO HI   print the event-log digest of runs (determinism proof)
"""

import gc
import importlib
import json
import linecache
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
HASH_SEEDS = [0, 1, 42, 1234, 99991, 7, 2**31, 314159]
RUN_ALARM = 40          # s of CPU time


def setup():
    from . import kernel, loader
    kernel.install_stdio()
    loader.init()
    sys.setrecursionlimit(3000)


def load_check(prop):
    return importlib.import_module(f'checks.{prop.lower()}')


def known_findings(prop):
    """{violation class: description} of recorded, unrepaired findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f'known: property={prop} '):
                    cls, _, what = line.partition('class=')[2].partition(' ')
                    out[cls] = what
    return out


def scenario(check, seed, i, tier):
    rng = random.Random(f'{seed}/{check.PROPERTY}/{i}')
    sc = check.generate(rng, tier, i)
    sc['property'] = check.PROPERTY
    sc['run'] = i
    sc['seed'] = seed
    return sc


class Alarm(BaseException):
    pass


def on_alarm(*a):
    os.write(1, b'')
    raise Alarm


def worker(prop, tier, seed, lo, hi, out_path, deadline):
    setup()
    check = load_check(prop)
    known = known_findings(prop)
    gc.collect()
    gc.freeze()
    n = 0
    with open(out_path, 'w') as out:
        def emit(rec):
            out.write(json.dumps(rec) + '\n')
            out.flush()
        for i in range(lo, hi):
            if time.time() > deadline:
                emit({'t': 'deadline', 'i': i})
                return
            emit_run = {'t': 'run', 'i': i}
            sc = scenario(check, seed, i, tier)
            from .harness import run_scenario
            current[0] = i
            alarm(lambda *a: _hung(out_path, i), RUN_ALARM)
            try:
                r = run_scenario(check, sc)
            except BaseException as e:
                emit({'t': 'error', 'i': i, 'error': ''.join(traceback.format_exception(e))[-4000:], 'sc': sc})
                return
            finally:
                alarm(signal.SIG_IGN, 0)
            emit_run.update({k: r[k] for k in ('fired', 'probes', 'power', 'sim_us', 'procs', 'steps', 'switches',
                                                'digest', 'keys', 'cases', 'violation', 'wall')})
            if r['violation'] or n < 2:
                emit_run['sc'] = r['resolved']
            emit(emit_run)
            n += 1
            if r['violation'] and r['violation'][0] not in known:
                return
            if n % 25 == 0:
                gc.collect()
                for k in [k for k in linecache.cache if k.startswith('<attrs')]:
                    del linecache.cache[k]


current = [None]


def alarm(action, seconds):
    """Limit CPU time (the machine may be busy with other things), and the time of not even that."""
    signal.signal(signal.SIGPROF, action)
    signal.signal(signal.SIGALRM, action)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.alarm(seconds * 5)


def _hung(out_path, i):
    with open(out_path, 'a') as f:
        f.write(json.dumps({'t': 'hung', 'i': i}) + '\n')
    os._exit(9)


def spawn(args, hashseed, **kw):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', TZ='UTC0', LC_ALL='C.UTF-8')
    return subprocess.Popen([sys.executable, '-m', 'sim.runner', *map(str, args)], cwd=VERIF, env=env, **kw)


def check_main(prop, tier, seed, runs=None, jobs=None):
    t0 = time.time()
    check = load_check(prop)
    n = runs or check.RUNS[tier]
    cap = 800 if tier == 'quick' else 6 * 3600
    deadline = t0 + cap
    jobs = jobs or os.cpu_count() or 4
    chunk = max(1, min(-(-n // (jobs * 3)), 400))
    chunks = [(lo, min(lo + chunk, n)) for lo in range(0, n, chunk)]
    tmp = os.path.join(VERIF, 'replays', f'.work-{prop}-{os.getpid()}')
    os.makedirs(tmp, exist_ok=True)
    running, done = {}, []
    errors = []
    stop = late = False
    k = 0
    try:
        while (k < len(chunks) and not stop) or running:
            while k < len(chunks) and len(running) < jobs and not stop:
                lo, hi = chunks[k]
                hs = HASH_SEEDS[(k + seed) % len(HASH_SEEDS)]
                path = os.path.join(tmp, f'{k}.jsonl')
                p = spawn(['worker', prop, tier, seed, lo, hi, path, deadline], hs, stdout=subprocess.DEVNULL,
                          stderr=subprocess.PIPE)
                running[k] = (p, path, hs, lo, hi)
                k += 1
            time.sleep(.02)
            for key in list(running):
                p, path, hs, lo, hi = running[key]
                if p.poll() is None:
                    if time.time() > deadline + 60:
                        p.kill()
                    continue
                err = p.stderr.read().decode(errors='replace')
                del running[key]
                recs = []
                if os.path.exists(path):
                    with open(path) as f:
                        recs = [json.loads(l) for l in f]
                done.append((key, hs, recs))
                bad = [r for r in recs if r['t'] == 'error']
                late = late or any(r['t'] == 'deadline' for r in recs)
                for r in bad:
                    errors.append(f"run {r['i']}: {r['t']} {r.get('error', '')}")
                if p.returncode not in (0, 9) or (p.returncode == 0 and not recs):
                    errors.append(f'worker {lo}-{hi} ended with {p.returncode}: {err[-2000:]}')
                known = known_findings(prop)
                if bad or late or any(r['t'] == 'hung' or (r.get('violation') and r['violation'][0] not in known) for r in recs):
                    stop = True
    finally:
        for p, *_ in running.values():
            p.kill()
            p.wait()
        subprocess.run(['rm', '-rf', tmp])
    done.sort()
    recs = [dict(r, hs=hs) for _, hs, rs in done for r in rs]
    if late:
        print(f'{prop}: out of time, not all of the planned {n} runs are done')
        if not any(r['t'] == 'run' for r in recs):
            errors.append('no run was finished in time')
    return conclude(check, prop, tier, seed, n, recs, errors, t0)


def conclude(check, prop, tier, seed, n, recs, errors, t0):
    runs = [r for r in recs if r['t'] == 'run']
    known = known_findings(prop)
    viol = [r for r in runs if r['violation'] and r['violation'][0] not in known]
    hung = [r for r in recs if r['t'] == 'hung']
    wall = time.time() - t0
    code = 0
    reported = 0
    for r in known:
        print(f'KNOWN-FINDING: property={prop} {r} {known[r]}')
    if viol:
        r = min(viol, key=lambda r: r['i'])
        path = report(check, prop, seed, r)
        if path is None:
            errors.append(f"run {r['i']}: violation {r['violation']} did not reproduce in a fresh process")
        else:
            print(f"{r['violation'][0]}: {r['violation'][1]}")
            print(f'VIOLATION property={prop} replay={path}')
            code = 1
            reported = len(viol)
    elif hung:
        r = hung[0]
        sc = scenario(check, seed, r['i'], tier)
        path = os.path.join(REPLAYS, f'{prop}-{seed}-{r["i"]}.json')
        write_replay(path, prop, r['hs'], sc, ['hang', 'the command does not end'], None)
        p = spawn(['replay', path], r['hs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = b''
        try:
            text = p.communicate(timeout=320)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode == 5:
            # it ended this time, and broke the property in another way
            cls, _, msg = text.decode(errors='replace').partition(': ')
            write_replay(path, prop, r['hs'], sc, [cls.split('\n')[-1], msg[:2000]], None)
        if p.returncode in (1, 5):
            print(f'VIOLATION property={prop} replay={path}')
            code = 1
            reported = 1
        elif p.returncode == 0:
            print(f"{prop}: run {r['i']} took more than {RUN_ALARM} s, but held when repeated; the rest was not done")
        else:
            errors.append(f"run {r['i']} exceeded {RUN_ALARM} s of CPU time, and its repetition ended with {p.returncode}: {text[-500:]}")
    if errors and code == 0:
        for e in errors[:2]:
            print('HARNESS ERROR', e[-1500:])
        code = 3
    write_evidence(check, prop, tier, seed, n, runs, wall, reported)
    print(f'{prop}: {len(runs)} simulated runs in {wall:.1f} s, '
          f"{sum(r['procs'] for r in runs)} processes, {sum(r['steps'] for r in runs)} system calls, "
          f'exit {code}')
    return code


def write_replay(path, prop, hs, sc, violation, digest):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'hashseed': hs, 'violation': violation, 'digest': digest, 'scenario': sc}, f,
                  indent=1, sort_keys=True)


def report(check, prop, seed, r):
    """Minimise, write the replay file, confirm it in a fresh process."""
    path = os.path.join(REPLAYS, f"{prop}-{seed}-{r['i']}.json")
    write_replay(path, prop, r['hs'], r['sc'], r['violation'], None)
    p = spawn(['shrink', path], r['hs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
        out = b'shrinker timed out'
    if p.returncode != 0:
        print('shrinking failed:', out.decode(errors='replace')[-1000:])
        write_replay(path, prop, r['hs'], r['sc'], r['violation'], None)
    p = spawn(['replay', path], r['hs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        p.kill()
        return None
    return path if p.returncode == 1 else None


def shrink_main(path):
    setup()
    from .harness import run_scenario, shrink
    with open(path) as f:
        d = json.load(f)
    check = load_check(d['property'])
    first = run_scenario(check, d['scenario'])
    if not first['violation']:
        print('does not reproduce')
        return 4
    cls = first['violation'][0]
    sc = shrink(check, first['resolved'], cls)
    r = run_scenario(check, sc)
    if not r['violation'] or r['violation'][0] != cls:
        sc = first['resolved']
        r = run_scenario(check, sc)
    write_replay(path, d['property'], d['hashseed'], sc, r['violation'], r['digest'])
    return 0


def replay_main(path, verbose):
    with open(path) as f:
        d = json.load(f)
    if os.environ.get('PYTHONHASHSEED') != str(d['hashseed']):
        p = spawn(['replay', path] + (['-v'] if verbose else []), d['hashseed'])
        return p.wait()
    setup()
    from .harness import run_scenario
    check = load_check(d['property'])

    def hung(*a):
        print('VIOLATION (hang) reproduced')
        sys.stdout.flush()
        os._exit(1)
    if d['violation'][0] == 'hang':
        alarm(hung, 60)
    r = run_scenario(check, d['scenario'], trace=verbose)
    if verbose:
        for rec in r['trace']:
            print(rec)
    if r['violation'] is None:
        print('no violation')
        return 0
    print(f"{r['violation'][0]}: {r['violation'][1]}")
    if d['digest'] and r['digest'] != d['digest']:
        print('the execution differs from the recorded one (the code under test has changed, or replay is broken)')
    print('VIOLATION reproduced' if r['violation'][0] == d['violation'][0] else 'a different VIOLATION')
    return 1 if r['violation'][0] == d['violation'][0] else 5


def write_evidence(check, prop, tier, seed, n, runs, wall, violations):
    fired, probes, power = {}, {}, {}
    for r in runs:
        for src, dst in ((r['fired'], fired), (r['probes'], probes), (r['power'], power)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    distinct = {k for r in runs for k in r['keys']}
    samples = [r['sc'] for r in runs if 'sc' in r][:3]
    hours = max(wall, .001) / 3600
    cov = dict(
        evaluations=sum(r['cases'] for r in runs), distinct_nontrivial=len(distinct), rule=check.RULE, samples=samples,
        simulated_runs=len(runs), planned_runs=n, runs_per_hour=round(len(runs) / hours), seeds_per_hour=round(len(runs) / hours),
        simulated_processes=sum(r['procs'] for r in runs), system_calls=sum(r['steps'] for r in runs),
        simulated_seconds=round(sum(r['sim_us'] for r in runs) / 1e6, 3),
        faults_fired=dict(sorted(fired.items())), power_loss_effects=power,
        context_switches=sum(r['switches'] for r in runs), conditions_reached=dict(sorted(probes.items())),
        runs_with_a_fault_fired=sum(1 for r in runs if r['fired']),
        distinct_event_logs=len({r['digest'] for r in runs}),
        hash_seeds_used=sorted({r['hs'] for r in runs}),
        real_components=[
            'every module of bead and bead_cli (from the working tree)', 'pathlib, os.path, shutil, glob, zipfile, '
            'tempfile, uuid, random (CPython sources over the simulated posix)', 'io buffering and text layers, zlib, '
            'json, hashlib, argparse, attrs, the SQLite SQL engine'],
        stubbed_components=[
            'kernel file system, page cache and disk (sim/vfs.py)', 'SQLite VFS: locking, commit, durability '
            '(sim/simsql.py)', 'clock, time zones via POSIX TZ rules', 'OS entropy', 'process scheduler',
            'subprocess and web browser (refused)'],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=check.LEVEL, coverage=cov, wall_s=round(wall, 2),
              violations=violations,
              assumptions=getattr(check, 'ASSUMPTIONS', []))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def digests_main(prop, lo, hi, seed, tier):
    setup()
    from .harness import run_scenario
    check = load_check(prop)
    for i in range(lo, hi):
        r = run_scenario(check, scenario(check, seed, i, tier))
        print(prop, i, r['digest'], r['violation'] and r['violation'][0], sorted(r['fired'].items()))


def main(argv):
    cmd = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if cmd == 'check':
        runs = int(argv[2]) if len(argv) > 2 else None
        return check_main(argv[1], tier, seed, runs)
    if cmd == 'worker':
        prop, tier, seed, lo, hi, out, deadline = argv[1:]
        worker(prop, tier, int(seed), int(lo), int(hi), out, float(deadline))
        return 0
    if cmd == 'shrink':
        return shrink_main(argv[1])
    if cmd == 'replay':
        return replay_main(argv[1], '-v' in argv)
    if cmd == 'digests':
        digests_main(argv[1], int(argv[2]), int(argv[3]), seed, tier)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.exit(main(sys.argv[1:]))
