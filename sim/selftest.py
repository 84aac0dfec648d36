"""Compares the simulated kernel with the real one: the same seeded random operations on both must have the same results.

  python -m sim.selftest [HISTORIES]     files, SQLite locking, time zones

The real operations run in a scratch directory, as an unprivileged user.
"""

import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UID = 65534
NAMES = ['a', 'b', 'd', 'd/e', 'd/f', 'd/e/g', 'ü', 'a/x', 'l', 'l/e', 'zz/y', 'd/../b', './a', 'l/../b', '']


def file_ops(os, shutil, pathlib, glob, base, seed):
    """One history of file operations with the given modules -> list of results."""
    rng = random.Random(seed)
    out, fds = [], []
    os.chdir(base)
    os.umask(rng.choice([0o22, 0o77, 0o2]))

    def st(s):
        return [oct(s.st_mode), s.st_size if s.st_mode & 0o170000 != 0o40000 else 0, s.st_nlink if s.st_mode & 0o170000 != 0o40000 else 0]

    def tree():
        r = []
        for d, dirs, files in os.walk('.'):
            dirs.sort()
            for n in sorted(dirs + files):
                p = d + '/' + n
                try:
                    s = os.lstat(p)
                except OSError as e:
                    r.append([p, e.errno])
                    continue
                r.append([p, st(s), os.readlink(p) if s.st_mode & 0o170000 == 0o120000 else ''])
        return r

    def text(p, mode):
        with open_(p, mode) as f:
            if 'r' in mode:
                return f.read()
            return f.write('hállo\nx' * rng.randint(0, 900))
    open_ = os.__dict__.get('_sim_open') or open
    flags = [os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREAT, os.O_RDWR | os.O_CREAT | os.O_EXCL, os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
             os.O_WRONLY | os.O_APPEND, os.O_RDONLY | os.O_DIRECTORY, os.O_RDONLY | os.O_NOFOLLOW]
    fd = lambda: rng.choice(fds) if fds else 9999
    ops = {
        'mkdir': lambda p, q: os.mkdir(p, rng.choice([0o777, 0o700, 0o555])), 'makedirs': lambda p, q: os.makedirs(p, exist_ok=rng.random() < .5), 'rmdir': lambda p, q: os.rmdir(p),
        'unlink': lambda p, q: os.unlink(p), 'rename': lambda p, q: os.rename(p, q), 'replace': lambda p, q: os.replace(p, q), 'link': lambda p, q: os.link(p, q, follow_symlinks=False),
        'symlink': lambda p, q: os.symlink(rng.choice(['a', 'd', '../b', 'nowhere', 'l', '.', '/nowhere/x']), q), 'readlink': lambda p, q: os.readlink(p),
        'stat': lambda p, q: st(os.stat(p)), 'lstat': lambda p, q: st(os.lstat(p)), 'listdir': lambda p, q: sorted(os.listdir(p or '.')), 'scandir': lambda p, q: sorted([e.name, e.is_dir(), e.is_file(), e.is_symlink()] for e in os.scandir(p or '.')),
        'chmod': lambda p, q: os.chmod(p, rng.choice([0o644, 0o400, 0o755, 0o500, 0o200])), 'access': lambda p, q: [os.access(p, m) for m in (os.R_OK, os.W_OK, os.X_OK, os.F_OK)],
        'truncate': lambda p, q: os.truncate(p, rng.randint(0, 9000)), 'write-text': lambda p, q: text(p, rng.choice(['w', 'x', 'a'])), 'read-text': lambda p, q: text(p, 'r'),
        'open': lambda p, q: fds.append(os.open(p, rng.choice(flags), 0o666)), 'close': lambda p, q: os.close(fds.pop(rng.randrange(len(fds))) if fds else 9999),
        'write': lambda p, q: os.write(fd(), bytes([rng.randrange(256)]) * rng.randint(0, 5000)), 'read': lambda p, q: os.read(fd(), rng.randint(0, 5000)).hex(),
        'lseek': lambda p, q: os.lseek(fd(), rng.randint(-10, 6000), rng.choice([0, 1, 2])), 'ftruncate': lambda p, q: os.ftruncate(fd(), rng.randint(0, 6000)),
        'fstat': lambda p, q: st(os.fstat(fd())), 'fsync': lambda p, q: os.fsync(fd()),
        'rmtree': lambda p, q: shutil.rmtree(p or 'zz'), 'copy': lambda p, q: bool(shutil.copy(p, q)), 'move': lambda p, q: bool(shutil.move(p, q)), 'resolve': lambda p, q: str(pathlib.Path(p).resolve().relative_to(base)),
        'glob': lambda p, q: sorted(map(str, pathlib.Path('.').glob(rng.choice(['*', '**/*', 'd/*', '?'])))), 'glob2': lambda p, q: sorted(glob.glob(rng.choice(['*', 'd/*', '[ab]', '**/*']), recursive=True)),
        'exists': lambda p, q: [os.path.exists(p), os.path.isdir(p), os.path.isfile(p), os.path.islink(p), os.path.lexists(p)], 'tree': lambda p, q: tree(),
        'utime': lambda p, q: (os.utime(p, (5, 7)), os.stat(p).st_mtime), 'samefile': lambda p, q: os.path.samefile(p, q),
    }
    weight = ['mkdir'] * 4 + ['write-text'] * 6 + ['symlink'] * 2 + ['open'] * 3 + ['write'] * 2 + ['rename'] * 3 + list(ops)
    for _ in range(rng.randint(10, 60)):
        k, p, q = rng.choice(weight), rng.choice(NAMES), rng.choice(NAMES)
        state = rng.getstate()
        try:
            r = ops[k](p, q)
        except OSError as e:
            r = f'{type(e).__name__} {e.errno}' if k not in ('rmtree', 'move') else 'error'   # (Python uses other calls without dir_fd)
        except Exception as e:
            r = f'{type(e).__name__}'
        rng.setstate(state)             # what an operation draws does not depend on how far it came
        rng.random()
        out.append([k, p, q, r])
    for f in fds:
        os.close(f)
    out.append(tree())
    return json.loads(json.dumps(out))


def sql_ops(sqlite3, base, seed):
    """One history of three connections to one database -> list of results."""
    rng = random.Random(seed)
    path = f'{base}/db'
    setup = sqlite3.connect(path)
    setup.execute('CREATE TABLE t(k INTEGER PRIMARY KEY, v)')
    setup.commit()
    setup.close()
    cons = [sqlite3.connect(path, timeout=0, isolation_level=rng.choice(['', None, 'IMMEDIATE'])) for _ in range(3)]
    out = []
    for n in range(rng.randint(8, 40)):
        c = rng.randrange(3)
        sql = rng.choice(['INSERT INTO t(v) VALUES (%d)' % n, 'INSERT INTO t(v) VALUES (%d)' % n, 'DELETE FROM t WHERE k = (SELECT min(k) FROM t)', 'UPDATE t SET v = %d' % n, 'SELECT * FROM t', 'SELECT * FROM t',
                          'COMMIT', 'COMMIT', 'ROLLBACK', 'BEGIN', 'BEGIN IMMEDIATE', 'commit()', 'commit()', 'rollback()', 'INSERT INTO t(k) VALUES (1)', 'reopen'])
        if sql == 'BEGIN IMMEDIATE' and cons[c].in_transaction:
            continue
        try:
            if sql == 'reopen':
                cons[c].close()
                cons[c] = sqlite3.connect(path, timeout=0)
                r = 'ok'
            elif sql == 'commit()':
                r = cons[c].commit()
            elif sql == 'rollback()':
                r = cons[c].rollback()
            else:
                r = cons[c].execute(sql).fetchall()
        except sqlite3.Error as e:
            r = f'{type(e).__name__} {e}'
        out.append([c, sql, r, cons[c].in_transaction])
    for c in cons:
        c.close()
    c = sqlite3.connect(path)
    out.append(c.execute('SELECT * FROM t').fetchall())
    c.close()
    return json.loads(json.dumps(out))


def zone_ops(time, datetime, seed):
    rng = random.Random(seed)
    out = [time.timezone, time.altzone, time.daylight, list(time.tzname)]
    for _ in range(60):
        t = rng.choice([rng.randrange(0, 2**31), rng.choice([1729990800, 1711846800, 1730613600, 1712410200, 1704067200]) + rng.randint(-8000, 8000)])
        l = time.localtime(t)
        d = datetime.datetime.fromtimestamp(t, datetime.timezone.utc).astimezone()
        out.append([t, list(l), l.tm_gmtoff, time.mktime(l), d.strftime('%Y%m%dT%H%M%S%f%z'), time.strftime('%Y-%m-%d %H:%M:%S %z', l)])
    return json.loads(json.dumps(out))


def real(n, zones):
    """Runs in a process of its own, unprivileged: all histories on the real thing."""
    import datetime, glob, pathlib, sqlite3, time
    base = os.getcwd()
    out = []
    for seed in range(n):
        d = f'{base}/{seed}'
        os.mkdir(d)
        os.mkdir(f'{d}/w')
        out.append(['file', seed, file_ops(os, shutil, pathlib, glob, f'{d}/w', seed)])
        os.chdir(base)
        os.mkdir(f'{d}/q')
        out.append(['sql', seed, sql_ops(sqlite3, f'{d}/q', seed)])
    for k, z in enumerate(zones):
        os.environ['TZ'] = z
        time.tzset()
        out.append(['zone', k, zone_ops(time, datetime, k)])
    os.chdir('/')
    json.dump(out, sys.stdout)


def main():
    if sys.argv[1:2] == ['--real']:
        return real(int(sys.argv[2]), json.loads(sys.argv[3]))
    n = int(sys.argv[1]) if sys.argv[1:] else 300
    from . import kernel, loader, machine, runner
    runner.setup()
    zones = machine.TZS
    base = tempfile.mkdtemp(prefix='selftest-')
    try:
        os.chmod(base, 0o777)
        p = subprocess.run(['setpriv', f'--reuid={UID}', f'--regid={UID}', '--clear-groups', sys.executable, '-m', 'sim.selftest', '--real', str(n), json.dumps(zones)],
                           cwd=base, env=dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
        if p.returncode:
            sys.exit(p.stderr)
        want = json.loads(p.stdout)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', base])
        shutil.rmtree(base)
    bad = 0
    for kind, seed, w in want:
        m = machine.Machine(dict(machine.gen_params(random.Random(seed)), nolink=False))
        m.user('ann', uid=UID, tz=zones[seed % len(zones)])

        def go():
            f = loader.find
            if kind == 'file':
                f('os').makedirs('/home/ann/t/w')
                o = f('os')
                o._sim_open = f('builtins').open if False else f('io').open
                return file_ops(o, f('shutil'), f('pathlib'), f('glob'), '/home/ann/t/w', seed)
            if kind == 'sql':
                f('os').makedirs('/home/ann/t/q')
                return sql_ops(f('sqlite3'), '/home/ann/t/q', seed)
            return zone_ops(f('time'), f('datetime'), seed)
        p = m.lib('ann', go)
        got = p.result[1] if p.result[0] == 'return' else repr(p.result)
        if got != w:
            bad += 1
            if bad <= 5:
                k = next((k for k in range(min(len(got), len(w))) if got[k] != w[k]), None) if isinstance(got, list) else None
                print(f'{kind} {seed}: operation {k}: simulated {str(got[k] if k is not None else got)[-600:]}, real {str(w[k] if k is not None else "")[-600:]}')
                if k:
                    print('  after', str([x[:3] for x in w[:k]])[-700:])
    print(f'{len(want)} histories, {bad} differ')
    sys.exit(bool(bad))


if __name__ == '__main__':
    main()
