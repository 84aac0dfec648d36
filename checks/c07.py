"""C07: an index that was successfully brought up to date shows exactly the beads of the box, whatever happened before."""

import errno
import io
import random
import zipfile

from sim import loader, ref
from sim.kernel import Policy
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import bad, damage, kit, world

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('A case is a `box index` or `box reindex` (or an index kept by saves) that reported success after a history of saves, files '
        'copied, renamed, removed and damaged, interrupted and concurrent index updates and spoilt index files; non-trivial when the box '
        'then holds beads; distinct by the box directory and what preceded it.')
RUNS = {'quick': 800, 'thorough': 40000}
PLACES = ['/box/b', '/box/b', '/box/my box', '/box/100%', '/box/what?', '/box/#1', '/box/ünï', '/box/a&b=c', '/box/q[1]', "/box/it's", '/box/%41',
          '/box/b/.index.sqlite/deep', '/box/file:b', '/box/a;b', '/box/~b']
OPS = (['save'] * 4 + ['put'] * 6 + ['copy'] * 2 + ['rename'] * 3 + ['remove'] * 3 + ['bad'] * 3 + ['damage'] * 2 + ['replace'] + ['index'] * 5 + ['reindex'] * 3 + ['fault'] * 5
       + ['group'] * 4 + ['spoil'] * 2 + ['list'])
SQL = ['sqlread', 'sqlwrite', 'sqlcommit', 'readdir']


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES + kit.ODD_NAMES, 3)
    ops = []
    for _ in range(rng.randint(5, 14)):
        op = dict(op=rng.choice(OPS), name=rng.choice(names), arg=rng.randrange(1000), at=round(rng.random(), 4), content=kit.gen_content(rng, 0),
                  odd=rng.random() < .2)
        k = op['op']
        if k == 'bad':
            op['bad'] = bad.gen(rng, names)
        elif k == 'damage':
            op['damage'] = damage.gen(rng)
        elif k == 'fault':
            op['cmd'] = rng.choice(['index', 'reindex', 'save'])
            if rng.random() < .5:
                op['fault'] = gen_fault(rng, ('kill', 'kill', 'power', 'int', 'tornkill'))
            else:
                op['fault'] = dict(kind='err', errno=rng.choice([errno.EIO, errno.ENOSPC, errno.EBUSY, errno.EACCES, errno.ENOMEM]), frac=op['at'],
                                   names=SQL, sticky=rng.choice([0, 0, 2, 1000]))
        elif k == 'group':
            op['cmds'] = [rng.choice(['index', 'index', 'reindex', 'save', 'save']) for _ in range(rng.choice([2, 2, 3]))]
            op['policy'] = dict(mode=rng.choice(['walk', 'pct', 'hot', 'hot']), seed=rng.randrange(10**9), p=rng.choice([.05, .3]))
        elif k == 'spoil':
            op['how'] = rng.choice(['empty', 'random', 'cut', 'zero', 'flip', 'flips', 'flips', 'bytes', 'bytes', 'page', 'page', 'pages', 'old', 'gone', 'readonly'])
            op['seed'] = rng.randrange(10**6)
        ops.append(op)
    return dict(params=gen_params(rng), names=names, ops=ops, place=rng.choice(PLACES), end=rng.choice(['index', 'reindex', 'index-dir', 'index-name', 'index-all', 'reindex-all', 'reindex-dir']))


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    box = m.box('b', sc['place'])
    ws = {}
    for u in ('ann', 'bob', 'cat'):
        m.user(u, uid=1000)
        m.set_config(u, [('b', box)])
        ws[u] = kit.new_workspace(ctx, m, u, sc['names'][0], {}, {})
    if sc['place'].startswith('/box/b/.index.sqlite'):
        pass
    st = dict(beads=[], n=0, sure=None, dirty=False, t=world.start_us(sc) - 10**15)
    for op in sc['ops']:
        step(ctx, m, sc, op, ws, box, st)
    p = m.cli('bob', *command(sc['end'], box))
    if not st['dirty'] or 'reindex' in sc['end']:
        ctx.check(ok(p) and done(p), 'index-fails', describe(p))
        exact(ctx, m, box, f'after {sc["end"]}', st)


def command(how, box):
    return {'index': ['box', 'index'], 'reindex': ['box', 'reindex'], 'index-dir': ['box', 'index', '--dir', box], 'index-all': ['box', 'index', '--all'],
            'index-name': ['box', 'index', '--box', 'b'], 'reindex-all': ['box', 'reindex', '--all'],
            'reindex-dir': ['box', 'reindex', '--dir', box]}[how]


def done(p):
    return '✗' not in p.stdout and 'Failed' not in p.stdout and 'ERROR' not in p.stdout


def good_name(name):
    return name not in ('', '.', '..') and '__' not in name and '/' not in name and '\0' not in name


def is_text(x):
    try:
        x.encode('utf-8')
        return True
    except (AttributeError, UnicodeError):
        return False


def instant(ts):
    try:
        return ref.instant_us(ts)
    except Exception:
        return None


def regular(name, a, now):
    """Nothing is odd about this complete bead."""
    texts = [name, a['kind'], a['time'], *(x for i in a['inputs'] for x in i)]
    return (all(map(is_text, texts)) and good_name(name) and all(good_name(i[0]) for i in a['inputs']) and instant(a['time']) is not None
            and all(instant(i[3]) is not None for i in a['inputs']) and instant(a['time']) < now)


def truth(m, box, optional=None):
    """{(name, content id): facts} of the complete beads in the box, by the reference reader.

    `optional` collects the keys of everything that might pass as a bead (odd, but complete, or of damaged content).
    """
    t = {}
    now = m.w.true_us
    for n, a in ref.box_archives(m.fs, box).items():
        c = m.fs.h_lookup(f'{box}/{n}')
        if not is_text(n) or c is None or c.kind != 'f' or not c.mode & 0o400:
            continue
        name = ref.file_bead_name(n)
        if a is not None and regular(name, a, now):
            t[name, a['content_id']] = (a['kind'], a['time'], a['inputs'])
        elif optional is not None:
            try:
                with zipfile.ZipFile(io.BytesIO(bytes(c.data))) as z:
                    optional.add((name, ref.netstring_hash(z.read('meta/manifest'))))
            except Exception:
                pass
    return t


def listed(seen):
    return {(b['name'], b['content_id']): (b['kind'], b['time'], b['inputs']) for b in seen}


def exact(ctx, m, box, how, st, case=None):
    optional = set()
    want = truth(m, box, optional)
    seen = kit.listing(ctx, m, 'cat', box)
    got = listed(seen)
    compare(ctx, got, want, how, optional)
    ctx.check(len(got) == len(seen), 'bead-listed-twice', how)
    if seen:
        b = seen[st['n'] % len(seen)]
    if seen and kit.key_of(b) in want:
        a = next(a for n, a in kit.beads_in(m, box).items() if ref.file_bead_name(n) == b['name'] and a['content_id'] == b['content_id'])
        kit.check_delivery(ctx, m, 'cat', box, b, a['code'], a['data'], how)
    ctx.case(bool(want), how, case, tree_digest({n: x for n, x in m.fs.h_tree(box).items() if '.index' not in n}))


def compare(ctx, got, want, how, optional=()):
    missing = sorted(k[0] + ' ' + want[k][1] for k in want if k not in got)
    extra = sorted(k[0] + ' ' + got[k][1] for k in got if k not in want and k not in optional)
    ctx.check(not missing, 'bead-missing-from-index', f'{missing} are in the box but not in the index {how}')
    ctx.check(not extra, 'stale-index', f'{extra} are in the index but not in the box {how}')
    wrong = [(k, got[k], want[k]) for k in want if got[k] != want[k]]
    ctx.check(not wrong, 'wrong-index', f'{wrong[:1]} {how}')


def step(ctx, m, sc, op, ws, box, st):
    k = op['op']
    st['n'] += 1
    files = sorted(kit.zips(m, box))
    pick = files[op['arg'] % len(files)] if files else None
    fresh = f'.{st["n"]:03d}'

    def stamp():
        st['t'] += 10**6
        return world.stamp(st['t'], [0, 60, -210][st['n'] % 3])

    def write(name, data):
        if name in st.setdefault('ever', set()):
            st['dirty'] = True          # replaced in place: only a reindex has to notice
        st['ever'].add(name)
        m.fs.h_write(f'{box}/{name}', data, uid=1000)
    st.setdefault('ever', set()).update(files)
    if k == 'put':
        t = stamp()
        older = [a for a in st['beads']][-2:]
        inputs = [(f'in{i}', a['kind'], a['content_id'], a['time']) for i, a in enumerate(older)] if op['arg'] % 2 else ()
        fname = f"{op['name']}_{t}.zip" if not op['odd'] else [f"{op['name']}.zip", f"{op['name']}_{t[:8]}.zip", f'{op["name"]}_x_{t}.zip'][op['arg'] % 3]
        if fname in files:
            return
        d = ref.build_archive(op['name'], world.kind_of(op['name']), t, {'f': kit.content(op['content'])}, {}, inputs)
        st['beads'].append(ref.parse_archive(d))
        write(fname, d)
    elif k == 'copy' and pick:
        name = [f"{op['name']}_{stamp()}.zip", f'{ref.file_bead_name(pick)}_{stamp()}.zip', 'copy of ' + pick][op['arg'] % 3]
        if name not in files:
            write(name, kit.zips(m, box)[pick])
    elif k == 'rename' and pick:
        name = [f"{op['name']}_{stamp()}.zip", f'{ref.file_bead_name(pick)}_{stamp()}.zip', pick[:-4] + '.bak', 'x' + pick][op['arg'] % 4]
        if name not in files:
            data = kit.zips(m, box)[pick]
            m.fs.h_remove(f'{box}/{pick}')
            write(name, data)
    elif k == 'remove' and pick:
        m.fs.h_remove(f'{box}/{pick}')
    elif k == 'bad':
        spec = dict(op['bad'])
        if spec['file'] in files or m.fs.h_lookup(f"{box}/{spec['file']}", ):
            return
        st['ever'].add(spec['file'])
        bad.install(m, box, spec)
    elif k == 'damage' and pick:
        name = f"{op['name']}_{stamp()}.zip"
        if name not in files:
            try:
                data = damage.apply(op['damage'], kit.zips(m, box)[pick])
            except Exception:           # it was no archive even before
                return
            write(name, data)
    elif k == 'replace' and pick:
        write(pick, kit.zips(m, box)[files[-1]])
    elif k == 'save':
        save(ctx, m, op, ws, box, st)
    elif k in ('index', 'reindex'):
        p = m.cli('ann', 'box', k)
        if k == 'reindex':
            st['dirty'] = False
        if not st['dirty']:
            ctx.check(ok(p) and done(p), 'index-fails', describe(p))
            exact(ctx, m, box, f'after {k}', st)
            return
    elif k == 'fault':
        change(m, op, ws, 'ann')
        args = ['save', 'b', '-w', ws['ann']] if op['cmd'] == 'save' else ['box', op['cmd']]
        if op['fault']['kind'] == 'power':
            m.fs.sync_all()
        p = m.cli('ann', *args, fault=op['fault'])
        how = f"{args[1] if args[0] == 'box' else 'save'} under {op['fault']}"
        ctx.check(p.result[0] != 'hang', 'hang', how)
        if op['cmd'] == 'reindex' and not ok(p):
            pass
        elif op['cmd'] == 'reindex' and done(p):
            st['dirty'] = False
        fired = p.fault is not None and p.fault.fired
        if op['cmd'] != 'save' and ok(p) and done(p) and not st['dirty'] and not (fired and p.fault.kind == 'power'):
            exact(ctx, m, box, f'after {how}, which reported success: {describe(p)}', st, case=how)
        recover(ctx, m, box, st, f'after {how}', how)
    elif k == 'group':
        group(ctx, m, op, ws, box, st)
    elif k == 'spoil':
        spoil(ctx, m, op, box, st)
    elif k == 'list':
        kit.expect_ok(ctx, m.cli('cat', 'box', 'list'), 'box list')


def change(m, op, ws, user):
    m.fs.h_write(f'{ws[user]}/output/result', kit.content(op['content']) + user.encode(), uid=1000)


def recover(ctx, m, box, st, how, case=None):
    """A fault-free index update makes everything right."""
    p = m.cli('bob', 'box', 'reindex' if st['dirty'] else 'index')
    st['dirty'] = False
    ctx.check(ok(p) and done(p), 'index-fails', f'{describe(p)} {how}')
    exact(ctx, m, box, how, st, case)


def save(ctx, m, op, ws, box, st):
    change(m, op, ws, 'ann')
    had = kit.indexed(m, box)
    before = listed(kit.listing(ctx, m, 'cat', box)) if had else None
    in_box = set(kit.zips(m, box))
    p = m.cli('ann', 'save', 'b', '-w', ws['ann'])
    kit.expect_ok(ctx, p, 'save')
    if had:
        (new,) = set(kit.zips(m, box)) - in_box
        a = kit.beads_in(m, box)[new]
        compare(ctx, listed(kit.listing(ctx, m, 'cat', box)), {**before, (ref.file_bead_name(new), a['content_id']): (a['kind'], a['time'], a['inputs'])},
                'after save', set(before))


def group(ctx, m, op, ws, box, st):
    """Concurrent index updates and saves on a healthy index."""
    p = m.cli('ann', 'box', 'reindex' if st['dirty'] else 'index')
    st['dirty'] = False
    ctx.check(ok(p) and done(p), 'index-fails', describe(p))
    there = truth(m, box)
    jobs = []
    for u, cmd in zip(('ann', 'bob', 'cat'), op['cmds']):
        args = ['box', cmd]
        if cmd == 'save':
            change(m, op, ws, u)
            args = ['save', 'b', '-w', ws[u]]
        jobs.append((m.process(u, argv=['bead', *args], label=' '.join(args)), m._cli_main))
    g = m.w.run_group(jobs, Policy(op['policy']))
    op['policy'] = dict(mode='replay', switches=g.switch_log)
    how = f"after concurrent {op['cmds']}"
    for (p, _), cmd in zip(jobs, op['cmds']):
        ctx.check(p.result[0] != 'hang', 'hang', f'{describe(p)} {how}')
        if True:
            ctx.check(ok(p) and done(p), 'command-failed', f'{describe(p)} {how}')
    if True:
        got = listed(kit.listing(ctx, m, 'cat', box))
        optional = set()
        now = truth(m, box, optional)
        ctx.check(all(got.get(k) == v for k, v in there.items()), 'bead-missing-from-index', f'an earlier bead is lost {how}')
        ctx.check(all(k in now or k in optional for k in got), 'stale-index', f'{how}')
        # nothing failed: what was saved is indexed by the save itself
        compare(ctx, got, now, how, optional)
    recover(ctx, m, box, st, how, case=str(sorted(op['cmds'])) + str(len(g.switch_log)))


def spoil(ctx, m, op, box, st):
    """The index file is damaged: reindex repairs it; index fails loudly or gets it right."""
    path = f'{box}/.index.sqlite'
    node = m.fs.h_lookup(path)
    if node is None or node.kind != 'f':
        return
    how, data = op['how'], bytes(node.data)
    at = int(op['at'] * len(data))
    if how == 'gone':
        m.fs.h_remove(path)
    elif how == 'readonly':
        return
    else:
        new = spoilt(how, data, at, random.Random(op.get('seed', 0)), st.get('old_index', b''))
        st['old_index'] = data
        m.fs.h_write(path, new, uid=1000)
        p = m.cli('ann', 'box', 'index')
        ctx.check(p.result[0] == 'exit' or p.result[0] == 'return', 'hang', describe(p))
        if how == 'empty' and not st['dirty']:
            ctx.check(ok(p) and done(p), 'index-fails', describe(p))
            exact(ctx, m, box, f'after index of an {how} index', st)
    p = m.cli('bob', 'box', 'reindex')
    st['dirty'] = False
    ctx.check(ok(p) and done(p), 'index-fails', describe(p))
    exact(ctx, m, box, f'after reindex of spoilt ({how}) index', st)


def spoilt(how, data, at, rng, old):
    page = int.from_bytes(data[16:18], 'big') or 1024
    b = bytearray(data)
    if how == 'empty' or not data:
        return b''
    if how == 'random':
        return bytes(range(256)) * 8
    if how == 'cut':
        return data[:at]
    if how == 'zero':
        return data[:at] + bytes(len(data) - at)
    if how == 'flip':
        return data[:at] + bytes([data[at % len(data)] ^ 16]) + data[at + 1:]
    used = [i for i in range(len(b)) if b[i]] or [0]
    if how == 'flips':
        for _ in range(rng.choice([1, 3, 10])):
            b[rng.choice(used)] ^= 1 << rng.randrange(8)
    elif how == 'bytes':
        # heads of pages: kinds, numbers of cells, pointers, the list of free pages
        for _ in range(rng.choice([1, 2, 4])):
            p = rng.randrange(len(b) // page) * page
            b[min(len(b) - 1, p + (rng.randrange(16, 110) if p == 0 else rng.randrange(20)))] = rng.choice([0, 1, 2, 3, 5, 10, 13, 255])
    elif how in ('page', 'pages') and len(b) // page > 1:
        p, q = [rng.randrange(0 if how == 'page' else 1, len(b) // page) * page for _ in 'pq']
        b[p:p + page] = bytes(b[q:q + page]) if how == 'page' else rng.choice([bytes(page), rng.randbytes(page)])
    elif how == 'old' and old:
        # pages of another time
        for p in range(0, min(len(b), len(old)), page):
            if rng.random() < .5:
                b[p:p + page] = old[p:p + page]
    return bytes(b)
