"""C23: loaded inputs are protected from programs of the user, everything else is the user's to change."""

import io
import json
import zipfile

from sim import loader
from sim.machine import describe, gen_fault, gen_params, ok

from . import c09, kit, world

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('A case is the attempt of a program of the user to change everything in a workspace, after a step of a history of input commands, edits and saves, some of them interrupted and '
        'repeated; non-trivial when there is a loaded input with files; distinct by step, interruption and the directory tree.')
RUNS = {'quick': 420, 'thorough': 25000}
OPS = ['add'] * 4 + ['addpath', 'addpath', 'update', 'update', 'updatet', 'next', 'prev', 'load', 'load', 'unload', 'delete', 'all', 'edit', 'edit', 'save', 'status']
KINDS = ('kill', 'int', 'err', 'err')
MODES = [None, None, 0, 0o777, 0o444, 0o555, 0o4755, 0o200]


def generate(rng, tier, i):
    names = rng.sample(kit.PLAIN_NAMES, 2)
    ops = []
    for _ in range(rng.randint(3, 8)):
        op = dict(op=rng.choice(OPS), nick=rng.choice(['x', 'x', 'y', 'My in']), name=rng.choice(names), pick=rng.randrange(50))
        if rng.random() < .35:
            op['fault'] = gen_fault(rng, KINDS)
        ops.append(op)
    beads = [dict(c09.gen_put(rng, names), code=kit.gen_code(rng, 3), mode=rng.choice(MODES), foreign=rng.random() < .4) for _ in range(rng.randint(1, 5))]
    return dict(params=gen_params(rng), names=names, ops=ops, beads=beads)


def put(m, d, t0, b, n):
    """An archive, maybe of another tool, that cares for file modes and directories."""
    a = world.put_bead(m, d, b['name'], b['kind'], world.stamp(t0 + b['us'] + n, b['zone']), dict(kit.materialise(b['output']), seq=str(n).encode()), kit.materialise(b['code']))
    if b['foreign'] or b['mode'] is not None:
        buf = io.BytesIO()
        with zipfile.ZipFile(io.BytesIO(a['bytes'])) as z, zipfile.ZipFile(buf, 'w') as to:
            for info in z.infolist():
                x = zipfile.ZipInfo(info.filename, date_time=(1980, 1, 1, 0, 0, 0) if b['foreign'] else info.date_time)
                if b['mode'] is not None:
                    x.external_attr = (0o100000 | b['mode']) << 16 | (1 if not b['mode'] & 0o200 else 0)
                to.writestr(x, z.read(info))
        m.fs.h_write(f"{d}/{a['file']}", buf.getvalue(), uid=1000)
    return a


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    d = m.box('b')
    m.set_config('ann', [('b', d)])
    t0 = world.start_us(sc) - 10**13
    beads = [put(m, d, t0, b, n) for n, b in enumerate(sc['beads'])]
    w = kit.new_workspace(ctx, m, 'ann', 'work', {'c': 't:code', 'sub/d': 't:more'}, {'o': 't:out', 'deep/o': 't:more'})
    if not beads:
        return
    s = dict(w=w, beads=beads, safe=set(), dirty=False, seq=0, box=d)
    for op in sc['ops']:
        step(ctx, m, sc, op, s)


def step(ctx, m, sc, op, s):
    k, w, nick = op['op'], s['w'], op['nick']
    pick = s['beads'][op['pick'] % len(s['beads'])]
    path = f"{s['box']}/{pick['file']}"
    s['seq'] += 1
    dest = f"/home/ann/w/e{s['seq']}"
    argv = {'add': ['input', 'add', nick, op['name']], 'addpath': ['input', 'add', nick, path], 'update': ['input', 'update', nick], 'updatet': ['input', 'update', nick, path],
            'next': ['input', 'update', nick, '-N'], 'prev': ['input', 'update', nick, '-P'], 'load': ['input', 'load'], 'unload': ['input', 'unload', nick],
            'delete': ['input', 'delete', nick], 'all': ['input', 'update'], 'save': ['save'], 'status': ['status'],
            'edit': ['edit', path, dest, *(['--review'] if op['pick'] % 3 else [])]}[k]
    argv += ['-w', w] if k != 'edit' else []
    pins, loaded = c09.workspace_state(m, w)
    fired = None
    if op.get('fault'):
        p = m.cli('ann', *argv, fault=op['fault'])
        ctx.check(p.result[0] != 'hang', 'hang', lambda: describe(p))
        if p.fault and p.fault.fired and k != 'edit':
            fired = p.fault.kind
            # what was touched by it may have been left without protection
            s['dirty'] = True
            new = c09.workspace_state(m, w)
            s['safe'] = {n for n in s['safe'] if new[0].get(n) == pins.get(n) and n in new[1] and n != nick and k != 'all'}
            pins, loaded = new
        elif k == 'edit' and m.fs.h_lookup(dest):
            m.cli('ann', 'discard', '-f', dest)
    p = m.cli('ann', *argv)
    how = f'{describe(p)} after {op.get("fault") if fired else None}'
    if k == 'edit':
        kit.expect_ok(ctx, p, 'edit')
        probe(ctx, m, dest, set(), how, k, fired, True)
        s['w'], s['safe'], s['dirty'] = (dest, set(), False) if op['pick'] % 2 else (w, s['safe'], s['dirty'])
        return
    now_pins, now = c09.workspace_state(m, w)
    s['safe'] = {n for n in s['safe'] if n in now and now_pins.get(n) == pins.get(n)}
    if ok(p):
        fresh = {n for n in now if n not in loaded or now_pins.get(n) != pins.get(n)}
        s['safe'] |= fresh
        if fresh or set(loaded) - set(now):
            s['dirty'] = False
    elif not fired:
        s['dirty'] = True       # (a failure at another place)
    probe(ctx, m, w, s['safe'], how, k, fired, not s['dirty'])


def probe(ctx, m, w, safe, how, k, fired, top):
    """Try to change everything there."""
    tree = m.fs.h_tree(w)
    state = m.save_state()
    p = m.lib('ann', lambda: attempts(w))
    m.load_state(state)
    ctx.check(p.result[0] == 'return', 'harness', lambda: describe(p))
    can, can_not = p.result[1]
    guarded = [f'input/{n}' for n in safe]
    for f in can:
        for g in guarded:
            ctx.check(f != g and not f.startswith(f'{g}/'), 'input-not-protected', lambda: f'{f} can be changed: {how}')
        ctx.check(f != 'input' or not top, 'input-not-protected', lambda: f'anything can be put into input: {how}')
    for f in can_not:
        # (.bead-meta/tmp… is garbage of an interrupted unload)
        ctx.check(f == 'input' or f.startswith(('input/', '.bead-meta/tmp')), 'not-writable', lambda: f'{f} can not be changed: {how}')
    ctx.case(any(f.startswith('input/') for f in can_not), k, fired, sorted(can_not), sorted(tree))


def attempts(w):
    os = loader.find('os')
    can, can_not = [], []

    def attempt(name, f):
        try:
            f()
        except PermissionError:
            if name not in can_not:
                can_not.append(name)
        else:
            if name not in can:
                can.append(name)

    def new(d):
        os.close(os.open(f'{d}/.probe', os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o644))

    def change(f):
        os.close(os.open(f, os.O_WRONLY))

    def turn(f):
        os.rename(f, f + '.probe')
        os.rename(f + '.probe', f)

    for root, dirs, files in os.walk(w):
        rel = lambda n: os.path.relpath(f'{root}/{n}', w)
        attempt(os.path.relpath(root, w), lambda: new(root))
        for f in files:
            if f == '.probe':
                continue
            attempt(rel(f), lambda: change(f'{root}/{f}'))
            attempt(rel(f), lambda: turn(f'{root}/{f}'))
    return can, can_not
