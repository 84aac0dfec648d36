"""C11: configuration and workspace metadata are always readable and old or new; acknowledged changes last."""

import json

from sim.kernel import Policy
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit, world
from .c09 import workspace_state

PROPERTY = 'C11'
LEVEL = 'fault_enumeration'
RULE = ('A case is a change of the box list or of workspace metadata, interrupted (fault kind x system call) or cut off by power loss after it, '
        'or raced by other commands of the user; non-trivial when the fault fired or commands overlapped; distinct by command, fault and the state left.')
RUNS = {'quick': 520, 'thorough': 50000}
KINDS = ('kill', 'kill', 'power', 'power', 'int', 'err', 'err', 'short', 'tornkill')
BOX_NAMES = ['home', 'My Box', 'ünï', 'a', 'b', '日本', "it's", '-', 'x' * 80, 'quo"te', 'back\\slash', 'new\nline']
DIRS = ['/box/one', '/box/two', '/box/with space', '/box/ünï', '/box/deep/er', '/home/ann/boxes', '/box/quo"te', '/box/st*r']
COMMANDS = ['add', 'add', 'add', 'forget', 'forget', 'home', 'home', 'in-add', 'in-load', 'in-update', 'in-delete', 'in-unload']


def gen_op(rng, kinds=('add', 'add', 'add', 'forget', 'forget', 'list')):
    return dict(op=rng.choice(kinds), name=rng.choice(BOX_NAMES), dir=rng.randrange(len(DIRS)), pick=rng.randrange(20),
                how=rng.choice(['abs', 'abs', 'rel', 'link', 'slash']))


def generate(rng, tier, i):
    mode = ['crash', 'history', 'race'][i % 5 // 2]
    sc = dict(mode=mode, away=[k for k in range(len(DIRS)) if rng.random() < .3] if rng.random() < .5 else [], params=gen_params(rng), boxes=[gen_op(rng, ['add']) for _ in range(rng.choice([0, 1, 2, 4]))])
    if mode == 'crash':
        op = gen_op(rng, COMMANDS)
        if op['op'] == 'home':
            sc['boxes'] = []
            sc['params']['personality'] = 'ordered'
        sc.update(op=op, first=rng.random() < .15, cases=[dict(fault=gen_fault(rng, KINDS)) for _ in range(8 if tier == 'quick' else 16)])
    elif mode == 'history':
        sc.update(ops=[gen_op(rng) for _ in range(rng.randint(3, 9))], cuts=rng.random() < .7)
    else:
        sc.update(jobs=[gen_op(rng, ['add', 'add', 'add', 'forget', 'list', 'save']) for _ in range(rng.choice([2, 2, 3]))], cases=[
            dict(policy=dict(mode=rng.choice(['walk', 'pct', 'hot', 'hot']), seed=rng.randrange(10**9), p=rng.choice([.05, .2, .4]), horizon=120),
                 fault=dict(kind='kill', at=rng.randint(1, 120)) if rng.random() < .3 else None) for _ in range(6)])
    return sc


def setup(ctx, m, sc):
    m.user('ann', uid=1000)
    for d in DIRS:
        m.fs.h_mkdirs(d, uid=1000)
        m.fs.h_lookup(d).mode = 0o777
        m.fs.h_symlink(f'/box/link{DIRS.index(d)}', d)
    boxes = []
    for op in sc['boxes']:
        if all(n != op['name'] and d != DIRS[op['dir']] for n, d in boxes):
            boxes.append((op['name'], DIRS[op['dir']]))
    # directories of some boxes are not available
    wanted = {op['dir'] for op in [*sc.get('ops', []), *sc.get('jobs', []), sc.get('op') or dict(op='')] if op['op'] == 'add'}
    for k in sc['away']:
        if k not in wanted and (not boxes or boxes[0][1] != DIRS[k]):
            m.fs.h_rename(DIRS[k], f'/away{k}')
    return boxes


def model(boxes, op):
    """The box list after the command."""
    if op['op'] == 'add':
        new = (op['name'], DIRS[op['dir']])
        return boxes if any(n == new[0] or d == new[1] for n, d in boxes) else boxes + [new]
    if op['op'] == 'forget':
        return [b for b in boxes if b[0] != target(boxes, op)]
    return boxes


def target(boxes, op):
    return boxes[op['pick'] % len(boxes)][0] if boxes and op['pick'] < 16 else op['name']


def argv(boxes, op, w=None):
    k = op['op']
    if k == 'add':
        d = DIRS[op['dir']]
        d = {'rel': f'../../..{d}', 'link': f"/box/link{op['dir']}", 'slash': f'{d}/.'}.get(op['how'], d)
        return ['box', 'add', op['name'], d]
    if k == 'forget':
        return ['box', 'forget', target(boxes, op)]
    if k == 'list':
        return ['box', 'list']
    return ['save', *([boxes[0][0]] if boxes else ()), '-w', w]


def config(ctx, m, how):
    c = kit.config_boxes(m, 'ann')
    ctx.check(c is not None, 'config-unreadable', how)
    return c


def usable(ctx, m, boxes, how):
    """Any command can go on."""
    for a in (['box', 'list'], ['version']):
        p = m.cli('ann', *a)
        ctx.check(ok(p), 'commands-fail', lambda: f'{describe(p)} after {how}')
        if a[0] == 'box':
            for n, d in boxes:
                ctx.check(n in p.stdout and d in p.stdout, 'box-not-listed', lambda: f'{n} {d} not in {p.stdout!r} after {how}')


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    boxes = setup(ctx, m, sc)
    {'crash': crash, 'history': history, 'race': race}[sc['mode']](ctx, m, sc, boxes)


def workspace(ctx, m, name='work'):
    w = kit.new_workspace(ctx, m, 'ann', name, {'code': 't:x'}, {'out': 't:y'})
    return w


def crash(ctx, m, sc, boxes):
    op = sc['op']
    if not sc['first'] or boxes:
        m.set_config('ann', boxes)
    w = workspace(ctx, m)
    if op['op'].startswith('in-'):
        return crash_meta(ctx, m, sc, w)
    m.fs.sync_all()
    home = [('home', '/home/ann/BeadBox')]
    new = home if op['op'] == 'home' else model(boxes, op)
    args = ['save', '-w', w] if op['op'] == 'home' else argv(boxes, op)
    run = lambda f: m.cli('ann', *args, fault=f)
    m.place_all(sc['cases'], run)
    point = m.fork_point()
    for c in sc['cases']:
        m.rewind(point)
        p = run(c['fault'])
        fired = bool(p.fault and p.fault.fired)
        how = f"{args[:3]} under {c['fault']}: {describe(p)}"
        ctx.check(p.result[0] != 'hang', 'hang', how)
        done = ok(p) and 'ERROR' not in p.stdout
        if not fired:
            ctx.check(ok(p), 'command-failed', how)
        now = config(ctx, m, how)
        ctx.check(now == boxes or now == new, 'neither-old-nor-new', lambda: f'{now}, was {boxes}, should be {new}; {how}')
        if done:
            ctx.check(now == new, 'acknowledged-change-lost', lambda: f'{now}, should be {new}; {how}')
        usable(ctx, m, now, how)
        if fired and p.fault.kind != 'power' and done:
            m.w.power_cut_between_ops()
            ctx.check(config(ctx, m, how) == new, 'acknowledged-change-lost', lambda: f'by power loss after {how}')
        # again
        q = run(None) if op['op'] != 'home' or now != home else m.cli('ann', 'save', '-w', w)
        ctx.check(ok(q), 'retry-fails', lambda: f'{describe(q)} after {how}')
        ctx.check(config(ctx, m, how) == new, 'retry-incomplete', lambda: f'{config(ctx, m, how)}, should be {new} after {how}')
        left = tree_digest(m.fs.h_tree('/home/ann'))
        if op['op'] == 'home':
            m.w.power_cut_between_ops()
            ctx.check(config(ctx, m, how) == home, 'acknowledged-change-lost', lambda: f'by power loss after {how}')
            a = [x for x in kit.beads_in(m, home[0][1]).values() if x['data'] == {'out': b'y'}]
            ctx.check(bool(a), 'success-without-bead', how)
        elif not fired:
            m.w.power_cut_between_ops()
            ctx.check(config(ctx, m, how) == new, 'acknowledged-change-lost', lambda: f'by power loss after {how}')
        ctx.case(fired, op['op'], fired and (p.fault.kind, p.fault.errno), now == new, left)


def crash_meta(ctx, m, sc, w):
    box = m.box('src')
    m.set_config('ann', [('src', box)])
    t0 = world.start_us(sc) - 10**12
    beads = [world.put_bead(m, box, n, f'kind-{n}', world.stamp(t0 + i * 10**6, 60), {f'd{i}': b'%d' % i}) for i, n in enumerate('xxyy')]
    for nick, bead in (('one', beads[0]), ('two', beads[2]), ('off', beads[3])):
        kit.expect_ok(ctx, m.cli('ann', 'input', 'add', nick, f"{box}/{bead['file']}", '-w', w), 'input add')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'unload', 'off', '-w', w), 'unload')
    m.fs.sync_all()
    args = {'add': ['add', 'new', 'y'], 'load': ['load'], 'update': ['update'], 'delete': ['delete', 'one'], 'unload': ['unload']}[sc['op']['op'][3:]]
    run = lambda f: m.cli('ann', 'input', *args, '-w', w, fault=f)
    m.place_all(sc['cases'], run)
    point = m.fork_point()
    meta = lambda: json.loads(m.fs.h_read(f'{w}/.bead-meta/bead'))
    old = meta()
    kit.expect_ok(ctx, run(None), args[0])
    new = meta()
    m.rewind(point)
    for c in sc['cases']:
        m.rewind(point)
        p = run(c['fault'])
        fired = bool(p.fault and p.fault.fired)
        how = f"input {args} under {c['fault']}: {describe(p)}"
        ctx.check(p.result[0] != 'hang', 'hang', how)
        judge_meta(ctx, meta, old, new, ok(p), how, fired and p.fault.kind == 'err')
        if not fired or p.fault.kind != 'power':
            acked = meta() if ok(p) else None
            m.w.power_cut_between_ops()
            judge_meta(ctx, meta, old, new, ok(p), 'power loss after ' + how, fired and p.fault.kind == 'err')
            ctx.check(acked is None or meta() == acked, 'acknowledged-change-lost', lambda: f'by power loss after {how}')
        st = m.cli('ann', 'status', '-w', w)
        ctx.check(ok(st) and 'work' in st.stdout, 'commands-fail', lambda: f'{describe(st)} after {how}')
        ctx.case(fired, args[0], fired and (p.fault.kind, p.fault.errno), tree_digest(m.fs.h_tree(w)))


def judge_meta(ctx, meta, old, new, done, how, err):
    try:
        now = meta()
    except Exception as e:
        ctx.fail('metadata-unreadable', f'{e!r} after {how}')
    rest = lambda d: {k: v for k, v in d.items() if k != 'inputs'}
    ctx.check(rest(now) == rest(old), 'neither-old-nor-new', f'{now} after {how}')
    if done and not err:
        ctx.check(now == new, 'acknowledged-change-lost', lambda: f'{now}, should be {new}; {how}')
    for n in {*old['inputs'], *new['inputs'], *now['inputs']}:
        v = now['inputs'].get(n)
        # (a read error may hide the newest version from the selection)
        ctx.check(v in (old['inputs'].get(n), new['inputs'].get(n)) or err and v is not None, 'neither-old-nor-new', lambda: f'{n} is {v} after {how}')


def history(ctx, m, sc, boxes):
    """Acknowledged changes add up, for every later process, and outlive power cuts."""
    m.set_config('ann', boxes)
    m.fs.sync_all()
    for op in sc['ops']:
        args = argv(boxes, op)
        p = m.cli('ann', *args)
        how = f'{args} with {boxes}: {describe(p)}'
        ctx.check(ok(p) or op['name'].startswith('-'), 'command-failed', how)
        new = model(boxes, op) if ok(p) else boxes
        ctx.check(config(ctx, m, how) == new, 'wrong-boxes', lambda: f'{config(ctx, m, how)}, should be {new}; {how}')
        if op['op'] == 'add' and ok(p) and new == boxes:
            ctx.check('ERROR' in p.stdout, 'success-without-effect', how)
        boxes = new
        if sc['cuts']:
            m.w.power_cut_between_ops()
            ctx.check(config(ctx, m, how) == boxes, 'acknowledged-change-lost', lambda: f'by power loss after {how}')
        usable(ctx, m, boxes, how)
        ctx.case(True, 'history', boxes, op['op'], op['how'])


def race(ctx, m, sc, boxes):
    m.set_config('ann', boxes)
    w = workspace(ctx, m)
    m.fs.sync_all()
    point = m.fork_point()
    for c in sc['cases']:
        m.rewind(point)
        jobs = []
        for i, op in enumerate(sc['jobs']):
            if op['op'] == 'save' and not boxes:
                op = dict(op, op='list')
            a = argv(boxes, op, w)
            jobs.append((op, m.process('ann', argv=['bead', *a], fault=c['fault'] if i == 0 else None, label=' '.join(a))))
        if m.w.nolink and sum(op['op'] == 'save' for op, _ in jobs) > 1:
            continue
        g = m.w.run_group([(p, m._cli_main) for _, p in jobs], Policy(c['policy']))
        c['policy'] = dict(mode='replay', switches=g.switch_log)
        how = f'concurrent {[describe(p) for _, p in jobs]} with {boxes}'
        now = config(ctx, m, how)
        adds = [(op['name'], DIRS[op['dir']]) for op, _ in jobs if op['op'] == 'add']
        gone = [target(boxes, op) for op, _ in jobs if op['op'] == 'forget']
        names = [n for n, _ in boxes]
        for b in boxes:
            ctx.check(b in now or b[0] in gone, 'box-lost', lambda: f'{b} is not in {now} after {how}')
        for b in now:
            ctx.check(b in boxes or b in adds, 'box-out-of-nowhere', lambda: f'{b} after {how}')
        for key in (0, 1):
            ctx.check(len({b[key] for b in now}) == len(now), 'duplicate-box', lambda: f'{now} after {how}')
        changes = []
        for op, p in jobs:
            killed = bool(p.fault and p.fault.fired)
            dash = op['name'].startswith('-') or op['op'] in ('forget', 'save') and argv(boxes, op, w)[-1 if op['op'] == 'forget' else 1].startswith('-')
            if op['op'] == 'save' and boxes and boxes[0][0] in gone:
                continue
            if not killed and not dash:
                ctx.check(ok(p), 'command-failed', how)
                if op['op'] in ('add', 'forget') and 'ERROR' not in p.stdout and 'WARNING' not in p.stdout:
                    changes.append(op)
        # (of concurrent changes one may undo the other, but not all can be lost)
        if changes and now == boxes:
            effective = [op for op in changes if model(boxes, op) != boxes]
            mixed = any(n in [a for a, _ in adds] or n not in names for n in gone)
            ctx.check(not effective or mixed or len(changes) > len(effective), 'acknowledged-change-lost', lambda: f'all of them: {now} after {how}')
        usable(ctx, m, now, how)
        m.w.power_cut_between_ops()
        ctx.check(config(ctx, m, how) == now, 'acknowledged-change-lost', lambda: f'by power loss after {how}')
        ctx.case(g.switch_log, 'race', sorted(now), [op['op'] for op, _ in jobs], g.switch_log)
