"""C10: input data is there completely and exactly as recorded, or it is not there, wherever a command stops."""

from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit, world
from .c09 import workspace_state

PROPERTY = 'C10'
LEVEL = 'fault_enumeration'
RULE = ('A case is one interrupted input command (fault kind x system call, placed by a dry run); non-trivial when the fault fired; distinct '
        'by command and the state of the workspace it leaves.')
RUNS = {'quick': 270, 'thorough': 40000}
KINDS = ('kill', 'kill', 'kill', 'int', 'err', 'err', 'short', 'tornkill')
OPS = ['add', 'replace', 'replacesame', 'update', 'all', 'prev', 'load', 'loadall', 'unload', 'unloadall', 'delete', 'deleteunloaded', 'edit']


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES[:20], 2)
    return dict(params=gen_params(rng), names=names, op=rng.choice(OPS), index=rng.random() < .3,
                outputs=[kit.gen_code(rng, rng.choice([1, 3, 6]), .05) for _ in range(4)],
                cases=[dict(fault=gen_fault(rng, KINDS)) for _ in range(8 if tier == 'quick' else 16)])


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    box = m.box('b')
    m.set_config('ann', [('b', box)])
    t0 = world.start_us(sc) - 10**12
    a, b = sc['names']
    beads = [world.put_bead(m, box, n, f'kind-{n}', world.stamp(t0 + i * 10**6, 60), dict(kit.materialise(sc['outputs'][i]), id=str(i).encode()))
             for i, n in enumerate((a, a, b, b))]
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    w = kit.new_workspace(ctx, m, 'ann', 'work', {'code': 't:x'}, {'out': 't:y'})
    for nick, bead in (('one', beads[0]), ('two', beads[2]), ('off', beads[3])):
        kit.expect_ok(ctx, m.cli('ann', 'input', 'add', nick, f"{box}/{bead['file']}", '-w', w), 'input add')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'unload', 'off', '-w', w), 'unload')
    op = sc['op']
    if op in ('loadall', 'edit'):
        kit.expect_ok(ctx, m.cli('ann', 'input', 'unload', '-w', w), 'unload')
    if op == 'prev':
        kit.expect_ok(ctx, m.cli('ann', 'input', 'update', 'one', '-w', w), 'update')
    args = {'add': ['add', 'new', b], 'replace': ['add', 'one', b], 'replacesame': ['add', 'one', a], 'update': ['update', 'one'], 'all': ['update'],
            'prev': ['update', 'one', '-P'], 'load': ['load', 'off'], 'loadall': ['load'], 'unload': ['unload', 'one'], 'unloadall': ['unload'],
            'delete': ['delete', 'one'], 'deleteunloaded': ['delete', 'off'], 'edit': ['load']}[op]
    go = lambda f: m.cli('ann', 'input', *args, '-w', w, fault=f)
    m.place_all(sc['cases'], go)
    point = m.fork_point()
    old = workspace_state(m, w)
    kit.expect_ok(ctx, go(None), op)
    new = workspace_state(m, w)
    m.rewind(point)
    data = {x['content_id']: x['data'] for x in beads}
    known = [(x['kind'], x['content_id'], x['time']) for x in beads]
    rest = lambda: {k: v for k, v in m.fs.h_files(w).items() if k.split('/')[0] not in ('input', '.bead-meta')}
    mine = rest()
    for c in sc['cases']:
        m.rewind(point)
        p = go(c['fault'])
        fired = bool(p.fault and p.fault.fired)
        how = f"{op} under {c['fault']}: {describe(p)}"
        ctx.check(p.result[0] != 'hang', 'hang', how)
        if not fired:
            ctx.check(ok(p), 'command-failed', how)
        judge(ctx, m, w, old, new, data, how, known, fired and p.fault.kind == 'err')
        ctx.check(rest() == mine, 'work-changed', how)
        st = m.cli('ann', 'status', '-w', w)
        ctx.check(ok(st), 'workspace-unusable', lambda: f'{describe(st)} after {how}')
        # go on: first another input, then the same again
        left = tree_digest(m.fs.h_tree(w))
        q = m.cli('ann', 'input', 'load', 'two', '-w', w)
        ctx.check(ok(q), 'workspace-unusable', lambda: f'{describe(q)} after {how}')
        judge(ctx, m, w, old, new, data, 'load after ' + how, known, fired and p.fault.kind == 'err')
        stepped = op == 'prev' and workspace_state(m, w)[0] == new[0]
        q = go(None) if not stepped else m.cli('ann', 'input', 'load', 'one', '-w', w)
        gone = op in ('delete', 'deleteunloaded') and args[1] not in workspace_state(m, w)[0]
        ctx.check(ok(q) or gone, 'retry-fails', lambda: f'{describe(q)} after {how}')
        pins, loaded = workspace_state(m, w)
        want = dict(new[1])
        if 'two' in pins:
            want['two'] = data[pins['two'][1]]
        if op == 'unloadall':
            want = new[1]
        ctx.check(pins == new[0], 'retry-incomplete', lambda: f'{pins} != {new[0]} after {how}')
        ctx.check(loaded == want, 'retry-incomplete', lambda: f'{sorted(loaded)} loaded, should be {sorted(want)} after {how}')
        s = m.cli('ann', 'save', 'b', '-w', w)
        ctx.check(ok(s), 'workspace-unusable', lambda: f'{describe(s)} after {how}')
        d = m.cli('ann', 'discard', w)
        ctx.check(ok(d) and m.fs.h_lookup(w) is None, 'workspace-unusable', lambda: f'{describe(d)} after {how}')
        ctx.case(fired, op, fired and (p.fault.kind, p.fault.errno), left)


def judge(ctx, m, w, old, new, data, how, known, err):
    try:
        pins, loaded = workspace_state(m, w)
    except Exception as e:
        ctx.fail('metadata-unreadable', f'{e!r} after {how}')
    for n in pins:
        # (a read error may hide the newest version from the selection)
        ctx.check(pins[n] in (old[0].get(n), new[0].get(n)) or err and n in new[0] and pins[n] in known, 'pin-neither-old-nor-new', f'{n} is {pins[n]} after {how}')
    for n in old[0]:
        ctx.check(n in pins or n not in new[0], 'input-lost', f'{n} after {how}')
    for n, files in loaded.items():
        ctx.check(n in pins, 'unrecorded-input', f'input/{n} is there without being recorded; {how}')
        ctx.check(files == data[pins[n][1]], 'incomplete-input', lambda: f'input/{n} is not what is recorded: {kit.diff(files, data[pins[n][1]])}; {how}')
    for n, files in old[1].items():
        if n in new[1] and new[0].get(n) == old[0][n]:
            ctx.check(n in loaded, 'input-lost', f'input/{n} is gone after {how}')
