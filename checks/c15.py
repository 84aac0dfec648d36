"""C15: a directory that works as a workspace is a complete one, wherever its creation or its removal was interrupted."""

from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit, world
from .c09 import workspace_state

PROPERTY = 'C15'
LEVEL = 'fault_enumeration'
RULE = ('A case is one interrupted new, edit, edit --review or discard (fault kind x system call, placed by a dry run), followed by an attempt to save what is there '
        'and by doing it again; non-trivial when the fault fired; distinct by command, fault kind and the directory it leaves.')
RUNS = {'quick': 280, 'thorough': 40000}
KINDS = ('kill', 'kill', 'kill', 'int', 'err', 'err', 'short', 'tornkill')


def generate(rng, tier, i):
    op = rng.choice(['new', 'edit', 'edit', 'review', 'review', 'review', 'discard', 'discard'])
    return dict(params=gen_params(rng), op=op, name=kit.gen_bead_name(rng), code=kit.gen_code(rng, 6, .05), output=kit.gen_code(rng, 6, .05),
                inputs=rng.sample(['in', 'My In', 'ünï'], rng.choice([0, 1, 2])), how=rng.choice(['name', 'path']), dest=rng.choice([None, 'dest', 'deep/er/dest', '/home/ann/abs']),
                index=rng.random() < .3, exists=rng.choice([None, None, 'dir', 'empty', 'file', 'code', 'input']),
                cases=[dict(fault=gen_fault(rng, KINDS)) for _ in range(7 if tier == 'quick' else 20)])


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    box, mine = m.box('b'), m.box('mine')
    m.set_config('ann', [('b', box), ('mine', mine)])
    t0 = world.start_us(sc) - 10**12
    src = world.put_bead(m, box, 'source', 'ks', world.stamp(t0, 60), {'s': b's'})
    inputs = [(n, 'ks', src['content_id'], src['time']) for n in sc['inputs']]
    name, op = sc['name'], sc['op']
    code, output = kit.materialise(sc['code']), kit.materialise(sc['output'])
    world.put_bead(m, box, name, 'kind-old', world.stamp(t0 + 10**6, 60), {'old': b'old'}, {'old': b'old'})
    bead = world.put_bead(m, box, name, 'kind', world.stamp(t0 + 10**9, 60), output, code, inputs)
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
    dest = sc['dest'] or name
    path = dest if dest.startswith('/') else f'/home/ann/w/{dest}'
    if op == 'new':
        args, want = ['new', dest], ({}, {}, [])
    else:
        args = ['edit', name if sc['how'] == 'name' else f"{box}/{bead['file']}", *([dest] if sc['dest'] else []), *(['--review'] if op == 'review' else [])]
        want = (code, output if op == 'review' else {}, bead['inputs'])
    if op == 'discard':
        kit.expect_ok(ctx, m.cli('ann', *args, '--review'), 'edit')
        if inputs:
            kit.expect_ok(ctx, m.cli('ann', 'input', 'load', '-w', path), 'input load')
        want = (code, output, bead['inputs'])
        args = ['discard', *([dest] if sc['how'] == 'name' else [])]
    run = lambda f: m.cli('ann', *args, fault=f, cwd=path if args == ['discard'] else None)
    if sc['exists'] and op != 'discard':
        existing(ctx, m, sc['exists'], path, run)
    m.place_all(sc['cases'], run)
    point = m.fork_point()
    for c in sc['cases']:
        m.rewind(point)
        p = run(c['fault'])
        fired = bool(p.fault and p.fault.fired)
        how = f"{args} under {c['fault']}: {describe(p)}"
        ctx.check(p.result[0] != 'hang', 'hang', how)
        if not fired:
            ctx.check(ok(p), 'command-failed', how)
        left = tree_digest(m.fs.h_tree(path))
        complete = judge(ctx, m, sc, path, mine, want, how, kind=None if op == 'new' else 'kind', box=box)
        if op == 'discard':
            # (reports of internal errors are left in the current directory)
            ctx.check(not complete or not ok(p), 'not-discarded', how)
            ctx.check(m.fs.h_lookup(path) is None or not ok(p), 'not-discarded', how)
        # (a read error may hide the newest version from the selection)
        elif ok(p):
            ctx.check(complete, 'success-without-effect', how)
        # what works as a workspace goes on working, the rest can be removed
        d = m.cli('ann', 'discard', *([] if complete else ['--force']), path)
        if m.fs.h_lookup(path) is not None:
            ctx.check(ok(d), 'can-not-discard', lambda: f'{describe(d)} after {how}')
        ctx.check(m.fs.h_lookup(path) is None, 'can-not-discard', lambda: f'{describe(d)} after {how}')
        ctx.case(fired, op, fired and (p.fault.kind, p.fault.errno), left)
        if op == 'discard':
            continue
        q = run(None)
        ctx.check(ok(q), 'retry-fails', lambda: f'{describe(q)} after {how}')
        ctx.check(judge(ctx, m, sc, path, mine, want, 'retry after ' + how, kind=None if op == 'new' else 'kind', box=box), 'retry-incomplete', how)
        existing(ctx, m, 'complete', path, run)


def existing(ctx, m, kind, path, run):
    """What exists is not taken over."""
    if kind == 'file':
        m.fs.h_mkdirs(path.rpartition('/')[0], uid=1000)
        m.fs.h_write(path, b'file', uid=1000)
    elif kind != 'complete':
        m.fs.h_mkdirs(path + {'input': '/input', 'code': '/sub'}.get(kind, ''), uid=1000)
        if kind in ('dir', 'code'):
            m.fs.h_write(f'{path}/file', b'file', uid=1000)
    was = m.fs.h_tree('/')
    p = run(None)
    ctx.check(not ok(p), 'taken-over', lambda: f'existing {kind} {path}: {describe(p)}')
    new = sorted(k for k in {**was, **m.fs.h_tree('/')} if was.get(k) != m.fs.h_tree('/').get(k) and 'error_' not in k)
    ctx.check(not new, 'taken-over', lambda: f'existing {kind} {path}: {describe(p)} changes {new[:5]}')
    ctx.case(True, 'existing', kind, p.label)
    if kind != 'complete':
        m.fs.h_remove(path)


def judge(ctx, m, sc, path, mine, want, how, kind, box):
    """Save what is there: it is refused or it is everything."""
    st = m.cli('ann', 'status', '-w', path)
    before = set(kit.zips(m, mine))
    s = m.cli('ann', 'save', 'mine', '-w', path)
    new = set(kit.zips(m, mine)) - before
    if not ok(s):
        ctx.check(not new, 'failure-with-bead', lambda: f'{describe(s)} after {how}')
        ctx.check('Invalid workspace' in st.stdout, 'unusable-workspace', lambda: f'status {describe(st)}, but {describe(s)} after {how}')
        return False
    ctx.check(len(new) == 1, 'success-without-bead', lambda: f'{describe(s)} after {how}')
    a = kit.beads_in(m, mine)[new.pop()]
    a['code'] = {k: v for k, v in a['code'].items() if sc['op'] != 'discard' or not k.startswith('error_')}
    if kind and a['kind'] == 'kind-old' and ' under ' in how and "'err'" in how:
        code, output, inputs = {'old': b'old'}, {'old': b'old'}, []
        if sc['op'] not in ('review', 'discard'):
            output = {}
    else:
        code, output, inputs = want
        ctx.check(kind is None or a['kind'] == kind, 'incomplete-workspace', lambda: f"kind {a['kind']} instead of {kind} after {how}")
    ctx.check(a['code'] == code, 'incomplete-workspace', lambda: f"code {kit.diff(a['code'], code)} after {how}")
    ctx.check(a['data'] == output, 'incomplete-workspace', lambda: f"output {kit.diff(a['data'], output)} after {how}")
    ctx.check(a['inputs'] == inputs, 'incomplete-workspace', lambda: f"inputs {a['inputs']} instead of {inputs} after {how}")
    ctx.check(ok(st) and 'Invalid workspace' not in st.stdout, 'unusable-workspace', lambda: f'{describe(st)}, but it can be saved; {how}')
    if inputs:
        q = m.cli('ann', 'input', 'load', '-w', path)
        ctx.check(ok(q), 'unusable-workspace', lambda: f'{describe(q)} after {how}')
        pins, loaded = workspace_state(m, path)
        ctx.check(loaded == {n: {'s': b's'} for n, *_ in inputs}, 'incomplete-workspace', lambda: f'{sorted(loaded)} loaded after {how}')
    return True
