"""C02: a save interrupted anywhere leaves a complete new bead or none, and nothing else changes."""

from sim import ref
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit

PROPERTY = 'C02'
LEVEL = 'fault_enumeration'
RULE = ('A case is one interrupted `bead save` (fault kind x system call, placed by a dry run) in a generated workspace and '
        'box; non-trivial when the fault fired; distinct by the box directory it leaves.')
RUNS = {'quick': 480, 'thorough': 40000}
KINDS = ('kill', 'kill', 'power', 'int', 'err', 'err', 'short', 'tornkill')


def generate(rng, tier, i):
    names = [kit.gen_bead_name(rng, .05) for _ in range(2)]
    sc = dict(
        params=gen_params(rng), name=names[0],
        beads=[dict(name=rng.choice(names), code=kit.gen_code(rng, 2), output=kit.gen_code(rng, 2))
               for _ in range(rng.randint(0, 2))],
        code=kit.gen_code(rng, 4, .05), output=kit.gen_code(rng, 4, .05),
        index=rng.random() < .4, stored=rng.random() < .3, other_view=rng.random() < .5,
        cases=[dict(fault=gen_fault(rng, KINDS)) for _ in range(8 if tier == 'quick' else 16)])
    return sc


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann')
    m.user('bob')
    box = m.box('b')
    m.set_config('ann', [('b', box)])
    m.set_config('bob', [('b', box)])
    env = {'BEAD_ZIP_COMPRESSION': 'off'} if sc['stored'] else None
    for n, b in enumerate(sc['beads']):
        ws = kit.new_workspace(ctx, m, 'ann', b['name'], b['code'], b['output'], cwd=home(m, f'pre{n}'))
        kit.expect_ok(ctx, kit.save(ctx, m, 'ann', ws), 'earlier save')
    ws = kit.new_workspace(ctx, m, 'ann', sc['name'], sc['code'], sc['output'])
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    m.fs.sync_all()
    code, output = kit.materialise(sc['code']), kit.materialise(sc['output'])
    old = kit.zips(m, box)
    old_keys = {kit.key_of(b) for b in kit.listing(ctx, m, 'bob', box)}
    m.place_all(sc['cases'], lambda f: m.cli('ann', 'save', 'b', '-w', ws, env=env))
    point = m.fork_point()
    for case in sc['cases']:
        m.rewind(point)
        p = m.cli('ann', 'save', 'b', '-w', ws, fault=case['fault'], env=env)
        judge(ctx, m, sc, case, p, box, ws, old, old_keys, code, output)


def home(m, sub):
    path = f'/home/ann/{sub}'
    m.fs.h_mkdirs(path, uid=m.users['ann'][0])
    return path


def judge(ctx, m, sc, case, p, box, ws, old, old_keys, code, output):
    fired = p.fault is not None and p.fault.fired
    how = f"save under {case['fault']}: {describe(p)}"
    power = fired and p.fault.kind == 'power'
    ctx.check(p.result[0] != 'hang', 'save-hangs', how)
    if not fired:
        ctx.check(ok(p), 'command-failed', how)
    for n, data in old.items():
        ctx.check(kit.zips(m, box).get(n) == data, 'old-bead-changed', f'{n} changed by {how}')
    for n in kit.zips(m, box):
        if n not in old:
            a = kit.beads_in(m, box).get(n)
            ctx.check(a is not None and kit.matches(a, code, output), 'incomplete-bead-file',
                      f'{n} is there but is not the complete saved workspace; {how}')
    # everybody else: the old beads, and the new one completely or not at all
    for view in (kit.listing, kit.raw_listing):
        seen = view(ctx, m, 'bob', box)
        keys = {kit.key_of(b) for b in seen}
        ctx.check(old_keys <= keys or (power and view is kit.listing), 'old-bead-lost', f'after {how}')
        fresh = [b for b in seen if kit.key_of(b) not in old_keys]
        ctx.check(len(fresh) <= 1, 'several-new-beads', f'{len(fresh)} new beads after {how}')
        for b in fresh:
            ctx.check(b['name'] == sc['name'], 'foreign-bead', f"a bead named {b['name']!r} appears after {how}")
            arch = [a for a in kit.beads_in(m, box).values() if a['content_id'] == b['content_id']]
            ctx.check(arch and kit.matches(arch[0], code, output), 'incomplete-bead-visible',
                      f'bead {b["name"]} {b["time"]} is listed but its archive is not the saved workspace; {how}')
            kit.check_delivery(ctx, m, 'bob', box, b, code, output, how, raw=view is kit.raw_listing)
        if ok(p) and not power and view is kit.raw_listing:
            ctx.check(len(fresh) == 1 or len(keys) == len(old_keys) and same_content(keys, m, box, code, output),
                      'success-without-bead', f'no new bead, yet {how}')
    if power and sc['index']:
        m.cli('bob', 'box', 'index')
        keys = {kit.key_of(b) for b in kit.listing(ctx, m, 'bob', box)}
        ctx.check(old_keys <= keys, 'old-bead-lost', f'even after box index, after {how}')
    # the work is not lost: the same save succeeds now
    if not ok(p) or power:
        q = m.cli('ann', 'save', 'b', '-w', ws)
        ctx.check(ok(q), 'retry-fails', f'{describe(q)} after {how}')
        ctx.check(any(kit.matches(a, code, output) for n, a in kit.beads_in(m, box).items() if n not in old),
                  'retry-without-bead', f'no bead after retry of {how}')
        ctx.check({kit.key_of(b) for b in kit.raw_listing(ctx, m, 'bob', box)} >= old_keys, 'old-bead-lost', f'retry of {how}')
    ctx.case(fired, fired and (p.fault.kind, p.fault.errno), tree_digest({k: v for k, v in m.fs.h_tree(box).items() if '.index' not in k}))


def same_content(keys, m, box, code, output):
    return any(kit.matches(a, code, output) for a in kit.beads_in(m, box).values())
