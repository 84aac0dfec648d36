"""C14: versions are ordered by the moment they were saved, whatever time zones and daylight saving the savers live in."""

from sim import ref
from sim.machine import TZS, describe, gen_params, ok

from . import kit, world
from .c09 import workspace_state

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('A case is one save, or one selection of a version (newest, as of a time, next, previous), in a history of users in different zones working on one '
        'bead around daylight saving changes; non-trivial from the second version on; distinct by zones, local times of the versions and the selection.')
RUNS = {'quick': 1000, 'thorough': 30000}
# around the ends (and starts) of daylight saving, in UTC
EDGES = ['2024-10-27T00:40:00', '2024-10-27T00:59:50', '2024-11-03T05:30:00', '2024-04-06T13:40:00', '2024-04-06T14:20:00', '2024-03-31T00:50:00', '2024-03-10T06:50:00',
         '2024-09-28T13:50:00', '2023-12-31T23:30:00', '2024-02-29T10:30:00', '2024-11-03T04:10:00', '2024-04-06T14:40:00', '2024-06-15T12:00:00']
STEPS = [1, 1000, 999_999, 1_000_000, 60_000_000, 600_000_000, 1_200_000_000, 1_800_000_000, 3_600_000_000, 3_599_000_000, 7_200_000_000]


def generate(rng, tier, i):
    start = rng.choice(EDGES)
    here = {'2024-10-27': TZS[1], '2024-03-31': TZS[1], '2024-11-03': TZS[2], '2024-03-10': TZS[2], '2024-04-06': rng.choice([TZS[4], TZS[8]]), '2024-09-28': TZS[4]}.get(start[:10], TZS[5])
    users = [dict(name=n, tz=rng.choice(TZS[:7] + TZS[8:] + [here] * 8)) for n in ('ann', 'bob', 'cyd')[:rng.choice([1, 2, 3])]]
    ops = []
    for _ in range(rng.randint(4, 9)):
        ops.append(dict(op=rng.choice(['save'] * 6 + ['newest', 'newest', 'asof', 'asof', 'asof', 'next', 'prev', 'prev', 'index', 'edit', 'ago', 'ago']), user=rng.randrange(3), step=rng.choice(STEPS),
                        pick=rng.randrange(20), shift=rng.choice([0, 0, 1, -1, 10**6, -10**6, 5 * 10**8]), zone=rng.choice([0, 60, 120, -300, -240, 330, 765, -720])))
    return dict(params=gen_params(rng, start=start, cost=rng.choice([[1, 40], [1, 3]])), users=users, ops=ops, index=rng.random() < .5, name=rng.choice(kit.BEAD_NAMES))


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    box = m.box('b')
    name = sc['name']
    users = [u['name'] for u in sc['users']] or ['ann']
    for u in sc['users'] or [dict(name='ann', tz='UTC0')]:
        m.user(u['name'], uid=1000, tz=u['tz'])
        m.set_config(u['name'], [('b', box)])
        kit.new_workspace(ctx, m, u['name'], 'consumer', {}, {})
    s = dict(versions=[], ws={}, pin={})
    w = kit.new_workspace(ctx, m, users[0], name, {'c': 't:1'}, {'n': 't:0'})
    s['ws'][users[0]] = w
    save(ctx, m, sc, s, box, users[0], None)
    if sc['index']:
        kit.expect_ok(ctx, m.cli(users[0], 'box', 'index'), 'box index')
    for op in sc['ops']:
        m.w.advance(op['step'])
        u = users[op['user'] % len(users)]
        if u not in s['ws']:            # everybody continues from what is newest for them
            kit.expect_ok(ctx, m.cli(u, 'edit', name), 'edit')
            s['ws'][u] = f'{m.users[u][2]}/w/{name}'
        if op['op'] == 'save':
            save(ctx, m, sc, s, box, u, op)
        elif op['op'] == 'index':
            kit.expect_ok(ctx, m.cli(u, 'box', 'index'), 'box index')
        elif op['op'] == 'edit':
            edit(ctx, m, sc, s, u)
        else:
            select(ctx, m, sc, s, u, op)
        order(ctx, m, sc, s, box, u)


def true_us(m):
    return m.w.true_us


def save(ctx, m, sc, s, box, u, op):
    w = s['ws'][u]
    n = len(s['versions'])
    m.fs.h_write(f'{w}/output/n', str(n).encode(), uid=1000)
    before, t0 = set(kit.zips(m, box)), true_us(m)
    p = m.cli(u, 'save', 'b', '-w', w)
    t1 = true_us(m)
    new = set(kit.zips(m, box)) - before
    ctx.check(ok(p) and len(new) == 1, 'save-failed', lambda: f'{describe(p)}; new {sorted(new)}')
    a = kit.beads_in(m, box)[new.pop()]
    try:
        us = ref.instant_us(a['time'])
    except ref.Bad as e:
        ctx.fail('bad-timestamp', f"{e} by {u} in {tz(sc, u)}")
    ctx.check(t0 <= us <= t1, 'wrong-moment', lambda: f"{a['time']} by {u} in {tz(sc, u)} is {(us - t0) / 1e6} s after the save was started, which took {(t1 - t0) / 1e6} s")
    s['versions'].append(dict(us=us, cid=a['content_id'], time=a['time'], user=u))
    ctx.case(n > 0, 'save', [v['time'] for v in s['versions']])


def tz(sc, u):
    return next((x['tz'] for x in sc['users'] if x['name'] == u), 'UTC0')


def order(ctx, m, sc, s, box, u):
    """Every listing agrees, that versions are in the order of their saves."""
    want = [v['cid'] for v in s['versions']]
    for what, beads in (('listing', kit.listing(ctx, m, u, box)), ('listing without index', kit.raw_listing(ctx, m, u, box))):
        got = [b['content_id'] for b in sorted(beads, key=lambda b: ref.instant_us(b['time']))]
        ctx.check(got == want, 'wrong-order', lambda: f"{what}: {[b['time'] for b in beads]}, saved {[v['time'] for v in s['versions']]}")


def edit(ctx, m, sc, s, u):
    d = f'{m.users[u][2]}/w/again'
    p = m.cli(u, 'edit', sc['name'], d, '--review')
    kit.expect_ok(ctx, p, 'edit')
    n = m.fs.h_read(f'{d}/output/n')
    ctx.check(n == str(len(s['versions']) - 1).encode(), 'not-the-newest', lambda: f"edit got version {n} of {[v['time'] for v in s['versions']]}; by {u} in {tz(sc, u)}")
    kit.expect_ok(ctx, m.cli(u, 'discard', d), 'discard')
    ctx.case(len(s['versions']) > 1, 'edit', [v['time'] for v in s['versions']])


def as_typed(us, zone, form):
    """A moment in one of the accepted formats -> (the moment it means, text)."""
    w = world.stamp(us, zone)
    d, h, z = f'{w[:4]}-{w[4:6]}-{w[6:8]}', f'{w[9:11]}:{w[11:13]}:{w[13:15]}', w[-5:]
    second = us - us % 10**6
    if form == 0:
        return second, f'{d}T{h}{z}'
    if form == 1:
        return us, f'{d}T{h}.{w[15:21]}{z}'
    if form == 2:
        return second, f'{w[:15]}{z}'
    if form == 3:                       # (a date is of UTC)
        w = world.stamp(us, 0)
        return us - us % (86400 * 10**6), f'{w[:4]}-{w[4:6]}-{w[6:8]}'
    return us, w


def select(ctx, m, sc, s, u, op):
    w = f'{m.users[u][2]}/w/consumer'
    versions, k = s['versions'], op['op']
    now = s['pin'].get(u)
    if k in ('next', 'prev', 'asof', 'ago') and now is None:
        k = 'newest'
    if k == 'newest':
        args, want = ([] if now is None else ['in']), len(versions) - 1
    elif k in ('asof', 'ago'):
        t = versions[op['pick'] % len(versions)]['us'] + op['shift']
        if k == 'ago':
            d = max(0, (true_us(m) - t) // 10**6)
            # the clock goes on during the command: not next to a version
            t = true_us(m) - d * 10**6
            if any(abs(v['us'] - t) < 30 * 10**6 for v in versions):
                return
            args = ['in', f'--time=-{d}S' if op['pick'] % 2 else f'--time=-{d // 3600}H-{d % 3600}S']
        else:
            t, text = as_typed(t, op['zone'], op['pick'] % 7)
            args = ['in', '-t', text]
        fit = [i for i, v in enumerate(versions) if v['us'] <= t]
        want = fit[-1] if fit else None
    elif k == 'next':
        args, want = ['in', '-N'], now + 1 if now + 1 < len(versions) else None
    else:
        args, want = ['in', '-P'], now - 1 if now else None
    if now is None:
        p = m.cli(u, 'input', 'add', 'in', sc['name'], '-w', w)
    else:
        p = m.cli(u, 'input', 'update', *args, '-w', w)
    how = f"{k} {args} from {now} of {[v['time'] for v in versions]} by {u} in {tz(sc, u)}: {describe(p)}"
    if want is None:
        ctx.check(not ok(p), 'success-without-effect', how)
        want = now
    else:
        ctx.check(ok(p), 'command-failed', how)
    pins, loaded = workspace_state(m, w)
    got = next((i for i, v in enumerate(versions) if v['cid'] == pins['in'][1]), None)
    ctx.check(got == want and pins['in'][2] == versions[want]['time'], 'wrong-version', lambda: f'got {got}, should be {want}; {how}')
    ctx.check(loaded['in'] == {'n': str(want).encode()}, 'wrong-input-data', how)
    s['pin'][u] = want
    ctx.case(len(versions) > 1, k, want, [v['time'] for v in versions], op['zone'], op['shift'])
