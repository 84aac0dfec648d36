"""C18: time arguments mean the documented moment, on every host, at every reading of its clock; other texts are refused."""

import datetime
import re

from sim import ref
from sim.machine import TZS, crashed, describe, gen_fault, gen_params, ok

from . import kit, world
from .c09 import workspace_state

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('A case is one command with a time argument (a moment in any accepted form and zone, a difference to the clock of the host, or a text that means none) '
        'on hosts with other zones and clocks, between versions around that moment; non-trivial when it splits the versions, or has to be refused; distinct by '
        'text, selected version and clock.')
RUNS = {'quick': 1400, 'thorough': 40000}
DAY = 86400 * 10**6
UNITS = {'w': 7 * DAY, 'd': DAY, 'H': 3600 * 10**6, 'M': 60 * 10**6, 'S': 10**6}
ZONES = ['+0000', '-0000', '+0100', '-0500', '+0530', '-0330', '+1400', '-1200', '+0015', '-0015', '+2359', '-2359', '+0001', '-0001']
FORMS = ['full', 'full', 'basic', 'iso', 'iso', 'isofrac', 'isofrac', 'day', 'isoday', 'month', 'isomonth', 'year']
WRONG = ['now', 'yesterday', '20240230', '20241301', '2024-13', '2024-00-10', '20240101T250000+0000', '20240101T000000', '2024-01-01T00:00:00', '2024-01-01 00:00:00+0000',
         '1y', '2m', '-3D', '5', '-', '+', 'd', '3d4', '1.5d', '- 3d', '3d 4H', 'T12', '24', '202', '20240', '2024-1-1', '20240101T000000+00', '20240101T0000+0000', '2024-01-01T00:00:00Z',
         '20240101T000000.000000+0000', '20240101T000000000+0000', '-999999999w', '2024x', 'x2024', '20240101T000000000000+0000x', '3dd', 'w', '--3d', '20240101T000060+0000',
         '2024-060', '0000', '00000101', '2024-W05']


def moment(text, clock_us):
    """What a text means: microseconds since the epoch, or None."""
    def at(y, mo=1, d=1, h=0, mi=0, s=0, us=0, sign='+', zh=0, zm=0):
        try:
            t = datetime.datetime(int(y), int(mo), int(d), int(h), int(mi), int(s), int(us))
        except ValueError:
            return None
        off = (int(zh) * 60 + int(zm)) * (-1 if sign == '-' else 1)
        return (t - world.EPOCH) // datetime.timedelta(microseconds=1) - off * 60 * 10**6
    z = r'([-+])(\d\d)(\d\d)'
    for form in (r'(\d{4})', r'(\d{4})(\d\d)', r'(\d{4})-(\d\d)', r'(\d{4})(\d\d)(\d\d)', r'(\d{4})-(\d\d)-(\d\d)'):
        if g := re.fullmatch(form, text, re.A):
            return at(*g.groups())
    if g := re.fullmatch(r'(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)(\d{6})?' + z, text, re.A) or re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?' + z, text, re.A):
        v = g.groups()
        return at(*v[:6], v[6] or 0, *v[7:])
    if text and re.fullmatch(r'([-+]?\d+[wdHMS])+', text, re.A):
        us = clock_us + sum(int(n) * UNITS[u] for n, u in re.findall(r'([-+]?\d+)([wdHMS])', text))
        return us if abs(us) < 10**16 else None
    return None


def typed(us, zone, form):
    """A moment in one of the forms (less precise forms mean an earlier one)."""
    off = (int(zone[1:3]) * 60 + int(zone[3:])) * (-1 if zone[0] == '-' else 1)
    w = world.stamp(us, 0 if 'y' in form or 'month' in form else off)
    y, mo, d, h, mi, s, f = w[:4], w[4:6], w[6:8], w[9:11], w[11:13], w[13:15], w[15:21]
    return {'full': f'{w[:21]}{zone}', 'basic': f'{w[:15]}{zone}', 'iso': f'{y}-{mo}-{d}T{h}:{mi}:{s}{zone}', 'isofrac': f'{y}-{mo}-{d}T{h}:{mi}:{s}.{f}{zone}',
            'day': y + mo + d, 'isoday': f'{y}-{mo}-{d}', 'month': y + mo, 'isomonth': f'{y}-{mo}', 'year': y}[form]


def delta(rng, us):
    """A difference of about -us as a text, in one or many terms."""
    s, out = -us // 10**6, []
    sign = lambda n: f'{n}' if n < 0 else rng.choice(['', '+']) + str(n)
    units = rng.sample('wdHM', rng.randint(0, 3))
    for u in units:
        n = s // (UNITS[u] // 10**6) + rng.choice([0, 0, 0, 1, -2])
        out.append(sign(n) + u)
        s -= n * (UNITS[u] // 10**6)
    out.append(sign(s) + 'S')
    if rng.random() < .3:
        rng.shuffle(out)
    if rng.random() < .1:
        out.append('0d')
    return ''.join(out)


def generate(rng, tier, i):
    base = rng.choice([0, 0, 30, 400, 5000]) * DAY
    spread = rng.choice([10**6, 3600 * 10**6, 3 * DAY, 100 * DAY, 1500 * DAY])
    ages = sorted({base + rng.randrange(1, spread) // rng.choice([1, 1, 10**6]) * rng.choice([1, 10**6]) % (9000 * DAY) + 1 for _ in range(rng.randint(2, 6))}, reverse=True)
    ops = []
    for _ in range(rng.randint(4, 8)):
        how = rng.choice(['at', 'at', 'at', 'edge', 'ago', 'ago', 'ago', 'wrong'])
        age = rng.choice(ages) + rng.choice([0, 0, 0, 1, -1, 10**6, -10**6, 120 * 10**6, -120 * 10**6, DAY, -DAY])
        op = dict(cmd=rng.choice(['add', 'add', 'update', 'update', 'all', 'edit']), user=rng.randrange(2), how=how, age=age, zone=rng.choice(ZONES), form=rng.choice(FORMS),
                  jump=rng.choice([0, 0, 0, 0, -3600 * 10**6, 3600 * 10**6, -40 * DAY, 7 * DAY, 1]), wait=rng.choice([0, 1, 10**6, DAY]))
        if how == 'ago':
            op['text'] = delta(rng, age)
        elif how == 'wrong':
            op['text'] = rng.choice(WRONG)
        if rng.random() < .15:
            op['fault'] = gen_fault(rng, ('short', 'short', 'int', 'kill'))
        ops.append(op)
    return dict(params=gen_params(rng, start=rng.choice(['2024-10-27T00:40:00', '2024-03-31T00:50:00', '2024-02-29T10:30:00', '2023-12-31T23:30:00', '2024-06-15T12:00:00']), cost=[1, 3]),
                users=[dict(tz=rng.choice(TZS), offset=rng.choice([0, 0, 0, -3600 * 10**6, 90 * DAY, -400 * DAY])) for _ in range(2)], ages=ages, ops=ops, index=rng.random() < .5,
                name=rng.choice(kit.BEAD_NAMES))


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    box = m.box('b')
    name, t0 = sc['name'], world.start_us(sc)
    users = ('ann', 'bob')
    for u, v in zip(users, sc['users']):
        m.user(u, uid=1000, tz=v['tz'], offset_us=v['offset'])
        m.set_config(u, [('b', box)])
        kit.new_workspace(ctx, m, u, 'consumer', {}, {})
    versions = []
    for k, age in enumerate(sc['ages']):
        a = world.put_bead(m, box, name, 'the-kind', world.stamp(t0 - age, [0, 60, -300, 330][k % 4]), {'n': str(k).encode()}, {'c': b'c'})
        versions.append(dict(a, us=t0 - age))
    if sc['index']:
        m.user('cyd', uid=1000)         # (whose clock is right)
        m.set_config('cyd', [('b', box)])
        kit.expect_ok(ctx, m.cli('cyd', 'box', 'index'), 'box index')
    for k, op in enumerate(sc['ops']):
        step(ctx, m, sc, op, users[op['user']], versions, k)


def step(ctx, m, sc, op, u, versions, k):
    m.w.advance(op['wait'])
    host = m.users[u][1]
    host.offset_us += op['jump']
    clock = m.w.true_us + host.offset_us
    t = world.start_us(sc) - op['age']
    if op['how'] == 'ago':
        # the text was made for a clock without jumps: find what it means by the clock of now
        text = op['text']
        if op['age'] % 3:
            d = (clock - t) // 10**6
            text = f'-{d}S' if d >= 0 else f'+{-d}S'
    elif op['how'] == 'wrong':
        text = op['text']
    elif op['how'] == 'edge':
        w = typed(t, op['zone'], op['form'])
        text = w
    else:
        text = typed(t, op['zone'], 'isofrac' if op['age'] % 2 else 'full')
    us = moment(text, clock)
    relative = bool(re.search(r'[wdHMS]$', text)) and us is not None
    if relative and any(abs(v['us'] - us) < 60 * 10**6 for v in versions):
        return                          # the clock goes on during the command
    fit = [v for v in versions if us is not None and v['us'] <= us]
    want = fit[-1] if fit else None
    w = f'{m.users[u][2]}/w/consumer'
    pins, loaded = workspace_state(m, w)
    cmd, fault = op['cmd'], op.get('fault')
    targ = [f'--time={text}'] if text.startswith('-') or k % 2 else ['-t', text]
    if cmd in ('update', 'all') and not pins:
        cmd = 'add'
    nick, dest = f'in{k}', f'{m.users[u][2]}/w/got{k}'
    if cmd == 'add':
        p = m.cli(u, 'input', 'add', nick, sc['name'], *targ, '-w', w, fault=fault)
    elif cmd == 'edit':
        p = m.cli(u, 'edit', sc['name'], dest, '--review', *targ, fault=fault)
    else:
        p = m.cli(u, 'input', 'update', *(sorted(pins)[:1] if cmd == 'update' else []), *targ, '-w', w, fault=fault)
    how = f"{cmd} {targ} under {fault} at {world.stamp(clock)} by {u} ({sc['users'][0 if u == 'ann' else 1]['tz']}), means {us is not None and world.stamp(us)}, of {[v['time'] for v in versions]}: {describe(p)}"
    ctx.check(p.result[0] != 'hang', 'hang', how)
    now, now_loaded = workspace_state(m, w)
    done = ok(p)
    if not fault and want and want['us'] < clock:   # (beads of the future are refused as damaged)
        ctx.check(done, 'command-failed', how)
    if us is None:
        ctx.check(not done, 'accepted', how)
    if want is None and cmd != 'all':
        ctx.check(not done, 'success-without-effect', how)
    if want is None:
        ctx.check(now == pins and (cmd != 'edit' or not m.fs.h_lookup(dest)), 'effect-of-no-time', how)
    new = (want['kind'], want['content_id'], want['time']) if want else None
    if cmd == 'edit':
        if done:
            ctx.check(m.fs.h_read(f'{dest}/output/n') == want['data']['n'], 'wrong-version', how)
            kit.expect_ok(ctx, m.cli(u, 'discard', dest), 'discard')
    elif done or not fault:
        names = [nick] if cmd == 'add' else sorted(pins)[:1] if cmd == 'update' else sorted(pins)
        for n in names if done else []:
            if want and want['us'] < clock and (not fault or now.get(n) != pins.get(n)):    # (what can not be read is reported as damaged)
                ctx.check(now.get(n) == new, 'wrong-version', lambda: f"{n} is {now.get(n)}; {how}")
                ctx.check(now_loaded.get(n) == want['data'], 'wrong-input-data', how)
    for n, pin in now.items():
        ctx.check(pin in (pins.get(n), new), 'wrong-version', how)
    ctx.case(us is None or 0 < len(fit) < len(versions), cmd, text, clock // 10**6, len(fit))
