"""C09: inputs are pinned: each command selects the documented version, records exactly it and delivers exactly its data."""

import json

from sim import ref
from sim.machine import describe, gen_params, ok, tree_digest

from . import kit, world

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('A case is one input command (add, update by time / next / previous / name / path, load, unload, delete, or save + edit elsewhere) in a '
        'history where versions appear, move between boxes and vanish; non-trivial when there was a choice of two or more beads; distinct '
        'by command, selected version and state of the workspace.')
RUNS = {'quick': 900, 'thorough': 40000}
OPS = (['add'] * 6 + ['addpath'] * 2 + ['update'] * 5 + ['updatet'] * 3 + ['all'] * 3 + ['next'] * 4 + ['prev'] * 5 + ['updref'] * 2 + ['updpath'] + ['load'] * 3
       + ['unload'] * 3 + ['delete'] * 2 + ['put'] * 4 + ['twin'] * 3 + ['drop'] * 2 + ['move'] * 2 + ['index'] * 2 + ['saveedit'] * 2 + ['status'] * 2 + ['stale'] * 3)
ZONES = [0, 60, 120, -300, 330, 845, -720]


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES[:24] + ['st*r', '[ab]'], 3)
    beads = [gen_put(rng, names) for _ in range(rng.randint(1, 6))]
    ops = []
    for _ in range(rng.randint(6, 16)):
        op = dict(op=rng.choice(OPS), nick=rng.choice(['x', 'x', 'y', 'My in', names[0]]), name=rng.choice(names), pick=rng.randrange(50), zone=rng.choice(ZONES),
                  shift=rng.choice([0, 0, 1, -1, 10**6, -10**6]), time=rng.random() < .5, all=rng.random() < .4)
        if op['op'] in ('put', 'twin', 'stale'):
            op['bead'] = gen_put(rng, names)
        ops.append(op)
    return dict(params=gen_params(rng), names=names, beads=beads, ops=ops, nbox=rng.choice([1, 2, 2, 3]), index=rng.random() < .4)


def gen_put(rng, names):
    return dict(name=rng.choice(names), kind=rng.choice(['k0', 'k0', 'k1', 'k2']), us=rng.choice([rng.randrange(4) * 10**6, rng.randrange(4 * 10**6), rng.randrange(10**12)]),
                zone=rng.choice(ZONES), output=kit.gen_code(rng, 2), box=rng.randrange(3))


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    dirs = [m.box(f'b{j}') for j in range(sc['nbox'])]
    m.set_config('ann', [(f'b{j}', d) for j, d in enumerate(dirs)])
    t0 = world.start_us(sc) - 10**13
    w = kit.new_workspace(ctx, m, 'ann', 'work', {'c': 't:code'}, {})
    s = dict(beads=[], pins={}, loaded={}, seq=0, dirs=dirs, t0=t0, w=w)
    for b in sc['beads']:
        put(m, s, b)
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
    for op in sc['ops']:
        step(ctx, m, sc, op, s)


def put(m, s, b):
    d = s['dirs'][b['box'] % len(s['dirs'])]
    s['seq'] += 1
    us = s['t0'] + b['us']
    a = world.put_bead(m, d, b['name'], b['kind'], world.stamp(us, b['zone']), dict(kit.materialise(b['output']), seq=str(s['seq']).encode()))
    s['beads'] = [x for x in s['beads'] if (x['dir'], x['file']) != (d, a['file'])]
    s['beads'].append(dict(a, us=us, dir=d))


def reindex(ctx, m, s):
    """The index follows files that were moved behind its back only when told."""
    if any(kit.indexed(m, d) for d in s['dirs']):
        kit.expect_ok(ctx, m.cli('ann', 'box', 'reindex', '--all'), 'box reindex')


def workspace_state(m, w):
    meta = json.loads(m.fs.h_read(f'{w}/.bead-meta/bead'))
    pins = {n: (i['kind'], i['content_id'], i['freeze_time']) for n, i in meta['inputs'].items()}
    loaded = {}
    for n in m.fs.h_list(f'{w}/input'):
        loaded[n] = m.fs.h_files(f'{w}/input/{n}')
    return pins, loaded


def step(ctx, m, sc, op, s):
    k, nick, w = op['op'], op['nick'], s['w']
    beads = s['beads']
    if k == 'put':
        put(m, s, op['bead'])
        return reindex(ctx, m, s)
    if k == 'twin':                     # another bead of the same kind and time as an input
        pinned = [a for a in beads if a['content_id'] in [p[1] for p in s['pins'].values()]] or beads
        if pinned:
            a = pinned[op['pick'] % len(pinned)]
            put(m, s, dict(op['bead'], kind=a['kind'], us=a['us'] - s['t0'], name=a['name'] if op['all'] else op['name']))
        return reindex(ctx, m, s)
    if k in ('drop', 'move'):
        if beads:
            a = beads[op['pick'] % len(beads)]
            m.fs.h_remove(f"{a['dir']}/{a['file']}")
            beads.remove(a)
            if k == 'move':
                d = s['dirs'][op['pick'] // 7 % len(s['dirs'])]
                if a['file'] not in kit.zips(m, d):
                    m.fs.h_write(f"{d}/{a['file']}", a['bytes'], uid=1000)
                    beads.append(dict(a, dir=d))
        return reindex(ctx, m, s)
    if k == 'index':
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
        return
    before = dict(s['pins']), dict(s['loaded'])
    pins, loaded = s['pins'], s['loaded']
    pick = beads[op['pick'] % len(beads)] if beads else None
    when = (pick['us'] if pick else s['t0']) + op['shift']
    targs = ['-t', world.stamp(when, op['zone'])] if op['time'] or k == 'updatet' else []
    limit = when if targs else 10**18
    pin = pins.get(nick)
    want = None                         # {nick: beads any of which it may be}, or None: must fail without effect
    if k == 'add':
        p = m.cli('ann', 'input', 'add', nick, op['name'], *targs, '-w', w)
        want = newest([a for a in beads if a['name'] == op['name'] and a['us'] <= limit])
        want = {nick: want} if want else None
    elif k == 'addpath':
        if pick is None:
            return
        p = m.cli('ann', 'input', 'add', nick, f"{pick['dir']}/{pick['file']}", '-w', w)
        want = {nick: [pick]}
    elif k in ('update', 'updatet', 'next', 'prev', 'updref', 'updpath'):
        args = {'next': ['-N'], 'prev': ['-P'], 'updref': [op['name'], *targs]}.get(k, targs)
        if k == 'updpath':
            if pick is None:
                return
            args = [f"{pick['dir']}/{pick['file']}"]
        p = m.cli('ann', 'input', 'update', nick, *args, '-w', w)
        if pin:
            us = ref.instant_us(pin[2])
            same = [a for a in beads if a['kind'] == pin[0]]
            sel = {'next': lambda: oldest([a for a in same if a['us'] > us]), 'prev': lambda: newest([a for a in same if a['us'] < us]),
                   'updref': lambda: newest([a for a in beads if a['name'] == op['name'] and a['us'] <= limit]),
                   'updpath': lambda: [pick]}.get(k, lambda: newest([a for a in same if a['us'] <= limit]))()
            want = {nick: sel} if sel else None
    elif k == 'all':
        p = m.cli('ann', 'input', 'update', *targs, '-w', w)
        want = {}
        for n, (kind, cid, time) in pins.items():
            sel = newest([a for a in beads if a['kind'] == kind and a['us'] <= limit])
            if sel:
                want[n] = sel
    elif k in ('load', 'unload'):
        which = [n for n in pins if op['all'] or n == nick]
        p = m.cli('ann', 'input', k, *([] if op['all'] else [nick]), '-w', w)
        want = {}
        if k == 'load':
            if not op['all'] and nick not in pins:
                want = None
            for n in which:
                there = [a for a in beads if a['content_id'] == pins[n][1]]
                if n not in loaded and there:
                    want[n] = there
        else:
            for n in which:
                loaded.pop(n, None)
    elif k == 'delete':
        p = m.cli('ann', 'input', 'delete', nick, '-w', w)
        if nick in pins:
            want = {}
            pins.pop(nick)
            loaded.pop(nick, None)
    elif k == 'status':
        return status(ctx, m, s)
    elif k == 'saveedit':
        return save_edit(ctx, m, s, op)
    elif k == 'stale':
        return stale(ctx, m, s, op)
    how = f'{describe(p)} ({k} {nick} {targs}); known {[(a["name"], a["kind"], a["time"]) for a in beads]}, before {({n: v[2] for n, v in before[0].items()}, sorted(before[1]))}'
    ctx.check(p.result[0] != 'hang', 'hang', how)
    if want is None:
        # nothing suitable: no effect (and no claim of success)
        ctx.check(not ok(p), 'success-without-effect', how)
    else:
        ctx.check(ok(p), 'command-failed', how)
    got_pins, got_loaded = workspace_state(m, w)
    for n, choice in (want or {}).items():
        ctx.check(n in got_pins, 'input-not-recorded', how)
        a = next((a for a in choice if (a['kind'], a['content_id'], a['time']) == got_pins[n]), None)
        ctx.check(a is not None, 'wrong-version', lambda: f'{n} is {got_pins[n][0]} {got_pins[n][2]}, should be {[(c["name"], c["time"]) for c in choice]}; {how}')
        if k == 'load':
            ctx.check(got_pins[n] == before[0][n], 'pin-changed', how)
        pins[n] = got_pins[n]
        loaded[n] = a['data']
    ctx.check(got_pins == pins, 'other-input-changed', lambda: f'pins {({n: v[2] for n, v in got_pins.items()})}, expected {({n: v[2] for n, v in pins.items()})}; {how}')
    ctx.check(sorted(got_loaded) == sorted(loaded), 'loaded-inputs-differ', lambda: f'{sorted(got_loaded)} loaded, expected {sorted(loaded)}; {how}')
    for n in loaded:
        ctx.check(got_loaded[n] == loaded[n], 'wrong-input-data', lambda: f'{n}: {kit.diff(got_loaded[n], loaded[n])}; {how}')
    for n in loaded:
        if n in (want or {}):
            soft = [f for f, v in m.fs.h_tree(f'{w}/input/{n}').items() if v[2] & 0o222]
            ctx.check(not soft, 'input-writable', lambda: f'{n}: {soft}; {how}')
    ctx.case(len(beads) > 1, k, nick, targs, sorted(pins.items()), tree_digest(m.fs.h_tree(w)))


def newest(beads):
    top = max((a['us'] for a in beads), default=None)
    return [a for a in beads if a['us'] == top]


def oldest(beads):
    top = min((a['us'] for a in beads), default=None)
    return [a for a in beads if a['us'] == top]


def status(ctx, m, s):
    p = kit.expect_ok(ctx, m.cli('ann', 'status', '-v', '-w', s['w']), 'status')
    how = f'status: {p.stdout[-900:]!r}'
    parts = dict()
    for part in p.stdout.split('\ninput/')[1:]:
        n, _, text = part.partition('\n')
        parts[n] = text
    ctx.check(set(parts) == set(s['pins']), 'status-inputs', how)
    known = {a['content_id'] for a in s['beads']}
    for n, text in parts.items():
        kind, cid, time = s['pins'][n]
        ctx.check(('NOT LOADED' in text.split('Box')[0]) == (n not in s['loaded']), 'status-loaded', how)
        ctx.check(('MISSING' in text.split('Box')[0]) == (cid not in known), 'status-missing', how)
        ctx.check(cid in text and time in text, 'status-version', how)
    ctx.case(bool(s['pins']), 'status', sorted(parts.items()))


def save_edit(ctx, m, s, op):
    """The bead carries the pins; whoever edits it gets exactly the pinned data, whatever is newer."""
    before = {(d, n) for d in s['dirs'] for n in kit.zips(m, d)}
    p = m.cli('ann', 'save', f"b{op['pick'] % len(s['dirs'])}", '-w', s['w'])
    kit.expect_ok(ctx, p, 'save')
    ((d, n),) = {(d, n) for d in s['dirs'] for n in kit.zips(m, d)} - before
    a = kit.beads_in(m, d)[n]
    want = sorted([nick, *pin] for nick, pin in s['pins'].items())
    ctx.check(a['inputs'] == want, 'bead-inputs-differ', f"{a['inputs']} saved, workspace has {want}")
    m.w.advance(5)
    s['seq'] += 1
    dest = f"/home/ann/w/again{s['seq']}"
    kit.expect_ok(ctx, m.cli('ann', 'edit', f'{d}/{n}', dest), 'edit')
    pins, loaded = workspace_state(m, dest)
    ctx.check(pins == s['pins'], 'pin-changed', f'edit has {pins}, bead has {want}')
    ctx.check(not loaded, 'loaded-inputs-differ', f'{sorted(loaded)} after edit')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'load', '-w', dest), 'load')
    again, loaded = workspace_state(m, dest)
    ctx.check(again == s['pins'], 'pin-changed', 'by load')
    for nick, (kind, cid, time) in pins.items():
        src = [b for b in s['beads'] if b['content_id'] == cid]
        ctx.check((nick in loaded) == bool(src), 'loaded-inputs-differ', f'{nick} {"not " if src else ""}loaded')
        if src:
            ctx.check(loaded[nick] == src[0]['data'], 'wrong-input-data', lambda: f"{nick}: {kit.diff(loaded[nick], src[0]['data'])} after edit and load")
    s['beads'].append(dict(a, us=ref.instant_us(a['time']), dir=d, file=n, bytes=kit.zips(m, d)[n]))
    ctx.case(bool(pins), 'saveedit', want, sorted(loaded))


def stale(ctx, m, s, op):
    """A file is replaced by another bead, without the index being told. A command may find nothing, but it may not record or deliver another version."""
    w, nick, beads = s['w'], op['nick'], s['beads']
    pinned = [a for a in beads if a['content_id'] in [p[1] for p in s['pins'].values()]] or beads
    if not pinned:
        return
    old = pinned[op['pick'] % len(pinned)]
    shape = op['pick'] % 3              # same name and kind, same but for the kind, or the archive of another bead
    new = dict(op['bead'], name=old['name'] if shape < 2 else op['name'], kind=old['kind'] if shape == 0 else op['bead']['kind'])
    s['seq'] += 1
    m.fs.h_remove(f"{old['dir']}/{old['file']}")
    a = world.put_bead(m, old['dir'], new['name'], new['kind'], old['time'] if op['all'] else world.stamp(s['t0'] + new['us'], new['zone']),
                       dict(kit.materialise(new['output']), seq=str(s['seq']).encode()), file_name=old['file'])
    by_id = {b['content_id']: b for b in [*beads, a]}
    argv = [('load',), ('load', nick), ('add', nick + '2', old['name']), ('update', nick), ('update',), ('update', nick, '-P')][op['pick'] // 3 % 6]
    p = m.cli('ann', 'input', *argv, '-w', w)
    how = f"{describe(p)} ({argv}) after {old['file']} was replaced by another bead ({shape}); before {s['pins']} {sorted(s['loaded'])}"
    ctx.check(p.result[0] != 'hang', 'hang', how)
    pins, loaded = workspace_state(m, w)
    for n, pin in pins.items():
        if argv[0] == 'load':
            ctx.check(pin == s['pins'].get(n), 'pin-changed', how)
        if pin != s['pins'].get(n):
            b = by_id.get(pin[1])
            ctx.check(b and (b['kind'], b['content_id'], b['time']) == pin, 'wrong-version', how)
            ctx.check(argv[0] == 'add' or n not in s['pins'] or b['kind'] == s['pins'][n][0], 'wrong-version', how)
        if n in loaded and (pin, loaded[n]) != (s['pins'].get(n), s['loaded'].get(n)):
            ctx.check(pin[1] in by_id and loaded[n] == by_id[pin[1]]['data'], 'wrong-input-data', how)
    ctx.check(set(s['pins']) <= set(pins) and set(loaded) <= set(pins), 'other-input-changed', how)
    for n in s['loaded']:
        ctx.check(n in loaded or argv[0] == 'update', 'loaded-inputs-differ', how)
    ctx.case(len(beads) > 1, 'stale', argv, shape, sorted(pins.items()), sorted(loaded))
    s['pins'], s['loaded'] = pins, loaded
    beads.remove(old)
    m.fs.h_remove(f"{old['dir']}/{old['file']}")
    fname = f"{a['name']}_{a['time']}.zip"      # under a name of its own, unless there is such a file
    if fname not in kit.zips(m, old['dir']):
        m.fs.h_write(f"{old['dir']}/{fname}", a['bytes'], uid=1000)
        beads.append(dict(a, us=ref.instant_us(a['time']), dir=old['dir'], file=fname))
    reindex(ctx, m, s)
