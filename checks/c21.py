"""C21: status and box list tell the truth about workspace, inputs and boxes, and change nothing."""

import re

from sim import ref
from sim.kernel import Policy
from sim.machine import describe, gen_params, ok

from . import c09, kit, world

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('A case is one report (status, box list) after each step of a history of input commands, arriving, moving and vanishing beads, indexing and unreachable '
        'boxes, alone or overlapping with a save or an index update of another user; non-trivial with an input and a bead of its kind; distinct by the report.')
RUNS = {'quick': 700, 'thorough': 30000}
OPS = ['add'] * 6 + ['addpath', 'update', 'updatet', 'next', 'prev', 'load', 'unload', 'unload', 'delete'] + ['put'] * 4 + ['twin'] * 5 + ['drop', 'drop', 'move', 'move', 'move', 'index']


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES[:24] + ['st*r', '[ab]'], 3)
    ops = []
    for _ in range(rng.randint(4, 10)):
        op = dict(op=rng.choice(OPS), nick=rng.choice(['x', 'x', 'y', 'My in', names[0]]), name=rng.choice(names), pick=rng.randrange(50), zone=rng.choice(c09.ZONES),
                  shift=rng.choice([0, 0, 1, -1, 10**6]), time=rng.random() < .4, all=rng.random() < .4, verbose=rng.random() < .6, sub=rng.randrange(4))
        if op['op'] in ('put', 'twin'):
            op['bead'] = c09.gen_put(rng, names)
        if rng.random() < .3:
            op['other'] = rng.choice(['save', 'save', 'index', 'reindex', 'status'])
            op['policy'] = dict(mode=rng.choice(['walk', 'hot', 'hot']), seed=rng.randrange(10**9), p=rng.choice([.05, .2, .4]))
        if rng.random() < .15:
            op['away'] = rng.randrange(3)
        if rng.random() < .2:
            op['short'] = dict(kind='short', frac=rng.random(), bias='any')
        ops.append(op)
    return dict(params=gen_params(rng), names=names, beads=[c09.gen_put(rng, names) for _ in range(rng.randint(1, 6))], ops=ops, nbox=rng.choice([1, 2, 2, 3]),
                index=rng.random() < .4, boxnames=rng.choice([['b0', 'b1', 'b2'], ['b0', 'b1', 'b2'], ['main box', 'új', 'b2'], ['b2', 'b1', 'b0']]))


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    dirs = [m.box(f'b{j}') for j in range(sc['nbox'])]
    boxes = list(zip(sc['boxnames'], dirs))
    for u in ('ann', 'bob'):
        m.user(u, uid=1000)
        m.set_config(u, boxes)
    w = kit.new_workspace(ctx, m, 'ann', 'work', {'c': 't:code', 'sub/d': 't:more'}, {})
    t0 = world.start_us(sc) - 10**13
    s = dict(beads=[], pins={}, loaded={}, seq=0, dirs=dirs, t0=t0, w=w, boxes=boxes)
    other = kit.new_workspace(ctx, m, 'bob', sc['names'][0], {'c': 't:bob'}, {})
    for b in sc['beads']:
        c09.put(m, s, b)
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
    for op in sc['ops']:
        c09.step(ctx, m, sc, op, s)
        report(ctx, m, s, op, other)


def stored(m, s):
    """What is in the boxes now: {box name: [bead]} of those that can be reached."""
    return {b: list(kit.beads_in(m, d).values()) if m.fs.h_lookup(d) else [] for b, d in s['boxes']}


def expected(m, s):
    """{input: [status, names, {box: (mark, {times})}]}"""
    beads, out = stored(m, s), {}
    for nick, (kind, cid, time) in s['pins'].items():
        us, where, names = ref.instant_us(time), {}, {a['name'] for v in beads.values() for a in v if a['content_id'] == cid}
        for b, v in beads.items():
            if any(a['content_id'] == cid for a in v):
                where[b] = '*', {time}
            else:
                near = c09.newest([dict(a, us=ref.instant_us(a['time'])) for a in v if a['kind'] == kind and ref.instant_us(a['time']) <= us])
                if near:
                    where[b] = '~', {a['time'] for a in near}
        out[nick] = nick not in s['loaded'], names, where
    return out


def parsed(text, boxes):
    out = {}
    for part in re.split(r'(?m)^input/', text)[1:]:
        nick, _, body = part.partition('\n')
        head, _, tail = body.partition('Box[es]:')
        name = re.search(r'(?m)^\tBead:\s+(.*) # (\S+)$', head)
        where = {b: (mark, t) for mark, b, t in re.findall(r'(?m)^\t ([*~]) -r (.*) # (\S+)', tail)}
        out[nick] = dict(unloaded='NOT LOADED' in head, name=name and name[1], time=name and name[2], where=where, none='no candidates' in tail, text=body)
    return out


def clean(m):
    """The whole file system except for what commands keep for themselves about reports."""
    return {k: v for k, v in m.fs.h_tree('/').items() if '/home/bob' not in f'/{k}'}


def report(ctx, m, s, op, other):
    w = s['w']
    away = s['dirs'][op['away'] % len(s['dirs'])] if op.get('away') is not None else None
    if away:
        m.fs.h_rename(away, f'{away}.away')
    where = [['-w', w], ['-w', w], [], []][op['sub']]
    cwd = None if where else [w, f'{w}/sub'][op['sub'] % 2]
    argv = ['status', *(['-v'] if op['verbose'] else []), *where]
    before, was = expected(m, s), clean(m)
    if op.get('other') and not away:
        p = m.process('ann', cwd=cwd, argv=['bead', *argv], label=' '.join(argv))
        o = {'save': ['save', s['boxes'][op['pick'] % len(s['boxes'])][0], '-w', other], 'index': ['box', 'index', '--all'], 'reindex': ['box', 'reindex', '--all'], 'status': ['status', '-w', other]}[op['other']]
        q = m.process('bob', argv=['bead', *o], label=' '.join(o))
        n = {(d, f) for d in s['dirs'] for f in kit.zips(m, d)}
        g = m.w.run_group([(p, m._cli_main), (q, m._cli_main)], Policy(op['policy']))
        op['policy'] = dict(mode='replay', switches=g.switch_log)
        ctx.check(ok(q), 'command-failed', lambda: describe(q))
        for d, f in {(d, f) for d in s['dirs'] for f in kit.zips(m, d)} - n:
            a = kit.beads_in(m, d)[f]
            s['beads'].append(dict(a, us=ref.instant_us(a['time']), dir=d, file=f, bytes=kit.zips(m, d)[f]))
        m.w.advance(10)
    else:
        p = m.cli('ann', *argv, cwd=cwd, fault=op.get('short'))
        ctx.check(clean(m) == was, 'report-changes', lambda: f'{sorted(k for k in {**was, **clean(m)} if was.get(k) != clean(m).get(k))[:5]} changed by {describe(p)}')
    after = expected(m, s)
    how = f"{describe(p)} {op.get('other', 'alone')} {away or ''}: {p.stdout[-1500:]!r}; pins {s['pins']}, loaded {sorted(s['loaded'])}, boxes {[(b, [(a['name'], a['kind'], a['time']) for a in v]) for b, v in stored(m, s).items()]}"
    if away or op['pick'] % 5 == 0:
        p2 = kit.expect_ok(ctx, m.cli('ann', 'box', 'list'), 'box list')
        ctx.check([tuple(x.split(': ', 1)) for x in p2.stdout.splitlines() if ': ' in x] == s['boxes'], 'wrong-box-list', lambda: f"{p2.stdout!r}, should be {s['boxes']}")
    if away:
        m.fs.h_rename(f'{away}.away', away)
    ctx.check(ok(p), 'command-failed', how)
    got = parsed(p.stdout, s['boxes'])
    ctx.check(set(got) == set(after), 'other-inputs', how)
    for nick, g in got.items():
        kind, cid, time = s['pins'][nick]
        possible = [x[nick] for x in (before, after)]
        ctx.check(g['unloaded'] == possible[0][0], 'wrong-load-status', lambda: f'{nick}: {how}')
        missing = '**MISSING**'
        ctx.check(any(g['name'] in (x[1] or {missing}) for x in possible), 'wrong-name', lambda: f'{nick}: {how}')
        ctx.check(g['time'] == time, 'wrong-time', lambda: f'{nick}: {how}')
        for b, _ in s['boxes']:
            said = g['where'].get(b)
            true = [x[2].get(b) for x in possible]
            ctx.check(any(said is None and t is None or said and t and said[0] == t[0] and said[1] in t[1] for t in true), 'wrong-box',
                      lambda: f'{nick}: box {b} is said to have {said}, has {true}; {how}')
        ctx.check(set(g['where']) <= {b for b, _ in s['boxes']} and g['none'] == (not g['where']), 'wrong-box', lambda: f'{nick}: {how}')
        if op['verbose']:
            ctx.check(kind in g['text'] and cid in g['text'], 'wrong-details', lambda: f'{nick}: {how}')
    ctx.check(re.search(r'(?m)^Bead Name: work$', p.stdout), 'wrong-bead-name', how)
    ctx.case(any(x[2] for x in after.values()), op.get('other'), sorted((n, g['name'], sorted(g['where'].items())) for n, g in got.items()))
