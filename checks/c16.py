"""C16: people share a box without coordination: nobody's command fails, waits for ever, or misses what was there before it."""

from sim import ref
from sim.kernel import Policy
from sim.machine import describe, gen_params, ok, tree_digest

from . import kit, world
from .c09 import workspace_state

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('A case is one round of 2 to 4 overlapping commands of different users on one box (save, edit, input add/update/load, status, web, index), under a '
        'seeded schedule of their system calls, one of them possibly killed; non-trivial when they were switched at least once; distinct by commands and switches.')
RUNS = {'quick': 460, 'thorough': 40000}
CMDS = ['save'] * 8 + ['edit', 'edit', 'review', 'add', 'add', 'update', 'update', 'load', 'status', 'heads', 'list', 'index', 'index', 'index', 'index', 'reindex', 'reindex', 'prev']
USERS = ['ann', 'bob', 'cat', 'dan']


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES[:20], 2)
    rounds = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice([2, 2, 3, 4])
        jobs = [dict(cmd=rng.choice(CMDS), user=u, name=rng.randrange(2)) for u in rng.sample(USERS, k)]
        if all(j['cmd'] != 'save' for j in jobs):
            jobs[0]['cmd'] = 'save'
        rounds.append(dict(jobs=jobs, policy=dict(mode=rng.choice(['walk', 'pct', 'hot', 'hot']), seed=rng.randrange(10**9), p=rng.choice([.02, .06, .15, .3]), horizon=rng.choice([150, 500]),
                                                  depth=rng.choice([1, 2, 4])),
                           kill=[rng.randrange(k), rng.randint(30, 500)] if rng.random() < .25 else None, step=rng.choice([0, 10**6])))
    return dict(params=gen_params(rng), names=names, index=rng.random() < .8, ops=rounds, output=kit.gen_code(rng, 3), offsets=[rng.choice([0, 0, 1]) for _ in USERS])


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    box = m.box('b')
    names = sc['names']
    s = dict(ws={}, seq=0, known={}, dirs=0)
    t0 = world.start_us(sc) - 10**12
    for k, name in enumerate(names):    # what has always been there
        for v in range(2):
            a = world.put_bead(m, box, name, f'kind-{k}', world.stamp(t0 + v * 10**6), {'v': b'old %d' % v}, {'c': b'c'})
            s['known'][a['content_id']] = a
    for u, o in zip(USERS, sc['offsets']):
        m.user(u, uid=1000, offset_us=o)
        m.set_config(u, [('b', box)])
        for k, name in enumerate(names):
            m.fs.h_mkdirs(f'/home/{u}/w{k}', uid=1000)
            d = f'/home/{u}/w{k}/{name}'
            kit.expect_ok(ctx, m.cli(u, 'edit', name, d), 'edit')
            s['ws'][u, k] = d
        d = kit.new_workspace(ctx, m, u, 'consumer', {}, {})
        kit.expect_ok(ctx, m.cli(u, 'input', 'add', 'in', names[0], '-t', world.stamp(t0), '-w', d), 'input add')
        kit.expect_ok(ctx, m.cli(u, 'input', 'add', 'off', names[1], '-w', d), 'input add')
        kit.expect_ok(ctx, m.cli(u, 'input', 'unload', 'off', '-w', d), 'input unload')
        s['ws'][u, 'c'] = d
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    for r in sc['ops']:
        m.w.advance(r['step'])
        one_round(ctx, m, sc, r, s, box)
    q = m.cli('bob', 'box', 'index')
    ctx.check(ok(q) and '✗' not in q.stdout, 'index-fails', lambda: describe(q))
    truth = {a['content_id'] for a in kit.beads_in(m, box).values()}
    seen = {b['content_id'] for b in kit.listing(ctx, m, 'bob', box)}
    ctx.check(seen == truth, 'index-differs', lambda: f'{len(truth - seen)} missing, {len(seen - truth)} unknown after box index in the end')


def command(m, sc, j, s):
    u, k, cmd = j['user'], j['name'], j['cmd']
    name, c = sc['names'][k], s['ws'][u, 'c']
    if cmd == 'save':
        return ['save', 'b', '-w', s['ws'][u, k]]
    if cmd in ('edit', 'review'):
        s['dirs'] += 1
        j['dest'] = f"/home/{u}/w/e{s['dirs']}"
        return ['edit', name, j['dest'], *(['--review'] if cmd == 'review' else [])]
    return {'add': ['input', 'add', f"n{s['dirs']}", name, '-w', c], 'update': ['input', 'update', 'in', '-w', c], 'prev': ['input', 'update', 'in', '-P', '-w', c],
            'load': ['input', 'load', '-w', c], 'status': ['status', '-v', '-w', c], 'heads': ['web', 'color', 'save', f'{u}.web'], 'list': ['box', 'list'],
            'index': ['box', 'index'], 'reindex': ['box', 'reindex']}[cmd]


def one_round(ctx, m, sc, r, s, box):
    jobs = [dict(j) for j in r['jobs']]
    if m.w.nolink:                      # (there saves of the same moment can not be told apart)
        seen = False
        jobs = [j for j in jobs if j['cmd'] != 'save' or not seen and (seen := True)]
    old_names, old_temps = set(kit.zips(m, box)), set(m.fs.h_list(box))
    before = dict(s['known'])
    procs = []
    s['dirs'] += 1
    pins = {j['user']: workspace_state(m, s['ws'][j['user'], 'c'])[0] for j in jobs}
    for i, j in enumerate(jobs):
        if j['cmd'] == 'save':
            s['seq'] += 1
            j['seq'] = str(s['seq']).encode()
            m.fs.h_write(f"{s['ws'][j['user'], j['name']]}/output/v", j['seq'], uid=1000)
        a = command(m, sc, j, s)
        fault = dict(kind='kill', at=r['kill'][1]) if r.get('kill') and r['kill'][0] == i else None
        procs.append(m.process(j['user'], argv=['bead', *a], fault=fault, label=' '.join(a)))
    g = m.w.run_group([(p, m._cli_main) for p in procs], Policy(r['policy']))
    r['policy'] = dict(mode='replay', switches=g.switch_log)
    how = f"concurrent {[j['user'] + ': ' + describe(p) for j, p in zip(jobs, procs)]}"
    arcs = kit.beads_in(m, box)
    fresh = {n: a for n, a in arcs.items() if n not in old_names}
    killed = [bool(p.fault and p.fault.fired) for p in procs]
    for n in old_names:
        ctx.check(n in arcs, 'bead-lost', lambda: f'{n} after {how}')
    # everybody succeeds
    for j, p, dead in zip(jobs, procs, killed):
        ctx.check(p.result[0] != 'hang', 'hang', how)
        if dead:
            continue
        alone = j['cmd'] != 'prev'
        clash = j['cmd'] == 'save' and any(o is not j and o['cmd'] == 'save' and o['name'] == j['name'] for o in jobs)
        # (two saves of a name in the same microsecond: one may be refused, with an error)
        ctx.check(ok(p) or not alone or clash, 'command-failed', lambda: f'{describe(p)} in {how}')
        ctx.check(j['cmd'] not in ('index', 'reindex') or '✗' not in p.stdout, 'command-failed', lambda: f'{describe(p)} in {how}')
        if j['cmd'] == 'save' and ok(p):
            mine = [a for a in fresh.values() if a['data'] == {'v': j['seq']} and a['kind'] == f"kind-{j['name']}"]
            ctx.check(len(mine) == 1, 'success-without-bead', how)
            s['known'][mine[0]['content_id']] = mine[0]
    allowed = {**s['known'], **{a['content_id']: a for a in fresh.values()}}
    temps = [n for n in m.fs.h_list(box) if n not in arcs and n not in old_temps and not n.startswith('.index.sqlite')]
    ctx.check(not temps or any(killed), 'leftovers', lambda: f'{temps} after {how}')
    # nobody misses what was there before, or gets anything else than a bead
    for j, p, dead in zip(jobs, procs, killed):
        if dead or not ok(p):
            continue
        k = j['name'] if j['cmd'] not in ('update', 'prev') else 0
        floor = max(ref.instant_us(a['time']) for a in before.values() if a['kind'] == f'kind-{k}')
        if j['cmd'] == 'review':
            v = m.fs.h_files(j['dest'] + '/output')
            a = next((a for a in allowed.values() if a['data'] == v and a['kind'] == f'kind-{k}'), None)
            ctx.check(a is not None and ref.instant_us(a['time']) >= floor, 'old-version', lambda: f'{v} by {describe(p)} in {how}')
        elif j['cmd'] in ('add', 'update', 'load'):
            got, loaded = workspace_state(m, s['ws'][j['user'], 'c'])
            for nick, files in loaded.items():
                a = allowed.get(got[nick][1])
                ctx.check(a is not None and files == a['data'], 'wrong-input-data', lambda: f'{nick} {files} by {describe(p)} in {how}')
            if j['cmd'] == 'load':
                ctx.check(got == pins[j['user']] and 'off' in loaded, 'bead-not-found', lambda: f'{describe(p)} in {how}')
            else:
                nick = 'in' if j['cmd'] == 'update' else next(n for n in got if n not in pins[j['user']])
                ctx.check(ref.instant_us(got[nick][2]) >= floor, 'old-version', lambda: f'{got[nick][2]} by {describe(p)} in {how}')
        elif j['cmd'] == 'heads':
            text = web_text(m, j['user'])
            for cid in before:
                ctx.check(cid in text, 'bead-not-found', lambda: f'{cid[:9]} is not on the web of {describe(p)} in {how}')
    # afterwards everything acknowledged is found, with and without index
    for what, beads in (('listing', kit.listing(ctx, m, 'dan', box)), ('listing without index', kit.raw_listing(ctx, m, 'dan', box))):
        seen = {b['content_id'] for b in beads}
        for cid in s['known']:
            ctx.check(cid in seen, 'bead-not-found', lambda: f"{s['known'][cid]['time']} is not in the {what} after {how}")
        ctx.check(seen <= set(allowed), 'unknown-bead', lambda: f'{what} after {how}')
    s['known'].update(allowed)
    if any(killed) and kit.indexed(m, box):     # (what the killed one left is found at the latest when the box is indexed again)
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    ctx.case(g.switch_log, [j['cmd'] for j in jobs], g.switch_log)


def web_text(m, u):
    return m.fs.h_read(f'/home/{u}/w/{u}.web').decode()
