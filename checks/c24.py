"""C24: the kind of a bead is its lineage: unique when new, kept by everything that follows, never left by updates."""

import json

from sim.kernel import Policy
from sim.machine import describe, gen_fault, gen_params, ok

from . import c09, kit, world

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('A case is one command in a history of several people, whose machines are clones with the same clock, making, saving, editing, renaming, copying and using beads of the same names, '
        'some commands interrupted; non-trivial when there are two or more lineages; distinct by command, interruption, and all kinds, names and inputs there are.')
RUNS = {'quick': 300, 'thorough': 20000}
OPS = (['new'] * 4 + ['pair'] * 2 + ['save'] * 6 + ['edit'] * 4 + ['editpath'] * 2 + ['mvws', 'cpws', 'mvbead', 'cpbead'] + ['add'] * 5 + ['update'] * 3 + ['updatet'] * 2 + ['next'] * 2
       + ['prev'] * 3 + ['all'] * 2 + ['other'] * 2 + ['load', 'unload', 'index', 'status', 'discard'])
KINDS = ('kill', 'int', 'err', 'short')


def generate(rng, tier, i):
    names = rng.sample(kit.PLAIN_NAMES, 2)
    ops = []
    for n in range(rng.randint(2, 3)):
        u = rng.randrange(2)
        ops += [dict(op='new', user=u, name=rng.choice(names)), *(dict(op='save', user=u, pick=rng.choice([-1, -1, 0]), box=rng.randrange(2)) for _ in range(rng.randint(1, 2)))]
        if n:
            ops.append(dict(op='add', user=u, pick=rng.randrange(60), nick=rng.choice(['x', names[0]]), name=rng.choice(names)))
    for _ in range(rng.randint(6, 16)):
        op = dict(op=rng.choice(OPS), user=rng.randrange(2), name=rng.choice(names), pick=rng.randrange(60), box=rng.randrange(2), nick=rng.choice(['x', 'x', 'y', names[0], names[0]]))
        if op['op'] == 'pair':
            op['spec'] = dict(mode='walk', seed=rng.randrange(10**6), p=rng.choice([.05, .3, 1.0]))
        elif rng.random() < .15:
            op['fault'] = gen_fault(rng, KINDS)
        ops.append(op)
    return dict(params=gen_params(rng), ops=ops, tick=rng.choice([1, 1000, 15625, 10**6, 2 * 10**6]), index=rng.random() < .4, skew=rng.choice([0, 0, 10**6, -10**7]))


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    # (clones: they share even the address of the network card, see the loader)
    m.user('ann', uid=1000, host='clone-a', tick_us=sc['tick'])
    m.user('bob', uid=1000, host='clone-b', tick_us=sc['tick'], offset_us=sc['skew'])
    dirs = [m.box('b0'), m.box('b1')]
    for u in 'ann', 'bob':
        m.set_config(u, [('b0', dirs[0]), ('b1', dirs[1])])
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
    s = dict(dirs=dirs, ws={'ann': [], 'bob': []}, kinds={}, seq=0, pins={})
    for op in sc['ops']:
        step(ctx, m, sc, op, s)


def kind_of(m, w):
    try:
        return json.loads(m.fs.h_read(f'{w}/.bead-meta/bead'))['kind']
    except Exception:
        return None


def lineage_of(m, w):
    node = m.fs.h_lookup(f'{w}/lineage')
    return None if node is None else bytes(node.data).decode()


def born(m, s, u, w):
    """The user marks what is made there."""
    s['seq'] += 1
    uid = m.users[u][0]
    m.fs.h_write(f'{w}/lineage', str(s['seq']).encode(), uid=uid)
    m.fs.h_write(f'{w}/output/lineage', str(s['seq']).encode(), uid=uid)
    s['ws'][u].append(w)


def archives(m, s):
    return [dict(a, dir=d, file=n) for d in s['dirs'] for n, a in sorted(kit.beads_in(m, d).items())]


def step(ctx, m, sc, op, s):
    k, u = op['op'], ('ann', 'bob')[op['user']]
    uid, _, home = m.users[u]
    s['n'] = s.get('n', 0) + 1
    dest = f"{home}/w/{s['n']}/{op.get('name', '')}"
    mine = s['ws'][u]
    w = mine[op['pick'] % len(mine)] if mine and 'pick' in op else None
    beads = archives(m, s)
    b = beads[op['pick'] % len(beads)] if beads and 'pick' in op else None
    nick = op.get('nick')
    if sc['tick'] < 10**6 or k == 'save':       # (two versions of the same name and moment do not fit into a box)
        m.w.advance(sc['tick'] + abs(sc['skew']) * 2)
    if k in ('new', 'pair', 'edit', 'editpath', 'mvws', 'cpws'):
        m.fs.h_mkdirs(f"{home}/w/{s['n']}", uid=uid)
    argv, cwd = None, None
    if k == 'new':
        argv = ['new', op['name']]
        cwd = f"{home}/w/{s['n']}"
    elif k == 'pair':
        return pair(ctx, m, op, s)
    elif k in ('edit', 'editpath') and b:
        argv = ['edit', op['name'] if k == 'edit' else f"{b['dir']}/{b['file']}", dest, *(['--review'] if op['pick'] % 2 else [])]
    elif k == 'save' and w:
        s['seq'] += 1
        m.fs.h_write(f'{w}/output/version', str(s['seq']).encode(), uid=uid)
        m.fs.h_write(f'{w}/output/lineage', lineage_of(m, w).encode(), uid=uid)
        argv = ['save', f"b{op['box']}", '-w', w]
    elif k == 'mvws' and w:
        m.fs.h_rename(w, dest)
        mine[mine.index(w)] = dest
        s['pins'][dest] = s['pins'].pop(w, {})
    elif k == 'cpws' and w:
        copy(m, w, dest, uid)
        mine.append(dest)
        s['pins'][dest] = dict(s['pins'].get(w, {}))
    elif k in ('mvbead', 'cpbead') and b:
        name = b['file'] if k == 'cpbead' else f"{op['name']}-{op['pick']}_{b['time']}.zip"
        d = s['dirs'][op['box']]
        if m.fs.h_lookup(f'{d}/{name}') is None:
            m.fs.h_write(f'{d}/{name}', m.fs.h_read(f"{b['dir']}/{b['file']}"), uid=uid)
            if k == 'mvbead':
                m.fs.h_remove(f"{b['dir']}/{b['file']}")
        if any(kit.indexed(m, d) for d in s['dirs']):
            kit.expect_ok(ctx, m.cli('ann', 'box', 'reindex', '--all'), 'box reindex')
    elif k == 'index':
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
    elif k == 'discard' and w and len(mine) > 2:
        argv = ['discard', w]
    elif k == 'status' and w:
        argv = ['status', '-v', '-w', w]
    elif w and k in ('add', 'update', 'updatet', 'next', 'prev', 'all', 'other', 'load', 'unload'):
        argv = {'add': ['input', 'add', nick, op['name']], 'update': ['input', 'update', nick], 'next': ['input', 'update', nick, '-N'], 'prev': ['input', 'update', nick, '-P'],
                'updatet': ['input', 'update', nick, '-t', b['time'] if b else '2020-01-01'], 'all': ['input', 'update'], 'load': ['input', 'load'], 'unload': ['input', 'unload', nick],
                'other': ['input', 'update', nick, op['name']]}[k] + ['-w', w]
    if argv is None:
        return look(ctx, m, s, k, None, f'{k} by hand')
    pins = {n: v[0] for n, v in c09.workspace_state(m, w)[0].items()} if w else {}
    old = set(zip([a['dir'] for a in beads], [a['file'] for a in beads]))
    kind = kind_of(m, w) if w else None
    p = m.cli(u, *argv, fault=op.get('fault'), cwd=cwd)
    how = f"{u}: {describe(p)} under {op.get('fault')}"
    ctx.check(p.result[0] != 'hang', 'hang', how)
    fired = bool(p.fault and p.fault.fired)
    done = ok(p)
    fresh = [a for a in archives(m, s) if (a['dir'], a['file']) not in old]
    if k == 'new':
        path = f"{cwd}/{op['name']}"
        ctx.check(done or fired, 'command-failed', how)
        if done:
            born(m, s, u, path)
    elif k in ('edit', 'editpath'):
        if done:
            s['ws'][u].append(dest)
            if k == 'editpath':
                ctx.check(kind_of(m, dest) == b['kind'], 'kind-lost', lambda: f"{kind_of(m, dest)}, should be {b['kind']}; {how}")
            s['pins'][dest] = {n: v[0] for n, v in c09.workspace_state(m, dest)[0].items()}
    elif k == 'save':
        ctx.check(done or fired, 'command-failed', how)
        ctx.check(len(fresh) <= 1, 'harness', how)
        for a in fresh:
            ctx.check(a['kind'] == kind, 'kind-lost', lambda: f"{a['kind']}, should be {kind}; {how}")
            ctx.check({i[0]: i[1] for i in a['inputs']} == pins, 'kind-lost', lambda: f"inputs {a['inputs']}, should be of {pins}; {how}")
    elif k == 'status':
        ctx.check(kind in p.stdout.split('Inputs')[0] or fired, 'kind-not-told', how)
    elif k == 'discard':
        if m.fs.h_lookup(f'{w}/.bead-meta/bead') is None or done:
            mine.remove(w)
    else:
        now = {n: v[0] for n, v in c09.workspace_state(m, w)[0].items()}
        if k == 'update' and pins.get(nick) in [a['kind'] for a in beads]:
            ctx.check(done or fired, 'lineage-not-followed', how)
        ctx.check(set(now) - set(pins) <= {nick}, 'other-input-changed', how)
        for n in now:
            if now[n] == pins.get(n):
                continue
            ctx.check(n == nick and k in ('add', 'other'), 'kind-lost', lambda: f'input {n} is {now[n]}, should be {pins.get(n)}; {how}')
            if k == 'other' and nick in pins:
                ctx.check('WARNING' in p.stdout or fired, 'kind-not-told', how)
        if k == 'other' and now == pins and nick in pins and done and not fired:
            ctx.check('WARNING' not in p.stdout, 'kind-not-told', how)
        ctx.check(kind_of(m, w) == kind, 'kind-lost', how)
    look(ctx, m, s, k, op.get('fault', {}).get('kind') if fired else None, how)


def pair(ctx, m, op, s):
    """Both make a new workspace at the same time."""
    ps, ws = [], []
    for u in 'ann', 'bob':
        home = m.users[u][2]
        d = f"{home}/w/p{s['n']}"
        m.fs.h_mkdirs(d, uid=m.users[u][0])
        ps.append((m.process(u, argv=['bead', 'new', op['name']], label=u, cwd=d), m._cli_main))
        ws.append((u, f"{d}/{op['name']}"))
    g = m.w.run_group(ps, Policy(op['spec']))
    op['spec'] = dict(mode='replay', switches=g.switch_log)
    for (p, _), (u, w) in zip(ps, ws):
        kit.expect_ok(ctx, p, 'new')
        born(m, s, u, w)
    look(ctx, m, s, 'pair', None, 'new by both')


def copy(m, src, dest, uid):
    m.fs.h_mkdirs(dest, uid=uid)
    for d in 'input', 'output', 'temp', '.bead-meta':
        m.fs.h_mkdirs(f'{dest}/{d}', uid=uid)
    for f, data in m.fs.h_files(src).items():
        m.fs.h_mkdirs(f'{dest}/{f}'.rpartition('/')[0], uid=uid)
        m.fs.h_write(f'{dest}/{f}', data, uid=uid)


def look(ctx, m, s, k, fired, how):
    """Lineages and kinds are the same thing."""
    seen = []
    for u, ws in sorted(s['ws'].items()):
        for w in ws:
            seen.append((w, lineage_of(m, w), kind_of(m, w)))
            for nick, files in c09.workspace_state(m, w)[1].items():
                pin = c09.workspace_state(m, w)[0].get(nick)
                if pin and 'lineage' in files and not fired:
                    seen.append((f'{w}/input/{nick}', files['lineage'].decode(), pin[0]))
    for a in archives(m, s):
        seen.append((f"{a['dir']}/{a['file']}", a['code']['lineage'].decode(), a['kind']))
    owner = {v: x for x, v in s['kinds'].items()}
    for where, lineage, kind in seen:
        ctx.check(kind and isinstance(kind, str), 'kind-lost', lambda: f'{where} has none after {how}')
        was = s['kinds'].setdefault(lineage, kind)
        ctx.check(was == kind, 'kind-lost', lambda: f'{where} is {kind}, should be {was}, after {how}')
        other = owner.setdefault(kind, lineage)
        ctx.check(other == lineage, 'kind-shared', lambda: f'{where} is {kind}, that is of {other} already, after {how}')
    ctx.case(len(s['kinds']) > 1, k, fired, [(w, x, s['kinds'].get(x)) for w, x, _ in seen])
