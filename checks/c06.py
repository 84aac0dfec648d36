"""C06: what is in a box stays as it is, and a command changes no workspace but its own."""

import re

from sim.kernel import Policy
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('A case is one command (or two concurrent saves) of a history of two users sharing boxes, possibly with a fault or with a '
        'coarse or backward-stepping clock; non-trivial when archives were there before it; distinct by command, fault and state of the boxes.')
RUNS = {'quick': 800, 'thorough': 40000}
TICKS = [1, 1, 1000, 15600, 1_000_000, 3_600_000_000]
REPORT = re.compile(r'(^|/)error_\d{8}T\d{12}[-+]\d{4}\.txt$')
KINDS = ('kill', 'kill', 'err', 'err', 'int', 'short', 'tornkill')
OPS = (['save'] * 7 + ['pair'] * 4 + ['change'] * 4 + ['edit', 'review', 'add', 'add', 'load', 'unload', 'update', 'delete', 'discard', 'index',
       'reindex', 'forget', 'boxadd', 'web', 'status', 'list', 'new', 'jump', 'jump', 'wait'])


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES[:20], 2)
    ops = []
    for _ in range(rng.randint(6, 14)):
        op = dict(op=rng.choice(OPS), user=rng.choice(['ann', 'bob']), ws=rng.randrange(2), box=rng.choice('bbbc'),
                  content=kit.gen_content(rng, .02), arg=rng.randrange(1000), cwd=rng.random() < .4)
        if op['op'] not in ('change', 'jump', 'wait', 'pair') and rng.random() < .35:
            op['fault'] = gen_fault(rng, KINDS)
        if op['op'] == 'pair':
            op['same'] = rng.random() < .4
            op['policy'] = dict(mode=rng.choice(['walk', 'pct', 'hot', 'hot']), seed=rng.randrange(10**9), p=rng.choice([.05, .3]))
            if rng.random() < .2:
                op['fault'] = dict(kind='kill', at=rng.randint(1, 150))
        ops.append(op)
    nest = rng.choice(['temp', 'temp', 'output/nest-x', 'nest-x', 'nest-x/y', 'temp/z']) if rng.random() < .3 else None
    return dict(params=gen_params(rng), names=names, nest=nest, tick=rng.choice(TICKS), index=rng.random() < .4,
                offsets=[rng.choice([0, 0, 3, -5_000_000, 40_000]) for _ in range(2)], code=kit.gen_code(rng, 3), output=kit.gen_code(rng, 2),
                ops=ops)


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    boxes = {'b': m.box('b'), 'c': m.box('c')}
    ws = {}
    for k, u in enumerate(('ann', 'bob')):
        m.user(u, uid=1000, tick_us=sc['tick'], offset_us=sc['offsets'][k])
        m.set_config(u, list(boxes.items()))
        for j, name in enumerate(sc['names']):
            at = f'/home/{u}/w{j}'
            if j and sc['nest']:        # inside of the first one
                at = f"{ws[u, 0]}/{sc['nest']}"
            m.fs.h_mkdirs(at, uid=1000)
            ws[u, j] = kit.new_workspace(ctx, m, u, name, sc['code'], sc['output'], cwd=at)
            m.w.advance(sc['tick'])
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
    st = dict(back=False, discarded=set())
    for op in sc['ops']:
        step(ctx, m, sc, op, ws, boxes, st)


def state(m, ws, boxes):
    return ({b: kit.zips(m, d) for b, d in boxes.items()},
            {k: (own_tree(m, d, ws) if m.fs.h_lookup(d) else None) for k, d in ws.items()})


def own_tree(m, d, ws):
    """The files of a workspace, without those of the workspaces inside of it (and error reports, written to the current directory)."""
    inner = [x[len(d) + 1:] for x in ws.values() if x.startswith(f'{d}/')]
    return {k: v for k, v in m.fs.h_tree(d).items()
            if not any(k == x or k.startswith(f'{x}/') for x in inner) and not REPORT.search(k)}


def content_of(m, w):
    files = m.fs.h_files(w)
    return ({k: v for k, v in files.items() if k.split('/')[0] not in ('input', 'output', 'temp', '.bead-meta')},
            {k[7:]: v for k, v in files.items() if k.startswith('output/')})


def step(ctx, m, sc, op, ws, boxes, st):
    kind, user, w = op['op'], op['user'], ws[op['user'], op['ws']]
    if kind == 'jump':
        d = [-sc['tick'], -1, -3_000_000, 3_600_000_000][op['arg'] % 4]
        st['back'] |= d < 0
        m.users[user][1].offset_us += d
        return
    if kind == 'wait':
        m.w.advance([1, sc['tick'], 2 * sc['tick']][op['arg'] % 3])
        return
    if kind == 'change':
        if m.fs.h_lookup(w):
            m.fs.h_write(f"{w}/output/f{op['arg'] % 3}", kit.content(op['content']), uid=1000)
        return
    archives, trees = state(m, ws, boxes)
    fault = op.get('fault')
    others = dict(ws)
    inner = [x for x in ws.values() if x.startswith(f'{w}/')]
    saves = []
    if kind == 'pair':
        if op['same']:                  # two saves of one workspace
            w2, k2 = w, (user, op['ws'])
        else:
            other = 'bob' if user == 'ann' else 'ann'
            w2, k2 = ws[other, op['ws']], (other, op['ws'])
        jobs = []
        for u, x in ((user, w), (k2[0], w2)):
            if m.fs.h_lookup(x) is None:
                return
            p = m.process(u, argv=['bead', 'save', op['box'], '-w', x], fault=fault if not jobs else None, label=f'save {op["box"]} -w {x}')
            jobs.append((p, m._cli_main))
            saves.append((p, x))
        if m.w.nolink:                  # creating a file exclusively is not possible there without exposing it early
            for p, main in jobs:
                m.w.run(p, main)
        else:
            g = m.w.run_group(jobs, Policy(op['policy']))
            op['policy'] = dict(mode='replay', switches=g.switch_log)
        how = f'concurrent saves, {[describe(p) for p, _ in saves]}'
    else:
        if kind == 'discard':
            st['discarded'] |= {w, *inner}
        p = run(m, sc, op, w, boxes, fault)
        how = f'{kind} under {fault}: {describe(p)}'
        if kind == 'save':
            saves.append((p, w))
        elif kind in ('add', 'load', 'unload', 'update', 'delete', 'discard', 'edit', 'review'):
            del others[user, op['ws']]
            if kind == 'discard':
                others = {k: x for k, x in others.items() if x not in inner}
    now, now_trees = state(m, ws, boxes)
    for b in boxes:
        for n, data in archives[b].items():
            ctx.check(n in now[b], 'bead-removed', f'{n} of box {b} is gone after {how}')
            ctx.check(now[b][n] == data, 'bead-changed', f'{n} of box {b} is another archive after {how}')
    for k in others:
        ctx.check(now_trees[k] == trees[k], 'workspace-changed', lambda: f'{ws[k]} changed ({tree_diff(now_trees[k], trees[k])}) by {how}')
    if len(others) < len(ws) and kind != 'discard' and trees[user, op['ws']]:
        a, b = trees[user, op['ws']], now_trees[user, op['ws']] or {}
        mine = lambda t: {k: v for k, v in t.items() if k.split('/')[0] not in ('input', 'temp', '.bead-meta')}
        ctx.check(mine(a) == mine(b), 'work-changed', lambda: f'{w} changed ({tree_diff(mine(b), mine(a))}) by {how}')
    # every acknowledged save has an archive of its own
    for b in boxes:
        fresh = {n: a for n, a in kit.beads_in(m, boxes[b]).items() if n not in archives[b]}
        want = [x for p, x in saves if ok(p) and b == op['box']]
        for x in want:
            code, output = content_of(m, x)
            n = next((n for n, a in fresh.items() if kit.matches(a, code, output)), None)
            ctx.check(n is not None, 'success-without-bead', f'nothing new in box {b} is {x}; {how}')
            del fresh[n]
    if saves and op['box'] == 'b' and sc['tick'] == 1 and not st['back'] and not fault and len(saves) == 1 and w not in st['discarded']:
        ctx.check(ok(saves[0][0]), 'command-failed', how)
    for p, x in saves:
        ctx.check(p.result[0] != 'hang', 'hang', how)
    ctx.case(any(archives.values()), kind, fault and str(fault), [sorted(now[b]) for b in boxes],
             tree_digest({f'{b}/{n}': d for b in boxes for n, d in now[b].items()}))


def tree_diff(got, want):
    if got is None or want is None:
        return 'removed' if got is None else 'created'
    return sorted(k for k in {*got, *want} if got.get(k) != want.get(k))[:5]


def run(m, sc, op, w, boxes, fault):
    kind, user, name, arg = op['op'], op['user'], sc['names'][op['arg'] % 2], op['arg']
    cli = lambda *a: m.cli(user, *a, fault=fault)
    if op.get('cwd') and m.fs.h_lookup(w):      # the workspace is the one of the current directory
        places = [w] + [p for p in (f'{w}/output', f'{w}/temp', f'{w}/input') if m.fs.h_lookup(p)]
        cwd = w if kind == 'discard' else places[arg % len(places)]
        cli = lambda *a: m.cli(user, *([x for x in a if x not in ('-w', w)] if '-w' in a or kind == 'discard' else a), fault=fault,
                               **({'cwd': cwd} if '-w' in a or kind == 'discard' else {}))
    if kind == 'save':
        return cli('save', op['box'], '-w', w)
    if kind in ('edit', 'review'):
        return cli('edit', name, f'got{arg}', *(['--review'] if kind == 'review' else []))
    if kind == 'new':
        return cli('new', f'new{arg}')
    if kind == 'add':
        return cli('input', 'add', f'in{arg % 3}', name, '-w', w)
    if kind in ('load', 'unload'):
        return cli('input', kind, '-w', w)
    if kind == 'update':
        return cli('input', 'update', '-w', w)
    if kind == 'delete':
        return cli('input', 'delete', f'in{arg % 3}', '-w', w)
    if kind == 'discard':
        return cli('discard', w, *(['--force'] if arg % 2 else []))
    if kind in ('index', 'reindex'):
        return cli('box', kind, '--all')
    if kind == 'forget':
        return cli('box', 'forget', 'c')
    if kind == 'boxadd':
        return cli('box', 'add', 'c', boxes['c'])
    if kind == 'web':
        return cli('web', 'save', 'out.web', 'color', 'dot', 'out.dot')
    if kind == 'list':
        return cli('box', 'list')
    return cli('status', '-v', '-w', w)
