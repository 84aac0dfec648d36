"""C05: one bad file in a box neither hides nor spoils anything else."""

import errno

from sim import loader, ref
from sim.machine import describe, gen_params, ok, tree_digest

from . import bad, damage, kit, world

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('A case is one command run in a box that holds good beads and files that are not beads (or whose reading fails); '
        'non-trivial always, except the control run without any; distinct by the bad files, the command and the box state it leaves.')
RUNS = {'quick': 700, 'thorough': 60000}
OPS = ['list', 'find', 'add', 'add-time', 'add-path', 'edit', 'load', 'update', 'prev', 'status', 'save', 'index', 'reindex', 'web', 'webcolor',
       'boxlist']


def generate(rng, tier, i):
    names = rng.sample(kit.BEAD_NAMES[:16] + ['st*r', '[ab]'], 3)
    beads = []
    for n in names:
        for v in range(rng.randint(1, 2)):
            beads.append(dict(name=n, age=rng.randint(1, 10**6), code=kit.gen_code(rng, 1), output=kit.gen_code(rng, 2)))
    cases = [dict(op=rng.choice(OPS), bads=[], mode=rng.choice(['raw', 'before', 'after']))]
    for _ in range(9):
        c = dict(op=rng.choice(OPS), bads=[bad.gen(rng, names) for _ in range(rng.choice([1, 1, 1, 2, 4]))],
                 mode=rng.choice(['raw', 'raw', 'before', 'after']))
        if rng.random() < .2:
            c['bads'] = []
            c['other'] = rng.choice(['cut', 'empty', 'dir', 'gone', 'swapped', 'unreadable', 'flip', 'flip', 'flip', 'flip'])
            c['flip'] = damage.gen(rng)
            c['mode'] = rng.choice(['raw', 'before'])
            c['op'] = 'load'
        cases.append(c)
    return dict(params=gen_params(rng), names=names, beads=beads, cases=cases)


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    box, other = m.box('b'), m.box('c')
    m.set_config('ann', [('b', box)])
    t0 = world.start_us(sc)
    good = []
    for k, b in enumerate(sc['beads']):
        older = [a for a in good if a['name'] != b['name']]
        inputs = [(a['name'], a['kind'], a['content_id'], a['time']) for a in older[:1]]
        good.append(world.put_bead(m, box, b['name'], world.kind_of(b['name']), world.stamp(t0 - b['age'] * 10**7 - k),
                                   kit.materialise(b['output']), kit.materialise(b['code']), inputs))
    if not good:
        return
    target = max((a for a in good if a['name'] == good[0]['name']), key=lambda a: a['time'])
    versions = sorted((a for a in good if a['name'] == target['name']), key=lambda a: a['time'])
    first = versions[0]
    kit.expect_ok(ctx, m.cli('ann', 'new', 'consumer'), 'new')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'add', 'nick', f'{box}/{first["file"]}', '-w', 'consumer'), 'add')
    kit.expect_ok(ctx, m.cli('ann', 'new', 'newest'), 'new')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'add', 'nick', f'{box}/{target["file"]}', '-w', 'newest'), 'add')
    kit.expect_ok(ctx, m.cli('ann', 'new', 'unloaded'), 'new')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'add', 'nick', f'{box}/{first["file"]}', '-w', 'unloaded'), 'add')
    kit.expect_ok(ctx, m.cli('ann', 'input', 'unload', 'nick', '-w', 'unloaded'), 'unload')
    point = m.fork_point()
    for c in sc['cases']:
        m.rewind(point)
        if c.get('other'):
            spoil_other(ctx, m, c, box, other, first, target)
        if c['mode'] == 'before':
            kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--all'), 'box index')
        if c.get('other'):
            spoil_now(ctx, m, c, other, first, target)
        control = run_op(ctx, m, c, box, good, first, target, versions, dry=True) if c['op'] == 'status' else None
        for spec in c['bads']:
            bad.install(m, box, spec)
        if c['mode'] == 'after':
            p = m.cli('ann', 'box', 'index', '--all')
            ctx.check(ok(p) and '✗' not in p.stdout and 'Failed' not in p.stdout, 'index-fails', describe(p))
        before = kit.zips(m, box)
        run_op(ctx, m, c, box, good, first, target, versions, control=control)
        after = kit.zips(m, box)
        ctx.check(all(after.get(a['file']) == a['bytes'] for a in good), 'bead-changed', c['op'])
        ctx.check(all(after.get(n) == b for n, b in before.items()), 'file-changed', c['op'])
        ctx.case(bool(c['bads'] or c.get('other')), c['op'], c['mode'], c.get('other'),
                 [(s['kind'], s['file'], s['key'], s['value']) for s in c['bads']],
                 tree_digest({k: v for k, v in m.fs.h_tree(box).items() if '.index' not in k}))


def spoil_other(ctx, m, c, box, other, first, target):
    """Box c, searched first, holds a copy of the pinned bead."""
    m.set_config('ann', [('c', other), ('b', box)])
    m.fs.h_write(f"{other}/{first['file']}", first['bytes'], uid=1000)


def spoil_now(ctx, m, c, other, first, target):
    path = f"{other}/{first['file']}"
    how = c['other']
    m.fs.h_remove(path)
    if how == 'cut':
        m.fs.h_write(path, first['bytes'][:len(first['bytes']) // 2])
    elif how == 'empty':
        m.fs.h_write(path, b'')
    elif how == 'dir':
        m.fs.h_mkdirs(path)
    elif how == 'swapped':
        m.fs.h_write(path, ref.build_archive(first['name'], first['kind'], first['time'], {'other': b'thing'}))
    elif how == 'unreadable':
        m.fs.h_write(path, first['bytes'], uid=0, mode=0)
    elif how == 'flip':
        m.fs.h_write(path, damage.apply(c['flip'], first['bytes']))


def fits(listed, a):
    return (listed['name'], listed['content_id'], listed['kind'], listed['time'], listed['inputs']) == (
        a['name'], a['content_id'], a['kind'], a['time'], a['inputs'])


def all_listed(ctx, seen, good, how):
    lost = [a['file'] for a in good if not any(fits(b, a) for b in seen)]
    ctx.check(not lost, 'good-bead-hidden', f'{lost} not listed; {how}')


def run_op(ctx, m, c, box, good, first, target, versions, control=None, dry=False):
    op = c['op']
    how = f"{op} ({c['mode']} index) with {c['bads'] or c.get('other')}"
    home = '/home/ann/w'

    def done(p, text=how):
        ctx.check(ok(p), 'command-spoiled', lambda: f'{describe(p)}; {text}')
        return p

    if op == 'list':
        all_listed(ctx, kit.listing(ctx, m, 'ann', box), good, how)
    elif op == 'find':
        def query():
            Box = loader.find('bead.box').Box
            b = Box('b', loader.find('pathlib').Path(box))
            n, k = target['name'], target['kind']
            s = lambda: b.search()
            return [s().by_name(n).newest().content_id, s().by_name(n).oldest().content_id, s().by_kind(k).newest().content_id,
                    s().by_kind(k).oldest().content_id, s().by_content_id(first['content_id']).first().content_id,
                    s().by_name(n).at_time(first['time']).first().content_id,
                    str(b.resolve(s().by_name(n).newest()).name)]
        p = done(m.lib('ann', query))
        new, old = target['content_id'], first['content_id']
        ctx.check(p.result[1] == [new, old, new, old, old, old, target['name']], 'wrong-bead-found', lambda: f'{p.result}; {how}')
    elif op in ('add', 'add-time', 'add-path'):
        kit.expect_ok(ctx, m.cli('ann', 'new', 'fresh'), 'new')
        want = target
        if op == 'add':
            p = m.cli('ann', 'input', 'add', 'in', target['name'], '-w', 'fresh')
        elif op == 'add-path':
            p = m.cli('ann', 'input', 'add', 'in', f"{box}/{target['file']}", '-w', 'fresh')
        else:
            p = m.cli('ann', 'input', 'add', 'in', first['name'], '-t', first['time'], '-w', 'fresh')
            want = first
        done(p)
        delivered(ctx, m, f'{home}/fresh/input/in', want['data'], how)
    elif op == 'edit':
        done(m.cli('ann', 'edit', target['name'], 'got', '--review'))
        want = dict(target['code'], **{f'output/{k}': v for k, v in target['data'].items()})
        got = {k: v for k, v in m.fs.h_files(f'{home}/got').items() if not k.startswith('.bead-meta/')}
        ctx.check(got == want, 'wrong-content', lambda: f'{kit.diff(got, want)}; {how}')
    elif op == 'load':
        done(m.cli('ann', 'input', 'load', '-w', 'unloaded'))
        delivered(ctx, m, f'{home}/unloaded/input/nick', first['data'], how)
    elif op == 'update':
        done(m.cli('ann', 'input', 'update', '-w', 'consumer'))
        delivered(ctx, m, f'{home}/consumer/input/nick', target['data'], how)
    elif op == 'prev':
        p = m.cli('ann', 'input', 'update', 'nick', '-P', '-w', 'newest')
        if len(versions) > 1:
            done(p)
            delivered(ctx, m, f'{home}/newest/input/nick', versions[-2]['data'], how)
    elif op == 'status':
        p = m.cli('ann', 'status', '-v', '-w', 'consumer')
        if dry:
            kit.expect_ok(ctx, p, 'status')
            return p.stdout
        done(p)
        ctx.check(p.stdout == control, 'status-differs', lambda: f'{control!r} became {p.stdout!r}; {how}')
    elif op == 'save':
        before = set(kit.zips(m, box))
        done(m.cli('ann', 'save', 'b', '-w', 'consumer'))
        new = set(kit.zips(m, box)) - before
        ctx.check(len(new) == 1, 'not-saved', how)
        seen = kit.listing(ctx, m, 'ann', box)
        (file,) = new
        a = dict(kit.beads_in(m, box)[file], file=file, name='consumer')
        all_listed(ctx, seen, good + [a], how)
    elif op in ('index', 'reindex'):
        p = done(m.cli('ann', 'box', op))
        ctx.check('✗' not in p.stdout and 'Failed' not in p.stdout, 'index-fails', lambda: f'{describe(p)}; {how}')
        all_listed(ctx, kit.listing(ctx, m, 'ann', box), good, how)
        p = done(m.cli('ann', 'box', 'index'))
        ctx.check('✗' not in p.stdout and 'Failed' not in p.stdout, 'index-fails', lambda: f'{describe(p)}; {how}')
        all_listed(ctx, kit.listing(ctx, m, 'ann', box), good, how)
    elif op in ('web', 'webcolor'):
        done(m.cli('ann', 'web', *(['color'] if op == 'webcolor' else []), 'dot', 'out.dot', 'save', 'out.web'))
        text = (m.fs.h_read(f'{home}/out.web') or b'').decode()
        lost = [a['file'] for a in good if a['content_id'] not in text]
        ctx.check(not lost, 'good-bead-hidden', f'{lost} not in web; {how}')
        ctx.check(bool(m.fs.h_read(f'{home}/out.dot')), 'no-web', how)
    elif op == 'boxlist':
        p = done(m.cli('ann', 'box', 'list'))
        ctx.check(box in p.stdout, 'box-hidden', how)


def delivered(ctx, m, d, want, how):
    ctx.check(m.fs.h_lookup(d) is not None, 'not-delivered', how)
    got = m.fs.h_files(d)
    ctx.check(got == want, 'wrong-content', lambda: f'{kit.diff(got, want)}; {how}')
