"""C22: commands act on exactly the boxes they name, and boxes that can not be used do not matter for the others."""

from sim import ref
from sim.kernel import Policy
from sim.machine import describe, gen_params, ok

from . import c11, kit

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('A case is one command (save, index, reindex, edit, box add, box forget) in a history over boxes that come, go, are nested in one another or can not be used, alone or '
        'overlapping with a change of the box list or a save of another user; non-trivial when there are several boxes; distinct by command, boxes and what changed.')
RUNS = {'quick': 700, 'thorough': 30000}
DIRS = ['/box/one', '/box/one/sub', '/box/one2', '/box/with space', '/box/ünï', '/box/two']
NAMES = ['a', 'b', 'A', 'one', 'My Box', 'home', 'b ', 'ünï', '/box/two', '*']
OPS = ['save'] * 8 + ['index'] * 4 + ['reindex'] * 3 + ['edit'] * 5 + ['add'] * 3 + ['forget'] * 2
GONE = ['moved', 'file', 'closed', 'dangling']


def gen_op(rng, ops):
    op = dict(op=rng.choice(ops), form=rng.choice(['box', 'box', 'box', 'none', 'all', 'dir', 'unknown']), pick=rng.randrange(60), name=rng.choice(NAMES), dir=rng.randrange(len(DIRS)),
              ws=rng.randrange(2), text=rng.randrange(10**6), how=rng.choice(['abs', 'abs', 'rel', 'slash']))
    if rng.random() < .3:
        op['other'] = gen_op(rng, ['add', 'forget', 'forget', 'bob'])
        op['other'].pop('other', None)
        op['policy'] = dict(mode=rng.choice(['walk', 'hot', 'hot']), seed=rng.randrange(10**9), p=rng.choice([.05, .2, .4]))
    elif rng.random() < .1:
        op['short'] = dict(kind='short', frac=rng.random(), bias='any')
    if rng.random() < .2:
        op['gone'] = dict(kind=rng.choice(GONE), dir=rng.randrange(len(DIRS)))
    return op


def generate(rng, tier, i):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    return dict(params=gen_params(rng), boxes=[list(x) for x in zip(rng.sample(NAMES, n), rng.sample(range(len(DIRS)), n))], ops=[gen_op(rng, OPS) for _ in range(rng.randint(4, 10))],
                indexed=[d for d in range(len(DIRS)) if rng.random() < .3], known=[gen_op(rng, ['save']) for _ in range(rng.randint(0, 4))])


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    for u in ('ann', 'bob'):
        m.user(u, uid=1000)
    for d in DIRS:
        m.fs.h_mkdirs(d, uid=1000)
        for k in [k for k in range(2, 9) if len(d.split('/')) >= k]:
            m.fs.h_lookup('/'.join(d.split('/')[:k])).mode = 0o777
    boxes = [(n, DIRS[d]) for n, d in sc['boxes']]
    if boxes:
        m.set_config('ann', boxes)
    m.set_config('bob', [(f'd{j}', d) for j, d in enumerate(DIRS)])
    s = dict(ws=[kit.new_workspace(ctx, m, 'ann', n, {'c': f't:code of {n}'}, {}) for n in ('foo', 'bar')], boxes=boxes, seq=0,
             bob=kit.new_workspace(ctx, m, 'bob', 'foo', {'c': 't:bob'}, {'o': 't:bob'}))
    for d in sc['indexed']:
        kit.expect_ok(ctx, m.cli('bob', 'box', 'index', '--box', f'd{d}'), 'box index')
    for op in sc['known']:
        m.fs.h_write(s['bob'] + '/output/o', str(op['text']).encode(), uid=1000)
        kit.expect_ok(ctx, m.cli('bob', 'save', f"d{op['dir']}", '-w', s['bob']), 'save')
        m.w.advance(1000)
    for op in sc['ops']:
        gone = op.get('gone')
        undo = leave(m, DIRS[gone['dir']], gone['kind']) if gone else None
        step(ctx, m, op, s, DIRS[gone['dir']] if gone else None)
        if undo:
            undo()
        m.w.advance(1000)


def leave(m, d, kind):
    """The directory can not be used any more; returns what brings it back."""
    if kind == 'closed':
        m.fs.h_lookup(d).mode = 0
        return lambda: setattr(m.fs.h_lookup(d), 'mode', 0o777)
    m.fs.h_rename(d, f'{d}.away')
    if kind == 'file':
        m.fs.h_write(d, b'', uid=1000)
    if kind == 'dangling':
        m.fs.h_symlink(d, '/nowhere/at/all')

    def back():
        if kind != 'moved':
            m.fs.h_remove(d)
        m.fs.h_rename(f'{d}.away', d)
    return back


def target(boxes, op):
    """The box name that is given."""
    if op['form'] == 'unknown' or not boxes:
        known = [n for n, _ in boxes]
        return next(n for n in [*(x for n, d in boxes for x in (n.upper(), n.lower(), f'{n} ', d, d.rpartition('/')[2])), 'no such'][op['pick'] % 7:] + ['no such'] if n not in known)
    return boxes[op['pick'] % len(boxes)][0]


def command(m, op, s):
    k, boxes = op['op'], s['boxes']
    if k == 'save':
        return ['save', *([] if op['form'] in ('none', 'all', 'dir') else [target(boxes, op)]), '-w', s['ws'][op['ws']]]
    if k in ('index', 'reindex'):
        form = {'box': ['--box', target(boxes, op)], 'unknown': ['--box', target(boxes, op)], 'none': [], 'all': ['--all'], 'dir': ['--dir', spelled(op)]}[op['form']]
        return ['box', k, *form]
    if k == 'edit':
        s['seq'] += 1
        return ['edit', '--review', ['foo', 'bar'][op['ws']], f"/home/ann/w/e{s['seq']}"]
    if k == 'add':
        return ['box', 'add', op['name'], spelled(op)]
    if k == 'forget':
        return ['box', 'forget', target(boxes, op)]
    return ['save', f"d{op['dir']}", '-w', s['bob']]


def spelled(op):
    d = DIRS[op['dir']]
    return {'rel': f'../../..{d}', 'slash': f'{d}/.'}.get(op['how'], d)


HOME = ('home', '/home/ann/BeadBox')


def meant(boxes, op, argv):
    """Directories the command is about, None when it has to refuse."""
    by_name = dict(boxes)
    if op['op'] == 'save':
        if argv[1] != '-w':
            return [by_name[argv[1]]] if argv[1] in by_name else None
        return [boxes[0][1]] if len(boxes) == 1 else None if boxes else [HOME[1]]
    if '--box' in argv:
        return [by_name[argv[-1]]] if argv[-1] in by_name else None
    if '--dir' in argv:
        return [DIRS[op['dir']]]
    if '--all' in argv:
        return [d for _, d in boxes]
    return [boxes[0][1]] if len(boxes) == 1 else None


def changed(boxes, op, argv, gone, kind=None):
    """The box list after the command."""
    if op['op'] == 'add':
        new = (op['name'], DIRS[op['dir']])
        return boxes if under(new[1], gone) and (kind != 'closed' or new[1] != gone) or any(n == new[0] or d == new[1] for n, d in boxes) else boxes + [new]
    if op['op'] == 'forget':
        return [b for b in boxes if b[0] != argv[-1]]
    return boxes


def under(d, gone):
    return gone is not None and (d == gone or d.startswith(f'{gone}/'))


def newest(m, boxes, name, gone):
    beads = [a for _, d in boxes if not under(d, gone) and m.fs.h_lookup(d) for a in kit.beads_in(m, d).values() if a['name'] == name]
    return [b for b in beads if ref.instant_us(b['time']) == max(ref.instant_us(a['time']) for a in beads)]


def step(ctx, m, op, s, gone):
    boxes, k = s['boxes'], op['op']
    other = op.get('other')
    argv = command(m, op, s)
    oargv = command(m, other, s) if other else None
    w = s['ws'][op['ws']]
    if k == 'save':
        m.fs.h_write(f'{w}/output/o', f"out {op['text']}".encode(), uid=1000)
    later = changed(boxes, other, oargv, gone, gone and op['gone']['kind']) if other else boxes
    # (two changes of the list at once: C11)
    if other and (k in ('add', 'forget') or k == 'save' and argv[1] == '-w' and not (boxes and later) or other['op'] == 'bob' and under(DIRS[other['dir']], gone)):
        other, later = None, boxes
    if other and other['op'] == 'bob':
        m.fs.h_write(s['bob'] + '/output/o', str(other['text']).encode(), uid=1000)
    was, first = m.fs.h_tree('/'), newest(m, boxes, argv[2], gone) if k == 'edit' else None
    ran = None
    if other:
        p = m.process('ann', argv=['bead', *argv], label=' '.join(argv))
        q = m.process('bob' if other['op'] == 'bob' else 'ann', argv=['bead', *oargv], label=' '.join(oargv))
        g = m.w.run_group([(p, m._cli_main), (q, m._cli_main)], Policy(op['policy']))
        op['policy'] = dict(mode='replay', switches=g.switch_log)
        ctx.check(ok(q) or other['op'] == 'add' and under(DIRS[other['dir']], gone), 'command-failed', lambda: f'{describe(q)}, overlapping with {describe(p)}')
        ran = q.stdout.partition(' at ')[2].strip()[:-1] if other['op'] == 'bob' else None
    else:
        p = m.cli('ann', *argv, fault=op.get('short'))
    is_ = m.fs.h_tree('/')
    new = {k for k in {**was, **is_} if was.get(k) != is_.get(k)}
    new = {'/' + k.lstrip('/') for k in new}
    how = f'{describe(p)} with boxes {boxes}, {gone and op["gone"]}, overlapping with {oargv if other else None} ({later}); changed: {sorted(new)[:6]}'
    # what is not the business of this command
    new = {f for f in new if not f.startswith('/home/ann/.config/') and '/error_' not in f and not (ran and f in (ran, ran.rpartition('/')[0] + '/.index.sqlite'))}
    now = kit.config_boxes(m, 'ann')
    want = changed(later, op, argv, gone, gone and op['gone']['kind'])
    if k == 'save' and not boxes and argv[1] == '-w':
        want = [HOME]
    ctx.check(now == want, 'wrong-boxes', lambda: f'{now}, should be {want}; {how}')
    s['boxes'] = now
    if k in ('add', 'forget'):
        ctx.check(ok(p) or k == 'add' and under(DIRS[op['dir']], gone), 'command-failed', how)
        ctx.check(not new, 'other-change', how)
    elif k == 'save':
        saved(ctx, m, op, s, p, [meant(b, op, argv) for b in (boxes, later)], new, gone, how, w)
    elif k in ('index', 'reindex'):
        indexed(ctx, m, op, p, [meant(b, op, argv) for b in (boxes, later)], new, gone, how)
    else:
        e = argv[-1]
        both = [first, newest(m, later, argv[2], gone), newest(m, boxes, argv[2], gone)]
        ctx.check(all(f == e or f.startswith(f'{e}/') or f == '/home/ann/w' for f in new), 'other-change', how)
        if ok(p):
            got = m.fs.h_files(f'{e}/output')
            ctx.check(any(got == a['data'] for x in both for a in x), 'wrong-version', lambda: f'{got}; there is {[(a["data"], a["time"]) for x in both for a in x]}; {how}')
        else:
            ctx.check(not all(both) and not new and p.result != ('exit', 0), 'not-found', how)
    ctx.case(len(boxes) > 1, argv[:-1] if k in ('save', 'edit') else argv, boxes, later, gone and op['gone'], sorted(f for f in new if '/home' not in f))


def saved(ctx, m, op, s, p, meant, new, gone, how, w):
    ways = [None if d is None or under(d[0], gone) else d[0] for d in meant]
    archives = [f for f in new if f.endswith('.zip')]
    if ok(p):
        ctx.check(len(archives) == 1 and m.fs.h_lookup(archives[0]), 'not-saved', how)
        d, _, f = archives[0].rpartition('/')
        ctx.check(d in ways, 'other-box', how)
        ctx.check(all(x.startswith(f'{d}/.index.sqlite') or x in (d, archives[0]) or d == HOME[1] and x == '/home/ann' for x in new), 'other-change', how)
        a = kit.beads_in(m, d).get(f)
        ctx.check(a and a['name'] == w.rpartition('/')[2] and a['data'] == {'o': f"out {op['text']}".encode()}, 'other-bead', how)
        ctx.check(archives[0] in p.stdout, 'wrong-report', how)
    else:
        ctx.check(not all(ways), 'save-fails', how)
        ctx.check(not new, 'other-change', how)


def indexed(ctx, m, op, p, meant, new, gone, how):
    ctx.check(ok(p) or op['form'] == 'dir' and under(DIRS[op['dir']], gone), 'command-failed', how)
    one, two = [set(x or ()) for x in meant]
    may = {d for d in one | two if not under(d, gone)}
    for f in new:
        d, _, n = f.rpartition('/')
        ctx.check(n.startswith('.index.sqlite') and d in may or f in may, 'other-change', how)
    if gone is None or not (one | two) - may:
        ctx.check('✗' not in p.stdout, 'index-fails', how)
    for d in {d for d in one & two if not under(d, gone)}:
        ctx.check(kit.indexed(m, d), 'not-indexed', lambda: f'{d}: {how}')
        seen = sorted((b['name'], b['content_id']) for b in kit.listing(ctx, m, 'bob', d))
        there = sorted({(a['name'], a['content_id']) for a in kit.beads_in(m, d).values()})
        ctx.check(seen == there, 'index-incomplete', lambda: f'{d} shows {seen}, has {there}; {how}')
