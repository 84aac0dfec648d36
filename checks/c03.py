"""C03: a bead whose save was reported survives power loss and is found."""

from sim import ref
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit

PROPERTY = 'C03'
LEVEL = 'fault_enumeration'
RULE = ('A case is a history of saves, indexing and edits by two users ending in a power cut, either right after a command '
        'was acknowledged or inside one; non-trivial when at least one save was acknowledged before the cut; distinct by the '
        'box contents that survive.')
RUNS = {'quick': 600, 'thorough': 60000}


def generate(rng, tier, i):
    names = [kit.gen_bead_name(rng) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < .62:
            ops.append(dict(op='save', user=rng.choice(['ann', 'bob']), ws=rng.randrange(2), content=kit.gen_content(rng, .05)))
        elif r < .75:
            ops.append(dict(op='index'))
        elif r < .83:
            ops.append(dict(op='reindex'))
        elif r < .9:
            ops.append(dict(op='box'))
        else:
            ops.append(dict(op='sync'))
    cut = dict(op=rng.choice(['save', 'save', 'index', 'reindex', 'new', 'status']), user=rng.choice(['ann', 'bob']),
               ws=rng.randrange(2), content=kit.gen_content(rng, .05))
    return dict(params=gen_params(rng), names=names, code=kit.gen_code(rng, 3), output=kit.gen_code(rng, 3), ops=ops,
                first_index=rng.random() < .5, cut=cut,
                cases=[dict(idle=True, salt=s) for s in range(3)] +
                      [dict(fault=dict(kind='power', frac=round(rng.random(), 5), bias=rng.choice(['mut', 'mut', None])))
                       for _ in range(5)])


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    box = m.box('b')
    ws = {}
    for u in ('ann', 'bob'):
        m.user(u, uid=1000)
        m.set_config(u, [('b', box)])
        for k, name in enumerate(sc['names']):
            m.fs.h_mkdirs(f'/home/{u}/w{k}', uid=m.users[u][0])
            ws[u, k] = kit.new_workspace(ctx, m, u, name, sc['code'], sc['output'], cwd=f'/home/{u}/w{k}')
    if sc['first_index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    m.fs.sync_all()
    code = kit.materialise(sc['code'])
    acked = {}                          # file name -> (content id, expected output)
    for op in sc['ops']:
        run_op(ctx, m, sc, op, ws, box, code, acked)
    # power fails
    cut = sc['cut']
    run = lambda f: do(m, cut, ws, sc, f)
    m.place_all(sc['cases'], run)
    point = m.fork_point()
    for case in sc['cases']:
        m.rewind(point)
        known = dict(acked)
        interrupted = None
        if case.get('idle'):
            m.w.advance(case['salt'] + 1)
            m.w.steps += case['salt']
            m.w.power_cut_between_ops()
            how = 'power cut while idle'
        else:
            before = set(kit.zips(m, box))
            p = run(case['fault'])
            how = f"power cut during {cut['op']} ({case['fault']}): {describe(p)}"
            if not (p.fault and p.fault.fired):
                acknowledge(ctx, m, cut, p, box, sc, code, before, known, how)
                m.w.power_cut_between_ops()
                how = f"power cut after {cut['op']}"
            else:
                interrupted = cut['op']
        judge(ctx, m, sc, case, how, box, code, known, interrupted)


def do(m, op, ws, sc, fault=None):
    kind = op['op']
    if kind == 'save':
        w = ws[op['user'], op['ws']]
        uid = m.users[op['user']][0]
        m.fs.h_write(f'{w}/output/result', kit.content(op['content']), uid=uid)
        return m.cli(op['user'], 'save', 'b', '-w', w, fault=fault)
    if kind == 'new':
        return m.cli('ann', 'new', 'another', fault=fault)
    if kind == 'status':
        return m.cli('ann', 'status', '-w', ws['ann', 0], fault=fault)
    return m.cli('ann', 'box', kind, fault=fault)


def run_op(ctx, m, sc, op, ws, box, code, acked):
    if op['op'] == 'sync':
        m.fs.sync_all()
        return
    if op['op'] == 'box':
        kit.expect_ok(ctx, m.cli('bob', 'box', 'list'), 'box list')
        return
    before = set(kit.zips(m, box))
    p = do(m, op, ws, sc)
    how = describe(p)
    kit.expect_ok(ctx, p, op['op'])
    acknowledge(ctx, m, op, p, box, sc, code, before, acked, how)


def acknowledge(ctx, m, op, p, box, sc, code, before, acked, how):
    if op['op'] != 'save' or not ok(p):
        return
    new = set(kit.zips(m, box)) - before
    ctx.check(len(new) == 1, 'success-without-bead', f'new files {sorted(new)} after {how}')
    (n,) = new
    output = dict(kit.materialise(sc['output']), result=kit.content(op['content']))
    a = kit.beads_in(m, box).get(n)
    ctx.check(a is not None and kit.matches(a, code, output), 'success-without-bead', f'{n} is not the bead; {how}')
    acked[n] = (a['content_id'], output)


def judge(ctx, m, sc, case, how, box, code, known, interrupted):
    arcs = kit.beads_in(m, box)
    for n, (cid, output) in known.items():
        ctx.check(n in arcs, 'acknowledged-bead-lost', f'{n} is missing or damaged after {how}')
        ctx.check(arcs[n]['content_id'] == cid and kit.matches(arcs[n], code, output), 'acknowledged-bead-changed', f'{n} after {how}')
    want = {cid for cid, _ in known.values()}
    seen = {b['content_id'] for b in kit.raw_listing(ctx, m, 'bob', box)}
    ctx.check(want <= seen, 'acknowledged-bead-not-found', f'{len(want - seen)} not listed (no index) after {how}')
    if interrupted not in ('index', 'reindex'):
        seen = {b['content_id'] for b in kit.listing(ctx, m, 'bob', box)}
        ctx.check(want <= seen, 'acknowledged-bead-not-found', f'{len(want - seen)} not listed after {how}')
    q = m.cli('bob', 'box', 'index')
    ctx.check(ok(q), 'command-failed', f'box index after {how}: {describe(q)}')
    after = kit.listing(ctx, m, 'bob', box)
    ctx.check(want <= {b['content_id'] for b in after}, 'acknowledged-bead-not-found', f'even after box index, after {how}')
    for b in after[-2:]:
        if b['content_id'] in want:
            output = next(o for c, o in known.values() if c == b['content_id'])
            kit.check_delivery(ctx, m, 'bob', box, b, code, output, how)
    ctx.case(known, bool(case.get('idle')), interrupted,
             tree_digest({k: v for k, v in m.fs.h_tree(box).items() if '.index' not in k}))
