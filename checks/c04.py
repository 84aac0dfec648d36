"""C04: a damaged or tampered bead is never delivered as if it were the bead."""

import json

from sim import ref
from sim.machine import describe, gen_params, ok, tree_digest

from . import damage, kit

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('A case is one delivery (input add / load / update, edit, edit --review, library extraction) of a bead whose archive '
        'was damaged, tampered with or misread; non-trivial when the archive bytes differ or the misread happened; distinct '
        'by kind of damage, operation and resulting archive.')
RUNS = {'quick': 700, 'thorough': 60000}
OPS = ['add', 'add-name', 'load', 'update', 'update-prev', 'edit', 'review', 'fetch']


def generate(rng, tier, i):
    big = .3 if i % 6 == 0 else .02
    cases = [dict(op=rng.choice(OPS), damage=None, fault=None)]
    for _ in range(12):
        c = dict(op=rng.choice(OPS), damage=None, fault=None)
        if rng.random() < .2:
            c['fault'] = dict(kind='rot', frac=round(rng.random(), 5), path='.zip')
            if rng.random() < .5:
                c['fault']['bias'] = 'late'
        else:
            c['damage'] = damage.gen(rng)
        cases.append(c)
    return dict(params=gen_params(rng), name=kit.gen_bead_name(rng, .05), index=rng.random() < .4, stored=rng.random() < .4,
                v1=dict(code=kit.gen_code(rng, 4, big), output=kit.gen_code(rng, 5, big)),
                v2=dict(code=kit.gen_code(rng, 4, big), output=kit.gen_code(rng, 5, big)), cases=cases)


def meta_of(m, ws):
    b = m.fs.h_read(f'{ws}/.bead-meta/bead')
    try:
        return json.loads(b)
    except (TypeError, ValueError):
        return None


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    m.user('bob', uid=1000)
    box = m.box('b')
    m.set_config('ann', [('b', box)])
    m.set_config('bob', [('b', box)])
    env = {'BEAD_ZIP_COMPRESSION': 'off'} if sc['stored'] else None
    ws = kit.new_workspace(ctx, m, 'ann', sc['name'], sc['v1']['code'], sc['v1']['output'])
    known = {}
    files = []
    for v in ('v1', 'v2'):
        if v == 'v2':
            kit.replace_files(m, 'ann', ws, sc['v2']['code'], sc['v2']['output'])
        before = set(kit.zips(m, box))
        kit.expect_ok(ctx, m.cli('ann', 'save', 'b', '-w', ws, env=env), 'save')
        (f,) = set(kit.zips(m, box)) - before
        a = kit.beads_in(m, box).get(f)
        ctx.check(a is not None, 'success-without-bead', f)
        known[a['content_id']] = a
        files.append(f)
        m.w.advance(1000)
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    for w in ('fresh', 'pinned', 'loaded', 'later'):
        kit.expect_ok(ctx, m.cli('bob', 'new', w), 'new')
    home = '/home/bob/w'
    for w, f in (('pinned', 0), ('loaded', 0), ('later', 1)):
        kit.expect_ok(ctx, m.cli('bob', 'input', 'add', 'nick', f'{box}/{files[f]}', '-w', w), 'input add')
    kit.expect_ok(ctx, m.cli('bob', 'input', 'unload', 'nick', '-w', 'pinned'), 'unload')
    name = sc['name']
    runs = {
        'add': (1, 'fresh', lambda f: m.cli('bob', 'input', 'add', 'nick', f'{box}/{files[1]}', '-w', 'fresh', fault=f)),
        'add-name': (1, 'fresh', lambda f: m.cli('bob', 'input', 'add', 'nick', name, '-w', 'fresh', fault=f)),
        'load': (0, 'pinned', lambda f: m.cli('bob', 'input', 'load', '-w', 'pinned', fault=f)),
        'update': (1, 'loaded', lambda f: m.cli('bob', 'input', 'update', '-w', 'loaded', fault=f)),
        'update-prev': (0, 'later', lambda f: m.cli('bob', 'input', 'update', 'nick', '-P', '-w', 'later', fault=f)),
        'edit': (1, 'got', lambda f: m.cli('bob', 'edit', f'{box}/{files[1]}', 'got', fault=f)),
        'review': (0, 'got', lambda f: m.cli('bob', 'edit', f'{box}/{files[0]}', 'got', '--review', fault=f)),
        'fetch': (1, None, None),
    }
    cids = list(known)
    point = m.fork_point()
    for c in sc['cases']:
        m.rewind(point)
        op = c['op']
        which, w, run = runs[op]
        legit = dict(known)
        path = f'{box}/{files[which]}'
        old = m.fs.h_read(path)
        if op == 'fetch':
            bead = dict(name=name, content_id=cids[which])
            run = lambda f: kit.fetch(m, 'bob', box, bead, f'{home}/got', what='both', fault=f)
        changed = False
        if c['damage']:
            new = damage.apply(c['damage'], old)
            changed = new != old
            node = m.fs.h_lookup(path)
            node.data[:] = new
            node.version += 1
            if c['damage']['kind'] in damage.FORGED:
                try:
                    a = ref.parse_archive(new)  # a bead of its own right, with its own content id
                    legit[a['content_id']] = a
                except ref.Bad:
                    pass                        # (there was nothing to forge)
        f = c['fault']
        if f and 'frac' in f:
            if f.pop('bias', None):
                f['frac'] = .5 + f['frac'] / 2
            m.place(f, run)
        p = run(f)
        fired = f is not None and p.fault.fired
        how = f"{op} with {c['damage'] or f}: {describe(p)}"
        ctx.check(p.result[0] != 'hang', 'hang', how)
        clean = not changed and not fired
        if clean:
            ctx.check(ok(p), 'command-failed', how)
        if op == 'fetch':
            if ok(p):
                want = {f'data/{k}': v for k, v in known[cids[which]]['data'].items()}
                want.update({f'code/{k}': v for k, v in known[cids[which]]['code'].items()})
                got = m.fs.h_files(f'{home}/got') if m.fs.h_lookup(f'{home}/got') else {}
                ctx.check(p.result[1][1] == cids[which] and got == want, 'damage-delivered', lambda: f'{kit.diff(got, want)}; {how}')
        elif op in ('edit', 'review'):
            d = f'{home}/got'
            meta = meta_of(m, d)
            if ok(p) or meta is not None:
                got = {k: v for k, v in m.fs.h_files(d).items() if not k.startswith('.bead-meta/')}
                fits = [a for a in legit.values() if got == workspace_files(a, op == 'review') and meta is not None
                        and meta.get('kind') == a['kind'] and inputs_of(meta) == a['inputs']]
                ctx.check(fits, 'damage-delivered', f'the workspace is not any saved one; {how}')
                if clean:
                    ctx.check(any(a['content_id'] == cids[which] for a in fits), 'other-bead-delivered', how)
        else:
            judge_input(ctx, m, c, op, f'{home}/{w}', legit, cids, which, clean, how)
        ctx.case(changed or fired, op, c['damage'] and c['damage']['kind'], bool(fired), p.result[0], tree_digest(m.fs.h_tree(box)),
                 tree_digest(m.fs.h_tree(home)))


def inputs_of(meta):
    return sorted([k, v['kind'], v['content_id'], v['freeze_time']] for k, v in meta['inputs'].items())


def workspace_files(a, review):
    d = dict(a['code'])
    if review:
        d.update({f'output/{k}': v for k, v in a['data'].items()})
    return d


def judge_input(ctx, m, c, op, ws, legit, cids, which, clean, how):
    meta = meta_of(m, ws)
    ctx.check(meta is not None, 'workspace-destroyed', how)
    rec = meta['inputs'].get('nick')
    d = f'{ws}/input/nick'
    loaded = m.fs.h_lookup(d) is not None
    if op != 'add' and op != 'add-name':
        ctx.check(rec is not None, 'input-forgotten', how)
    if rec is not None:
        a = legit.get(rec['content_id'])
        ctx.check(a is not None and (rec['kind'], rec['freeze_time']) == (a['kind'], a['time']), 'damage-recorded',
                  f'recorded input {rec} is no bead; {how}')
    if op == 'load':
        ctx.check(rec['content_id'] == cids[0], 'pin-changed', how)
    if loaded:
        ctx.check(rec is not None, 'damage-delivered', f'input data without record; {how}')
        got = m.fs.h_files(d)
        ctx.check(got == a['data'], 'damage-delivered', lambda: f"{kit.diff(got, a['data'])} as {rec['content_id'][:8]}; {how}")
    if clean:
        ctx.check(loaded and rec['content_id'] == cids[which], 'not-delivered', how)
    if op in ('update', 'update-prev') and not loaded and c['damage'] is not None:
        ctx.fail('input-lost', f'a good input is gone because of a damaged bead; {how}')
