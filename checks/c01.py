"""C01: what save and extract report as done is exactly the files that went in."""

from sim import loader, ref
from sim.kernel import Policy
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('A case is one save, edit --review or input add of a generated workspace, alone under an injected I/O fault (error, '
        'short transfer) or none, or while another process rewrites files of the workspace; non-trivial when it moved at '
        'least one file; distinct by the files involved and the fault.')
RUNS = {'quick': 800, 'thorough': 60000}
KINDS = ('err', 'err', 'short')


def generate(rng, tier, i):
    big = .25 if i % 7 == 0 else .02
    sc = dict(
        params=gen_params(rng), name=kit.gen_bead_name(rng), code=kit.gen_code(rng, 8, big), output=kit.gen_code(rng, 8, big),
        stored=rng.random() < .3, index=rng.random() < .3, by_path=rng.random() < .3,
        links=rng.random() < .25, odd=rng.choice([None] * 12 + ['nonutf8', 'old', 'exec', 'readonly', 'emptydir']),
        cases=[])
    for op in ('save', 'edit', 'add'):
        sc['cases'].append(dict(op=op, fault=None))
        for _ in range(3):
            f = gen_fault(rng, KINDS, .5)
            if f['kind'] == 'short' and rng.random() < .5:
                f['sticky'] = 1000
            sc['cases'].append(dict(op=op, fault=f))
    if rng.random() < .4:
        sc['cases'].append(dict(op='busy', policy=dict(mode='random', seed=rng.getrandbits(30), p=rng.choice([.3, .6, .9])),
                                edits=sorted(round(rng.random(), 3) for _ in range(rng.randint(1, 8)))))
    rng.shuffle(sc['cases'])
    return sc


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann')
    m.user('bob')
    box = m.box('b')
    m.set_config('ann', [('b', box)])
    m.set_config('bob', [('b', box)])
    ws = kit.new_workspace(ctx, m, 'ann', sc['name'], sc['code'], sc['output'])
    uid = m.users['ann'][0]
    code, output = kit.materialise(sc['code']), kit.materialise(sc['output'])
    refused = False
    if sc['links']:
        m.fs.h_mkdirs('/home/ann/elsewhere/d', uid=uid)
        m.fs.h_write('/home/ann/elsewhere/d/f', b'linked file', uid=uid)
        if not any(k.split('/')[0] == 'lnk' for k in code):
            m.fs.h_symlink(f'{ws}/lnk', '/home/ann/elsewhere/d', uid=uid)
            code['lnk/f'] = b'linked file'
        m.fs.h_symlink(f'{ws}/output/olnk', '/home/ann/elsewhere/d/f', uid=uid)
        output['olnk'] = b'linked file'
    odd = sc['odd']
    if odd == 'nonutf8':
        m.fs.h_write(f'{ws}/output/bad\udcff', b'x', uid=uid)
        output['bad\udcff'] = b'x'
        refused = True
    elif odd == 'old':
        m.fs.h_write(f'{ws}/output/old', b'x', uid=uid, mtime=12345 * 10**9)
        output['old'] = b'x'
        refused = True
    elif odd == 'exec':
        m.fs.h_write(f'{ws}/run', b'#!/bin/sh\n', uid=uid, mode=0o755)
        code['run'] = b'#!/bin/sh\n'
    elif odd == 'readonly':
        m.fs.h_write(f'{ws}/ro', b'ro', uid=uid, mode=0o444)
        code['ro'] = b'ro'
    elif odd == 'emptydir':
        m.fs.h_mkdirs(f'{ws}/output/empty/dir', uid=uid)
    if sc['index']:
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index'), 'box index')
    env = {'BEAD_ZIP_COMPRESSION': 'off'} if sc['stored'] else None
    save = lambda f: m.cli('ann', 'save', 'b', '-w', ws, fault=f, env=env)
    saves = [c for c in sc['cases'] if c['op'] == 'save']
    m.place_all(saves, save)
    point = m.fork_point()
    moved = len(code) + len(output)
    for c in saves:
        m.rewind(point)
        p = save(c['fault'])
        how = f"save under {c['fault']}: {describe(p)}"
        if not fired(p) and not refused:
            ctx.check(ok(p), 'command-failed', how)
        ctx.check(p.result[0] != 'hang', 'hang', how)
        if ok(p):
            arcs = kit.beads_in(m, box)
            ctx.check(len(arcs) == 1, 'success-without-bead', f'{sorted(kit.zips(m, box))} after {how}')
            (a,) = arcs.values()
            check_archive(ctx, a, code, output, how)
        note(ctx, c, p, moved, m)
    for c in [c for c in sc['cases'] if c['op'] == 'busy']:
        m.rewind(point)
        busy(ctx, m, sc, c, ws, box, code, output, env)
    # extraction by somebody else
    m.rewind(point)
    p = save(None)
    if not ok(p) and refused:
        return
    kit.expect_ok(ctx, p, 'save')
    (fname,) = kit.zips(m, box)
    src = f'{box}/{fname}' if sc['by_path'] else sc['name']
    if src.startswith('-'):
        src = './' + src
    kit.expect_ok(ctx, m.cli('bob', 'new', 'consumer'), 'new')
    ops = {'edit': lambda f: m.cli('bob', 'edit', src, 'got', '--review', fault=f),
           'add': lambda f: m.cli('bob', 'input', 'add', 'nick', src, '-w', 'consumer', fault=f)}
    for op, run in ops.items():
        cases = [c for c in sc['cases'] if c['op'] == op]
        if not cases:
            continue
        m.place_all(cases, run)
        point = m.fork_point()
        for c in cases:
            m.rewind(point)
            p = run(c['fault'])
            how = f"{op} under {c['fault']}: {describe(p)}"
            ctx.check(p.result[0] != 'hang', 'hang', how)
            if not fired(p):
                ctx.check(ok(p), 'command-failed', how)
            if op == 'edit' and ok(p):
                got = m.fs.h_files('/home/bob/w/got')
                want = {f'output/{k}': v for k, v in output.items()}
                want.update(code)
                got = {k: v for k, v in got.items() if not k.startswith('.bead-meta/')}
                ctx.check(got == want, 'extracted-other-files', lambda: f'{kit.diff(got, want)}; {how}')
            if op == 'add':
                d = '/home/bob/w/consumer/input/nick'
                if ok(p) and not fired(p):
                    ctx.check(m.fs.h_lookup(d) is not None, 'input-missing', how)
                if m.fs.h_lookup(d) is not None:
                    got = m.fs.h_files(d)
                    ctx.check(got == output, 'input-has-other-files', lambda: f'{kit.diff(got, output)}; {how}')
            note(ctx, c, p, moved, m)


def fired(p):
    return p.fault is not None and p.fault.fired


def note(ctx, c, p, moved, m):
    ctx.case(moved, c['op'], p.fault and p.fault.kind, fired(p), p.fault and p.fault.errno, p.result[0],
             tree_digest(m.fs.h_tree('/home')), tree_digest(m.fs.h_tree('/box')))


def check_archive(ctx, a, code, output, how):
    ctx.check(a['code'] == code, 'saved-other-code', lambda: f"{kit.diff(a['code'], code)}; {how}")
    ctx.check(a['data'] == output, 'saved-other-output', lambda: f"{kit.diff(a['data'], output)}; {how}")


def busy(ctx, m, sc, c, ws, box, code, output, env):
    """Somebody keeps rewriting one file while the save runs."""
    m.fs.h_write(f'{ws}/output/changing', b'0' * 300, uid=m.users['ann'][0])

    t = m.w.true_us
    st = m.save_state()
    m.cli('ann', 'save', 'b', '-w', ws, env=env)
    took = m.w.true_us - t
    m.load_state(st)

    def rewrite():
        os = loader.find('os')
        open_ = loader.find('io').open
        sleep = loader.find('time').sleep
        last = 0
        for k, frac in enumerate(c['edits']):
            sleep((frac - last) * took / 1e6)
            last = frac
            with open_(f'{ws}/output/changing', 'r+b') as f:
                f.write(bytes([65 + k]) * [300, 10, 300, 500, 300, 1][k % 6])
            if k % 3 == 2:
                with open_(f'{ws}/output/changing.new', 'wb') as f:
                    f.write(b'replaced %d' % k)
                os.rename(f'{ws}/output/changing.new', f'{ws}/output/changing')
    s = m.process('ann', None, ['bead', 'save', 'b', '-w', ws], None, env, label='save')
    w = m.process('ann', None, ['editor'], label='editor')
    g = m.w.run_group([(s, m._cli_main), (w, rewrite)], Policy(c['policy']))
    c['policy'] = {'mode': 'replay', 'switches': g.switch_log}
    how = f'save while a file changes: {describe(s)}'
    ctx.check(s.result[0] != 'hang', 'hang', how)
    if ok(s):
        zips, arcs = kit.zips(m, box), kit.beads_in(m, box)
        ctx.check(len(zips) == 1 and len(arcs) == 1, 'saved-bead-damaged', f'{sorted(zips)} good: {sorted(arcs)}; {how}')
        (a,) = arcs.values()
        data = {k: v for k, v in a['data'].items() if not k.startswith('changing')}
        ctx.check(a['code'] == code and data == output, 'saved-other-files', how)
        ctx.count('saves of changing files that succeeded')
    ctx.case(True, 'busy', len(g.switch_log), tree_digest(m.fs.h_tree('/box')))
