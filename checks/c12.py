"""C12: commands touch nothing outside of what they are for, whatever archives, links and names they meet."""

import json

from sim import ref
from sim.machine import CONFIG, crashed, describe, gen_fault, gen_params, ok, tree_digest

from . import kit, world

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('A case is one command, possibly interrupted, on a machine with hostile archives (member names, input names, types), symbolic links and '
        'other people\'s files; non-trivial when something hostile or a link was within its reach; distinct by command, fault and state left.')
RUNS = {'quick': 1100, 'thorough': 60000}
KINDS = ('kill', 'kill', 'err', 'err', 'int', 'short', 'tornkill')
EVIL = ['../evil', '../../evil', '../../../precious/note', '/home/ann/precious/note', '..', '.', './x', 'a/../../evil', 'a/../b', '/etc/evil', '../work/code',
        '../.bead-meta/bead', '../../work/output/out', 'a/..', '\\..\\evil', 'C:\\evil', '//home/ann/evil', '../../../../../tmp/evil', 'dir/', '../', '',
        'a//b', '~/evil', '..\\evil', '../../../bob/diary', '../input/x', 'sub/../../.bead-meta/bead', '.bead-meta/bead', 'input', 'output', 'temp', 'input/x',
        '.bead-meta', 'output/q', 'a/./b', '...', '..hidden', '/', '/.', '../got', '../got2/x', '../box/x', '/proc/self/x', 'a/' * 30 + 'x']
NICKS = ['..', '.', '', '../..', '../../precious', '/home/ann/precious', '../output', '../../work2', '../.bead-meta', 'a/../../b', '../temp/kept', 'in__x', '../input', 'code']
OPS = ['edit'] * 4 + ['review'] * 4 + ['add'] * 6 + ['load'] * 3 + ['loadone'] * 3 + ['update'] * 3 + ['updatefile'] * 3 + ['unload', 'unloadone', 'unloadone', 'delete', 'delete'] + \
    ['save'] * 3 + ['autosave'] + ['discard'] * 4 + ['discardforce'] * 2 + ['new'] * 3 + ['index', 'index', 'reindex', 'status', 'status', 'list', 'version', 'boxadd', 'forget',
     'heads', 'websave', 'webdot', 'link', 'link', 'link', 'linkinput', 'linkinput', 'data', 'badsub']
LINKS = ['', 'code/', 'output/', 'temp/']
TARGETS = ['/home/ann/precious', '/home/ann/precious/note', '/home/ann/w/work2', '/home/bob', '/nowhere', '/home/ann/precious/locked', '/box/b']


def generate(rng, tier, i):
    evil = []
    for _ in range(rng.randint(1, 4)):
        e = dict(where=rng.choice(['data', 'data', 'code', 'both', 'meta']), names=[rng.choice(EVIL) for _ in range(rng.choice([1, 1, 2]))],
                 listed=rng.random() < .9, link=rng.random() < .15, name=rng.choice(['evil', 'evil', 'good', '..', 'new']))
        if e['where'] == 'meta':
            e['nicks'] = [rng.choice(NICKS) for _ in range(rng.choice([1, 1, 2]))]
        evil.append(e)
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = dict(op=rng.choice(OPS), ws=rng.choice([0, 0, 0, 1, 2, 2]), pick=rng.randrange(60), nick=rng.choice(['one', 'one', 'two', 'fresh', *NICKS]), target=rng.choice(TARGETS),
                  at=rng.choice(LINKS), dest=rng.choice(['got', 'got', 'got2', 'work', 'work2', '../x', 'link', 'DEFAULT']), cwd=rng.choice(['w', 'w', 'w/work', 'precious']))
        if rng.random() < .3:
            op['fault'] = gen_fault(rng, KINDS)
        ops.append(op)
        if op['op'] in ('edit', 'review') and rng.random() < .6:        # go on in the new workspace
            op.update(dest='got', cwd='w')
            for _ in range(rng.randint(1, 2)):
                ops.append(dict(op, op=rng.choice(['load', 'loadone', 'unload', 'delete', 'update', 'discard', 'status', 'save']), ws=2, nick=rng.choice(NICKS)))
                ops[-1].pop('fault', None)
    return dict(params=gen_params(rng), evil=evil, ops=ops, index=rng.random() < .3, links=[dict(at=rng.choice(LINKS), target=rng.choice(TARGETS)) for _ in range(rng.randint(0, 2))],
                tempdir=rng.random() < .1)


def evil_archive(e, k, good):
    data, code = {}, {}
    for n in e['names']:
        if e['where'] in ('data', 'both'):
            data[n] = b'evil'
        if e['where'] in ('code', 'both'):
            code[n] = b'evil'
    if k % 2:
        data['fine'] = code['fine'] = b'fine'
    inputs = [(n, good['kind'], good['content_id'], good['time']) for n in e.get('nicks', ())]
    b = ref.build_archive('evil', 'kind', world.stamp(good['us'] + (k + 1) * 10**6), data, code, inputs)
    if e['link']:                       # members claim to be symbolic links
        b = as_links(b)
    return b


def as_links(b):
    import io
    import zipfile
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(b)) as z, zipfile.ZipFile(out, 'w') as w:
        for i in z.infolist():
            x = zipfile.ZipInfo(i.filename, i.date_time)
            x.create_system = 3
            x.external_attr = (0o120777 if not i.filename.startswith('meta/') else 0o100644) << 16
            w.writestr(x, z.read(i))
    return out.getvalue()


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    for u in ('ann', 'bob'):
        m.user(u, uid=1000)
    h = m.fs.h_write
    h('/home/ann/precious/note', b'precious', uid=1000)
    h('/home/ann/precious/locked/key', b'secret', uid=1000, mode=0o400)
    m.fs.h_lookup('/home/ann/precious/locked').mode = 0o555
    h('/home/ann/evil', b'was here', uid=1000)
    h('/home/bob/diary', b'dear', uid=1000)
    h('/home/ann/w/work.txt', b'x', uid=1000)
    h('/etc/evil', b'root', uid=1000)
    box, spare = m.box('b'), m.box('c')
    m.set_config('ann', [('b', box)])
    t0 = world.start_us(sc) - 10**12
    good = [dict(world.put_bead(m, box, 'good', 'kind', world.stamp(t0 + i * 10**6), {'d': b'%d' % i}), us=t0 + i * 10**6) for i in range(2)]
    ws = []
    for name in ('work', 'work2'):
        w = kit.new_workspace(ctx, m, 'ann', name, {'code/x': 't:x', 'code2': 't:y'}, {'out': 't:y', 'd/e': 't:z'})
        for nick in ('one', 'two'):
            kit.expect_ok(ctx, m.cli('ann', 'input', 'add', nick, f"{box}/{good[0]['file']}", '-w', w), 'input add')
        h(f'{w}/temp/kept', b'kept', uid=1000)
        ws.append(w)
    files = [f"{box}/{g['file']}" for g in good]
    m.fs.h_mkdirs('/home/ann/dl', uid=1000)
    for k, e in enumerate(sc['evil']):
        try:
            b = evil_archive(e, k, good[0])
        except (ref.Bad, ValueError):
            continue
        n = f"{e['name']}_{world.stamp(t0 + (k + 5) * 10**6)}.zip"
        h(f'{box}/{n}', b, uid=1000)
        h(f'/home/ann/dl/{n}', b, uid=1000)
        files += [f'{box}/{n}', f'/home/ann/dl/{n}']
    m.fs.h_symlink('/home/ann/w/link', '/home/ann/w/work2', uid=1000)
    for l in sc['links']:
        link(m, ws[0], l, 'l0')
    if sc['tempdir']:
        m.fs.h_remove(f'{ws[0]}/temp')
        m.fs.h_symlink(f'{ws[0]}/temp', '/home/ann/precious', uid=1000)
    if sc['index']:
        m.cli('ann', 'box', 'index')
    for j, op in enumerate(sc['ops']):
        step(ctx, m, sc, op, ws, files, box, spare, j)


def link(m, w, l, name):
    d = f"{w}/{l['at']}".rstrip('/')
    node = m.fs.h_lookup(d)
    if l['target'] == w:                # (following a cycle of links would take forever)
        return
    if node is not None and node.kind == 'd' and name not in node.entries:
        m.fs.h_symlink(f'{d}/{name}', l['target'], uid=1000)


def step(ctx, m, sc, op, ws, files, box, spare, j):
    k, w = op['op'], (ws + ['/home/ann/w/got'])[op['ws']]
    f = files[op['pick'] % len(files)]
    cwd = f"/home/ann/{op['cwd']}"
    if m.fs.h_lookup(cwd) is None:
        cwd = '/home/ann/w'
    if k == 'link':
        if m.fs.h_lookup(w) is None:
            return
        return link(m, w, op, f'l{j + 1}')
    if k == 'linkinput':                # the user has the data elsewhere
        d = m.fs.h_lookup(f'{w}/input')
        if d is not None and d.kind == 'd' and 'one' in d.entries:
            m.fs.h_remove(f'{w}/input/one')
            m.fs.h_symlink(f'{w}/input/one', op['target'], uid=1000)
        return
    if k == 'data':
        if m.fs.h_lookup(f'{w}/output') is not None and m.fs.h_lookup(f'{w}/output').kind == 'd':
            m.fs.h_write(f'{w}/output/new{j}', b'n', uid=1000)
        return
    dest = op['dest']
    where = f'{cwd}/{dest}' if dest != 'DEFAULT' else f'{cwd}/{ref.file_bead_name(f)}'
    inputs = ('input', '.bead-meta')
    scope = []                          # what the command may change
    before = set(m.fs.h_tree('/'))
    cli = lambda *a: m.cli('ann', *a, cwd=cwd, fault=op.get('fault'))
    if k in ('edit', 'review'):
        taken = m.fs.h_lookup(where, follow=True) is not None
        scope = [] if taken else [real(m, where)]
        p = cli('edit', f, *([dest] if dest != 'DEFAULT' else []), *(['--review'] if k == 'review' else []))
    elif k == 'add':
        scope = [f'{w}/{d}' for d in inputs]
        p = cli('input', 'add', op['nick'], f if op['pick'] % 3 else 'good', '-w', w)
    elif k in ('load', 'unload', 'update'):
        scope = [f'{w}/{d}' for d in inputs]
        p = cli('input', k, '-w', w)
    elif k in ('loadone', 'unloadone'):
        scope = [f'{w}/{d}' for d in inputs]
        p = cli('input', k[:-3], op['nick'], '-w', w)
    elif k == 'updatefile':
        scope = [f'{w}/{d}' for d in inputs]
        p = cli('input', 'update', op['nick'], f, '-w', w)
    elif k == 'delete':
        scope = [f'{w}/{d}' for d in inputs]
        p = cli('input', 'delete', op['nick'], '-w', w)
    elif k == 'save':
        scope = [box + '/']
        p = cli('save', 'b', '-w', w)
    elif k == 'autosave':
        p = m.cli('bob', 'save', '-w', w, cwd=cwd, fault=op.get('fault'))
        scope = ['/home/bob/BeadBox', f'/home/bob/{CONFIG}', '/home/bob/.config']
    elif k == 'discard':
        scope = [w] if valid(m, w) else []
        p = cli('discard', w)
    elif k == 'discardforce':
        w = [*ws, '/home/ann/w/got', '/home/ann/w/link'][op['pick'] % 4]
        scope = [real(m, w)]
        p = cli('discard', '--force', w)
    elif k == 'new':
        scope = [real(m, where)] if m.fs.h_lookup(where) is None else []
        p = cli('new', dest if dest != 'DEFAULT' else 'fresh')
        if dest == 'DEFAULT':
            scope = [f'{real(m, cwd)}/fresh']
    elif k in ('index', 'reindex'):
        scope = [f'{box}/.index.sqlite']
        p = cli('box', k)
    elif k in ('boxadd', 'forget'):
        scope = [f'/home/ann/{CONFIG}']
        p = cli('box', 'add', 'c', spare) if k == 'boxadd' else cli('box', 'forget', 'c')
    elif k in ('websave', 'webdot'):
        scope = [f'{real(m, cwd)}/web.out']
        p = cli('web', 'save' if k == 'websave' else 'dot', 'web.out')
    elif k == 'badsub':
        p = cli('input', 'add', '--force', '../x')
    else:
        p = cli(*{'status': ['status', '-v', '-w', w], 'list': ['box', 'list'], 'version': ['version'], 'heads': ['web', 'heads']}[k])
    how = f"{k} {op['nick']} {f} {op['dest']} in {cwd} under {op.get('fault')}: {describe(p)}"
    ctx.check(p.result[0] != 'hang', 'hang', how)
    judge(ctx, m, p, scope, cwd, how, k, box, before)
    ctx.case(bool(sc['evil'] or sc['links']), k, op.get('fault') and str(op['fault']), p.result, tree_digest(m.fs.h_tree('/home/ann')))


def real(m, path):
    """Path with the links of its existing part resolved."""
    out = []
    for part in path.split('/'):
        if part in ('', '.'):
            continue
        if part == '..':
            out = out[:-1]
            continue
        node = m.fs.h_lookup('/' + '/'.join([*out, part]), follow=False)
        if node is not None and node.kind == 'l':
            t = node.target
            out = real(m, t if t.startswith('/') else '/' + '/'.join([*out, t])).split('/')[1:]
            continue
        out.append(part)
    return '/' + '/'.join(out)


def valid(m, w):
    d = lambda n, kind: (lambda x: x is not None and x.kind == kind)(m.fs.h_lookup(f'{w}/{n}'))
    return all(d(n, 'd') for n in ('input', 'output', 'temp')) and d('.bead-meta/bead', 'f')


def judge(ctx, m, p, scope, cwd, how, k, box, before):
    """Only what is in scope was touched (beside a crash report, the user's empty configuration directory and the index while searching)."""
    def allowed(path, event):
        if any(path == s or path.startswith(s if s.endswith(('/', '.sqlite')) else s + '/') for s in scope):
            return True
        if path.startswith(f'{box}/.index.sqlite') and k not in ('list', 'version'):
            return True
        d, _, n = path.rpartition('/')
        if n.startswith('error_') and n.endswith('.txt') and d == real(m, cwd) and (crashed(p) or p.fault):
            return True
        return event == 'mkdir' and ('/.config' in path)
    after = set(m.fs.h_tree('/'))
    for event, *paths in p.events:
        if event == 'browse':
            continue
        for path in paths[:1] if event == 'symlink' else paths:
            if path[1:] not in before and path[1:] not in after:
                continue                # temporary
            ctx.check(allowed(path, event), 'touched-' + event, lambda: f'{event} {paths} is out of {scope or "the scope of a read-only command"}; {how}')
