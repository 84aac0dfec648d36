"""C13: a content id is a function of the content alone, and tells different contents apart."""

import io
import random
import zipfile

from sim import loader, ref
from sim.machine import describe, gen_fault, gen_params, ok, tree_digest

from . import kit, world

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('A case is one build of a bead, or one reading of its content id, on a machine of its own (listing order, block size, clock, user, path, '
        'compression, comment, short transfers, archive member order) compared with the id the documented format gives; non-trivial when the bead has '
        'files and the machine differs from the first; distinct by content and machine.')
RUNS = {'quick': 1500, 'thorough': 40000}


def generate(rng, tier, i):
    files = lambda: kit.gen_code(rng, 8, .1 if i % 4 == 0 else .01)
    ts = world.stamp(rng.randrange(1_500_000_000, 1_700_000_000) * 10**6 + rng.choice([0, 1, 999999, 123456]), rng.choice([0, 60, -330, 845]))
    sc = dict(kind=rng.choice(['5f3b8a1e-0000-11ee-9d6b-0021cc73492e', 'kind', 'ünï kind', 'K"q\\']), time=ts, name=kit.gen_bead_name(rng), code=files(), output=files(),
              inputs=[[n, rng.choice(['k1', 'ünï']), '%0128x' % rng.getrandbits(512), ts] for n in rng.sample(['in', 'a', 'My In', 'ünï', 'z'], rng.choice([0, 0, 1, 3]))])
    sc['cases'] = [dict(params=gen_params(rng), user=rng.choice(['ann', 'bob']), path=rng.choice(['w', 'deep/er/w x', 'ünï']), stored=rng.random() < .4,
                        comment=rng.choice(['', 'c', 'ünï' * 9]), offset=rng.choice([0, 10**9, 10**13]), order=rng.randrange(10**6), mode=rng.choice([0o644, 0o600, 0o755, 0o444]),
                        mtime=rng.choice([None, 10**18, 4 * 10**17]),
                        fault=dict(gen_fault(rng, ('short',), .3), sticky=rng.choice([0, 3, 1000])) if rng.random() < .35 else None) for _ in range(3)]
    sc['seed'] = rng.randrange(10**9)
    return sc


def build(ctx, sc, c, code, output, inputs, kind, time, name):
    """The bead as made by bead on a machine of its own -> (machine, user, archive path)."""
    params = dict(c['params'], start='2025-06-01T00:00:00')
    m = ctx.machine(params)
    m.user(c['user'], offset_us=c['offset'])
    uid = m.users[c['user']][0]
    base = f"/home/{c['user']}/{c['path']}"
    m.fs.h_mkdirs(base, uid=uid)
    box = m.box('b')
    ws, dest = f'{base}/{name}', f"{box}/{name}_{time}.zip"

    def create():
        Workspace = loader.find('bead.workspace').Workspace
        w = Workspace(ws)
        w.create(kind)
        rng = random.Random(c['order'])
        for i in rng.sample(inputs, len(inputs)):
            w.add_input(*i)
    p = m.lib(c['user'], create)
    ctx.check(p.result[0] == 'return', 'command-failed', lambda: describe(p))
    rng = random.Random(c['order'])
    todo = [(ws, code, k) for k in sorted(code)] + [(f'{ws}/output', output, k) for k in sorted(output)]
    rng.shuffle(todo)
    for d, files, k in todo:
        m.fs.h_mkdirs(f'{d}/{k}'.rpartition('/')[0], uid=uid)
        m.fs.h_write(f'{d}/{k}', files[k], uid=uid, mode=c['mode'], mtime=c['mtime'])

    def pack():
        Workspace = loader.find('bead.workspace').Workspace
        Path = loader.find('pathlib').Path
        Workspace(ws).pack(Path(dest), time, c['comment'])
    fault = c.get('fault')
    if fault and 'frac' in fault:
        m.place(fault, lambda f: m.lib(c['user'], pack))
    p = m.lib(c['user'], pack, fault=fault, env={'BEAD_ZIP_COMPRESSION': 'off'} if c['stored'] else None)
    ctx.check(p.result[0] == 'return', 'command-failed', lambda: f"pack under {fault}: {describe(p)}")
    return m, dest


def parse(ctx, b, how):
    try:
        return ref.parse_archive(b)
    except ref.Bad as e:
        ctx.fail('incompatible-archive', f'{e}; {how}')


def read_id(ctx, m, user, path, fault=None):
    def go():
        return loader.find('bead.ziparchive').ZipArchive(loader.find('pathlib').Path(path)).content_id
    p = m.lib(user, go, fault=fault)
    ctx.check(p.result[0] == 'return', 'content-id-unreadable', lambda: f'{path}: {describe(p)} under {fault}')
    return p.result[1]


def execute(ctx, sc):
    code, output = kit.materialise(sc['code']), kit.materialise(sc['output'])
    # (timestamps before 2025 only: the archive must not be of the future)
    inputs = sc['inputs']
    want = ref.content_id_of(ref.build_archive(sc['name'], sc['kind'], sc['time'], output, code, inputs))
    ids = {}
    for c in sc['cases']:
        m, path = build(ctx, sc, c, code, output, inputs, sc['kind'], sc['time'], sc['name'])
        how = {k: v for k, v in c.items() if k != 'params'}
        a = parse(ctx, m.fs.h_read(path), how)
        ctx.check(a['content_id'] == want, 'content-id-differs', lambda: f'archive of {sorted(a["members"])} has another id than documented; {how}')
        got = read_id(ctx, m, c['user'], path, c.get('fault') and dict(kind='short', at=3, sticky=1000))
        ctx.check(got == want, 'content-id-differs', lambda: f'{got[:12]} read, should be {want[:12]}; {how}')
        ids[want] = 'the bead itself'
        ctx.case(bool(code or output), want, tree_digest(m.fs.h_tree('/home')), str(sorted(how.items())))
    # the same bead in other zip files: all ways to see it agree
    rng = random.Random(sc['seed'])
    b = m.fs.h_read(path)
    box = path.rpartition('/')[0]
    for k in range(3):
        m.fs.h_write(path, rezip(b, rng), uid=1000)
        user = sc['cases'][-1]['user']
        got = read_id(ctx, m, user, path)
        ctx.check(got == want, 'content-id-differs', 'after archiving the same files in another way')
        if k == 1:
            m.set_config(user, [('b', box)])
            kit.expect_ok(ctx, m.cli(user, 'box', 'index'), 'box index')
        seen = kit.listing(ctx, m, user, box)
        ctx.check([x['content_id'] for x in seen] == [want], 'content-id-differs', f'in the listing, index: {k > 0}')
        raw = kit.raw_listing(ctx, m, user, box)
        ctx.check([x['content_id'] for x in raw] == [want], 'content-id-differs', 'in the listing without index')
        ctx.case(True, 'rezip', want, k)
    # everything else has another
    for what, (c2, o2, i2, kind, time, name) in variants(sc, rng, code, output, inputs):
        m, path = build(ctx, sc, sc['cases'][0], c2, o2, i2, kind, time, name)
        got = read_id(ctx, m, sc['cases'][0]['user'], path)
        ctx.check(got not in ids, 'content-id-shared', lambda: f'{what} and {ids.get(got)}')
        ctx.check(got == parse(ctx, m.fs.h_read(path), what)['content_id'], 'content-id-differs', what)
        ids[got] = what
        ctx.case(True, what, got)


def rezip(b, rng):
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(b)) as z, zipfile.ZipFile(out, 'w') as w:
        names = z.namelist()
        rng.shuffle(names)
        w.comment = b'again'
        for n in names:
            i = zipfile.ZipInfo(n, (2000 + rng.randrange(20), 1, 1, 0, 0, 0))
            w.writestr(i, z.read(n), rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
        if rng.random() < .3:
            w.writestr('note-to-self.txt', b'not part of the bead')
    return out.getvalue()


def variants(sc, rng, code, output, inputs):
    base = [code, output, inputs, sc['kind'], sc['time'], sc['name']]
    out = []

    def add(what, **kw):
        v = list(base)
        for k, x in kw.items():
            v['code output inputs kind time name'.split().index(k)] = x
        out.append((what, v))
    add('another kind', kind=sc['kind'] + 'x')
    add('another time', time=sc['time'][:20] + ('1' if sc['time'][20] != '1' else '2') + sc['time'][21:])
    add('another input', inputs=inputs + [['other', 'k', '0' * 128, sc['time']]])
    add('another file', output={**output, 'new file': b''})
    if inputs:
        n = [list(i) for i in inputs]
        n[0][2] = '1' * 128
        add('another version of input', inputs=n)
    for label, files in (('output', output), ('code', code)):
        if files:
            k = rng.choice(sorted(files))
            b = bytearray(files[k])
            if b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                add(f'bit flip in {label}', **{label: {**files, k: bytes(b)}})
            add(f'longer {label}', **{label: {**files, k: files[k] + b'\0'}})
            rest = {x: v for x, v in files.items() if x != k}
            add(f'less {label}', **{label: rest})
            if 'renamed' not in rest:
                add(f'renamed {label}', **{label: {**rest, 'renamed': files[k]}})
    return [rng.choice(out) for _ in range(3)] if len(out) < 3 else rng.sample(out, 3)
