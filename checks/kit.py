"""Scenario pieces shared by the checks."""

import json

from sim import loader, ref
from sim.kernel import HarnessError
from sim.machine import (RESERVED, bead_dict, content, crashed, describe, gen_content, gen_fault, gen_params, gen_tree, ok,
                         outcome, put_tree, tree_digest)

BEAD_NAMES = ['foo', 'bar', 'a', 'data-2024', 'x.y', 'x.y.z', 'My Bead', 'ünï', '日本', 'foo_20240101', 'n' * 60, 'a_b', 'semi;c',
              '~t', '#h', 'p%20q', '.hid', 'a&b=c', "it's", 'zip', 'b.zip', 'UPPER', '+plus', '(paren)', 'x_y_z', 'foo-bar',
              'quo"te', 'do$lar', 'é', 'code', 'input', 'census_20200101_final', 'v_20200101T', 'log_20231231T235959_x', '_20200101_', 'a_2020-01-01', 'b_2020010',
              'c_202001011', 'temp', 'Data_1', 'data_1', 'datax1', 'X_Y', 'foo.zip.zip', 'a_20200101T0+0_b', 'i_1']
ODD_NAMES = ['st*r', 'q?m', '[ab]', 'x[1]', '[!z]', 'foo*', 'f?o', '*']
PLAIN_NAMES = ['foo', 'bar', 'baz', 'qux']


def gen_bead_name(rng, odd=.1):
    return rng.choice(ODD_NAMES) if rng.random() < odd else rng.choice(BEAD_NAMES)


def gen_code(rng, max_files=4, big=.02):
    return gen_tree(rng, max_files, RESERVED, big)


def materialise(files):
    return {p: content(s) for p, s in files.items()}


def expect_ok(ctx, p, what='setup'):
    if not ok(p):
        ctx.fail('command-failed', f'{what}: {describe(p)}')
    return p


def new_workspace(ctx, m, user, name, code, output, cwd=None):
    """`bead new` + files; returns the workspace path."""
    home = m.users[user][2]
    cwd = cwd or f'{home}/w'
    expect_ok(ctx, m.cli(user, 'new', name, cwd=cwd), 'bead new')
    ws = f'{cwd}/{name}'
    fill(m, user, ws, code, output)
    return ws


def fill(m, user, ws, code, output):
    uid = m.users[user][0]
    put_tree(m, ws, code, uid)
    put_tree(m, f'{ws}/output', output, uid)


def replace_files(m, user, ws, code, output):
    """The user edits the workspace: other code, other output."""
    for name in list(m.fs.h_list(ws)):
        if name not in RESERVED:
            m.fs.h_remove(f'{ws}/{name}')
    for name in list(m.fs.h_list(f'{ws}/output')):
        m.fs.h_remove(f'{ws}/output/{name}')
    fill(m, user, ws, code, output)


def save(ctx, m, user, ws, box='b', fault=None):
    return m.cli(user, 'save', box, '-w', ws, fault=fault)


def zips(m, box):
    """{file name: bytes} of the archives of a box directory."""
    node = m.fs.h_lookup(box)
    return {n: bytes(c.data) for n, c in node.entries.items() if n.endswith('.zip') and c.kind == 'f'}


def beads_in(m, box):
    """{file name: parsed} of the complete beads among the files of a box."""
    return {n: a for n, a in ref.box_archives(m.fs, box).items() if a is not None}


def matches(archive, code, output):
    return archive['code'] == code and archive['data'] == output


def listing(ctx, m, user, box, name='b'):
    """Beads a user sees in a box (fresh process); listing must never fail."""
    st, v = m.list_box(user, box, name)
    if st != 'ok':
        ctx.fail('listing-failed', f'listing box {box} fails: {st} {v}')
    return v


def hide_index(m, box):
    for n in [n for n in m.fs.h_list(box) if n.startswith('.index.sqlite')]:
        m.fs.h_remove(f'{box}/{n}')


def raw_listing(ctx, m, user, box, name='b'):
    """What a user sees who has no index: the box without its index."""
    if not indexed(m, box):
        return listing(ctx, m, user, box, name)
    s = m.save_state()
    hide_index(m, box)
    v = m.list_box(user, box, name)
    m.load_state(s)
    if v[0] != 'ok':
        ctx.fail('listing-failed', f'listing box {box} without index fails: {v}')
    return v[1]


def key_of(b):
    return (b['name'], b['content_id'])


def indexed(m, box):
    return any(n.startswith('.index.sqlite') for n in m.fs.h_list(box))


def fetch(m, user, box, bead, dest, name='b', what='data', fault=None):
    """Locate a listed bead and extract it: p.result -> ('return', [name, content_id]) or an exception."""
    def go():
        Box = loader.find('bead.box').Box
        Path = loader.find('pathlib').Path
        b = Box(name, Path(box))
        found = [x for x in b.all_beads() if str(x.name) == bead['name'] and x.content_id == bead['content_id']]
        if not found:
            raise LookupError('not listed')
        archive = b.resolve(found[0])
        archive.validate()
        if what in ('data', 'both'):
            archive.unpack_data_to(Path(dest) / 'data' if what == 'both' else Path(dest))
        if what in ('code', 'both'):
            archive.unpack_code_to(Path(dest) / 'code' if what == 'both' else Path(dest))
        return [str(archive.name), archive.content_id]
    return m.lib(user, go, fault=fault)


def config_boxes(m, user):
    """Boxes remembered in the configuration of a user, or None when it is unreadable."""
    from sim.machine import CONFIG
    node = m.fs.h_lookup(f'{m.users[user][2]}/{CONFIG}/env.json')
    if node is None:
        return []
    try:
        d = json.loads(bytes(node.data))
        return [(b['name'], b['directory']) for b in d.get('boxes', ())]
    except Exception:
        return None


def check_delivery(ctx, m, user, box, bead, code, output, how, raw=False, name='b'):
    """A listed bead can be located, verified and extracted, and is exactly (code, output)."""
    s = m.save_state()
    if raw:
        hide_index(m, box)
    dest = f'{m.users[user][2]}/got'
    f = fetch(m, user, box, bead, dest, name, what='both')
    tree = m.fs.h_files(dest) if m.fs.h_lookup(dest) else {}
    m.load_state(s)
    ctx.check(f.result[0] == 'return', 'bead-unusable', lambda: f'{bead["name"]} {bead["time"]}: {describe(f)}; after {how}')
    want = {f'data/{k}': v for k, v in output.items()}
    want.update({f'code/{k}': v for k, v in code.items()})
    ctx.check(tree == want, 'delivered-other-content', lambda: f'{diff(tree, want)}; after {how}')


def diff(got, want):
    missing = sorted(set(want) - set(got))
    extra = sorted(set(got) - set(want))
    other = sorted(k for k in set(got) & set(want) if got[k] != want[k])
    return f'missing {missing} extra {extra} different {other}'
