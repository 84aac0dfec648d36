"""C08: searching finds exactly the matching beads, the same with and without an index."""

from sim import loader, ref
from sim.machine import bead_dict, describe, gen_params, ok, tree_digest

from . import kit, world

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('A case is one query (conditions, one way of picking, one or several boxes) against generated boxes, asked with and without index '
        'on a machine of some time zone and directory order; non-trivial when the box holds a matching and a non-matching bead; distinct by '
        'query, its answer and the boxes.')
RUNS = {'quick': 2200, 'thorough': 60000}
ENDS = ['first', 'oldest', 'newest', 'newer', 'older', 'all', 'all']
TIMES = ['at_time', 'newer_than', 'older_than', 'at_or_newer', 'at_or_older']
OFFSETS = [0, 60, 120, -300, -210, 330, 345, 840, -720, 1]


def generate(rng, tier, i):
    base = rng.sample(kit.BEAD_NAMES + kit.ODD_NAMES, 2)
    names = base + [rng.choice([base[0] + '_20240101', base[0] + '_20200101T000000000000+0000', base[0] + '*', base[0] + 'x', base[0][:-1] or 'y',
                                base[0].swapcase(), '[' + base[0] + ']', base[0] + '_', base[0] + '.zip', base[0] + ' '])]
    names = [n if '__' not in n else 'x' + base[0] for n in names]    # (not a name)
    nbox = rng.choice([1, 1, 2, 3])
    beads, t = [], 0
    for n in range(rng.randint(0, 9)):
        t += rng.choice([0, 1, 1, 1, 500_000, 999_999, 10**6, 3600 * 10**6, rng.randrange(10**13)])
        beads.append(dict(name=rng.choice(names), kind=rng.choice(['k1', 'k2', 'k3', 'k%', 'K1', "k'"]), back=t, zone=rng.choice(OFFSETS),
                          boxes=sorted(rng.sample(range(nbox), rng.choice([1, 1, 1, nbox]))), filetime=rng.random() < .1,
                          same=rng.random() < .15, early=rng.random() < .08))
    queries = []
    for _ in range(10):
        conds = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            what = rng.choice(['by_name', 'by_name', 'by_kind', 'by_content_id'] + TIMES)
            conds.append(dict(what=what, pick=rng.randrange(20), shift=rng.choice([0, 0, 0, 1, -1, 2, 10**6]), zone=rng.choice(OFFSETS),
                              form=rng.choice(['str', 'str', 'dt', 'local']), name=rng.choice(names + base + [rng.choice(kit.BEAD_NAMES)]),
                              kind=rng.choice(['k1', 'k2', 'k3', 'k_'])))
        queries.append(dict(conds=conds, end=rng.choice(ENDS), n=rng.choice([0, 1, 1, 1, 2, 3]), unique=rng.random() < .3,
                            boxes=sorted(rng.sample(range(nbox), rng.randint(1, nbox)), key=lambda _: rng.random())))
    live = [dict(do=rng.choice(['add', 'add', 'remove', 'rename', 'copy', 'move', 'store']), pick=rng.randrange(50), box=rng.randrange(nbox), name=rng.choice(names), kind=rng.choice(['k1', 'k2']),
                 back=rng.choice([t, rng.randrange(10**13)]), zone=rng.choice(OFFSETS), ask=rng.randrange(10)) for _ in range(rng.randint(2, 6))] if rng.random() < .3 else []
    return dict(params=gen_params(rng), beads=beads, nbox=nbox, queries=queries, live=live, index=[rng.choice(['late', 'early', 'none']) for _ in range(nbox)])


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    dirs = [m.box(f'b{i}') for i in range(sc['nbox'])]
    m.set_config('ann', [(f'b{i}', d) for i, d in enumerate(dirs)])
    t0 = world.start_us(sc) - 10**9
    model = []
    for i, b in enumerate(sc['beads']):
        if i == len(sc['beads']) // 2:
            for j, d in enumerate(dirs):
                if sc['index'][j] == 'early':
                    kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--box', f'b{j}'), 'box index')
        us = -5 * 10**15 + b['back'] if b['early'] else t0 - b['back']
        time = world.stamp(us, b['zone'])
        data = {'f': b'same' if b['same'] else str(i).encode()}
        older = [a for a in model if a['us'] < us][-2:]
        inputs = [(f'in{n}', a['kind'], a['content_id'], a['time']) for n, a in enumerate(older)] if i % 2 else ()
        fname = f"{b['name']}_{world.stamp(us + 777, 0)}.zip" if b['filetime'] else None
        for j in b['boxes']:
            if (fname or f"{b['name']}_{time}.zip") in kit.zips(m, dirs[j]):
                continue
            a = world.put_bead(m, dirs[j], b['name'], b['kind'], time, data, {}, inputs, file_name=fname)
            key = (j, b['name'], a['content_id'])
            model = [x for x in model if x['key'] != key and (x['box'], x['file']) != (j, a['file'])]
            model.append(dict(a, us=us, box=j, key=key))
    # two files of one bead in a box are outside of the model
    files = {(j, n) for j, d in enumerate(dirs) for n in kit.zips(m, d)}
    for j, n in files - {(x['box'], x['file']) for x in model}:
        m.fs.h_remove(f'{dirs[j]}/{n}')
    for j, d in enumerate(dirs):
        if sc['index'][j] == 'early':
            kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--box', f'b{j}'), 'box index')
    for indexed in (False, True):
        if indexed:
            for j in range(sc['nbox']):
                if sc['index'][j] == 'late':
                    kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--box', f'b{j}'), 'box index')
        for q in sc['queries']:
            ask(ctx, m, q, model, dirs, indexed)
    if sc.get('live'):
        live(ctx, m, sc, model, dirs, t0)


def live(ctx, m, sc, model, dirs, t0):
    """The same queries and boxes are used again and again by one process, while others change what is in the boxes."""
    asked = []

    def process():
        Path = loader.find('pathlib').Path
        Box = loader.find('bead.box').Box
        BoxIndex = loader.find('bead.box_index').BoxIndex
        boxes = [Box(f'b{j}', Path(d)) for j, d in enumerate(dirs)]
        todo = []
        for q in sc['queries']:
            calls = answer(q, model)[1]
            mine = [boxes[j] for j in q['boxes']]
            todo.append((q, calls, mine, build(q, calls, mine)))
        for n, op in enumerate(sc['live']):
            change(m, op, model, dirs, t0, n, boxes)
            for d in dirs:
                if kit.indexed(m, d):
                    BoxIndex(Path(d)).sync()
            for k in range(3):
                q, calls, mine, s = todo[(op['ask'] + k) % len(todo)]
                asked.append((q, calls, list(matching(calls, q['boxes'], model)), finish(q, s, mine), len(model), n))
    p = m.lib('ann', process)
    ctx.check(p.result[0] == 'return', 'search-fails', lambda: f"{describe(p)}; again after {sc['live']}")
    for q, calls, want, got, among, n in asked:
        how = f"again after {sc['live'][:n + 1]}: {calls} unique={q['unique']} {q['end']}({q['n']}) in boxes {q['boxes']}"
        judge(ctx, m, q, want, got, how, among, dirs)


def change(m, op, model, dirs, t0, n, boxes):
    j = op['box']
    a = model[op['pick'] % len(model)] if model else None
    taken = {x['key'] for x in model}
    if op['do'] in ('add', 'store') or not a:
        us = t0 - op['back']
        time = world.stamp(us, op['zone'])
        file = f"{op['name']}_{time}.zip"
        if file in kit.zips(m, dirs[j]):
            return
        data = {'live': str(n).encode()}
        if op['do'] == 'store':
            Workspace = loader.find('bead.workspace').Workspace
            Path = loader.find('pathlib').Path
            w = Path(f"/home/ann/live{n}/{op['name']}")
            w.parent.mkdir()
            Workspace(w).create(op['kind'])
            (w / 'output' / 'live').write_bytes(data['live'])
            boxes[j].store(Workspace(w), time)
            x = ref.parse_archive(kit.zips(m, dirs[j])[file])
            x.update(file=file)
        else:
            x = world.put_bead(m, dirs[j], op['name'], op['kind'], time, data)
        model.append(dict(x, us=us, box=j, key=(j, op['name'], x['content_id'])))
        return
    if op['do'] == 'remove':
        m.fs.h_remove(f"{dirs[a['box']]}/{a['file']}")
        model.remove(a)
    elif op['do'] == 'rename':
        # (of the same bead name; the time in the file name does not matter)
        file = f"{a['key'][1]}_{world.stamp(t0 + 10**7 + n, op['zone'])}.zip"
        m.fs.h_rename(f"{dirs[a['box']]}/{a['file']}", f"{dirs[a['box']]}/{file}")
        a['file'] = file
    elif (j, *a['key'][1:]) not in taken and a['file'] not in kit.zips(m, dirs[j]):
        m.fs.h_write(f"{dirs[j]}/{a['file']}", m.fs.h_read(f"{dirs[a['box']]}/{a['file']}"), uid=1000)
        model.append(dict(a, box=j, key=(j, *a['key'][1:])))
        if op['do'] == 'move':
            m.fs.h_remove(f"{dirs[a['box']]}/{a['file']}")
            model.remove(a)


def instant(c, model):
    if not model:
        return 10**15 + c['pick']
    return model[c['pick'] % len(model)]['us'] + c['shift']


def answer(q, model):
    """The beads that match, and the conditions as calls."""
    want = [a for a in model if a['box'] in q['boxes']]
    calls = []
    for c in q['conds']:
        what = c['what']
        if what == 'by_name':
            value = c['name']
            want = [a for a in want if a['key'][1] == value]
        elif what == 'by_kind':
            value = c['kind']
            want = [a for a in want if a['kind'] == value]
        elif what == 'by_content_id':
            value = model[c['pick'] % len(model)]['content_id'] if model and c['pick'] else 'f' * 128
            want = [a for a in want if a['content_id'] == value]
        else:
            us = instant(c, model)
            want = [a for a in want if compare(what, a['us'], us)]
            value = (us, c['zone'], c['form'])
        calls.append((what, value))
    return want, calls


def compare(what, a, us):
    return {'at_time': a == us, 'newer_than': a > us, 'older_than': a < us, 'at_or_newer': a >= us, 'at_or_older': a <= us}[what]


def matching(calls, boxes, model):
    """The beads that match conditions made earlier."""
    out = []
    for a in model:
        if a['box'] in boxes and all(a['key'][1] == v if what == 'by_name' else a['kind'] == v if what == 'by_kind' else a['content_id'] == v if what == 'by_content_id'
                                     else compare(what, a['us'], v[0]) for what, v in calls):
            out.append(a)
    return out


def ask(ctx, m, q, model, dirs, indexed):
    want, calls = answer(q, model)
    p = m.lib('ann', lambda: run_query(q, calls, dirs))
    how = f"{'indexed' if indexed else 'as set up'}: {[(c[0], c[1]) for c in calls]} unique={q['unique']} {q['end']}({q['n']}) in boxes {q['boxes']}"
    ctx.check(p.result[0] == 'return', 'search-fails', lambda: f'{describe(p)}; {how}')
    judge(ctx, m, q, want, p.result[1], how, len(model), dirs)


def judge(ctx, m, q, want, answered, how, among, dirs):
    tag, got = answered
    facts = lambda a: (f"b{a['box']}", a['key'][1], a['content_id'], a['kind'], a['time'], repr(a['inputs']))
    allowed = {facts(a): a for a in want}
    if q['unique']:
        # one bead per content: from whichever box
        count = len({a['content_id'] for a in want})
        times = sorted({a['content_id']: a['us'] for a in want}.values())
    else:
        count = len(want)
        times = sorted(a['us'] for a in want)
    seen = [(b['box'], b['name'], b['content_id'], b['kind'], b['time'], repr(b['inputs'])) for b, _ in got]
    strays = [s for s in seen if s not in allowed]
    ctx.check(not strays, 'wrong-match', lambda: f'{strays[:2]} do not match; {how}; model {sorted(allowed)[:3]}')
    n = q['n']
    if q['end'] == 'all':
        ctx.check(tag == 'ok' and len(seen) == len(set(seen)), 'found-twice', how)
        ctx.check(len(seen) == count, 'missing-match', lambda: f'{len(seen)} of {count} found; {how}; missing {sorted(set(allowed) - set(seen))[:2]}')
        if q['unique']:
            ctx.check({s[2] for s in seen} == {a['content_id'] for a in want} and len({s[2] for s in seen}) == len(seen), 'not-unique', how)
    else:
        rank = {'first': None, 'oldest': 0, 'newest': -1, 'newer': n, 'older': -1 - n}[q['end']]
        exists = count > (n if q['end'] in ('newer', 'older') else 0)
        ctx.check((tag == 'ok') == exists, 'missing-match' if exists else 'wrong-match', lambda: f'{count} beads match but answer is {tag} {seen}; {how}')
        if exists and rank is not None:
            us = allowed[seen[0]]['us']
            ctx.check(us == times[rank], 'wrong-version', lambda: f'got {seen[0][1]} {seen[0][4]}, matching times {times}; {how}')
    for b, located in got:
        ctx.check(located == [b['name'], b['content_id']], 'not-located', lambda: f'{b["name"]} resolves to {located}; {how}')
    ctx.case(0 < len(want) < among, how, len(want), tree_digest({f'{d}/{n}': x for d in dirs for n, x in m.fs.h_tree(d).items() if '.index' not in n}))


def run_query(q, calls, dirs):
    box = loader.find('bead.box')
    Path = loader.find('pathlib').Path
    boxes = [box.Box(f'b{j}', Path(dirs[j])) for j in q['boxes']]
    return finish(q, build(q, calls, boxes), boxes)


def build(q, calls, boxes):
    box = loader.find('bead.box')
    dt = loader.find('datetime')
    ts = loader.find('bead.tech.timestamp')
    s = boxes[0].search() if len(boxes) == 1 and q['n'] % 2 == 0 else box.search(boxes)
    for what, value in calls:
        if what in TIMES:
            us, zone, form = value
            t = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=us)
            if form == 'str':
                value = world.stamp(us, zone)
            elif form == 'dt':
                value = t.astimezone(dt.timezone(dt.timedelta(minutes=zone)))
            else:
                value = ts.time_from_timestamp(world.stamp(us, zone))
        s = getattr(s, what)(value)
    if q['unique']:
        s = s.unique()
    return s


def finish(q, s, boxes):
    box = loader.find('bead.box')
    try:
        end = getattr(s, q['end'])
        r = end(q['n']) if q['end'] in ('newer', 'older') else end()
    except LookupError:
        return 'none', []
    found = r if q['end'] == 'all' else [r]
    out = []
    for b in found:
        a = box.resolve(boxes, b)
        out.append((bead_dict(b), [str(a.name), a.content_id]))
    return 'ok', out
