"""C17: the web says of every bead whether it is up to date, as the versions and references in the boxes say, however they are discovered."""

import errno
import html
import json
import re

from sim.machine import describe, gen_fault, gen_params, ok

from . import kit, world

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('A case is one web pipeline (discover or load, filter, heads, color, save, dot; possibly a faulty save) on the boxes of one moment of a history of beads '
        'arriving, copied, deleted and indexed; non-trivial when the web has an input link; distinct by the resulting web.')
RUNS = {'quick': 800, 'thorough': 40000}
COLOR = {'PHANTOM': 'red', 'SUPERSEDED': 'grey', 'UP_TO_DATE': 'green', 'OUT_OF_DATE': 'orange'}
ZONES = [0, 0, 60, -300, 345, 840]
KINDS = ('kill', 'kill', 'power', 'int', 'short', 'tornkill', 'err', 'err')


def generate(rng, tier, i):
    n = rng.choice([2, 3, 4, 5])
    names = rng.sample([x for x in kit.BEAD_NAMES + kit.ODD_NAMES if '"' not in x], n)
    nbox = rng.choice([1, 2, 2, 3])

    def bead():
        return dict(op='add', name=rng.randrange(n), back=rng.randrange(1, 10**rng.choice([1, 3, 9])), zone=rng.choice(ZONES), boxes=sorted(rng.sample(range(nbox), rng.choice([0, 1, 1, 1, 1, 1, nbox]))),
                    refs=[[rng.randrange(n), rng.choice([0, 0, 0, 0, 1, 1, 2])] for _ in range(rng.choice([0, 1, 1, 2, 3]))], late=rng.random() < .2)

    def pipeline():
        words = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            words.append(rng.choice([['color'], ['color'], ['heads'], ['filter', sorted(rng.sample(range(n), rng.choice([0, 1, 1, min(2, n)]))),
                                                                      sorted(rng.sample(range(n), rng.choice([0, 0, 1, min(2, n)])))], ['reload']]))
        return dict(op='web', words=words + [['color']], order=rng.sample(range(nbox), nbox), fault=[dict(fault=gen_fault(rng, KINDS)) for _ in range(2)] if rng.random() < .2 else [])

    ops = [bead() for _ in range(rng.randint(2, 9))] + [pipeline()]
    for _ in range(rng.randint(1, 5)):
        ops += [rng.choice([bead(), bead(), dict(op='copy', pick=rng.randrange(50), box=rng.randrange(nbox), again=rng.random() < .2),
                            dict(op='delete', pick=rng.randrange(50), everywhere=rng.random() < .7), dict(op='index', box=rng.randrange(nbox))])
                for _ in range(rng.choice([1, 1, 2, 3]))]
        ops.append(pipeline())
    for o in ops:
        for f in o.get('fault') or ():
            if f['fault']['kind'] == 'err':     # (unreadable beads are known to be silently left out)
                f['fault'] = dict(kind='err', errno=rng.choice([errno.EIO, errno.ENOSPC]), names=['write'], frac=f['fault']['frac'], sticky=rng.choice([0, 1, 1000]))
    return dict(params=gen_params(rng), names=names, nbox=nbox, ops=ops)


# the model: nodes {ref: [instant, freshness]}, links {(source ref, destination ref)}; a ref is (name, content_id)

def graph(known, listed):
    nodes = {r: [known[r]['us'], 'SUPERSEDED'] for r in listed}
    links = set()
    for r in listed:
        for src in known[r]['refs']:
            nodes.setdefault(src, [known[src]['us'], 'PHANTOM'])
            links.add((src, r))
    return nodes, links


def clusters(nodes):
    out = {}
    for r in nodes:
        out.setdefault(r[0], []).append(r)
    return out


def heads_of(nodes):
    return {max(rs, key=lambda r: (nodes[r][1] != 'PHANTOM', nodes[r][0])) for rs in clusters(nodes).values()}


def color(g):
    nodes, links = g
    nodes = {r: list(v) for r, v in nodes.items()}
    for rs in clusters(nodes).values():
        newest = max(rs, key=lambda r: nodes[r][0])
        for r in rs:
            if nodes[r][1] != 'PHANTOM':
                nodes[r][1] = 'UP_TO_DATE' if r == newest else 'SUPERSEDED'
    done = {}

    def fresh(r):
        if r not in done:
            done[r] = nodes[r][1] == 'UP_TO_DATE' and all(fresh(s) for s, d in links if d == r)
        return done[r]

    for r in nodes:
        if nodes[r][1] == 'UP_TO_DATE' and not fresh(r):
            nodes[r][1] = 'OUT_OF_DATE'
    return nodes, links


def heads(g):
    nodes, links = g
    hs = heads_of(nodes)
    links = {(s, d) for s, d in links if d in hs}
    return {r: nodes[r] for r in hs | {s for s, _ in links}}, links


def reach(g, names, forward):
    nodes, links = g
    pairs = {(s[0], d[0]) if forward else (d[0], s[0]) for s, d in links}
    keep = {n for n in names if n in {r[0] for r in nodes}}
    while True:
        more = {b for a, b in pairs if a in keep} - keep
        if not more:
            break
        keep |= more
    links = {(s, d) for s, d in links if s[0] in keep and d[0] in keep}
    linked = {r[0] for pair in links for r in pair}
    return {r: v for r, v in nodes.items() if r[0] in linked}, links


def execute(ctx, sc):
    m = ctx.machine(sc['params'])
    m.user('ann', uid=1000)
    names = sc['names']
    dirs = [m.box(f'b{i}') for i in range(sc['nbox'])]
    m.set_config('ann', [(f'b{i}', d) for i, d in enumerate(dirs)])
    s = dict(known={}, at={}, times=set(), n=0, saved=None)    # at: ref -> {(box, file name)}
    t0 = world.start_us(sc) - 10**12
    for o in sc['ops']:
        step(ctx, m, sc, o, s, names, dirs, t0)


def step(ctx, m, sc, o, s, names, dirs, t0):
    known, at = s['known'], s['at']
    if o['op'] == 'add':
        name = names[o['name']]
        s['n'] += 1
        us = t0 + s['n'] * 10**9 - (o['back'] if not o['late'] else 5 * 10**9)
        while us in s['times']:
            us += 1
        s['times'].add(us)
        inputs = {}
        for k, which in o['refs']:
            versions = sorted((r for r in known if r[0] == names[k]), key=lambda r: -known[r]['us'])
            if versions:
                r = versions[min(which, len(versions) - 1)]
                inputs[r[0]] = (r[0], known[r]['kind'], r[1], known[r]['time'])
        time = world.stamp(us, o['zone'])
        files = {'f': str(s['n']).encode()}
        a = world.put_bead(m, '/tmp', name, f'kind-{o["name"]}', time, files, {}, inputs.values())
        r = (name, a['content_id'])
        known[r] = dict(a, us=us, refs={(i[0], i[2]) for i in inputs.values()})
        m.fs.h_remove(f"/tmp/{a['file']}")
        at[r] = set()
        for j in o['boxes']:
            put(ctx, m, s, r, j, dirs, a['file'])
    elif o['op'] == 'copy' and known:
        r = sorted(known, key=lambda r: known[r]['us'])[o['pick'] % len(known)]
        name = known[r]['file'] if not o['again'] else f"{r[0]}_{world.stamp(known[r]['us'] + 333)}.zip"
        put(ctx, m, s, r, o['box'], dirs, name)
    elif o['op'] == 'delete' and any(at.values()):
        here = sorted((r for r in at if at[r]), key=lambda r: known[r]['us'])
        r = here[o['pick'] % len(here)]
        for j, f in sorted(at[r]) if o['everywhere'] else sorted(at[r])[:1]:
            m.fs.h_remove(f'{dirs[j]}/{f}')
            at[r].discard((j, f))
            if kit.indexed(m, dirs[j]):
                kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--box', f'b{j}'), 'box index')
    elif o['op'] == 'index':
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--box', f"b{o['box']}"), 'box index')
    elif o['op'] == 'web':
        web(ctx, m, sc, o, s, names, dirs)


def put(ctx, m, s, r, j, dirs, name):
    m.fs.h_write(f'{dirs[j]}/{name}', s['known'][r]['bytes'], uid=1000)
    s['at'][r].add((j, name))
    if kit.indexed(m, dirs[j]):
        kit.expect_ok(ctx, m.cli('ann', 'box', 'index', '--box', f'b{j}'), 'box index')


def web(ctx, m, sc, o, s, names, dirs):
    m.set_config('ann', [(f'b{i}', dirs[i]) for i in o['order']])
    start = graph(s['known'], [r for r in s['at'] if s['at'][r]])
    g, words, named, n = start, [], set(), 0
    for w in o['words']:
        if w[0] == 'color':
            words += ['color']
            g = color(g)
        elif w[0] == 'heads':
            words += ['heads']
            g = heads(g)
        elif w[0] == 'reload':
            n += 1
            words += ['save', f'r{n}.web', 'load', f'r{n}.web']
        else:
            src, dst = [names[k] for k in w[1]], [names[k] for k in w[2]]
            words += ['/', *src, '..', *dst, '/']
            named |= {*src, *dst}
            if src:
                g = reach(g, src, True)
            if dst:
                g = reach(g, dst, False)
    words += ['save', 'x.web', 'dot', 'x.dot']
    go = lambda f=None: m.cli('ann', 'web', *words, fault=f)
    cwd = '/home/ann/w'
    what = f'web {words}'
    if o['fault'] and s['saved'] is not None:
        m.fs.h_write(f'{cwd}/x.web', s['saved'][0], uid=1000)
        m.fs.sync_all()
        m.place_all(o['fault'], go)
        point = m.fork_point()
        for c in o['fault']:
            m.rewind(point)
            p = go(c['fault'])
            fired = bool(p.fault and p.fault.fired)
            how = f"{what} under {c['fault']}: {describe(p)}"
            if ok(p):
                compare(ctx, m, g, named, f'{cwd}/x.web', how)
            q = m.cli('ann', 'web', 'load', 'x.web', 'save', 'y.web')
            if ok(q):       # what can be loaded is all that was saved, then or earlier
                got = parse(m, f'{cwd}/y.web')
                ctx.check(got in (parse_bytes(s['saved'][0]), expected(g)) or named and not (set(expected(g)) - set(got)), 'partial-web', lambda: f'{len(got)} beads after {how}')
            ctx.case(fired and bool(g[1]), 'fault', c['fault'], len(g[0]))
        m.rewind(point)
    p = go()
    ctx.check(ok(p), 'command-failed', lambda: f'{what}: {describe(p)}')
    got = compare(ctx, m, g, named, f'{cwd}/x.web', what)
    check_dot(ctx, m.fs.h_read(f'{cwd}/x.dot').decode(), got, what)
    s['saved'] = [m.fs.h_read(f'{cwd}/x.web')]
    # what is saved is what is loaded, by others as well
    kit.expect_ok(ctx, m.cli('ann', 'web', 'load', 'x.web', 'save', 'y.web'), 'web load')
    ctx.check(parse(m, f'{cwd}/y.web') == got, 'loaded-differs', what)
    ctx.case(bool(g[1]), sorted((r[0], v[1]) for r, v in g[0].items()), len(g[1]), words)


def parse_bytes(b):
    out = {}
    for d in json.loads(b.decode()):
        r = (d['name'], d['content_id'])
        if r in out:
            raise ValueError(f'{r} twice')
        out[r] = [d['freeze_time_str'], d['freshness']['value'], sorted((i['name'], i['content_id']) for i in d['inputs'])]
    return {r: v[1:] for r, v in out.items()}


def parse(m, path):
    return parse_bytes(m.fs.h_read(path))


def expected(g):
    nodes, links = g
    return {r: [v[1], sorted(s for s, d in links if d == r)] for r, v in nodes.items()}


def compare(ctx, m, g, named, path, what):
    try:
        got = parse(m, path)
    except Exception as e:
        ctx.fail('web-unreadable', f'{e!r} after {what}')
    want = expected(g)
    short = lambda r: f'{r[0]} {r[1][:8]}'
    for r in want:
        ctx.check(r in got, 'bead-missing', lambda: f'{short(r)} ({want[r][0]}) by {what}')
        ctx.check(got[r][0] == want[r][0], 'wrong-freshness', lambda: f'{short(r)} is {got[r][0]} instead of {want[r][0]} by {what}')
        ctx.check(got[r][1] == want[r][1], 'wrong-inputs', lambda: f'{short(r)} by {what}')
    for r in set(got) - set(want):
        # (a named computation without any connection may be shown or not)
        ctx.check(r[0] in named and r[0] not in {x[0] for x in want}, 'bead-unexpected', lambda: f'{short(r)} ({got[r][0]}) by {what}')
    return got


def check_dot(ctx, text, got, what):
    colors = dict(re.findall(r'PORT="in_([0-9a-f]{128})" BGCOLOR="(\w+):', text))
    ctx.check(colors == {r[1]: COLOR[v[0]] for r, v in got.items()}, 'wrong-color', what)
    ends = re.findall(r'out_([0-9a-f]{128}):e|in_([0-9a-f]{128}):w', text)
    links = sorted(zip([a for a, _ in ends if a], [b for _, b in ends if b]))
    ctx.check(links == sorted((i[1], r[1]) for r, v in got.items() for i in v[1]), 'wrong-links', what)
    labels = sorted(re.findall(r'fontsize="10" label="([^"]*)"', text))
    ctx.check(labels == sorted(html.escape(i[0]) for v in got.values() for i in v[1]), 'wrong-links', what)
