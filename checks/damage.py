"""Ways in which a bead archive gets damaged, tampered with, or was never one."""

import io
import json
import random
import struct
import zipfile

from sim import ref

RAW = ['flip', 'flip', 'flips', 'trunc', 'zero', 'garbage', 'dropmid', 'swapblocks', 'append', 'prepend', 'empty']
MEMBER = ['member', 'member', 'member', 'memberlast', 'emptied', 'filled', 'extra-data', 'extra-code', 'remove', 'rename', 'swap',
          'duplicate', 'duplicate-first', 'meta-kind', 'meta-time', 'meta-inputs', 'meta-name', 'manifest-drop', 'manifest-hash',
          'manifest-empty', 'manifest-nometa', 'case', 'moved', 'dirslash']
FORGED = ['forge', 'forge-meta']


def gen(rng, kinds=None):
    kind = rng.choice(kinds or rng.choice([RAW, MEMBER, MEMBER, FORGED]))
    return dict(kind=kind, at=round(rng.random(), 5), len=round(rng.random(), 5), seed=rng.randrange(10**6))


def apply(spec, data):
    """Damaged bytes (may by luck be the same as before)."""
    kind = spec['kind']
    rng = random.Random(f"{spec['seed']}")
    n = len(data)
    at = min(n - 1, int(spec['at'] * n))
    size = max(1, int(spec['len'] ** 3 * n))
    b = bytearray(data)
    if kind == 'flip':
        b[at] ^= 1 << rng.randrange(8)
    elif kind == 'flips':
        for _ in range(rng.randint(2, 20)):
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif kind == 'trunc':
        del b[at:]
    elif kind == 'zero':
        b[at:at + size] = bytes(len(b[at:at + size]))
    elif kind == 'garbage':
        b[at:at + size] = rng.randbytes(len(b[at:at + size]))
    elif kind == 'dropmid':
        del b[at:at + size]
    elif kind == 'swapblocks':
        blk = 512
        i, j = at // blk * blk, rng.randrange(n) // blk * blk
        x, y = bytes(b[i:i + blk]), bytes(b[j:j + blk])
        if len(x) == len(y):
            b[i:i + blk], b[j:j + blk] = y, x
    elif kind == 'append':
        b += rng.randbytes(min(size, 3000))
    elif kind == 'prepend':
        b[:0] = rng.randbytes(min(size, 3000))
    elif kind == 'empty':
        del b[:]
    else:
        return rezip(spec, data, rng)
    return bytes(b)


def members(data):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(i.filename, z.read(i), i.compress_type) for i in z.infolist()]


def write_members(ms, comment=b''):
    out = io.BytesIO()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with zipfile.ZipFile(out, 'w') as z:
            z.comment = comment
            for n, b, ct in ms:
                i = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0))
                z.writestr(i, b, ct)
    return out.getvalue()


def dumps(x):
    return json.dumps(x, indent=4, sort_keys=True).encode()


def rezip(spec, data, rng):
    """A well-formed zip file (all CRCs right) that is not the archive it was."""
    kind = spec['kind']
    ms = members(data)
    names = [n for n, _, _ in ms]
    payload = [i for i, n in enumerate(names) if n.startswith(('data/', 'code/'))]
    D = zipfile.ZIP_DEFLATED
    at = lambda seq: seq[min(len(seq) - 1, int(spec['at'] * len(seq)))]

    def set_json(name, change):
        i = names.index(name)
        d = json.loads(ms[i][1])
        change(d)
        ms[i] = (name, dumps(d), ms[i][2])

    def remanifest():
        set_json('meta/manifest', lambda d: (d.clear(), d.update({n: ref.netstring_hash(b) for n, b, _ in ms
                                                                  if n != 'meta/manifest'})))

    needs = {'member', 'memberlast', 'emptied', 'filled', 'remove', 'rename', 'duplicate', 'duplicate-first', 'manifest-drop',
             'manifest-hash', 'case', 'moved', 'dirslash', 'forge'}
    if kind in needs and not payload:
        kind = 'extra-data'
    if kind == 'swap' and len({ms[i][1] for i in payload}) < 2:
        kind = 'extra-code'
    if kind in needs:
        i = at(payload)
        n, b, ct = ms[i]
    if kind in ('member', 'forge'):
        b2 = bytearray(b or b'x')
        b2[rng.randrange(len(b2))] ^= 1 << rng.randrange(8)
        ms[i] = (n, bytes(b2), ct)
        if kind == 'forge':
            remanifest()
    elif kind == 'memberlast':
        ms[i] = (n, b[:-1] if rng.random() < .5 else b + b'\0', ct)
    elif kind == 'emptied':
        ms[i] = (n, b'' if b else b'\0', ct)
    elif kind == 'filled':
        ms[i] = (n, bytes(len(b)) if any(b) else b'\1' * max(1, len(b)), ct)
    elif kind == 'extra-data':
        ms.insert(rng.randrange(len(ms)), ('data/intruder', b'evil', D))
    elif kind == 'extra-code':
        ms.insert(rng.randrange(len(ms)), ('code/sub/intruder', b'evil', D))
    elif kind == 'remove':
        del ms[i]
    elif kind == 'rename':
        ms[i] = (n + 'x', b, ct)
    elif kind == 'case':
        ms[i] = (n[:5] + n[5:].swapcase() if n[5:].swapcase() != n[5:] else n + '_', b, ct)
    elif kind == 'moved':
        ms[i] = (('code/' if n.startswith('data/') else 'data/') + 'moved/' + n[5:], b, ct)
    elif kind == 'dirslash':
        ms.append((n[:5] + 'intruder-dir/', b'', zipfile.ZIP_STORED))
    elif kind == 'swap':
        i = at(payload)
        j = next(k for k in payload if ms[k][1] != ms[i][1])
        ms[i], ms[j] = (ms[i][0], ms[j][1], ms[i][2]), (ms[j][0], ms[i][1], ms[j][2])
    elif kind == 'duplicate':
        ms.append((n, b + b'evil', ct))
    elif kind == 'duplicate-first':
        ms.insert(0, (n, b + b'evil', ct))
    elif kind == 'meta-kind':
        set_json('meta/bead', lambda d: d.update(kind='00000000-0000-0000-0000-000000000000'))
    elif kind == 'meta-time':
        set_json('meta/bead', lambda d: d.update(freeze_time='20190101T000000000000+0000'))
    elif kind == 'meta-inputs':
        set_json('meta/bead', lambda d: d.update(inputs={'evil': dict(kind='k', content_id='c' * 128,
                                                                       freeze_time='20190101T000000000000+0000')}))
    elif kind == 'meta-name':
        set_json('meta/bead', lambda d: d.update(freeze_name='other'))
    elif kind == 'manifest-drop':
        set_json('meta/manifest', lambda d: d.pop(n))
    elif kind == 'manifest-hash':
        set_json('meta/manifest', lambda d: d.update({n: 'f' * 128}))
    elif kind == 'manifest-empty':
        set_json('meta/manifest', lambda d: d.clear())
    elif kind == 'manifest-nometa':
        set_json('meta/manifest', lambda d: d.pop('meta/bead'))
    elif kind == 'forge-meta':
        set_json('meta/bead', lambda d: d.update(freeze_name='other', extra=1))
        remanifest()
    return write_members(ms)
