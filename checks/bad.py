"""Things found in a box directory that are not beads."""

import datetime
import io
import json
import random
import struct
import zipfile

from sim import ref

from . import damage

META = {'meta_version': ref.META_VERSION, 'kind': 'badkind', 'freeze_time': '20200101T000000000000+0000', 'freeze_name': 'bad',
        'inputs': {}}
GOOD_INPUT = {'kind': 'k', 'content_id': 'c' * 128, 'freeze_time': '20190101T000000000000+0000'}
VALUES = [None, 0, 1.5, -1, True, '', 'x', [], {}, ['a'], {'a': 1}, 10 ** 400, '\ud800', 'a\0b', 'x' * 5000, 2 ** 63,
          '9' * 30, '20200101T000000000000+9999', '00000101T000000000000+0000', '99991231T235959999999-2359',
          '20240230T000000000000+0000', '2024', '20200101T000000000000', '20200101T000000000000+0000\n', '２０２００１０１T000000000000+0000']

KINDS = (['random', 'empty', 'text', 'dir', 'dangling', 'loop', 'linkdir', 'unreadable', 'unreadabledir', 'nometa', 'nomanifest',
          'notjson', 'notutf8', 'deepjson', 'hugejson', 'encrypted', 'method', 'badoffset', 'badeocd', 'zip64', 'metadir', 'manifest-list',
          'manifest-null', 'manifest-bad', 'cut', 'version', 'biosector', 'onlyeocd', 'namelen']
         + ['missing'] * 4 + ['value'] * 8 + ['inputs'] * 6)


def gen(rng, names):
    kind = rng.choice(KINDS)
    base = rng.choice(names)
    ts = rng.choice(['20991231T000000000000+0000', '20200101T000000000000+0000', '20000101T000000000000-0500'])
    fname = rng.choice([f'{base}_{ts}.zip'] * 4 + ['junk.zip', '.hidden.zip', '-dash.zip', 'new\nline.zip', 'ünï.zip', '.zip',
                                                 'a__b.zip', f'a__{base}_{ts}.zip', 'bad\udcff.zip', '[x].zip', '..zip', '_.zip'])
    spec = dict(kind=kind, file=fname, key=rng.choice(['meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs']),
                value=rng.randrange(len(VALUES)), seed=rng.randrange(10**6), at=round(rng.random(), 5))
    if plausible(spec):
        # its metadata can be read: being listed as a bead of that name would be no mistake (listing does not verify contents)
        spec['file'] = fname.replace(base, 'other-bad-bead')
    return spec


def plausible(spec):
    if spec['kind'] in ('dir', 'unreadabledir', 'dangling', 'loop', 'linkdir', 'unreadable'):
        return False
    try:
        with zipfile.ZipFile(io.BytesIO(make(spec))) as z:
            meta = json.loads(z.read('meta/bead'))
        datetime.datetime.strptime(meta['freeze_time'], '%Y%m%dT%H%M%S%f%z')
        return True
    except Exception:
        return False


def zipped(files, method=zipfile.ZIP_DEFLATED):
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for n, b in files.items():
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), b, method)
    return out.getvalue()


def bead(meta, manifest=None, data=b'payload'):
    raw = meta if isinstance(meta, bytes) else json.dumps(meta).encode()
    files = {'data/f': data, 'meta/bead': raw}
    if manifest is None:
        manifest = {n: ref.netstring_hash(b) for n, b in files.items()}
    files['meta/manifest'] = manifest if isinstance(manifest, bytes) else json.dumps(manifest).encode()
    return zipped(files)


def make(spec):
    """Content bytes of the bad file (or None when it is not a regular file)."""
    kind = spec['kind']
    rng = random.Random(spec['seed'])
    value = VALUES[spec['value']]
    key = spec['key']
    if kind in ('random', 'unreadable', 'biosector'):
        return rng.randbytes(rng.choice([1, 22, 100, 5000])) if kind == 'random' else bead(META)
    if kind == 'empty':
        return b''
    if kind == 'text':
        return b'PK\x05\x06 this is no zip file\n' * rng.choice([1, 50])
    if kind == 'onlyeocd':
        return zipped({})
    if kind == 'nometa':
        return zipped({'data/f': b'x', 'meta/manifest': b'{}'})
    if kind == 'nomanifest':
        return zipped({'data/f': b'x', 'meta/bead': json.dumps(META).encode()})
    if kind == 'notjson':
        return bead(rng.choice([b'{', b'', b'nope', b"{'a': 1}", b'{"a": 1}}', b'\xef\xbb\xbf{}', b'NaN']))
    if kind == 'notutf8':
        return bead(b'{"kind": "\xff\xfe"}')
    if kind == 'deepjson':
        return bead(b'[' * 100000 + b']' * 100000)
    if kind == 'hugejson':
        return bead(b'{"kind": ' + b'1' * 6000 + b'}')
    if kind == 'metadir':
        return zipped({'meta/bead/': b'', 'meta/manifest': b'{}'})
    if kind == 'manifest-list':
        return bead(META, ['data/f'])
    if kind == 'manifest-null':
        return bead(META, b'null')
    if kind == 'manifest-bad':
        return bead(META, rng.choice([b'', b'{', b'\xff', b'{"data/f": 1, "meta/bead": null}', b'{"data/f": []}', b'"x"', b'3']))
    if kind == 'version':
        return bead(dict(META, meta_version='another'))
    if kind == 'missing':
        return bead({k: v for k, v in META.items() if k != key})
    if kind == 'value':
        return bead(dict(META, **{key: value}))
    if kind == 'inputs':
        spec_ = dict(GOOD_INPUT)
        how = rng.randrange(6)
        name = 'nick'
        if how == 0:
            spec_.pop(rng.choice(sorted(spec_)))
        elif how == 1:
            spec_[rng.choice(sorted(spec_))] = value
        elif how == 2:
            spec_ = value
        elif how == 3:
            name = rng.choice(['', '..', '.', 'a/b', '../x', 'a__b', '\ud800', 'a\0b', '/abs'])
        elif how == 4:
            spec_['freeze_time'] = value
        else:
            return bead(dict(META, inputs=value))
        return bead(dict(META, inputs={name: spec_}))
    good = bytearray(bead(META))
    cd = good.rindex(b'PK\1\2')
    eocd = good.rindex(b'PK\5\6')
    if kind == 'encrypted':
        for sig, off in ((b'PK\1\2', 8), (b'PK\3\4', 6)):
            i = good.find(sig)
            while i >= 0:
                good[i + off] |= 1
                i = good.find(sig, i + 4)
    elif kind == 'method':
        method = rng.choice([1, 6, 9, 12, 14, 93, 98, 99])
        for sig, off in ((b'PK\1\2', 10), (b'PK\3\4', 8)):
            i = good.find(sig)
            while i >= 0:
                struct.pack_into('<H', good, i + off, method)
                i = good.find(sig, i + 4)
    elif kind == 'badoffset':
        struct.pack_into('<I', good, cd + 42, rng.choice([0xfffffffe, len(good), 3, 2 ** 31]))
    elif kind == 'badeocd':
        off, val = rng.choice([(12, 0xffffff), (16, 0xffffff), (10, 9999), (8, 9999), (20, 500)])
        struct.pack_into('<I' if off in (12, 16) else '<H', good, eocd + off, val)
    elif kind == 'zip64':
        struct.pack_into('<I', good, eocd + 16, 0xffffffff)
        good[eocd:eocd] = b'PK\6\7' + struct.pack('<IQI', 0, rng.choice([0, 2 ** 62, eocd]), 1)
    elif kind == 'namelen':
        struct.pack_into('<H', good, cd + 28, 60000)
    elif kind == 'cut':
        del good[int(spec['at'] * len(good)):]
    return bytes(good)


def install(m, box, spec):
    path = f"{box}/{spec['file']}"
    kind = spec['kind']
    m.fs.h_remove(path)
    if kind == 'dir':
        m.fs.h_mkdirs(path, uid=1000)
        m.fs.h_write(f'{path}/x', b'x')
    elif kind == 'unreadabledir':
        m.fs.h_mkdirs(path, uid=0, mode=0)
    elif kind == 'dangling':
        m.fs.h_symlink(path, '/nowhere/x.zip')
    elif kind == 'loop':
        m.fs.h_symlink(path, path)
    elif kind == 'linkdir':
        m.fs.h_symlink(path, '/tmp')
    else:
        m.fs.h_write(path, make(spec), uid=0, mode=0 if kind == 'unreadable' else 0o644)
