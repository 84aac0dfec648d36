"""Independent reference: the archive format and box contents, written from the format's documentation."""

import calendar
import datetime
import hashlib
import io
import json
import re
import zipfile

META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'


class Bad(Exception):
    pass


def netstring_hash(data):
    n = len(data)
    return hashlib.sha512(b'%d:' % n + data + b';%d' % n).hexdigest()


def parse_archive(data):
    """A complete, untampered bead archive -> dict; raises Bad otherwise."""
    try:
        return _parse_archive(data)
    except Bad:
        raise
    except Exception as e:
        raise Bad(f'{e!r}') from None


def _parse_archive(data):
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            names = z.namelist()
            if len(set(names)) != len(names):
                raise Bad('duplicate members')
            files = {n: z.read(n) for n in names}
    except Bad:
        raise
    except Exception as e:
        raise Bad(f'not a readable zip: {e}') from None
    try:
        meta = json.loads(files['meta/bead'])
        manifest = json.loads(files['meta/manifest'])
    except Exception as e:
        raise Bad(f'no readable metadata: {e!r}') from None
    for k in ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs'):
        if k not in meta:
            raise Bad(f'metadata without {k}')
    if meta['meta_version'] != META_VERSION:
        raise Bad('another format')
    for n, h in manifest.items():
        if n not in files:
            raise Bad(f'{n} in manifest only')
        if netstring_hash(files[n]) != h:
            raise Bad(f'{n} differs from its hash')
    for n in files:
        if n != 'meta/manifest' and n not in manifest:
            raise Bad(f'{n} not in manifest')
    return dict(
        content_id=netstring_hash(files['meta/manifest']), kind=meta['kind'], time=meta['freeze_time'],
        name=meta['freeze_name'],
        inputs=sorted([k, v['kind'], v['content_id'], v['freeze_time']] for k, v in meta['inputs'].items()),
        data={n[5:]: b for n, b in files.items() if n.startswith('data/')},
        code={n[5:]: b for n, b in files.items() if n.startswith('code/')},
        members=sorted(files))


def instant_us(ts):
    """yyyymmddThhmmssffffff+zzzz -> microseconds since the epoch (exact integers)."""
    m = re.fullmatch(r'(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)(\d{6})([-+])(\d\d)([0-5]\d)', ts, re.ASCII)
    if not m or int(m[9]) > 23:
        raise Bad(f'not a timestamp: {ts}')
    y, mo, d, h, mi, s, us, sign, zh, zm = m.groups()
    try:
        datetime.datetime(*map(int, (y, mo, d, h, mi, s, us)))
    except ValueError:
        raise Bad(f'not a timestamp: {ts}') from None
    off = (int(zh) * 60 + int(zm)) * 60 * (-1 if sign == '-' else 1)
    secs = calendar.timegm((int(y), int(mo), int(d), int(h), int(mi), int(s))) - off
    return secs * 1_000_000 + int(us)


def build_archive(name, kind, time, data=None, code=None, inputs=None, comment=b'bead', compress=True, order=None,
                  extra=(), meta_extra=None):
    """A bead archive as the format documents it; data/code map names to bytes."""
    files = {}
    for n, b in (data or {}).items():
        files[f'data/{n}'] = b
    for n, b in (code or {}).items():
        files[f'code/{n}'] = b
    meta = {'meta_version': META_VERSION, 'kind': kind, 'freeze_time': time, 'freeze_name': name,
            'inputs': {n: {'kind': k, 'content_id': c, 'freeze_time': t} for n, k, c, t in (inputs or ())}}
    meta.update(meta_extra or {})
    dumps = lambda x: json.dumps(x, indent=4, sort_keys=True, ensure_ascii=True).encode()
    files['meta/bead'] = dumps(meta)
    files['meta/manifest'] = dumps({n: netstring_hash(b) for n, b in files.items()})
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED) as z:
        z.comment = comment
        for n in (order(list(files)) if order else files):
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), files[n],
                       zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED)
        for n, b in extra:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), b)
    return out.getvalue()


def content_id_of(archive):
    return parse_archive(archive)['content_id']


def box_archives(fs, path):
    """{file name: parsed archive or None when it is not a complete bead} for every *.zip of a box."""
    out = {}
    node = fs.h_lookup(path)
    for name in fs.h_list(path):
        if name.endswith('.zip'):
            c = node.entries[name]
            if c.kind == 'l':
                c = fs.h_lookup(f'{path}/{name}')
            if c is None or c.kind != 'f' or '__' in file_bead_name(name) or file_bead_name(name) in ('', '.', '..'):
                out[name] = None
                continue
            try:
                out[name] = parse_archive(bytes(c.data))
            except Bad:
                out[name] = None
    return out


def file_bead_name(filename):
    """Bead name of an archive file: file name less extension and time stamp."""
    stem = filename.rpartition('/')[2]
    if '.' in stem.lstrip('.'):
        stem = stem[:stem.rindex('.')]
    return re.sub('_[0-9]{8}(?:[tT][-+0-9]*)?$', '', stem)


def workspace_code(tree):
    """Files of a workspace tree that are code: {path: bytes}."""
    top = ('input', 'output', 'temp', '.bead-meta')
    return {p: b for p, b in tree.items() if p.split('/')[0] not in top}
