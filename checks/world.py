"""Boxes filled with reference-built archives, for checks that care about many beads rather than about saving."""

import datetime

from sim import ref

from . import kit

EPOCH = datetime.datetime(1970, 1, 1)


def stamp(us, offset_min=0):
    """Time stamp of an instant (microseconds since the epoch) as written in a zone."""
    t = EPOCH + datetime.timedelta(microseconds=us + offset_min * 60_000_000)
    sign = '-' if offset_min < 0 else '+'
    o = abs(offset_min)
    return f'{t:%Y%m%dT%H%M%S}{t.microsecond:06d}{sign}{o // 60:02d}{o % 60:02d}'


def start_us(sc):
    return int((datetime.datetime.fromisoformat(sc['params']['start']) - EPOCH) / datetime.timedelta(microseconds=1))


def put_bead(m, box, name, kind, time, data=None, code=None, inputs=(), compress=True, uid=1000, file_name=None):
    """Put an archive into a box directory; returns its reference parse with the file name."""
    b = ref.build_archive(name, kind, time, data or {}, code or {}, inputs, compress=compress)
    fname = file_name or f'{name}_{time}.zip'
    m.fs.h_write(f'{box}/{fname}', b, uid=uid)
    a = ref.parse_archive(b)
    a['file'] = fname
    a['bytes'] = b
    return a


def kind_of(name):
    return f'kind-of-{name}-0000'
