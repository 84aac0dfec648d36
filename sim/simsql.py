"""sqlite3 on the simulated disk.

The SQL engine is the real one, over an in-memory copy; this layer stands for SQLite's VFS: opening
and creating the file, permissions, locking with a busy timeout, atomic durable commit, loss of the
database file under an open connection.  SQLite's own journalling is trusted, not simulated.
"""

import errno
import os as real_os
import sqlite3 as real
import types
import urllib.parse

from . import simposix
from .kernel import K, Killed
from .vfs import err


def _empty_db():
    c = real.connect(':memory:')
    c.execute('CREATE TABLE t(a)')
    c.execute('DROP TABLE t')
    c.execute('VACUUM')
    c.commit()
    data = c.serialize()
    c.close()
    return data


EMPTY = _empty_db()
READS = ('select', 'explain', 'values', 'pragma')
DML = ('insert', 'update', 'delete', 'replace')
NEUTRAL = ('begin', 'savepoint', 'release', 'rollback', 'commit', 'end')


def first_word(sql):
    s = sql.lstrip()
    while s.startswith('--') or s.startswith('/*'):
        if s.startswith('--'):
            s = s.partition('\n')[2].lstrip()
        else:
            s = s.partition('*/')[2].lstrip()
    w = ''
    for ch in s:
        if not ch.isalpha():
            break
        w += ch
    return w.lower()


def parse_uri(uri):
    """SQLite's own rules for file: URIs -> (path, query dict)."""
    rest = uri[5:]
    rest = rest.partition('#')[0]
    path, _, query = rest.partition('?')
    if path.startswith('//'):
        path = path[2:]
        auth, slash, tail = path.partition('/')
        if auth not in ('', 'localhost'):
            raise real.OperationalError(f'invalid uri authority: {auth}')
        path = slash + tail
    out = []
    i = 0
    raw = path
    while i < len(raw):
        if raw[i] == '%' and i + 2 < len(raw) + 0 and all(c in '0123456789abcdefABCDEF' for c in raw[i + 1:i + 3]) \
                and len(raw[i + 1:i + 3]) == 2:
            code = int(raw[i + 1:i + 3], 16)
            if code == 0:
                break
            out.append(bytes([code]))
            i += 3
        else:
            out.append(raw[i].encode('utf-8', 'surrogateescape'))
            i += 1
    params = {}
    if query:
        for part in query.split('&'):
            k, _, v = part.partition('=')
            params[urllib.parse.unquote(k)] = urllib.parse.unquote(v)
    return b''.join(out).decode('utf-8', 'surrogateescape'), params


class Locks:
    def __init__(self):
        self.shared, self.reserved, self.pending = {}, None, None


class SimCursor(real.Cursor):
    def execute(self, sql, parameters=()):
        c = self.connection
        c._sim_before(sql)
        try:
            r = super().execute(sql, parameters)
        except BaseException as e:
            c._sim_failed(e)
            raise
        c._sim_after(sql)
        return r

    def executemany(self, sql, parameters):
        c = self.connection
        c._sim_before(sql)
        try:
            r = super().executemany(sql, parameters)
        except BaseException as e:
            c._sim_failed(e)
            raise
        c._sim_after(sql)
        return r

    def executescript(self, script):
        c = self.connection
        if c.in_transaction:
            c.commit()
        c._sim_before('create ' + script)
        try:
            r = super().executescript(script)
        except BaseException as e:
            c._sim_failed(e)
            raise
        c._sim_after('create')
        return r


class SimConnection(real.Connection):
    def __init__(self, database, timeout=5.0, detect_types=0, isolation_level='', check_same_thread=True,
                 factory=None, cached_statements=128, uri=False, **kw):
        self._sim_open = False
        p = simposix.proc()
        w = p.world
        path = simposix._path(database)
        params = {}
        if uri and path.startswith('file:'):
            path, params = parse_uri(path)
        mode = params.get('mode', 'rwc')
        self._p = p
        self._ro = mode == 'ro'
        self._memory = path in (':memory:', '') or mode == 'memory'
        self._timeout = timeout
        self._dirty = self._fresh = False
        self._version = None
        self._writing = False
        self._path = path
        if not self._memory:
            fs = w.fs
            w.enter(p, 'sqlread', path)
            cannot = real.OperationalError('unable to open database file')
            try:
                d, name, node, canon = fs.walk(path, p.cwd, p.uid)
                if node is None:
                    if mode in ('ro', 'rw'):
                        raise cannot
                    fs.check_dir_writable(d, p.uid, path)
                    node = fs.create(d, name, 'f', 0o644 & ~p.umask, p.uid)
                    p.events.append(('create', canon))
                elif node.kind != 'f':
                    raise cannot
                if not fs.may(node, p.uid, 4):
                    raise cannot
            except OSError:
                raise cannot from None
            if not fs.may(node, p.uid, 2):
                self._ro = True
            self._node, self._dir, self._canon = node, d, canon
            if node.locks is None:
                node.locks = Locks()
        super().__init__(':memory:', detect_types=detect_types, isolation_level=isolation_level,
                         check_same_thread=False, cached_statements=cached_statements, **kw)
        self._sim_open = True
        p.sqlconns.append(self)

    # -- the seam
    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def _alive(self):
        if self._p.dead or self._p.ended:
            raise Killed

    def _sim_refresh(self):
        node = self._node
        if self._version == node.version:
            return
        data = bytes(node.data)
        self.deserialize(data if data else EMPTY)
        self._version = node.version

    def _moved(self):
        fs = self._p.world.fs
        try:
            return fs.lookup(self._canon, self._p.cwd, 0)[0] is not self._node
        except OSError:
            return True

    # Locks as in SQLite's rollback journal mode: any number of readers (shared), one writer preparing beside them
    # (reserved), who has to wait for the readers to be gone, and lets no new ones start (pending), to commit.
    def _sim_wait(self, free):
        p = self._p
        if not free():
            p.world.probe('sqlite lock contention')
            ok = p.world.block(p, p.world.true_us + int(self._timeout * 1e6), free)
            self._alive()
            if not ok:
                raise real.OperationalError('database is locked')

    def _sim_share(self):
        """Become a reader, with a view of the database as it is now."""
        locks = self._node.locks
        self._sim_wait(lambda: locks.pending in (None, self))
        self._sim_renew()
        locks.shared[self] = True

    def _sim_reserve(self):
        """Become the writer."""
        locks = self._node.locks
        if self in locks.shared:
            # waiting could never end: the other one would wait for this reader
            if locks.reserved not in (None, self):
                self._p.world.probe('sqlite lock contention')
                raise real.OperationalError('database is locked')
        else:
            self._sim_wait(lambda: locks.reserved in (None, self) and locks.pending in (None, self))
            self._sim_renew()
            locks.shared[self] = True
        locks.reserved = self

    def _sim_renew(self):
        if self._version == self._node.version:
            return
        if self.in_transaction:         # begun, but nothing was read yet
            super().rollback()
            self._sim_refresh()
            real.Cursor(self).execute('BEGIN')
        else:
            self._sim_refresh()

    def _sim_exclude(self):
        """Wait for the readers to be gone."""
        locks = self._node.locks
        locks.pending = self
        self._sim_wait(lambda: set(locks.shared) <= {self})

    @property
    def _locked(self):
        return not self._memory and self._node.locks.reserved is self

    def _sim_unlock(self):
        locks = self._node.locks
        self._dirty = False
        if locks is None:               # (after a power loss)
            return
        locks.shared.pop(self, None)
        if locks.reserved is self:
            locks.reserved = None
        if locks.pending is self:
            locks.pending = None

    def _sim_before(self, sql):
        self._alive()
        if self._memory:
            return
        p = self._p
        w = p.world
        word = first_word(sql)
        self._writing = False
        self._fresh = False
        self._changes = self.total_changes
        if word in ('commit', 'end'):
            if self.in_transaction:
                self._flush_point()
            return
        if word in NEUTRAL:
            if word == 'begin' and ('immediate' in sql.lower() or 'exclusive' in sql.lower()):
                w.enter(p, 'sqlwrite', self._canon)
                self._writable_or_raise()
                self._sim_reserve()
                if 'exclusive' in sql.lower():
                    self._sim_exclude()
                self._fresh = not self.in_transaction
            return
        write = word not in READS and not (word == 'with' and not any(
            k in sql.lower() for k in ('insert', 'update', 'delete')))
        self._fresh = self not in self._node.locks.shared
        if write:
            w.enter(p, 'sqlwrite', self._canon)
            if not self._locked:
                implicit = not self.in_transaction and word in DML and self.isolation_level
                try:
                    self._writable_or_raise()
                    self._sim_reserve()
                except real.Error:
                    if self._version is None and self._node.locks.pending:
                        raise       # (not even the schema could be read)
                    if implicit == 'DEFERRED' or self.isolation_level == '' and word in DML and not self.in_transaction:
                        real.Cursor(self).execute('BEGIN')      # that succeeded, it is the statement that failed
                    raise
            self._writing = True
            self._before_data = None if self.in_transaction else self.serialize()
        else:
            w.enter(p, 'sqlread', self._canon)
            if self._fresh:
                self._sim_share()

    def _writable_or_raise(self):
        fs, p = self._p.world.fs, self._p
        if self._ro:
            raise real.OperationalError('attempt to write a readonly database')
        if self._moved():
            p.world.probe('sqlite database moved')
            raise real.OperationalError('attempt to write a readonly database')
        if not fs.may(self._dir, p.uid, 3):
            raise real.OperationalError('unable to open database file')

    def _sim_failed(self, e):
        if self._memory:
            return
        if self._writing and self.total_changes != self._changes:
            self._dirty = True
        if not self.in_transaction or self._fresh and isinstance(e, (real.OperationalError, real.ProgrammingError)):
            self._sim_unlock()

    def _sim_after(self, sql):
        if self._memory:
            return
        word = first_word(sql)
        if self.in_transaction:
            if self._writing and (self.total_changes != self._changes or word not in DML):
                self._dirty = True
            return
        try:
            if self._writing:
                data = self.serialize()
                if data != self._before_data:
                    self._dirty = True
                    try:
                        self._flush_point()
                    except BaseException:
                        self._version = None
                        raise
                    self._store(data)
            elif word in ('commit', 'end') and self._dirty:
                self._store(self.serialize())
        finally:
            self._sim_unlock()

    def _flush_point(self):
        """The commit system call: may fail, in which case the transaction rolls back."""
        if self._dirty:
            try:
                self._p.world.enter(self._p, 'sqlcommit', self._canon)
            except real.Error:
                if self.in_transaction:
                    super().rollback()
                self._version = None
                self._sim_unlock()
                raise
        if self._locked:
            self._sim_exclude()         # (when that fails, the transaction goes on)

    def _store(self, data):
        p = self._p
        fs = p.world.fs
        node = self._node
        node.data = bytearray(data)
        fs.fsync_data(node)
        node.version += 1
        node.mtime = fs.clock()
        self._version = node.version
        p.events.append(('write', self._canon))
        # SQLite syncs the file and its journal's directory entry
        fs.fsync(node, p.world.personality)
        fs.fsync(self._dir, p.world.personality)

    def commit(self):
        self._alive()
        if self._memory or not self.in_transaction:
            return super().commit()
        self._flush_point()
        super().commit()
        if self._dirty:
            self._store(self.serialize())
        self._sim_unlock()

    def rollback(self):
        self._alive()
        super().rollback()
        if not self._memory:
            self._sim_unlock()

    def close(self):
        if self._sim_open and not self._memory:
            self._sim_unlock()
        self._sim_open = False
        super().close()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            try:
                self.commit()
            except BaseException:
                self.rollback()
                raise
        else:
            self.rollback()
        return False

    def execute(self, sql, parameters=()):
        return self.cursor().execute(sql, parameters)

    def executemany(self, sql, parameters):
        return self.cursor().executemany(sql, parameters)

    def executescript(self, script):
        return self.cursor().executescript(script)

    def backup(self, target, **kw):
        if not self._memory:
            self._sim_before('select')
        tgt_sim = isinstance(target, SimConnection) and not target._memory
        if tgt_sim:
            target._sim_before('create')
        super().backup(target, **kw)
        if tgt_sim:
            target._sim_after('create')

    def _sim_release(self):
        try:
            if not self._memory:
                self._sim_unlock()
            if self._sim_open:
                self._sim_open = False
                super().close()
        except Exception:
            pass


def connect(database, timeout=5.0, detect_types=0, isolation_level='', check_same_thread=True,
            factory=SimConnection, cached_statements=128, uri=False, **kw):
    return factory(database, timeout, detect_types, isolation_level, check_same_thread, factory,
                   cached_statements, uri, **kw)


def module():
    m = types.ModuleType('sqlite3')
    for k, v in vars(real).items():
        if not k.startswith('__'):
            setattr(m, k, v)
    m.connect = connect
    m.Connection = SimConnection
    m.Cursor = SimCursor
    return m
