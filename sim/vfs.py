"""In-memory POSIX-like file system: volatile (page cache) and durable state.

All state the code under test can reach lives here, so no simulated command can
touch the real file system.  Process death keeps the volatile state; power loss
keeps only what was made durable, plus a seeded legal part of the rest.
"""

import errno
import os
import stat as st_mod

O_ACC = os.O_RDONLY | os.O_WRONLY | os.O_RDWR


def err(no, *paths):
    if len(paths) == 2:
        return OSError(no, os.strerror(no), paths[0], None, paths[1])
    if paths:
        return OSError(no, os.strerror(no), paths[0])
    return OSError(no, os.strerror(no))


class Inode:
    __slots__ = ('ino', 'kind', 'mode', 'uid', 'nlink', 'data', 'entries', 'target',
                 'mtime', 'ctime', 'atime', 'durable', 'pending', 'dur_entries',
                 'version', 'locks', 'parent')

    def __init__(self, ino, kind, mode, uid, now):
        self.ino = ino
        self.kind = kind                # 'f', 'd', 'l'
        self.mode = mode                # permission bits
        self.uid = uid
        self.nlink = 1
        self.data = bytearray() if kind == 'f' else None
        self.entries = {} if kind == 'd' else None
        self.dur_entries = {} if kind == 'd' else None
        self.target = None
        self.mtime = self.ctime = self.atime = now   # ns
        self.durable = b''              # content that survives power loss
        self.pending = []               # data operations since: (offset, bytes) or ('t', size)
        self.version = 0
        self.locks = None               # sqlite writer lock owner
        self.parent = None              # directories only

    @property
    def st_mode(self):
        return {'f': st_mod.S_IFREG, 'd': st_mod.S_IFDIR, 'l': st_mod.S_IFLNK}[self.kind] | self.mode


class FS:
    MAX_LINKS = 40

    def __init__(self, clock, blksize=4096, order_salt=0):
        self.clock = clock              # () -> ns
        self.blksize = blksize
        self.order_salt = order_salt
        self._next_ino = 2
        self.ns_log = []                # namespace operations not yet durable
        self.root = self._new('d', 0o755, 0)
        self.root.parent = self.root
        self.free_bytes = None          # None: unlimited

    # -- construction
    def _new(self, kind, mode, uid):
        node = Inode(self._next_ino, kind, mode, uid, self.clock())
        self._next_ino += 1
        return node

    # -- lookup
    def may(self, node, uid, want):
        if uid == 0:
            return True
        bits = node.mode >> 6 if node.uid == uid else node.mode
        return (bits & want) == want

    def walk(self, path, cwd, uid, follow=True, parent_of=False, full=None):
        """Resolve path -> (parent directory inode, last name, inode or None, canonical path).

        The root yields (root, '', root, '/').
        """
        full = path if full is None else full
        if path == '':
            raise err(errno.ENOENT, full)
        links = 0
        if path.startswith('/'):
            node, canon = self.root, ''
        else:
            node, canon = cwd
            canon = '' if canon == '/' else canon
            if node.nlink == 0:
                raise err(errno.ENOENT, full)
        parts = [p for p in path.split('/') if p and p != '.']
        must_dir = path.endswith('/') or path.endswith('/.')
        if not parts:
            return node.parent, '', node, canon or '/'
        i = 0
        while True:
            name = parts[i]
            last = i == len(parts) - 1
            if node.kind != 'd':
                raise err(errno.ENOTDIR, full)
            if not self.may(node, uid, 1):
                raise err(errno.EACCES, full)
            if name == '..':
                node = node.parent
                canon = canon.rpartition('/')[0]
                if last:
                    return node.parent, '', node, canon or '/'
                i += 1
                continue
            if len(name.encode('utf-8', 'surrogateescape')) > 255:
                raise err(errno.ENAMETOOLONG, full)
            child = node.entries.get(name)
            if child is not None and child.kind == 'l' and (not last or follow or must_dir):
                links += 1
                if links > self.MAX_LINKS:
                    raise err(errno.ELOOP, full)
                target = child.target
                rest = [p for p in target.split('/') if p and p != '.']
                must_dir = must_dir or (last and target.endswith('/'))
                parts = rest + parts[i + 1:]
                i = 0
                if target.startswith('/'):
                    node, canon = self.root, ''
                if not parts:
                    return node.parent, '', node, canon or '/'
                continue
            if last:
                if child is None and path.endswith('/.'):
                    raise err(errno.ENOENT, full)
                if must_dir and child is not None and child.kind != 'd':
                    raise err(errno.ENOTDIR, full)
                return node, name, child, f'{canon}/{name}'
            if child is None:
                raise err(errno.ENOENT, full)
            node = child
            canon = f'{canon}/{name}'
            i += 1

    def lookup(self, path, cwd, uid, follow=True):
        parent, name, node, canon = self.walk(path, cwd, uid, follow)
        if node is None:
            raise err(errno.ENOENT, path)
        return node, canon

    # -- namespace primitives: every change is logged until durable
    def _link(self, d, name, node):
        d.entries[name] = node
        if node.kind == 'd':
            node.parent = d
        d.mtime = d.ctime = self.clock()
        self.ns_log.append(('link', d, name, node))

    def _unlink(self, d, name):
        del d.entries[name]
        d.mtime = d.ctime = self.clock()
        self.ns_log.append(('unlink', d, name))

    def check_dir_writable(self, d, uid, path):
        if not self.may(d, uid, 3):
            raise err(errno.EACCES, path)

    def create(self, d, name, kind, mode, uid):
        node = self._new(kind, mode, uid)
        self._link(d, name, node)
        return node

    def rename(self, sd, sname, node, dd, dname, target):
        if target is node:
            return
        if target is not None:
            if target.kind == 'd':
                target.nlink = 0
            else:
                target.nlink -= 1
        del sd.entries[sname]
        dd.entries[dname] = node
        if node.kind == 'd':
            node.parent = dd
        now = self.clock()
        sd.mtime = sd.ctime = dd.mtime = dd.ctime = node.ctime = now
        self.ns_log.append(('rename', sd, sname, dd, dname, node))

    # -- data primitives
    def write(self, node, offset, data):
        size = len(node.data)
        if offset > size:
            node.data.extend(bytes(offset - size))
        node.data[offset:offset + len(data)] = data
        node.pending.append((offset, bytes(data)))
        node.mtime = node.ctime = self.clock()
        node.version += 1

    def truncate(self, node, size):
        cur = len(node.data)
        if size < cur:
            del node.data[size:]
        elif size > cur:
            node.data.extend(bytes(size - cur))
        node.pending.append(('t', size))
        node.mtime = node.ctime = self.clock()
        node.version += 1

    # -- durability
    @staticmethod
    def _apply(op):
        if op[0] == 'link':
            op[1].dur_entries[op[2]] = op[3]
        elif op[0] == 'unlink':
            op[1].dur_entries.pop(op[2], None)
        else:
            _, sd, sname, dd, dname, node = op
            if sd.dur_entries.get(sname) is node:
                del sd.dur_entries[sname]
            dd.dur_entries[dname] = node

    def fsync_data(self, node):
        node.durable = bytes(node.data)
        node.pending = []

    def commit_journal(self):
        for op in self.ns_log:
            self._apply(op)
        self.ns_log = []

    def fsync(self, node, personality):
        if node.kind == 'f':
            self.fsync_data(node)
            if personality == 'ordered':
                self.commit_journal()
        elif personality == 'ordered':
            self.commit_journal()
        else:
            rest = []
            for op in self.ns_log:
                if op[1] is node or (op[0] == 'rename' and op[3] is node):
                    self._apply(op)
                else:
                    rest.append(op)
            self.ns_log = rest

    def all_inodes(self):
        seen = {}
        todo = [self.root]
        while todo:
            n = todo.pop()
            if n.ino in seen:
                continue
            seen[n.ino] = n
            if n.kind == 'd':
                todo.extend(n.entries.values())
                todo.extend(n.dur_entries.values())
        return seen.values()

    def sync_all(self):
        self.commit_journal()
        for n in self.all_inodes():
            if n.kind == 'f' and (n.pending or len(n.durable) != len(n.data)):
                self.fsync_data(n)

    def power_loss(self, rng, personality):
        """Keep durable state plus a seeded legal part of what was pending."""
        log = self.ns_log
        dropped = 0
        if personality == 'ordered':
            k = len(log) if rng.random() < .3 else rng.randint(0, len(log))
            for op in log[:k]:
                self._apply(op)
            dropped = len(log) - k
        else:
            cut = {}
            for i, op in enumerate(log):
                d = op[3] if op[0] == 'rename' else op[1]
                if d.ino not in cut:
                    cut[d.ino] = rng.choice([0, len(log), rng.randint(0, len(log))])
                if i < cut[d.ino]:
                    self._apply(op)
                else:
                    dropped += 1
        self.ns_log = []
        torn = 0
        todo, seen, order = [self.root], set(), []
        while todo:
            n = todo.pop(0)
            if n.ino in seen:
                continue
            seen.add(n.ino)
            order.append(n)
            if n.kind == 'd':
                n.entries = dict(n.dur_entries)
                for name in sorted(n.entries):
                    child = n.entries[name]
                    if child.kind == 'd':
                        child.parent = n
                    todo.append(child)
        links = {}
        for n in order:
            if n.kind == 'd':
                for c in n.entries.values():
                    links[c.ino] = links.get(c.ino, 0) + 1
        for n in order:
            n.nlink = links.get(n.ino, 1)
            n.locks = None
            if n.kind == 'f' and n.pending:
                torn += 1
                buf = bytearray(n.durable)
                j = rng.choice([0, len(n.pending), rng.randint(0, len(n.pending))])
                ops = list(n.pending[:j])
                if j < len(n.pending) and n.pending[j][0] != 't' and rng.random() < .5:
                    off, data = n.pending[j]
                    ops.append((off, data[:rng.randint(0, len(data))]))
                for op in ops:
                    if op[0] == 't':
                        size = op[1]
                        if size < len(buf):
                            del buf[size:]
                        else:
                            buf.extend(bytes(size - len(buf)))
                    else:
                        off, data = op
                        if off > len(buf):
                            buf.extend(bytes(off - len(buf)))
                        buf[off:off + len(data)] = data
                if ops and len(buf) > len(n.durable) and rng.random() < .3:
                    # blocks allocated (size durable) but their data never written
                    lo = len(n.durable) + rng.randint(0, len(buf) - len(n.durable) - 1)
                    hi = min(len(buf), lo + rng.choice([16, 512, 4096]))
                    buf[lo:hi] = bytes(hi - lo)
                n.data = buf
                n.version += 1
            elif n.kind == 'f':
                n.data = bytearray(n.durable)
            if n.kind == 'f':
                self.fsync_data(n)
        return {'namespace_dropped': dropped, 'files_torn': torn}

    # -- harness access: root, no faults, immediately durable
    def h_lookup(self, path, follow=True):
        try:
            return self.walk(path, (self.root, '/'), 0, follow)[2]
        except OSError:
            return None

    def h_mkdirs(self, path, uid=0, mode=0o755):
        node = self.root
        for name in [p for p in path.split('/') if p]:
            child = node.entries.get(name)
            if child is None:
                child = self._new('d', mode, uid)
                child.parent = node
                node.entries[name] = child
                node.dur_entries[name] = child
            elif child.kind == 'l':
                child = self.h_lookup(path[:path.index(name)] + name)
            node = child
        return node

    def h_write(self, path, data, uid=0, mode=0o644, mtime=None):
        d, _, name = path.rpartition('/')
        parent = self.h_lookup(d) if d else self.root
        if parent is None:
            parent = self.h_mkdirs(d, uid)
        node = parent.entries.get(name)
        if node is None:
            node = self._new('f', mode, uid)
            parent.entries[name] = node
            parent.dur_entries[name] = node
        node.data = bytearray(data)
        self.fsync_data(node)
        node.version += 1
        node.mtime = self.clock() if mtime is None else mtime
        return node

    def h_symlink(self, path, target, uid=0):
        d, _, name = path.rpartition('/')
        parent = self.h_lookup(d) if d else self.root
        node = self._new('l', 0o777, uid)
        node.target = target
        parent.entries[name] = node
        parent.dur_entries[name] = node
        return node

    def h_read(self, path):
        node = self.h_lookup(path)
        return None if node is None or node.kind != 'f' else bytes(node.data)

    def h_remove(self, path):
        d, _, name = path.rpartition('/')
        parent = self.h_lookup(d) if d else self.root
        if parent is None or name not in parent.entries:
            return False
        node = parent.entries.pop(name)
        parent.dur_entries.pop(name, None)
        self.ns_log = [op for op in self.ns_log
                       if not (op[1] is parent and op[2] == name)
                       and not (op[0] == 'rename' and op[3] is parent and op[4] == name)]
        node.nlink = 0 if node.kind == 'd' else node.nlink - 1
        return True

    def h_rename(self, src, dst):
        sd, _, sname = src.rpartition('/')
        dd, _, dname = dst.rpartition('/')
        sd, dd = self.h_lookup(sd or '/'), self.h_lookup(dd or '/')
        node = sd.entries[sname]
        self.sync_all()
        target = dd.entries.get(dname)
        self.rename(sd, sname, node, dd, dname, target)
        self.sync_all()

    def h_list(self, path):
        node = self.h_lookup(path)
        return sorted(node.entries) if node is not None and node.kind == 'd' else []

    def h_tree(self, path):
        """{relative path: (kind, bytes or link target, mode)} below path, symlinks not followed."""
        out = {}
        node = self.h_lookup(path)
        if node is None or node.kind != 'd':
            return out

        def rec(d, prefix):
            for name in sorted(d.entries):
                c = d.entries[name]
                rel = prefix + name
                if c.kind == 'd':
                    out[rel] = ('d', b'', c.mode)
                    rec(c, rel + '/')
                elif c.kind == 'f':
                    out[rel] = ('f', bytes(c.data), c.mode)
                else:
                    out[rel] = ('l', c.target.encode('utf-8', 'surrogateescape'), c.mode)
        rec(node, '')
        return out

    def h_files(self, path):
        """{relative path: bytes} of regular files below path."""
        return {p: v[1] for p, v in self.h_tree(path).items() if v[0] == 'f'}

    # -- snapshots (no process may be alive)
    def snapshot(self):
        memo = {}

        def cp(n):
            c = memo.get(n.ino)
            if c is not None:
                return c
            c = memo[n.ino] = Inode.__new__(Inode)
            for a in ('ino', 'kind', 'mode', 'uid', 'nlink', 'target', 'mtime', 'ctime',
                      'atime', 'durable', 'version'):
                setattr(c, a, getattr(n, a))
            c.locks = None
            c.parent = None
            c.pending = list(n.pending)
            c.data = None if n.data is None else bytearray(n.data)
            c.entries = c.dur_entries = None
            if n.kind == 'd':
                c.entries = {k: cp(v) for k, v in n.entries.items()}
                c.dur_entries = {k: cp(v) for k, v in n.dur_entries.items()}
            return c

        root = cp(self.root)
        log = [tuple(cp(x) if isinstance(x, Inode) else x for x in op) for op in self.ns_log]
        for n in list(memo.values()):
            if n.kind == 'd':
                for c in n.dur_entries.values():
                    if c.kind == 'd':
                        c.parent = n
        for n in list(memo.values()):
            if n.kind == 'd':
                for c in n.entries.values():
                    if c.kind == 'd':
                        c.parent = n
        root.parent = root
        return root, log, self._next_ino

    def restore(self, snap):
        """Adopt a snapshot (which must not be used again: take a new one first)."""
        self.root, self.ns_log, self._next_ino = snap
