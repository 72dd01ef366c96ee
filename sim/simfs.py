"""A simulated file system and process environment for the command line tools.

Everything under ROOT (and every relative path, and the temporary directory)
lives in memory.  The tools run unmodified in this process: the functions of
`os`, `io.open` and `open` they use are redirected while a simulated run is
active.  Real paths can be read (imports) but never changed.

Crash model
 * kill: the process stops at a chosen system call; everything handed to the
   simulated kernel survives, user-space buffers do not.
 * power loss: also the kernel's volatile state is lost.  Directory changes
   survive as some prefix of their order (ordered journal); file data that was
   not fsynced survives wholly, partly (torn) or not at all.
"""
import builtins
import contextlib
import errno
import io
import os
import stat as stat_mod
import sys
import tempfile
import time

from .kernel import InvalidPlan, SimInterrupt, SimKill, SimMemoryError

ROOT = "/nonexistent-simfs"
WORK = ROOT + "/work"
TMP = ROOT + "/tmp"
FD0 = 1_000_000
PID = 4242

REAL = {
    n: getattr(os, n)
    for n in (
        "open close read write pread pwrite lseek fsync fdatasync ftruncate truncate fstat stat lstat chmod fchmod chown fchown lchown utime "
        "rename replace unlink remove link symlink readlink mkdir rmdir listdir scandir access getpid sendfile isatty listxattr getxattr "
        "setxattr removexattr urandom dup dup2 sync getcwd chdir posix_fallocate copy_file_range set_blocking get_blocking mkfifo statvfs "
        "fspath fdopen"
    ).split()
    if hasattr(os, n)
}
REAL_OPEN = io.open
REAL_BUILTIN_OPEN = builtins.open


def err(code, path=None):
    e = OSError(code, os.strerror(code), path) if path is not None else OSError(code, os.strerror(code))
    e.simulated = True
    return e


class Inode:
    __slots__ = ("ino", "data", "mode", "kind", "durable", "pending", "target")

    def __init__(self, ino, kind, data=b"", mode=0o644):
        self.ino = ino
        self.kind = kind  # file dir link dev
        self.data = bytearray(data)
        self.mode = mode
        self.durable = None  # content known to be on the platter
        self.pending = []  # (offset, bytes) | ("trunc", size) since then
        self.target = None


class OpenFile:
    __slots__ = ("node", "pos", "flags", "path", "rawobj")

    def __init__(self, node, flags, path):
        self.node = node
        self.pos = 0
        self.flags = flags
        self.path = path


class SimFS:
    def __init__(self, world, files, links=(), caps=None):
        """files: {relative name: bytes}; all of it already durable."""
        self.world = world
        self.n = 0
        self.nodes = {}
        self.names = {}
        self.journal = []
        self.fds = {}
        self.nextfd = FD0
        self.nextino = 10
        self.dead = None
        self.written = 0
        self.cap = None
        self.faults = []
        self.ops = 0
        self.trace_ops = []
        self.fired = []
        self.clock = 1_700_000_000.0
        self.used_names = set()
        self.pid = PID
        for d in (ROOT, WORK, TMP):
            self._add(d, Inode(self._ino(), "dir", mode=0o755))
        for name, data in files.items():
            node = Inode(self._ino(), "file", data)
            node.durable = bytes(data)
            self._add(WORK + "/" + name, node)
        for name, target in links:
            node = Inode(self._ino(), "link")
            node.target = target
            self._add(WORK + "/" + name, node)
        dev = Inode(self._ino(), "dev", mode=0o666)
        self._add(WORK + "/dev_sink", dev)
        self.base_names = dict(self.names)

    def _ino(self):
        self.nextino += 1
        return self.nextino

    def _add(self, path, node):
        self.nodes[node.ino] = node
        self.names[path] = node.ino

    # ------------------------------------------------------------ system calls
    def call(self, op, path="", detail=None):
        """Every simulated system call passes here; may inject a fault."""
        if self.dead:
            raise SimKill("dead")
        i = self.ops
        self.ops += 1
        self.trace_ops.append(op)
        self.world.log("fs", op, str(path).replace(ROOT, ""), detail)
        for f in self.faults:
            if f["at"] == i or (f.get("sticky") and i > f["at"] and op in f.get("ops", (op,))):
                kind = f["kind"]
                if kind in ("kill", "power"):
                    self.fired.append((kind, op))
                    self.world.fault(kind + "@" + op)
                    self.dead = kind
                    raise SimKill(kind)
                if kind in ("interrupt", "memory"):
                    self.fired.append((kind, op))
                    self.world.fault(kind + "@" + op)
                    raise SimInterrupt() if kind == "interrupt" else SimMemoryError()
                if op in FAULTABLE:
                    self.fired.append((kind, op))
                    self.world.fault(f"{kind}@{op}")
                    raise err(getattr(errno, kind), path or None)

    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = WORK + "/" + path
        return os.path.normpath(path)

    def resolve(self, path, follow=True, depth=0):
        """Follow symbolic links in the directory part and (if follow) at the end."""
        if depth > 20:
            raise err(errno.ELOOP, path)
        p = self.norm(path)
        if p == ROOT or not p.startswith(ROOT + "/"):
            return p
        parts = p[len(ROOT) + 1 :].split("/")
        cur = ROOT
        for i, part in enumerate(parts):
            nxt = cur + "/" + part
            last = i == len(parts) - 1
            ino = self.names.get(nxt)
            if ino is not None and self.nodes[ino].kind == "link" and (not last or follow):
                tgt = self.nodes[ino].target
                tgt = tgt if tgt.startswith("/") else cur + "/" + tgt
                return self.resolve("/".join([tgt] + parts[i + 1 :]), follow, depth + 1)
            if not last:
                if ino is None:
                    raise err(errno.ENOENT, path)
                if self.nodes[ino].kind != "dir":
                    raise err(errno.ENOTDIR, path)
            cur = nxt
        return cur

    def lookup(self, path, follow=True):
        p = self.resolve(path, follow)
        ino = self.names.get(p)
        if ino is None:
            raise err(errno.ENOENT, str(path))
        return self.nodes[ino]

    def j(self, *ev):
        self.journal.append(ev)

    def open(self, path, flags, mode=0o666):
        acc = flags & os.O_ACCMODE
        self.call("open-w" if acc != os.O_RDONLY else "open-r", path)
        p = self.resolve(path, not flags & getattr(os, "O_NOFOLLOW", 0))
        ino = self.names.get(p)
        if flags & getattr(os, "O_TMPFILE", 0) == getattr(os, "O_TMPFILE", -1):
            raise err(errno.EOPNOTSUPP, str(path))
        if ino is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, str(path))
            parent = os.path.dirname(p)
            if parent not in self.names:
                raise err(errno.ENOENT, str(path))
            node = Inode(self._ino(), "file", mode=mode & ~0o022)
            self._add(p, node)
            self.j("link", p, node.ino)
            self.used_names.add(p)
        else:
            node = self.nodes[ino]
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, str(path))
            if node.kind == "dir" and acc != os.O_RDONLY:
                raise err(errno.EISDIR, str(path))
            if flags & os.O_TRUNC and acc != os.O_RDONLY and node.kind == "file":
                self._trunc(node, 0)
            if acc != os.O_RDONLY:
                self.used_names.add(p)
        fd = self.nextfd
        self.nextfd += 1
        self.fds[fd] = OpenFile(node, flags, p)
        return fd

    def of(self, fd):
        o = self.fds.get(fd)
        if o is None:
            raise err(errno.EBADF)
        return o

    def close(self, fd):
        if self.dead:
            return
        o = self.of(fd)
        del self.fds[fd]
        self.call("close-w" if o.flags & os.O_ACCMODE != os.O_RDONLY else "close-r", o.path)

    def read(self, fd, n):
        o = self.of(fd)
        self.call("read", o.path, n)
        if o.node.kind == "dir":
            raise err(errno.EISDIR)
        d = bytes(o.node.data[o.pos : o.pos + n])
        o.pos += len(d)
        return d

    def pread(self, fd, n, off):
        o = self.of(fd)
        self.call("read", o.path, n)
        return bytes(o.node.data[off : off + n])

    def _trunc(self, node, size):
        d = node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(bytes(size - len(d)))
        node.pending.append(("trunc", size))

    def _put(self, node, off, b):
        d = node.data
        if node.kind == "dev":
            d.extend(b)
            return
        if off > len(d):
            d.extend(bytes(off - len(d)))
        d[off : off + len(b)] = b
        node.pending.append((off, bytes(b)))

    def write(self, fd, b, off=None):
        b = bytes(b)
        if self.dead:
            return len(b)
        o = self.of(fd)
        if o.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EBADF)
        self.call("write", o.path, len(b))
        n = len(b)
        if self.cap is not None and o.node.kind != "dev":
            room = self.cap - self.written
            if room <= 0 and n:
                self.fired.append(("ENOSPC", "write"))
                self.world.fault("disk-full")
                raise err(errno.ENOSPC, o.path)
            n = min(n, room)
        if off is None:
            if o.flags & os.O_APPEND:
                o.pos = len(o.node.data)
            self._put(o.node, o.pos, b[:n])
            o.pos += n
        else:
            self._put(o.node, off, b[:n])
        self.written += n
        return n

    def lseek(self, fd, off, whence=0):
        o = self.of(fd)
        if self.dead:
            raise SimKill("dead")
        if o.node.kind == "dev":
            raise err(errno.ESPIPE)
        base = 0 if whence == 0 else o.pos if whence == 1 else len(o.node.data)
        if base + off < 0:
            raise err(errno.EINVAL)
        o.pos = base + off
        return o.pos

    def fsync(self, fd):
        if fd not in self.fds and not isinstance(fd, int):
            fd = fd.fileno()
        o = self.of(fd)
        self.call("fsync", o.path)
        if o.node.kind == "dir":
            self.commit()
            return
        o.node.durable = bytes(o.node.data)
        o.node.pending = []

    def commit(self):
        self.base_names = dict(self.names)
        self.journal = []

    def ftruncate(self, fd, size):
        o = self.of(fd)
        self.call("truncate", o.path, size)
        self._trunc(o.node, size)

    def truncate(self, path, size):
        self.call("truncate", path, size)
        self._trunc(self.lookup(path), size)

    def stat_of(self, node):
        kind = {"file": stat_mod.S_IFREG, "dir": stat_mod.S_IFDIR, "link": stat_mod.S_IFLNK, "dev": stat_mod.S_IFCHR}[node.kind]
        dev = 78 if any(p.startswith(TMP + "/") and i == node.ino for p, i in self.names.items()) or self.names[TMP] == node.ino else 77
        t = int(self.clock)
        return os.stat_result((kind | node.mode, node.ino, dev, 1, 0, 0, len(node.data), t, t, t))

    def stat(self, path, follow=True):
        if self.dead:
            raise SimKill("dead")
        return self.stat_of(self.lookup(path, follow))

    def rename(self, a, b):
        self.call("rename", b)
        pa, pb = self.resolve(a, False), self.resolve(b, False)
        if pa not in self.names:
            raise err(errno.ENOENT, str(a))
        if os.path.dirname(pb) not in self.names:
            raise err(errno.ENOENT, str(b))
        if pa.startswith(TMP + "/") != pb.startswith(TMP + "/"):
            raise err(errno.EXDEV, str(a))
        old = self.names.get(pb)
        if old is not None and self.nodes[old].kind == "dir":
            raise err(errno.EISDIR, str(b))
        self.names[pb] = self.names.pop(pa)
        self.used_names.add(pb)
        self.j("rename", pa, pb)

    def unlink(self, path):
        self.call("unlink", path)
        p = self.resolve(path, False)
        if p not in self.names:
            raise err(errno.ENOENT, str(path))
        if self.nodes[self.names[p]].kind == "dir":
            raise err(errno.EISDIR, str(path))
        del self.names[p]
        self.j("unlink", p)

    def link(self, a, b):
        self.call("link", b)
        pa, pb = self.resolve(a, False), self.resolve(b, False)
        if pb in self.names:
            raise err(errno.EEXIST, str(b))
        if pa not in self.names:
            raise err(errno.ENOENT, str(a))
        if pa.startswith(TMP + "/") != pb.startswith(TMP + "/"):
            raise err(errno.EXDEV, str(a))
        self.names[pb] = self.names[pa]
        self.used_names.add(pb)
        self.j("link", pb, self.names[pa])

    def symlink(self, target, path):
        self.call("link", path)
        p = self.resolve(path, False)
        if p in self.names:
            raise err(errno.EEXIST, str(path))
        node = Inode(self._ino(), "link")
        node.target = os.fspath(target)
        self._add(p, node)
        self.j("link", p, node.ino)

    def mkdir(self, path, mode=0o777):
        self.call("mkdir", path)
        p = self.resolve(path, False)
        if p in self.names:
            raise err(errno.EEXIST, str(path))
        if os.path.dirname(p) not in self.names:
            raise err(errno.ENOENT, str(path))
        node = Inode(self._ino(), "dir", mode=mode & ~0o022)
        self._add(p, node)
        self.j("link", p, node.ino)

    def rmdir(self, path):
        self.call("unlink", path)
        p = self.resolve(path, False)
        if p not in self.names:
            raise err(errno.ENOENT, str(path))
        if any(q.startswith(p + "/") for q in self.names):
            raise err(errno.ENOTEMPTY, str(path))
        del self.names[p]
        self.j("unlink", p)

    def listdir(self, path="."):
        p = self.resolve(path)
        if p not in self.names:
            raise err(errno.ENOENT, str(path))
        return sorted(q[len(p) + 1 :] for q in self.names if q.startswith(p + "/") and "/" not in q[len(p) + 1 :])

    def chmod(self, path, mode, follow=True):
        self.call("chmod", path)
        self.lookup(path, follow).mode = mode & 0o7777

    # ---------------------------------------------------------------- after crash
    def view(self):
        """{name: content} of everything reachable, kernel view."""
        return self._view(self.names, lambda node: bytes(node.data))

    def _view(self, names, content):
        out = {}
        for p, ino in names.items():
            node = self.nodes[ino]
            if node.kind == "file":
                out[p[len(ROOT) + 1 :]] = content(node)
            elif node.kind == "link":
                t = node.target if node.target.startswith("/") else os.path.dirname(p) + "/" + node.target
                t = os.path.normpath(t)
                if t in names and self.nodes[names[t]].kind == "file":
                    out[p[len(ROOT) + 1 :]] = content(self.nodes[names[t]])
        return out

    def power_view(self, rng):
        """What may be found after a power loss."""
        k = rng.randint(0, len(self.journal))
        names = dict(self.base_names)
        for ev in self.journal[:k]:
            if ev[0] == "link":
                names[ev[1]] = ev[2]
            elif ev[0] == "unlink":
                names.pop(ev[1], None)
            else:
                if ev[1] in names:
                    names[ev[2]] = names.pop(ev[1])
        cache = {}

        def content(node):
            if node.ino in cache:
                return cache[node.ino]
            d = bytearray(node.durable or b"")
            mode = rng.choice(["none", "all", "prefix", "any", "torn"])
            pend = node.pending
            if mode == "none":
                pend = []
            elif mode == "prefix":
                pend = pend[: rng.randint(0, len(pend))]
            elif mode == "any":
                pend = [p for p in pend if rng.random() < 0.5]
            for p in pend:
                if p[0] == "trunc":
                    if p[1] < len(d):
                        del d[p[1] :]
                    else:
                        d.extend(bytes(p[1] - len(d)))
                else:
                    off, b = p
                    if mode == "torn":
                        b = b[: rng.randint(0, len(b))]
                    if off > len(d):
                        d.extend(bytes(off - len(d)))
                    d[off : off + len(b)] = b
            cache[node.ino] = bytes(d)
            return cache[node.ino]

        return self._view(names, content)


FAULTABLE = {"open-w", "open-r", "read", "write", "fsync", "close-w", "rename", "truncate", "chmod", "unlink", "link", "mkdir"}


class SimFile(io.RawIOBase):
    """Raw file object on the simulated file system."""

    def __init__(self, fs, fd, mode, name, closefd=True):
        self.fs = fs
        self.fd = fd
        self._mode = mode
        self.name = name
        self.closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = "w" in mode or "a" in mode or "x" in mode or "+" in mode

    @property
    def mode(self):
        return self._mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return self.fs.of(self.fd).node.kind != "dev"

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        d = self.fs.read(self.fd, len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self.fs.write(self.fd, b)

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.fs.lseek(self.fd, off, whence)

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.fs.ftruncate(self.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.closefd and self.fd in self.fs.fds:
                self.fs.close(self.fd)

    def __del__(self):
        try:
            if not self.closed and not self.fs.dead:
                self.close()
        except BaseException:  # pylint: disable=broad-except
            pass


class Env:
    """Redirects the process's file system access while active."""

    def __init__(self, fs):
        self.fs = fs
        self.saved = []

    def mine(self, path):
        if isinstance(path, int):
            return path >= FD0
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        return not p.startswith("/") or p == ROOT or p.startswith(ROOT + "/")

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            if opener is not None and not isinstance(file, int):
                # e.g. tempfile opening a directory-relative name: the opener decides
                fd = opener(file, _flags(mode))
                if fd >= FD0:
                    return self._wrap(fd, mode, buffering, encoding, errors, newline, closefd, file)
                REAL["close"](fd)
            if any(c in mode for c in "wax+") and file != os.devnull:
                raise err(errno.EACCES, str(file))
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd)
        if isinstance(file, int):
            return self._wrap(file, mode, buffering, encoding, errors, newline, closefd, file)
        flags = _flags(mode)
        fd = opener(file, flags) if opener is not None else self.fs.open(file, flags)
        if "a" in mode:
            self.fs.lseek(fd, 0, 2)
        return self._wrap(fd, mode, buffering, encoding, errors, newline, True, file)

    def _wrap(self, fd, mode, buffering, encoding, errors, newline, closefd, name):
        core = mode.replace("b", "").replace("t", "")
        if self.fs.of(fd).node.kind == "dir":
            raise err(errno.EISDIR, str(name))
        raw = SimFile(self.fs, fd, core, name, closefd)
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in core:
            buf = io.BufferedRandom(raw, size)
        elif core[0] == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)

    def _patch(self, mod, name, val):
        self.saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def __enter__(self):
        fs = self.fs
        mine = self.mine

        def fdsel(name, sim):
            real = REAL[name]

            def f(fd, *a, **k):
                if hasattr(fd, "fileno"):
                    fd = fd.fileno()
                return sim(fd, *a, **k) if mine(fd) else real(fd, *a, **k)

            return f

        def pathsel(name, sim, readonly):
            real = REAL[name]

            def f(path=".", *a, **k):
                if isinstance(path, int) and not mine(path):
                    return real(path, *a, **k)
                if mine(path):
                    return sim(path, *a, **k)
                if not readonly:
                    raise err(errno.EACCES, str(path))
                return real(path, *a, **k)

            return f

        def two(sim):
            def f(a, b, **_k):
                if not mine(a) or not mine(b):
                    raise err(errno.EACCES, str(b))
                return sim(a, b)

            return f

        def o_open(path, flags, mode=0o777, *, dir_fd=None):
            if mine(path) and dir_fd is None:
                return fs.open(path, flags, mode)
            if flags & os.O_ACCMODE != os.O_RDONLY and path != os.devnull:
                raise err(errno.EACCES, str(path))
            return REAL["open"](path, flags, mode, dir_fd=dir_fd)

        def o_stat(path, *, dir_fd=None, follow_symlinks=True):
            if mine(path):
                if isinstance(path, int):
                    return fs.stat_of(fs.of(path).node)
                return fs.stat(path, follow_symlinks)
            return REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)

        def o_lstat(path, *, dir_fd=None):
            return fs.stat(path, False) if mine(path) else REAL["lstat"](path, dir_fd=dir_fd)

        def o_access(path, mode, **_k):
            if not mine(path):
                return REAL["access"](path, mode)
            try:
                fs.lookup(path)
                return True
            except OSError:
                return False

        def o_readlink(path, **_k):
            if not mine(path):
                return REAL["readlink"](path)
            node = fs.lookup(path, False)
            if node.kind != "link":
                raise err(errno.EINVAL, str(path))
            return node.target

        def o_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
            if not mine(path):
                raise err(errno.EACCES, str(path))
            if isinstance(path, int):
                fs.call("chmod", fs.of(path).path)
                fs.of(path).node.mode = mode & 0o7777
            else:
                fs.chmod(path, mode, follow_symlinks)

        def o_write(fd, b):
            return fs.write(fd, b) if fd >= FD0 else REAL["write"](fd, b)

        def noop(*_a, **_k):
            if fs.dead:
                raise SimKill("dead")

        def refuse(code):
            def f(*_a, **_k):
                raise err(code)

            return f

        class Entry:
            def __init__(self, d, n):
                self.name = n
                self.path = os.path.join(d, n)

            def is_file(self, *, follow_symlinks=True):
                return fs.lookup(self.path, follow_symlinks).kind == "file"

            def is_dir(self, *, follow_symlinks=True):
                return fs.lookup(self.path, follow_symlinks).kind == "dir"

            def is_symlink(self):
                return fs.lookup(self.path, False).kind == "link"

            def stat(self, *, follow_symlinks=True):
                return fs.stat(self.path, follow_symlinks)

            def __fspath__(self):
                return self.path

        @contextlib.contextmanager
        def o_scandir(path="."):
            yield iter([Entry(path, n) for n in fs.listdir(path)])

        def scandir(path="."):
            return o_scandir(path) if mine(path) else REAL["scandir"](path)

        table = {
            "open": o_open,
            "close": fdsel("close", fs.close),
            "read": fdsel("read", fs.read),
            "pread": fdsel("pread", fs.pread),
            "write": o_write,
            "pwrite": fdsel("pwrite", lambda fd, b, off: fs.write(fd, b, off)),
            "lseek": fdsel("lseek", fs.lseek),
            "fsync": fdsel("fsync", fs.fsync),
            "fdatasync": fdsel("fdatasync", fs.fsync),
            "ftruncate": fdsel("ftruncate", fs.ftruncate),
            "truncate": pathsel("truncate", lambda p, n: fs.ftruncate(p, n) if isinstance(p, int) else fs.truncate(p, n), False),
            "fstat": fdsel("fstat", lambda fd: fs.stat_of(fs.of(fd).node)),
            "stat": o_stat,
            "lstat": o_lstat,
            "chmod": o_chmod,
            "fchmod": o_chmod,
            "chown": noop,
            "fchown": noop,
            "lchown": noop,
            "utime": noop,
            "rename": two(fs.rename),
            "replace": two(fs.rename),
            "link": two(fs.link),
            "symlink": lambda t, p, *a, **k: fs.symlink(t, p) if mine(p) else refuse(errno.EACCES)(),
            "unlink": pathsel("unlink", lambda p, **k: fs.unlink(p), False),
            "remove": pathsel("remove", lambda p, **k: fs.unlink(p), False),
            "mkdir": pathsel("mkdir", lambda p, mode=0o777, **k: fs.mkdir(p, mode), False),
            "rmdir": pathsel("rmdir", lambda p, **k: fs.rmdir(p), False),
            "listdir": pathsel("listdir", fs.listdir, True),
            "scandir": scandir,
            "access": o_access,
            "readlink": o_readlink,
            "getpid": lambda: fs.pid,
            "getcwd": lambda: WORK,
            "chdir": noop,
            "sendfile": refuse(errno.ENOTSOCK),
            "copy_file_range": refuse(errno.ENOSYS),
            "posix_fallocate": fdsel("posix_fallocate", lambda fd, off, n: None),
            "isatty": lambda fd: False,
            "listxattr": lambda *a, **k: [],
            "getxattr": refuse(errno.ENOTSUP),
            "setxattr": refuse(errno.ENOTSUP),
            "removexattr": refuse(errno.ENOTSUP),
            "urandom": self._urandom,
            "sync": self._sync,
            "dup": refuse(errno.ENOSYS),
            "mkfifo": refuse(errno.EACCES),
        }
        for name, val in table.items():
            if hasattr(os, name):
                self._patch(os, name, val)
        self._patch(io, "open", self._open)
        self._patch(builtins, "open", self._open)
        self._patch(tempfile, "tempdir", TMP)
        self._patch(tempfile, "_name_sequence", iter(f"sim{i}" for i in range(10**6)))
        self._patch(time, "time", self._time)
        self._patch(time, "time_ns", lambda: int(self._time() * 1e9))
        return self

    def _urandom(self, n):
        self.fs.n += 1
        return bytes(((self.fs.n * 17 + i * 31) & 255) for i in range(n))

    def _sync(self):
        self.fs.call("fsync", "*")
        for node in self.fs.nodes.values():
            if node.kind == "file":
                node.durable = bytes(node.data)
                node.pending = []
        self.fs.commit()

    def _time(self):
        self.fs.clock += 0.001
        return self.fs.clock

    def __exit__(self, *a):
        for mod, name, val in reversed(self.saved):
            setattr(mod, name, val)
        self.saved = []


def _flags(mode):
    core = mode.replace("b", "").replace("t", "")
    plus = "+" in core
    base = core.replace("+", "")
    if base == "r":
        return os.O_RDWR if plus else os.O_RDONLY
    acc = os.O_RDWR if plus else os.O_WRONLY
    if base == "w":
        return acc | os.O_CREAT | os.O_TRUNC
    if base == "x":
        return acc | os.O_CREAT | os.O_EXCL
    if base == "a":
        return acc | os.O_CREAT | os.O_APPEND
    raise ValueError(f"invalid mode: {mode!r}")


class ProcResult:
    def __init__(self):
        self.code = None
        self.out = ""
        self.errtext = ""
        self.exc = None
        self.killed = None


class SimStdout(io.RawIOBase):
    """Standard output: collects; may fail from some byte on."""

    def __init__(self, cap=None):
        self.buf = bytearray()
        self.cap = cap

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.cap is not None and len(self.buf) + len(b) > self.cap:
            raise err(errno.ENOSPC)
        self.buf += b
        return len(b)


def run_cli(fs, argv, entry="main", tracer=None, stdout_cap=None, modules=None):
    """Run `python -m dustmaker argv` (or a single utility module) on `fs`."""
    import runpy

    res = ProcResult()
    so, se = SimStdout(stdout_cap), SimStdout()
    out = io.TextIOWrapper(io.BufferedWriter(so), encoding="utf-8")
    errf = io.TextIOWrapper(io.BufferedWriter(se), encoding="utf-8", errors="backslashreplace")
    saved = sys.argv, sys.stdout, sys.stderr, sys.stdin
    mods = {n: sys.modules.get(n, saved) for n in (modules or ())}
    sys.modules.update(modules or {})
    sys.argv = ["dustmaker"] + list(argv)
    sys.stdout, sys.stderr, sys.stdin = out, errf, io.TextIOWrapper(io.BytesIO())
    try:
        with Env(fs):
            try:
                if tracer is not None:
                    tracer.__enter__()
                try:
                    if entry == "main":
                        runpy.run_module("dustmaker", run_name="__main__")
                    else:
                        sys.argv = ["x"] + list(argv[1:])
                        runpy.run_module("dustmaker.cmd." + entry, run_name="__main__")
                    res.code = 0
                finally:
                    if tracer is not None:
                        tracer.__exit__()
            except SystemExit as e:
                c = e.code
                res.code = 0 if c is None else (c & 0xFF if isinstance(c, int) else 1)
                if c is not None and not isinstance(c, int):
                    errf.write(str(c))
            except SimKill as e:
                res.killed = fs.dead or "kill"
            except Exception as e:  # the interpreter prints a traceback and exits with 1
                if isinstance(e, InvalidPlan):
                    raise
                e.__traceback__ = None
                res.exc = e
                res.code = 1
            except KeyboardInterrupt as e:
                if not isinstance(e, SimInterrupt):
                    raise
                res.exc = None
                res.code = 130
            if not fs.dead:
                try:
                    out.flush()
                except OSError:
                    res.code = res.code or 120
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = saved
        for n, m in mods.items():
            if m is saved:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    if fs.dead:
        res.code = None
        res.killed = fs.dead
    so.cap = None
    try:
        errf.flush()
        out.flush()
    except (OSError, ValueError):
        pass
    res.out = bytes(so.buf).decode("utf-8", "replace")
    res.errtext = bytes(se.buf).decode("utf-8", "replace")
    return res
