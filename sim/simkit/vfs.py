"""An in-memory file system mounted at /simfs for simulated processes.

Paths outside /simfs are read from the real file system, but whatever a simulated
process writes, creates or removes outside /simfs happens in an overlay kept here,
so that the code under test can never touch the real one.
"""
import builtins
import errno
import io
import os
import pathlib
import posixpath
import random
import stat as statmod
import tempfile

from . import core

MOUNT = "/simfs"
OVERLAY = "/simfs/.root"
REAL_OK = ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty")

_real = {}


class Node:
    __slots__ = ("kind", "data", "children", "mtime", "mode", "ino", "synced", "gone")

    def __init__(self, kind, mtime, ino):
        self.kind = kind
        self.data = bytearray() if kind == "f" else None
        self.children = {} if kind == "d" else None
        self.mtime = mtime
        self.mode = 0o644 if kind == "f" else 0o755
        self.ino = ino
        self.synced = 0
        self.gone = False


class Stat:
    def __init__(self, node):
        self.st_mode = (
            statmod.S_IFDIR if node.kind == "d" else statmod.S_IFREG
        ) | node.mode
        self.st_ino = node.ino
        self.st_dev = 77
        self.st_nlink = 0 if node.gone else 1
        self.st_uid = self.st_gid = 0
        self.st_size = len(node.data) if node.kind == "f" else 4096
        self.st_mtime = self.st_atime = self.st_ctime = node.mtime
        self.st_mtime_ns = self.st_atime_ns = self.st_ctime_ns = int(node.mtime * 1e9)
        self.st_blksize = 4096
        self.st_blocks = (self.st_size + 511) // 512

    def __getitem__(self, i):
        return (
            self.st_mode,
            self.st_ino,
            self.st_dev,
            self.st_nlink,
            self.st_uid,
            self.st_gid,
            self.st_size,
            int(self.st_atime),
            int(self.st_mtime),
            int(self.st_ctime),
        )[i]


class DirEntry:
    def __init__(self, vfs, parent, name, node, shown):
        self.name = name
        self.path = posixpath.join(shown, name)
        self._node = node

    def inode(self):
        return self._node.ino

    def is_dir(self, follow_symlinks=True):
        return self._node.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._node.kind == "f"

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return Stat(self._node)

    def __fspath__(self):
        return self.path


class ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _err(e, path):
    return OSError(e, os.strerror(e), path)


class SimRaw(io.RawIOBase):
    def __init__(self, sim, node, path, readable, writable, append):
        super().__init__()
        self._sim, self._node, self.name = sim, node, path
        self._r, self._w, self._a = readable, writable, append
        self._pos = len(node.data) if append else 0
        self._proc = sim.cur.proc
        self._full = None
        self.mode = ("rb+" if writable else "rb") if readable else "wb"

    def _live(self):
        s = core.current()
        if s is not self._sim:
            return None
        return s

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        s = self._live()
        if s is None or self.closed:
            return 0
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        act = s.point("read", self.name)
        if act in core.ERRNOS:
            core.raise_errno(act, self.name)
        n = len(b)
        if s.vfs.chunk:
            # large files in larger pieces: what matters is that there are several
            n = min(n, max(s.vfs.chunk, len(self._node.data) // 300))
        if act == "short":
            n = max(1, min(n, 3))
        d = bytes(self._node.data[self._pos : self._pos + n])
        b[: len(d)] = d
        self._pos += len(d)
        return len(d)

    def write(self, b):
        s = self._live()
        if s is None:
            return len(b)
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        b = bytes(b)
        act = s.point("write", self.name)
        if act is None and self._full is not None:
            # the write before took what still fitted
            act, lasting = self._full
            if not lasting:
                self._full = None
            core.raise_errno(act, self.name)
        if act in ("torn", "torn_all", "torn_power", "enospc", "edquot", "short"):
            rng = s.rng_for_fault()
            n = rng.randrange(len(b) + 1) if b else 0
            if s.keep is not None:
                n = int(len(b) * s.keep)
            if act == "short":
                n = max(1, n) if b else 0
            elif act in ("enospc", "edquot"):
                self._full = (act, rng.random() < 0.5)
            self._put(s, b[:n])
            if act == "torn":
                s.kill(self._proc, "torn write")
                raise core.SimKilled()
            if act == "torn_all":
                s.kill_tree(self._proc.run, "torn write")
                raise core.SimKilled()
            if act == "torn_power":
                s.kill_tree(None, "power")
                s.vfs.power_loss(s.rng_for_fault())
                raise core.SimKilled()
            if act == "short" or n:
                return n
            core.raise_errno(act, self.name)
        if act in core.ERRNOS:
            core.raise_errno(act, self.name)
        if s.vfs.chunk and len(b) > s.vfs.chunk:
            b = b[: max(s.vfs.chunk, (len(self._node.data) + len(b)) // 300)]
        self._put(s, b)
        return len(b)

    def _put(self, s, b):
        d = self._node.data
        if self._a:
            self._pos = len(d)
        if self._pos > len(d):
            d.extend(b"\0" * (self._pos - len(d)))
        d[self._pos : self._pos + len(b)] = b
        self._pos += len(b)
        self._node.mtime = s.clock
        s.vfs.changed(s, self._node)

    def seek(self, off, whence=0):
        base = (0, self._pos, len(self._node.data))[whence]
        self._pos = max(0, base + off)
        return self._pos

    def tell(self):
        return self._pos

    def truncate(self, size=None):
        s = self._live()
        if s is None:
            return 0
        if size is None:
            size = self._pos
        s.point("truncate", self.name)
        d = self._node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        s.vfs.changed(s, self._node)
        return size

    def close(self):
        if not self.closed:
            s = self._live()
            super().close()
            if s is not None and not s.cur.proc.dead and self._w:
                act = s.point("close", self.name)
                if act in core.ERRNOS:
                    core.raise_errno(act, self.name)


class Vfs:
    def __init__(self, sim, salt=0, chunk=0):
        self.sim = sim
        self.salt = salt
        self.chunk = chunk
        self.ino = 10
        self.root = Node("d", sim.clock, 1)
        self.tmpseq = 0
        self.nextfd = 1000000
        self.watch = {}  # path -> callback(sim, path, node or None)
        self.mkdirs(MOUNT + "/tmp")

    # -- oracle-side access (no points, no faults) ---------------------------
    def lookup(self, path):
        n = self.root
        for part in path[len(MOUNT) :].split("/"):
            if not part:
                continue
            if n.kind != "d":
                raise _err(errno.ENOTDIR, path)
            n = n.children.get(part)
            if n is None:
                return None
        return n

    def mkdirs(self, path):
        n = self.root
        for part in path[len(MOUNT) :].split("/"):
            if part:
                if part not in n.children:
                    n.children[part] = self._new("d")
                n = n.children[part]
        return n

    def put(self, path, data):
        d = self.mkdirs(posixpath.dirname(path))
        n = self._new("f")
        n.data[:] = data
        n.synced = len(n.data)
        d.children[posixpath.basename(path)] = n

    def get(self, path):
        try:
            n = self.lookup(path)
        except OSError:
            return None
        return bytes(n.data) if n is not None and n.kind == "f" else None

    def dirs(self, prefix):
        """Paths of the directories at and below prefix."""
        out = []

        def walk(p, n):
            if n.kind != "f":
                out.append(p)
                for k in sorted(n.children):
                    walk(p + "/" + k, n.children[k])

        try:
            n = self.lookup(prefix)
        except OSError:
            n = None
        if n is not None:
            walk(prefix, n)
        return out

    def files(self, prefix):
        """{path: bytes} of every file below prefix."""
        out = {}

        def walk(p, n):
            if n.kind == "f":
                out[p] = bytes(n.data)
            else:
                for k in sorted(n.children):
                    walk(p + "/" + k, n.children[k])

        try:
            n = self.lookup(prefix)
        except OSError:
            n = None
        if n is not None:
            walk(prefix, n)
        return out

    def remove_tree(self, path):
        d = self.lookup(posixpath.dirname(path))
        if d is not None and d.kind == "d":
            d.children.pop(posixpath.basename(path), None)

    def sync_all(self):
        def walk(n):
            if n.kind == "f":
                n.synced = len(n.data)
            else:
                for c in n.children.values():
                    walk(c)

        walk(self.root)

    def power_loss(self, rng):
        """Un-synced file contents survive only up to a random length."""
        self.sim.log("power")

        def walk(n):
            if n.kind == "f":
                if len(n.data) > n.synced:
                    keep = n.synced + rng.randrange(len(n.data) - n.synced + 1)
                    del n.data[keep:]
                    n.synced = keep
            else:
                for k in sorted(n.children):
                    walk(n.children[k])

        walk(self.root)

    def _new(self, kind):
        self.ino += 1
        return Node(kind, self.sim.clock, self.ino)

    def changed(self, sim, node):
        if self.watch:
            for p, cb in list(self.watch.items()):
                n = self.lookup_quiet(p)
                if n is node or node is None:
                    cb(sim, p, n)

    def lookup_quiet(self, p):
        try:
            return self.lookup(p)
        except OSError:
            return None

    # -- task-side operations ------------------------------------------------
    def parent(self, path):
        d = self.lookup(posixpath.dirname(path))
        if d is None:
            raise _err(errno.ENOENT, path)
        if d.kind != "d":
            raise _err(errno.ENOTDIR, path)
        name = posixpath.basename(path)
        if len(name.encode("utf-8", "surrogateescape")) > 255:
            raise _err(errno.ENAMETOOLONG, path)
        return d, name

    def op(self, kind, path):
        act = self.sim.point(kind, path)
        if act in core.ERRNOS:
            core.raise_errno(act, path)
        return act

    def open_node(self, path, flags):
        acc = flags & 3
        writing = acc != os.O_RDONLY
        self.op("open_w" if writing else "open_r", path)
        d, name = self.parent(path)
        n = d.children.get(name)
        if n is None:
            if not flags & os.O_CREAT:
                raise _err(errno.ENOENT, path)
            n = self._new("f")
            d.children[name] = n
            d.mtime = self.sim.clock
            self.changed(self.sim, n)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise _err(errno.EEXIST, path)
            if n.kind == "d":
                if writing or not flags & getattr(os, "O_DIRECTORY", 0):
                    raise _err(errno.EISDIR, path)
            elif flags & os.O_TRUNC and writing:
                del n.data[:]
                n.synced = 0
                n.mtime = self.sim.clock
                self.changed(self.sim, n)
        return n

    def stat(self, path):
        self.op("stat", path)
        if path != MOUNT and len(posixpath.basename(path).encode("utf-8", "surrogateescape")) > 255:
            raise _err(errno.ENAMETOOLONG, path)
        n = self.lookup(path)
        if n is None:
            raise _err(errno.ENOENT, path)
        return Stat(n)

    def listdir(self, path):
        self.op("listdir", path)
        n = self.lookup(path)
        if n is None:
            raise _err(errno.ENOENT, path)
        if n.kind != "d":
            raise _err(errno.ENOTDIR, path)
        names = sorted(n.children)
        random.Random("ls:%s:%s" % (self.salt, path)).shuffle(names)
        return names, n

    def mkdir(self, path, mode=0o777):
        self.op("mkdir", path)
        d, name = self.parent(path)
        if name in d.children:
            raise _err(errno.EEXIST, path)
        d.children[name] = self._new("d")
        d.mtime = self.sim.clock

    def unlink(self, path):
        act = self.op("unlink", path)
        d, name = self.parent(path)
        n = d.children.get(name)
        if n is None:
            raise _err(errno.ENOENT, path)
        if n.kind == "d":
            raise _err(errno.EISDIR, path)
        del d.children[name]
        n.gone = True
        d.mtime = self.sim.clock
        self.changed(self.sim, None)

    def rmdir(self, path):
        self.op("rmdir", path)
        d, name = self.parent(path)
        n = d.children.get(name)
        if n is None:
            raise _err(errno.ENOENT, path)
        if n.kind != "d":
            raise _err(errno.ENOTDIR, path)
        if n.children:
            raise _err(errno.ENOTEMPTY, path)
        del d.children[name]

    def rename(self, src, dst):
        self.op("rename", dst)
        sd, sn = self.parent(src)
        dd, dn = self.parent(dst)
        n = sd.children.get(sn)
        if n is None:
            raise _err(errno.ENOENT, src)
        t = dd.children.get(dn)
        if t is not None:
            if t.kind == "d" and n.kind != "d":
                raise _err(errno.EISDIR, dst)
            if t.kind == "d" and t.children:
                raise _err(errno.ENOTEMPTY, dst)
            t.gone = True
        del sd.children[sn]
        dd.children[dn] = n
        dd.mtime = sd.mtime = self.sim.clock
        self.changed(self.sim, None)

    def utime(self, path, times=None, ns=None):
        self.op("utime", path)
        n = self.lookup(path)
        if n is None:
            raise _err(errno.ENOENT, path)
        if ns is not None:
            n.mtime = ns[1] / 1e9
        elif times is not None:
            n.mtime = float(times[1])
        else:
            n.mtime = self.sim.clock


# ---------------------------------------------------------------------------
# Patches: each falls through to the real function unless a simulated task calls.


def _norm(path):
    """(sim, vfs path) if the simulator serves this path for reading, else None."""
    s = core.current()
    if s is None:
        if isinstance(path, (str, os.PathLike)):
            p = os.fspath(path)
            if isinstance(p, str) and (p == MOUNT or p.startswith(MOUNT + "/")):
                raise _err(errno.ENOENT, p)  # finalizers of an ended run
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if "\0" in p:
        raise ValueError("embedded null byte")
    if p == "":
        raise _err(errno.ENOENT, p)
    if not p.startswith("/"):
        p = posixpath.join(s.cur.proc.cwd, p)
    p = posixpath.normpath(p)
    if p.startswith("//"):
        p = p[1:]
    return s, p


def _map(path, write=False):
    r = _norm(path)
    if r is None:
        return None
    s, p = r
    if p == MOUNT or p.startswith(MOUNT + "/"):
        return s, p
    if p in REAL_OK:
        return None
    q = OVERLAY + p
    if write:
        s.vfs.mkdirs(posixpath.dirname(q))
        return s, q
    if s.vfs.lookup_quiet(q) is not None:
        return s, q
    return None


_MODES = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC}


def _open(
    file,
    mode="r",
    buffering=-1,
    encoding=None,
    errors=None,
    newline=None,
    closefd=True,
    opener=None,
):
    if isinstance(file, int):
        s = core.current()
        if s is not None and file in s.cur.proc.fds:
            node, path, flags = s.cur.proc.fds[file]
            return _wrap(s, node, path, mode, buffering, encoding, errors, newline)
        return _real["open"](
            file, mode, buffering, encoding, errors, newline, closefd, opener
        )
    writing = any(c in mode for c in "wax+")
    m = _map(file, writing)
    if m is None:
        return _real["open"](
            file, mode, buffering, encoding, errors, newline, closefd, opener
        )
    s, path = m
    if not set(mode) <= set("rwaxbt+") or sum(c in mode for c in "rwax") != 1:
        raise ValueError("invalid mode: %r" % mode)
    if "b" in mode and "t" in mode:
        raise ValueError("can't have text and binary mode at once")
    if "b" in mode and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take that argument")
    flags = os.O_RDWR if "+" in mode else (os.O_RDONLY if "r" in mode else os.O_WRONLY)
    if "w" in mode:
        flags |= os.O_CREAT | os.O_TRUNC
    elif "a" in mode:
        flags |= os.O_CREAT | os.O_APPEND
    elif "x" in mode:
        flags |= os.O_CREAT | os.O_EXCL
    node = s.vfs.open_node(path, flags)
    return _wrap(s, node, path, mode, buffering, encoding, errors, newline)


def _wrap(s, node, path, mode, buffering, encoding, errors, newline):
    r = "r" in mode or "+" in mode
    w = any(c in mode for c in "wax+")
    raw = SimRaw(s, node, path, r, w, "a" in mode)
    if buffering == 0:
        if "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if r and w:
        buf = io.BufferedRandom(raw, size)
    elif w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    m = _map(path, bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)))
    if m is None:
        return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
    s, p = m
    node = s.vfs.open_node(p, flags)
    s.vfs.nextfd += 1
    fd = s.vfs.nextfd
    s.cur.proc.fds[fd] = [node, p, flags]
    return fd


def _fd(fd):
    s = core.current()
    if s is not None and isinstance(fd, int) and fd in s.cur.proc.fds:
        return s, s.cur.proc.fds[fd]
    return None


def _os_close(fd):
    m = _fd(fd)
    if m is None:
        if isinstance(fd, int) and fd >= 1000000:
            return None
        return _real["os.close"](fd)
    s, _ = m
    del s.cur.proc.fds[fd]


def _os_write(fd, data):
    m = _fd(fd)
    if m is None:
        return _real["os.write"](fd, data)
    s, ent = m
    raw = SimRaw(s, ent[0], ent[1], True, True, True)
    return raw.write(data)


def _os_read(fd, n):
    m = _fd(fd)
    if m is None:
        return _real["os.read"](fd, n)
    s, ent = m
    pos = ent[3] if len(ent) > 3 else 0
    d = bytes(ent[0].data[pos : pos + n])
    ent[3:] = [pos + len(d)]
    return d


def _os_fsync(fd):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    m = _fd(fd)
    if m is None:
        s = core.current()
        if s is not None:
            return None
        return _real["os.fsync"](fd)
    s, ent = m
    if s.vfs.op("fsync", ent[1]):
        return
    if ent[0].kind == "f":
        ent[0].synced = len(ent[0].data)


def _fdopen(fd, mode="r", *args, **kwargs):
    if _fd(fd) is not None:
        return _open(fd, mode, *args, **kwargs)
    return _real["os.fdopen"](fd, mode, *args, **kwargs)


def _os_fstat(fd):
    m = _fd(fd)
    if m is None:
        return _real["os.fstat"](fd)
    return Stat(m[1][0])


def _os_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return _os_fstat(path)
    m = _map(path)
    if m is None:
        return _real["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    return m[0].vfs.stat(m[1])


def _os_lstat(path, *, dir_fd=None):
    m = _map(path)
    if m is None:
        return _real["os.lstat"](path, dir_fd=dir_fd)
    return m[0].vfs.stat(m[1])


def _os_listdir(path=None):
    if path is None:
        path = "."
    m = _map(path)
    if m is None:
        return _real["os.listdir"](path)
    return list(m[0].vfs.listdir(m[1])[0])


def _os_scandir(path=None):
    if path is None:
        path = "."
    m = _map(path)
    if m is None:
        return _real["os.scandir"](path)
    s, p = m
    names, n = s.vfs.listdir(p)
    return ScanDir([DirEntry(s.vfs, p, x, n.children[x], os.fspath(path)) for x in names])


def _os_mkdir(path, mode=0o777, *, dir_fd=None):
    m = _map(path, True)
    if m is None:
        return _real["os.mkdir"](path, mode, dir_fd=dir_fd)
    return m[0].vfs.mkdir(m[1], mode)


def _mk1(name):
    def f(path, *, dir_fd=None):
        m = _map(path, True)
        if m is None:
            return _real["os." + name](path, dir_fd=dir_fd)
        return getattr(m[0].vfs, {"remove": "unlink"}.get(name, name))(m[1])

    return f


def _mk2(name):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        a, b = _map(src, True), _map(dst, True)
        if a is None or b is None:
            return _real["os." + name](src, dst)
        return a[0].vfs.rename(a[1], b[1])

    return f


def _os_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    m = _map(path, True)
    if m is None:
        if ns is not None:
            return _real["os.utime"](path, ns=ns)
        return _real["os.utime"](path, times)
    return m[0].vfs.utime(m[1], times, ns)


def _os_chmod(path, mode, *a, **k):
    m = _map(path, True)
    if m is None:
        return _real["os.chmod"](path, mode, *a, **k)
    n = m[0].vfs.lookup(m[1])
    if n is None:
        raise _err(errno.ENOENT, m[1])
    n.mode = mode & 0o7777


def _os_access(path, mode, *a, **k):
    m = _map(path)
    if m is None:
        return _real["os.access"](path, mode, *a, **k)
    return m[0].vfs.lookup_quiet(m[1]) is not None


def _os_getcwd():
    s = core.current()
    if s is None:
        return _real["os.getcwd"]()
    return s.cur.proc.cwd


def _os_chdir(path):
    m = _map(path)
    if m is None:
        if core.current() is not None:
            raise _err(errno.ENOENT, os.fspath(path))
        return _real["os.chdir"](path)
    m[0].cur.proc.cwd = m[1]


def _os_symlink(*a, **k):
    if core.current() is not None:
        raise _err(errno.EPERM, "symlink")
    return _real["os.symlink"](*a, **k)


def _os_link(src, dst, **k):
    a, b = _map(src), _map(dst, True)
    if a is None or b is None:
        return _real["os.link"](src, dst, **k)
    v = a[0].vfs
    v.op("link", b[1])
    n = v.lookup(a[1])
    d, name = v.parent(b[1])
    if n is None:
        raise _err(errno.ENOENT, a[1])
    if name in d.children:
        raise _err(errno.EEXIST, b[1])
    d.children[name] = n


def _os_truncate(path, length):
    m = _fd(path) if isinstance(path, int) else None
    if m is not None:
        node = m[1][0]
    else:
        m = None if isinstance(path, int) else _map(path, True)
        if m is None:
            return _real["os.truncate"](path, length)
        node = m[0].vfs.lookup(m[1])
    del node.data[length:]
    m[0].vfs.changed(m[0], node)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        s = core.current()
        if s is None:
            return next(_real["names"])
        s.vfs.tmpseq += 1
        return "t%06d" % s.vfs.tmpseq


def _gettempdir():
    if core.current() is not None:
        return MOUNT + "/tmp"
    return _real["tempfile.gettempdir"]()


def install():
    if _real:
        return
    _real["open"] = io.open
    _real["names"] = tempfile._get_candidate_names()
    _real["tempfile.gettempdir"] = tempfile.gettempdir
    builtins.open = _open
    io.open = _open
    fns = {
        "open": _os_open,
        "close": _os_close,
        "read": _os_read,
        "write": _os_write,
        "fsync": _os_fsync,
        "fdopen": _fdopen,
        "fstat": _os_fstat,
        "stat": _os_stat,
        "lstat": _os_lstat,
        "listdir": _os_listdir,
        "scandir": _os_scandir,
        "mkdir": _os_mkdir,
        "unlink": _mk1("unlink"),
        "remove": _mk1("remove"),
        "rmdir": _mk1("rmdir"),
        "rename": _mk2("rename"),
        "replace": _mk2("replace"),
        "utime": _os_utime,
        "chmod": _os_chmod,
        "access": _os_access,
        "getcwd": _os_getcwd,
        "chdir": _os_chdir,
        "symlink": _os_symlink,
        "link": _os_link,
        "truncate": _os_truncate,
        "ftruncate": _os_truncate,
        "fdatasync": _os_fsync,
    }
    for k, f in fns.items():
        _real["os." + k] = getattr(os, k)
    for k, f in fns.items():
        setattr(os, k, f)
    acc = pathlib._NormalAccessor
    for k in (
        "stat",
        "lstat",
        "open",
        "listdir",
        "scandir",
        "chmod",
        "mkdir",
        "unlink",
        "rmdir",
        "rename",
        "replace",
        "utime",
    ):
        if hasattr(acc, k):
            setattr(acc, k, staticmethod(fns[k]))
    if hasattr(acc, "link_to"):
        acc.link_to = staticmethod(_os_link)
    names = _Names()
    tempfile._get_candidate_names = lambda: names
    tempfile.gettempdir = _gettempdir
    import shutil

    shutil._use_fd_functions = False
    if hasattr(shutil, "_USE_CP_SENDFILE"):
        shutil._USE_CP_SENDFILE = False
