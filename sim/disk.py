"""A simulated disk over a scratch directory: every byte the code under test writes to or reads from
files below the root passes through here, where crashes, full disks, torn writes and I/O errors happen."""
import builtins
import errno
import io
import os


class SimCrash(BaseException):
    """The simulated process is gone. Nothing it does afterwards reaches the disk."""


class Plan:
    """One fault: kind and the byte (of this operation's traffic) at which it strikes."""

    def __init__(self, kind=None, at=0):
        self.kind, self.at = kind, at
        self.done = 0          # bytes of traffic so far
        self.fired = False
        self.dead = False      # after a crash


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.plan = None
        self.journal = []      # sizes of the writes of the current operation
        self.touched = set()

    def _mine(self, p):
        if isinstance(p, int):
            return False
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    # -------------------------------------------------------------- patching
    def operation(self, plan):
        """Context: the seams are in place for one save or load."""
        return _Op(self, plan)

    def _open(self, real):
        disk = self

        def opener(file, mode="r", *a, **kw):
            if not disk._mine(file):
                return real(file, mode, *a, **kw)
            p = disk.plan
            writing = any(c in mode for c in "wax+")
            if p.dead:
                raise SimCrash()
            if p.kind in ("open-eacces", "open-emfile") and not p.fired:
                p.fired = True
                n = errno.EACCES if p.kind == "open-eacces" else errno.EMFILE
                raise OSError(n, os.strerror(n), os.fspath(file))
            if writing:
                disk.touched.add(os.path.realpath(os.fspath(file)))
            raw = real(file, mode.replace("b", "").replace("t", "") + "b", buffering=0)
            f = _File(disk, raw, os.fspath(file), writing)
            if "b" in mode:
                return f
            return io.TextIOWrapper(io.BufferedRWPair(f, f) if "+" in mode else
                                    io.BufferedWriter(f) if writing else io.BufferedReader(f),
                                    **{k: v for k, v in kw.items() if k in ("encoding", "newline", "errors")})
        return opener

    def _fsop(self, real, name):
        disk = self

        def op(*a, **kw):
            if disk.plan is not None and any(disk._mine(x) for x in a[:2] if isinstance(x, (str, bytes, os.PathLike))):
                if disk.plan.dead:
                    raise SimCrash()
            return real(*a, **kw)
        return op


class _Op:
    def __init__(self, disk, plan):
        self.disk, self.plan = disk, plan

    def __enter__(self):
        d = self.disk
        d.plan, d.journal, d.touched = self.plan, [], set()
        self.saved = (builtins.open, io.open, {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "truncate")})
        builtins.open = d._open(self.saved[0])
        io.open = builtins.open
        for n, f in self.saved[2].items():
            setattr(os, n, d._fsop(f, n))
        return self.plan

    def __exit__(self, *exc):
        builtins.open, io.open = self.saved[0], self.saved[1]
        for n, f in self.saved[2].items():
            setattr(os, n, f)
        self.disk.plan = None
        return False


class _File(io.RawIOBase):
    """A file whose traffic the plan may interrupt."""

    def __init__(self, disk, raw, name, writing):
        self.disk, self.raw, self.name, self.writing = disk, raw, name, writing
        self.plan = disk.plan
        self.mode = raw.mode

    # ---- plain delegation
    def readable(self):
        return self.raw.readable()

    def writable(self):
        return self.raw.writable()

    def seekable(self):
        return True

    def seek(self, o, w=0):
        return self.raw.seek(o, w)

    def tell(self):
        return self.raw.tell()

    def truncate(self, n=None):
        if self.plan.dead:
            raise SimCrash()
        return self.raw.truncate(n)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def flush(self):
        pass

    # ---- traffic
    def write(self, b):
        p = self.plan
        b = bytes(b) if not isinstance(b, bytes) else b
        if p.dead:
            raise SimCrash()
        self.disk.journal.append(len(b))
        hit = not p.fired and p.done + len(b) > p.at
        if p.kind == "crash" and hit:
            p.fired = p.dead = True
            self._put(b[:p.at - p.done])
            self.raw.close()
            raise SimCrash()
        if p.kind in ("eio-write", "memory-write") and hit:
            p.fired = True
            n = p.at - p.done
            self._put(b[:n])
            p.done += n
            if p.kind == "memory-write":
                raise MemoryError("simulated")
            raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
        if p.kind == "enospc":
            size = os.path.getsize(self.name)
            room = max(0, p.at - size)          # the disk holds p.at bytes; rewriting within the file is fine
            end = self.raw.tell() + len(b)
            if end > size and end - size > room:
                p.fired = True
                self._put(b[:max(0, size + room - self.raw.tell())])
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.name)
        self._put(b)
        p.done += len(b)
        return len(b)

    def _put(self, b):
        while b:
            n = self.raw.write(b)
            b = b[n:]

    def _take(self, b):
        p = self.plan
        hit = not p.fired and p.kind in ("eio-read", "short-read", "memory-read") and p.done + len(b) > p.at
        if hit:
            p.fired = True
            if p.kind == "eio-read":
                raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
            if p.kind == "memory-read":
                raise MemoryError("simulated")
            b = b[:max(0, p.at - p.done)]
            self.eof = True
        p.done += len(b)
        return b

    eof = False

    def read(self, n=-1):
        if self.eof:
            return b""
        return self._take(self.raw.read(n) if n is not None and n >= 0 else self.raw.readall())

    def readall(self):
        return self.read(-1)

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def close(self):
        if self.closed:
            return
        super().close()
        if not self.raw.closed:
            self.raw.close()
        p = self.plan
        if p is not None and p.kind == "eio-close" and self.writing and not p.fired and not p.dead:
            p.fired = True
            size = os.path.getsize(self.name)
            os.truncate(self.name, min(size, p.at))
            raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
