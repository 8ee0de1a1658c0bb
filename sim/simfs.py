"""A simulated disk behind the file API that the code under test uses.

The real files live in a scratch directory that the run creates and removes;
every mutating call on a path below it is one *disk step* and can fail, be cut
short, or be the last thing the process ever does.  In parallel the log of disk
steps is kept as a tiny inode model, from which the possible images after a
power failure are built (data that was not fsync'ed may be lost or torn,
directory operations survive as a prefix of their order, an fsync commits all
directory operations before it).
"""
import errno
import io
import os
import random
import shutil
import tempfile

from . import boot

R = boot.REAL


class SimCrash(BaseException):
    """The simulated process is gone: nothing it does from here on happens."""


ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "edquot": errno.EDQUOT, "emfile": errno.EMFILE,
       "eacces": errno.EACCES}


class Inode:
    def __init__(self, n, content=b""):
        self.n = n
        self.base = content
        self.ops = []
        self.synced = 0

    def content(self, ops=None):
        data = bytearray(self.base)
        for op in (self.ops if ops is None else ops):
            if op[0] == "trunc":
                size = op[1]
                if size < len(data):
                    del data[size:]
                else:
                    data.extend(b"\0" * (size - len(data)))
            else:
                off, b = op[1], op[2]
                if off > len(data):
                    data.extend(b"\0" * (off - len(data)))
                data[off:off + len(b)] = b
        return bytes(data)


class SimFS:
    def __init__(self, faults=(), clock=None, cost=0.0, pre=None):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simfs-"))
        self.faults = {f["at"]: f for f in faults}
        self.clock = clock
        self.cost = cost
        self.n = 0
        self.dead = False
        self.epoch = 0          # incarnation of the simulated process
        self.fired = {}
        self.names = {}
        self.meta = []
        self.barrier = 0
        self.inodes = 0
        self.fds = {}
        self.on_step = None
        self.trace = []
        self.start = {}
        for name, content in (pre or {}).items():
            with R["open"](os.path.join(self.root, name), "wb") as fh:
                fh.write(content)
            ino = self.names[name] = self._inode(content)
            self.start[name] = ino

    # -- lifecycle -------------------------------------------------------------
    def __enter__(self):
        boot.set_fs(self)
        return self

    def __exit__(self, *exc):
        boot.set_fs(None)
        return False

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def restart(self):
        """The machine stays up, a new process starts."""
        self.dead = False
        self.epoch += 1
        self.fds = {}

    def path(self, name):
        return os.path.join(self.root, name)

    # -- helpers ---------------------------------------------------------------
    def _inode(self, content=b""):
        self.inodes += 1
        return Inode(self.inodes, content)

    def key(self, p, dir_fd=None):
        """Name relative to the scratch root, or None when p is not below it."""
        if isinstance(p, int):
            return self.fds.get(p)
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            return None
        full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        if not full.startswith(self.root + os.sep):
            return None
        return os.path.relpath(full, self.root)

    def step(self, what, name, torn=None):
        """One disk step; returns the fault to apply to a write, if any."""
        if self.dead:
            raise SimCrash()
        k = self.n
        self.n += 1
        self.trace.append(f"{what} {name}")
        if self.clock is not None:
            self.clock.advance(self.cost)
        f = self.faults.get(k)
        if f is None:
            return None
        kind = f["kind"]
        if kind in ("torn", "short") and what != "write":
            kind = "crash" if kind == "torn" else None
        if kind is None:
            return None
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if kind == "crash":
            self.dead = True
            raise SimCrash()
        if kind in ERR:
            raise OSError(ERR[kind], os.strerror(ERR[kind]), name)
        if kind == "slow":
            if self.clock is not None:
                self.clock.advance(f.get("secs", 30.0))
            return None
        return f

    def done(self, what, name, fault):
        if fault is not None and fault["kind"] == "crash-after":
            self.dead = True
            raise SimCrash()
        if self.on_step is not None:
            self.on_step(what, name)

    # -- mutating operations ------------------------------------------------------
    def note_open(self, name, trunc, create):
        ino = self.names.get(name)
        if ino is None:
            if create:
                ino = self.names[name] = self._inode()
                self.meta.append(("link", name, ino))
        elif trunc:
            ino.ops.append(("trunc", 0))
        return ino

    def note_rename(self, a, b):
        ino = self.names.pop(a, None)
        if ino is not None:
            self.names[b] = ino
        self.meta.append(("rename", a, b))

    def note_unlink(self, a):
        self.names.pop(a, None)
        self.meta.append(("unlink", a))

    def note_fsync(self, ino):
        if ino is not None:
            ino.synced = len(ino.ops)
        self.barrier = len(self.meta)

    # -- images after a crash -------------------------------------------------------
    def read(self, name):
        p = os.path.join(self.root, name)
        if not os.path.exists(p):
            return None
        with R["open"](p, "rb") as fh:
            return fh.read()

    def after_power_loss(self, name, seed):
        """One possible content of `name` after a power failure right now."""
        r = random.Random(seed)
        n = len(self.meta)
        cut = n if r.random() < 0.7 else r.randint(self.barrier, n)
        names = dict(self.start)
        for op in self.meta[:cut]:
            if op[0] == "link":
                names[op[1]] = op[2]
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            else:
                names.pop(op[1], None)
        ino = names.get(name)
        if ino is None:
            return None
        keep = list(ino.ops[:ino.synced])
        rest = ino.ops[ino.synced:]
        mode = r.choice(["none", "prefix", "some"])
        if mode == "prefix":
            rest = rest[:r.randint(0, len(rest))]
        for op in rest:
            if op[0] == "trunc":
                if mode != "some" or r.random() < 0.8:
                    keep.append(op)
            elif mode == "prefix" or (mode == "some" and r.random() < 0.5):
                b = op[2]
                if r.random() < 0.4:
                    b = b[:r.randint(0, len(b))]
                keep.append(("write", op[1], b))
        return ino.content(keep)


# ---------------------------------------------------------------------------------
# the patched calls
# ---------------------------------------------------------------------------------
class SimRaw(io.FileIO):
    def __init__(self, fs, name, file, mode, closefd, opener):
        self._fs = None
        writing = any(c in mode for c in "wax+")
        fault = None
        existed = fs.names.get(name) is not None
        truncs = "w" in mode or "x" in mode
        changes = writing and (truncs or not existed) and not isinstance(file, int)
        if fs.dead:
            raise SimCrash()
        if changes:
            fault = fs.step("open", name)
        super().__init__(file, mode, closefd, opener)
        self._fs, self._name, self._writing = fs, name, writing
        self._epoch = fs.epoch
        if writing and not isinstance(file, int):
            self._ino = fs.note_open(name, truncs, True)
        else:
            self._ino = fs.names.get(name)
        fs.fds[self.fileno()] = name
        if changes:
            fs.done("open", name, fault)

    def write(self, b):
        fs = self._fs
        if self._epoch != fs.epoch:      # a buffer of a process that is gone
            raise SimCrash()
        data = bytes(memoryview(b).cast("B"))
        fault = fs.step("write", self._name)
        if fault is not None and fault["kind"] in ("torn", "short"):
            data = data[:max(0 if fault["kind"] == "torn" else 1, int(len(data) * fault.get("frac", 0.5)))]
        n = super().write(data) if data else 0
        pos = super().tell()
        if self._ino is not None:
            self._ino.ops.append(("write", pos - n, data[:n]))
        if fault is not None and fault["kind"] == "torn":
            fs.dead = True
            raise SimCrash()
        fs.done("write", self._name, fault)
        return n

    def truncate(self, size=None):
        fs = self._fs
        if self._epoch != fs.epoch:
            raise SimCrash()
        size = super().tell() if size is None else size
        fault = fs.step("truncate", self._name)
        super().truncate(size)
        if self._ino is not None:
            self._ino.ops.append(("trunc", size))
        fs.done("truncate", self._name, fault)
        return size

    def close(self):
        if not self.closed and self._fs is not None:
            self._fs.fds.pop(self.fileno(), None)
        super().close()


def sim_open(fs, name, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    text = "b" not in mode
    rawmode = "".join(c for c in mode if c in "rwax+")
    raw = SimRaw(fs, name, file, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in rawmode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        out = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        out.mode = mode
        return out
    except BaseException:
        raw.close()
        raise


def call(fs, fn, args, kw):
    """Dispatch of one os-level call; returns (handled, value)."""
    real = R[fn]
    if fn == "open":
        file = args[0] if args else kw.get("file")
        name = fs.key(file)
        if name is None:
            return False, None
        return True, sim_open(fs, name, *args, **kw)
    if fn in ("os.replace", "os.rename"):
        a, b = fs.key(args[0]), fs.key(args[1])
        if a is None and b is None:
            return False, None
        fault = fs.step("rename", f"{a} -> {b}")
        v = real(*args, **kw)
        fs.note_rename(a, b)
        fs.done("rename", b, fault)
        return True, v
    if fn in ("os.remove", "os.unlink"):
        a = fs.key(args[0])
        if a is None:
            return False, None
        fault = fs.step("unlink", a)
        v = real(*args, **kw)
        fs.note_unlink(a)
        fs.done("unlink", a, fault)
        return True, v
    if fn == "os.open":
        a = fs.key(args[0])
        if a is None:
            return False, None
        flags = args[1] if len(args) > 1 else kw["flags"]
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        changes = writing and (flags & os.O_TRUNC or (flags & os.O_CREAT and fs.names.get(a) is None))
        if fs.dead:
            raise SimCrash()
        fault = fs.step("open", a) if changes else None
        v = real(*args, **kw)
        if changes:
            fs.note_open(a, bool(flags & os.O_TRUNC), bool(flags & os.O_CREAT))
        fs.fds[v] = a
        if changes:
            fs.done("open", a, fault)
        return True, v
    if fn == "os.close":
        fs.fds.pop(args[0], None)
        return False, None
    if fn in ("os.fsync", "os.fdatasync"):
        fd = args[0] if isinstance(args[0], int) else args[0].fileno()
        a = fs.fds.get(fd)
        if a is None:
            return False, None
        fault = fs.step("fsync", a)
        fs.note_fsync(fs.names.get(a))
        fs.done("fsync", a, fault)
        return True, None
    if fn == "os.sync":
        if fs.dead:
            raise SimCrash()
        for ino in fs.names.values():
            fs.note_fsync(ino)
        return True, None
    if fn == "os.write":
        a = fs.fds.get(args[0])
        if a is None:
            return False, None
        data = bytes(args[1])
        fault = fs.step("write", a)
        if fault is not None and fault["kind"] in ("torn", "short"):
            data = data[:max(0 if fault["kind"] == "torn" else 1, int(len(data) * fault.get("frac", 0.5)))]
        pos = os.lseek(args[0], 0, os.SEEK_CUR)
        n = real(args[0], data)
        if fs.names.get(a) is not None:
            fs.names[a].ops.append(("write", pos, data[:n]))
        if fault is not None and fault["kind"] == "torn":
            fs.dead = True
            raise SimCrash()
        fs.done("write", a, fault)
        return True, n
    if fn in ("os.truncate", "os.ftruncate"):
        a = fs.key(args[0])
        if a is None:
            return False, None
        fault = fs.step("truncate", a)
        v = real(*args, **kw)
        if fs.names.get(a) is not None:
            fs.names[a].ops.append(("trunc", args[1]))
        fs.done("truncate", a, fault)
        return True, v
    if fn == "os.link":
        a, b = fs.key(args[0]), fs.key(args[1])
        if a is None or b is None:
            return False, None
        fault = fs.step("link", b)
        v = real(*args, **kw)
        fs.names[b] = fs.names.get(a)
        fs.meta.append(("link", b, fs.names[b]))
        fs.done("link", b, fault)
        return True, v
    if fn == "os.sendfile" or fn == "os.copy_file_range":
        raise OSError(errno.ENOSYS, "not supported by the simulated disk")
    return False, None
