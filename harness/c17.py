import codecs
import errno
import os
import tempfile

from symex.api import Harness
import hlib

PROPERTY = "C17"
PRELOAD = ["gyp.common", "gyp.easy_xml"]
ASSUMPTIONS = ["rename, replace and remove are atomic; buffered content reaches the file when it is closed",
               "a failure is an OSError raised by the operation, which then has no effect",
               "replayed on real files in a scratch directory with the same failures injected"]
C, X = "gyp.common", "gyp.easy_xml"


def _b(x):
    return bool(x)


class Node:
    def __init__(self, data, mode):
        self.data, self.mode = data, mode


class File:
    """an open file of the model"""

    def __init__(self, fs, node, mode, buf):
        self.fs, self.node, self.mode, self.buf, self.closed, self.name = fs, node, mode, buf, False, "f"

    def write(self, b):
        self.fs.op("write")
        if "b" in self.mode:
            if isinstance(b, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            want, own = codecs.lookup(self.fs.enc or "utf-8").name, codecs.lookup(getattr(b, "enc", None) or self.fs.enc or "utf-8").name
            b = b.decode(own)
            if want != own and not _b(b.isascii()):
                b = "\ufffe" + own + b
        self.buf.append(b)

    def flush(self):
        self.fs.op("flush")
        self._sync()

    def _sync(self):
        if "w" in self.mode:
            self.node.data = "".join(self.buf)

    def fileno(self):
        return 3

    def read(self):
        return self.node.data.encode(self.fs.enc or "utf-8") if "b" in self.mode else self.node.data

    def close(self):
        if self.closed:
            return
        try:
            self.fs.op("close")
        finally:
            self.closed = True
        self._sync()
        self.fs.after("close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, name):
        raise AttributeError(name)


class RealFile:
    def __init__(self, fs, f):
        self.fs, self.f = fs, f

    def write(self, b):
        self.fs.op("write")
        return self.f.write(b)

    def flush(self):
        self.fs.op("flush")
        self.f.flush()

    def close(self):
        if self.f.closed:
            return
        self.fs.op("close", self.f.close)
        self.f.close()
        self.fs.after("close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, name):
        return getattr(self.f, name)


class FS:
    """files below one directory, with failures; a model when symbolic, real files in a scratch directory when replayed"""

    def __init__(self, ctx, faults, umask, enc=None):
        self.ctx, self.left, self.umask, self.enc = ctx, faults, umask, enc
        self.count, self.failed, self.target, self.allowed, self.bad = {}, [], None, [], False
        self.serial, self.fds = 0, {}
        if ctx.native:
            self.real = {n: getattr(os, n) for n in ("unlink", "remove", "rename", "replace", "chmod", "umask", "fdopen")}
            self.base = tempfile.mkdtemp(prefix="c17-")
            self.real_mkstemp, self.real_open = tempfile.mkstemp, open
            import filecmp
            self.real_cmp = filecmp.cmp
            self.real["umask"](umask)
            for n in ("unlink", "remove", "rename", "replace", "chmod"):
                ctx.patch("os", n, self._real(n))
            ctx.patch("os", "fdopen", lambda fd, *a, **k: self._fdopen(fd, *a, **k))
            ctx.patch("tempfile", "mkstemp", self._mkstemp)
            ctx.patch("filecmp", "cmp", self._cmp)
            ctx.patch_builtin("open", self._open)
        else:
            self.base = "/fs"
            self.files = {}
            for n in ("unlink", "remove", "rename", "replace", "chmod", "umask"):
                ctx.patch("os", n, getattr(self, n))
            ctx.patch("os", "fdopen", self.fdopen)
            ctx.patch("os", "close", lambda fd: None)
            for n in ("exists", "isfile", "lexists"):
                ctx.patch("os.path", n, lambda p: p in self.files)
            ctx.patch("os.path", "getsize", lambda p: len(self.get(p).data))
            ctx.patch("tempfile", "mkstemp", self.mkstemp)
            ctx.patch("filecmp", "cmp", self.cmp)
            ctx.patch_builtin("open", self.open)

    # ---- failures
    def op(self, name, undo=None):
        i = self.count.get(name, 0)
        self.count[name] = i + 1
        key = "fail_%s%d" % (name, i)
        if self.ctx.native:
            hit = self.ctx.values.get(key, False)
        else:
            hit = self.left > 0 and _b(self.ctx.bool(key))
        if hit:
            self.left -= 1
            self.failed.append(name)
            if undo:
                undo()
            raise OSError(errno.EACCES, "injected", name)

    def after(self, name):
        if self.target is not None:
            now = self.content(self.target)
            self.bad = self.bad or not any((now is None) == (a is None) and (now is None or _b(now == a)) for a in self.allowed)

    # ---- the model
    def get(self, p):
        if p not in self.files:
            raise FileNotFoundError(errno.ENOENT, "no such file", p)
        return self.files[p]

    def unlink(self, p):
        self.op("unlink")
        self.get(p)
        del self.files[p]
        self.after("unlink")
    remove = unlink

    def replace(self, a, b):
        self.op("rename")
        n = self.get(a)
        del self.files[a]
        self.files[b] = n
        self.after("rename")

    def rename(self, a, b):
        if self.win32 and b in self.files:
            self.get(a)
            raise FileExistsError(errno.EEXIST, "exists", b)
        self.replace(a, b)
    win32 = False

    def chmod(self, p, mode):
        self.op("chmod")
        self.get(p).mode = mode

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.op("mkstemp")
        self.serial += 1
        p = (dir or "/tmp") + "/" + (prefix or "tmp") + "r%d" % self.serial + (suffix or "")
        self.files[p] = Node("", 0o600)
        fd = 100 + self.serial
        self.fds[fd] = p
        return fd, p

    def fdopen(self, fd, mode="r", *a, **k):
        self.op("fdopen")
        return File(self, self.get(self.fds[fd]), mode, [])

    def cmp(self, a, b, shallow=True):
        self.op("cmp")
        x, y = self.get(a), self.get(b)
        if shallow and _b(self.ctx.bool("mtime")) and len(x.data) == len(y.data):
            return True
        return _b(x.data == y.data)

    def open(self, p, mode="r", *a, **k):
        self.op("open")
        if "w" in mode:
            if p not in self.files:
                self.files[p] = Node("", 0o666 & ~self.umask)
            n = self.files[p]
            n.data = ""
            self.touched = True
        else:
            n = self.get(p)
        return File(self, n, mode, [])
    touched = False

    # ---- real files
    def _real(self, n):
        def f(*a, **k):
            if not any(str(x).startswith(self.base) for x in a):
                return self.real[n](*a, **k)
            self.op({"remove": "unlink", "replace": "rename"}.get(n, n))
            if n == "rename" and self.win32 and os.path.exists(a[1]):
                raise FileExistsError(errno.EEXIST, "exists", a[1])
            if n == "chmod":
                return self.real[n](*a, **k)
            r = self.real[n](*a, **k)
            self.after(n)
            return r
        return f

    def _mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.op("mkstemp")
        return self.real_mkstemp(suffix, prefix, dir, text)

    def _fdopen(self, fd, *a, **k):
        self.op("fdopen")
        return RealFile(self, self.real["fdopen"](fd, *a, **k))

    def _cmp(self, a, b, shallow=True):
        self.op("cmp")
        if self.ctx.values.get("mtime"):
            st = os.stat(a)
            if os.path.exists(b):
                os.utime(b, ns=(st.st_mtime_ns, st.st_mtime_ns))
        return self.real_cmp(a, b, shallow)

    def _open(self, p, mode="r", *a, **k):
        if not str(p).startswith(self.base):
            return self.real_open(p, mode, *a, **k)
        self.op("open")
        return RealFile(self, self.real_open(p, mode, *a, **k))

    # ---- what the harness looks at
    def put(self, p, data, mode=0o644):
        if self.ctx.native:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with self.real_open(p, "wb") as f:
                f.write(data.encode(self.enc or "utf-8"))
            self.real["chmod"](p, mode)
            os.utime(p, ns=(10**18, 10**18))
        else:
            self.files[p] = Node(data, mode)

    def mkdir(self, d):
        if self.ctx.native:
            os.makedirs(d, exist_ok=True)

    def content(self, p):
        if self.ctx.native:
            try:
                with self.real_open(p, "rb") as f:
                    return f.read().decode(self.enc or "utf-8")
            except FileNotFoundError:
                return None
        return self.files[p].data if p in self.files else None

    def ident(self, p):
        if self.ctx.native:
            return (os.stat(p).st_ino, os.stat(p).st_mtime_ns) if os.path.exists(p) and "mtime" not in self.ctx.values else None
        return self.files.get(p)

    def mode(self, p):
        return os.stat(p).st_mode & 0o777 if self.ctx.native else self.files[p].mode

    def names(self):
        if self.ctx.native:
            return sorted(os.path.join(d, x) for d, _, fs in os.walk(self.base) for x in fs)
        return sorted(self.files)

    def done(self):
        if self.ctx.native:
            for d, ds, fs in os.walk(self.base, topdown=False):
                for x in fs:
                    self.real["unlink"](os.path.join(d, x))
                for x in ds:
                    os.rmdir(os.path.join(d, x))
            os.rmdir(self.base)

    def setmask(self, m):
        old, self.umask = self.umask, m
        return old


FS.umask_fn = FS.setmask


def _setup(ctx, faults, win32, umask):
    fs = FS.__new__(FS)
    fs.umask = umask
    FS.__init__(fs, ctx, faults, umask)
    fs.win32 = win32
    if not ctx.native:
        ctx.patch("os", "umask", fs.setmask)
    ctx.patch("sys", "platform", "win32" if win32 else "linux")
    return fs


def on_diff(ctx, n, faults):
    """WriteOnDiff with failures at any operation"""
    W = ctx.fn(C, "WriteOnDiff")
    had = ctx.pick("had", ["absent", "text"])
    win32 = ctx.pick("win32", [False, True])
    old = ctx.str("old", n, alphabet="ab\n\u00e9") if had == "text" else None
    s1, s2 = ctx.str("s1", n, alphabet="ab\n\u00e9"), ctx.str("s2", 1, alphabet="ab")
    umask = ctx.pick("umask", [0o022, 0o077]) if faults == 0 else 0o027
    fs = _setup(ctx, faults, win32, umask)
    p = fs.base + "/d/x.gyp"
    fs.mkdir(fs.base + "/d")
    if old is not None:
        fs.put(p, old, 0o640)
    new = s1 + s2
    before = fs.ident(p)
    fs.target, fs.allowed = p, [old, new]
    try:
        err = None
        try:
            w = W(p)
            w.write(s1)
            w.write(s2)
            w.close()
        except Exception as e:
            err = type(e).__name__
        now, names = fs.content(p), fs.names()
        ctx.observe(err, now, len(names), list(fs.failed))
        ctx.check(not fs.bad, "at some moment the file holds neither the old nor the new content")
        mask = fs.umask if not ctx.native else fs.real["umask"](0)
        ctx.check(mask == umask, "the umask is changed")
        if err is None:
            ctx.check(now is not None and _b(now == new), "the file does not hold what was written")
            ctx.check(names == [p], "a temporary file remains")
            if old is not None and _b(old == new):
                ctx.check(fs.ident(p) == before, "an unchanged file is touched")
            else:
                ctx.check(fs.mode(p) == 0o666 & ~umask, "the new file's permissions ignore the umask")
        else:
            ctx.check(fs.failed, "an error without any failure")
            ctx.check((now is None) == (old is None) and (old is None or _b(now == old)), "the old content is lost although an error is reported")
            if "unlink" not in fs.failed and "write" not in fs.failed:
                ctx.check(names == ([p] if old is not None else []), "a temporary file remains")
            if old is not None:
                ctx.check(fs.ident(p) == before, "the old file is touched although an error is reported")
    finally:
        fs.done()


def two_files(ctx, n):
    """two files written at the same time in one directory do not disturb each other"""
    W = ctx.fn(C, "WriteOnDiff")
    fs = _setup(ctx, 0, False, 0o022)
    a, b = fs.base + "/d/x.gyp", fs.base + "/d/" + ctx.pick("b", ["y.gyp", "x", "x.gyp"])
    s, t = ctx.str("s", n, alphabet="ab"), ctx.str("t", n, alphabet="ab")
    fs.mkdir(fs.base + "/d")
    order = ctx.pick("order", ["ab", "ba"])
    try:
        u, v = W(a), W(b)
        u.write(s)
        v.write(t)
        for x in order:
            (u if x == "a" else v).close()
        ctx.observe(fs.content(a), fs.content(b))
        last = s if order == "ba" else t
        ctx.check(_b(fs.content(a) == (last if a == b else s)) and _b(fs.content(b) == (last if a == b else t)), "the file does not hold what was written")
        ctx.check(fs.names() == sorted(set([a, b])), "a temporary file remains")
    finally:
        fs.done()


def xml(ctx, n):
    """XML files: exactly the document, untouched if it is the same"""
    f, ts = ctx.fn(X, "WriteXmlIfChanged"), ctx.fn(X, "XmlToString")
    enc = ctx.pick("enc", ["utf-8", "Windows-1252"])
    pretty, win32 = ctx.pick("opts", [(False, False), (True, False), (True, True), (False, True)])
    s = ctx.str("s", n, alphabet="a<&\n\u00e9")
    fs = FS.__new__(FS)
    FS.__init__(fs, ctx, 0, 0o022, enc)
    fs.win32 = win32
    p = fs.base + "/x.xml"
    doc = ["Root", {"Name": s}, ["Sub", s]]
    text = ts(doc, enc, pretty)
    if win32:
        text = text.replace("\n", "\r\n")
    had = ctx.pick("had", ["absent", "same", "other", "empty", "lines"])
    if had != "absent":
        fs.put(p, text if had == "same" else "" if had == "empty" else text.replace("\n", "\r\n") if had == "lines" else "<x/>")
    same = had == "same" or had == "lines" and "\n" not in text
    before = fs.ident(p)
    try:
        f(doc, p, enc, pretty, win32)
        now = fs.content(p)
        ctx.observe(now)
        ctx.check(now is not None and _b(now == text), "the file does not hold the document")
        if same:
            ctx.check(fs.ident(p) == before and not fs.touched, "an unchanged file is touched")
        ctx.check(fs.names() == [p], "another file remains")
    finally:
        fs.done()


HARNESSES = [
    Harness("on_diff", dict(n=2, faults=0), dict(n=3, faults=0), "old file absent or any text, new text in two pieces, two platforms, two umasks, no failure"),
    Harness("failures", dict(n=1, faults=2), dict(n=2, faults=4), "up to so many failures at any operations"),
    Harness(two_files, dict(n=1), dict(n=2), "two files, same or different, either closing order"),
    Harness(xml, dict(n=1), dict(n=2), "two encodings, four formats, five states of the old file"),
]


def failures(ctx, n, faults):
    """every operation may fail"""
    on_diff(ctx, n, faults)
