"""A directory whose files fail on request, whoever opens them.

Opens for writing below `root` get a raw file that can refuse to open, write less than
asked, fail with an error after a number of bytes (a full disk), fail at a given write or
fail when closed. Everything above the raw file (buffering, encoding) is Python's own.
"""

import errno
import io
import os
import shutil
import tempfile

ERR = {"full": errno.ENOSPC, "io": errno.EIO, "quota": errno.EDQUOT, "access": errno.EACCES, "files": errno.EMFILE, "readonly": errno.EROFS}


class FaultFS:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="simfs-")
        self.plan = None  # {"kind": open|write|short|close, "err":, "after": bytes}
        self.encoding = "utf-8"
        self.fired = {}
        self.opens = 0

    def owns(self, path, mode):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        return isinstance(p, str) and p.startswith(self.root + "/") and any(c in mode for c in "wax+")

    def hit(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        self.opens += 1
        p = self.plan
        if p and p["kind"] == "open":
            self.hit("open-fails")
            raise OSError(ERR[p["err"]], os.strerror(ERR[p["err"]]), os.fspath(path))
        raw = FaultRaw(self, os.fspath(path), mode.replace("b", "").replace("t", ""))
        buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or self.encoding, errors, newline)
        text.mode = mode
        return text

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class FaultRaw(io.FileIO):
    def __init__(self, fs, path, mode):
        self.fs = fs
        super().__init__(path, mode)
        self.left = fs.plan["after"] if fs.plan and fs.plan["kind"] == "write" else None

    def write(self, b):
        p = self.fs.plan
        if p and p["kind"] == "short" and len(b) > 1:
            self.fs.hit("short-write")
            return super().write(memoryview(b)[: max(1, len(b) // 2)])
        if p and p["kind"] == "write":
            if self.left is None:
                self.left = p["after"]
            if self.left <= 0:
                self.fs.hit("write-fails")
                raise OSError(ERR[p["err"]], os.strerror(ERR[p["err"]]))
            n = super().write(memoryview(b)[: self.left])
            self.left -= n
            return n
        return super().write(b)

    def close(self):
        was = self.closed
        super().close()
        p = self.fs.plan
        if not was and p and p["kind"] == "close":
            self.fs.hit("close-fails")
            raise OSError(ERR[p["err"]], os.strerror(ERR[p["err"]]))
