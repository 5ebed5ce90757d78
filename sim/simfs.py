"""Simulated file system: namespace, page cache, durable state, and power loss.

Two devices: everything under /sim, and /simtmp (the temporary directory), so a rename
between them fails with EXDEV as it would between two real file systems.

Durability model (a strict reading of POSIX, in the style of ext4 without the rename
heuristics): namespace changes are journalled in order and become durable as a prefix;
fsync of a file makes its data and all earlier namespace changes durable; data that was
never synced may, after power loss, be the old content, the new content, a torn prefix of
the new content, zeros, or nothing.
"""

import errno as E
import os
import posixpath
import stat as S
import zlib

ROOTS = ("/sim", "/simtmp")


def is_sim_path(p):
    return p == "/sim" or p == "/simtmp" or p.startswith("/sim/") or p.startswith("/simtmp/")


class Inode:
    __slots__ = ("kind", "data", "durable", "mode", "dev", "ino", "target", "mtime", "locks", "special")

    def __init__(self, kind, dev, ino, mode):
        self.kind = kind  # f d l
        self.data = bytearray() if kind == "f" else None
        self.durable = b"" if kind == "f" else None
        self.mode = mode
        self.dev = dev
        self.ino = ino
        self.target = None
        self.mtime = 0.0
        self.special = None


def err(no, path=None):
    if path is None:
        return OSError(no, os.strerror(no))
    return OSError(no, os.strerror(no), path)


class FS:
    def __init__(self):
        self.next_ino = 10
        self.ents = {}
        self.dents = {}  # durable namespace
        self.journal = []  # uncommitted namespace records: list of [(path, inode|None)...]
        self.cap = {1: None, 2: None}
        self.used = {1: 0, 2: 0}
        for i, r in enumerate(ROOTS):
            d = self._inode("d", i + 1, 0o755)
            self.ents[r] = d
            self.dents[r] = d

    # ---- set-up and inspection (not operations of a process)
    def _inode(self, kind, dev, mode):
        self.next_ino += 1
        return Inode(kind, dev, self.next_ino, mode)

    def put(self, path, data, mode=0o644):
        self.mkdirs(posixpath.dirname(path))
        n = self._inode("f", self.dev(path), mode)
        n.data[:] = data
        n.durable = bytes(data)
        # any order of modification times, some in the future of the simulated clock
        n.mtime = 1_700_000_000.0 + zlib.crc32(os.fsencode(path) + bytes(data[:300])) % 4_000_000 - 3_000_000
        self.used[n.dev] += len(data)
        self.ents[path] = n
        self.dents[path] = n
        return n

    def put_dir(self, path):
        self.mkdirs(path)

    def put_link(self, path, target):
        self.mkdirs(posixpath.dirname(path))
        n = self._inode("l", self.dev(path), 0o777)
        n.target = target
        self.ents[path] = n
        self.dents[path] = n

    def mkdirs(self, path):
        if path in self.ents or path in ("/", ""):
            return
        self.mkdirs(posixpath.dirname(path))
        n = self._inode("d", self.dev(path), 0o755)
        self.ents[path] = n
        self.dents[path] = n

    @staticmethod
    def dev(path):
        return 2 if path == "/simtmp" or path.startswith("/simtmp/") else 1

    def snapshot(self):
        out = {}
        for p, n in self.ents.items():
            out[p] = bytes(n.data) if n.kind == "f" else ("d",) if n.kind == "d" else ("l", n.target)
        return out

    def content(self, path):
        """What opening the path would read now: bytes, or None if there is no such file."""
        try:
            p = self.resolve(path)
        except OSError:
            return None
        n = self.ents.get(p)
        if n is None or n.kind != "f":
            return None
        return bytes(n.data)

    def settle(self):
        """Everything written so far becomes durable (the machine stayed up)."""
        self.dents = dict(self.ents)
        self.journal = []
        for n in self.ents.values():
            if n.kind == "f":
                n.durable = bytes(n.data)

    def power_loss(self, rng):
        """Replace the current state by one that may be found after power loss."""
        k = rng.randint(0, len(self.journal)) if rng.random() < 0.7 else rng.choice([0, len(self.journal)])
        for rec in self.journal[:k]:
            self._apply(self.dents, rec)
        seen = set()
        for p, n in self.dents.items():
            if n.kind != "f" or id(n) in seen:
                continue
            seen.add(id(n))
            cur, dur = bytes(n.data), n.durable
            if cur != dur:
                m = rng.randrange(6)
                if m == 0:
                    new = dur
                elif m == 1:
                    new = cur
                elif m == 2:
                    new = cur[: rng.randint(0, len(cur))]
                elif m == 3:
                    new = bytes(len(cur))
                elif m == 4:
                    new = b""
                else:  # some sectors new, the others old or zero
                    new = bytearray(cur)
                    for o in range(0, len(cur), 512):
                        if rng.random() < 0.5:
                            old = dur[o : o + 512]
                            seg = (old + bytes(512))[: len(new[o : o + 512])]
                            new[o : o + 512] = seg
                    new = bytes(new)
                n.data = bytearray(new)
                n.durable = bytes(new)
        self.ents = dict(self.dents)
        self.journal = []
        self._recount()

    def _recount(self):
        self.used = {1: 0, 2: 0}
        seen = set()
        for n in self.ents.values():
            if n.kind == "f" and id(n) not in seen:
                seen.add(id(n))
                self.used[n.dev] += len(n.data)

    @staticmethod
    def _apply(ents, rec):
        for p, n in rec:
            if n is None:
                ents.pop(p, None)
            else:
                ents[p] = n

    def _meta(self, rec):
        self._apply(self.ents, rec)
        self.journal.append(rec)

    # ---- path resolution
    def resolve(self, path, follow=True, depth=0):
        """Absolute path with all symbolic links in it resolved."""
        if depth > 20:
            raise err(E.ELOOP, path)
        if path.endswith("/") and len(path) > 1:
            q = self.resolve(path.rstrip("/"), True, depth + 1)
            n = self.ents.get(q)
            if n is not None and n.kind != "d":
                raise err(E.ENOTDIR, path)
            return q
        parts = [x for x in path.split("/") if x not in ("", ".")]
        cur = ""
        for i, part in enumerate(parts):
            if part == "..":
                cur = posixpath.dirname(cur)
                if cur == "/":
                    cur = ""
                continue
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                raise err(E.ENAMETOOLONG, path)
            nxt = cur + "/" + part
            last = i == len(parts) - 1
            n = self.ents.get(nxt)
            if n is not None and n.kind == "l" and (follow or not last):
                t = n.target if n.target.startswith("/") else posixpath.join(cur or "/", n.target)
                rest = "/".join(parts[i + 1 :])
                return self.resolve(posixpath.join(t, rest) if rest else t, follow, depth + 1)
            if not last:
                if is_sim_path(nxt):
                    if n is None:
                        raise err(E.ENOENT, path)
                    if n.kind != "d":
                        raise err(E.ENOTDIR, path)
            cur = nxt
        return cur or "/"

    def lookup(self, path, follow=True):
        if path == "":
            raise err(E.ENOENT, path)
        p = self.resolve(path, follow)
        n = self.ents.get(p)
        if n is None:
            raise err(E.ENOENT, path)
        return p, n

    def parent_ok(self, p, path):
        d = posixpath.dirname(p)
        n = self.ents.get(d)
        if n is None:
            raise err(E.ENOENT, path)
        if n.kind != "d":
            raise err(E.ENOTDIR, path)

    def may(self, n, rd, wr, path):
        """The user owns every file and is not root."""
        if n.kind == "f" and n.special is None and (rd and not n.mode & 0o400 or wr and not n.mode & 0o200):
            raise err(E.EACCES, path)

    # ---- operations
    def open(self, path, flags, mode, now):
        if path == "":
            raise err(E.ENOENT, path)
        p = self.resolve(path, not (flags & os.O_NOFOLLOW))
        n = self.ents.get(p)
        if path.endswith("/") and n is None:
            raise err(E.EISDIR if flags & os.O_CREAT else E.ENOENT, path)
        if n is None:
            if not flags & os.O_CREAT:
                raise err(E.ENOENT, path)
            self.parent_ok(p, path)
            n = self._inode("f", self.dev(p), mode)
            n.mtime = now
            self._meta([(p, n)])
        else:
            if flags & os.O_EXCL and flags & os.O_CREAT:
                raise err(E.EEXIST, path)
            if n.kind == "l":
                raise err(E.ELOOP, path)
            acc = flags & os.O_ACCMODE
            if n.kind == "d":
                if acc != os.O_RDONLY or flags & os.O_CREAT:
                    raise err(E.EISDIR, path)
            else:
                self.may(n, acc != os.O_WRONLY, acc != os.O_RDONLY, path)
            if n.kind == "f" and flags & os.O_TRUNC and acc != os.O_RDONLY and n.special is None:
                self.used[n.dev] -= len(n.data)
                n.data = bytearray()
                n.mtime = now
        return p, n

    def write(self, n, pos, b, now):
        """Returns how many bytes fitted."""
        if n.special is not None:
            n.data += b
            return len(b)
        end = pos + len(b)
        ext = end - len(n.data)
        cap = self.cap[n.dev]
        if cap is not None and ext > 0 and self.used[n.dev] + ext > cap:
            room = max(0, cap - self.used[n.dev])
            fit = len(b) - ext + room
            if fit <= 0:
                raise err(E.ENOSPC)
            b = b[:fit]
            end = pos + len(b)
            ext = end - len(n.data)
        if pos > len(n.data):
            n.data += bytes(pos - len(n.data))
        n.data[pos:end] = b
        if ext > 0:
            self.used[n.dev] += ext
        n.mtime = now
        return len(b)

    def truncate(self, n, size, now):
        d = size - len(n.data)
        if d < 0:
            del n.data[size:]
        else:
            n.data += bytes(d)
        self.used[n.dev] += d
        n.mtime = now

    def fsync(self, n):
        if n.kind == "f":
            n.durable = bytes(n.data)
        for rec in self.journal:
            self._apply(self.dents, rec)
        self.journal = []

    def nlink(self, n):
        return sum(1 for x in self.ents.values() if x is n)

    def stat(self, path, follow=True):
        _, n = self.lookup(path, follow)
        return self.stat_of(n)

    def stat_of(self, n):
        t = {"f": S.S_IFREG, "d": S.S_IFDIR, "l": S.S_IFLNK}[n.kind]
        if n.special == "chr":
            t = S.S_IFCHR
        size = len(n.data) if n.kind == "f" and not n.special else len(n.target) if n.kind == "l" else 0
        return os.stat_result((t | n.mode, n.ino, n.dev, max(1, self.nlink(n)), 0, 0, size, int(n.mtime), int(n.mtime), int(n.mtime),
                               n.mtime, n.mtime, n.mtime, int(n.mtime * 1e9), int(n.mtime * 1e9), int(n.mtime * 1e9)))

    def unlink(self, path):
        p, n = self.lookup(path, False)
        if n.kind == "d":
            raise err(E.EISDIR, path)
        self._meta([(p, None)])
        if n.kind == "f" and self.nlink(n) == 0:
            self.used[n.dev] -= len(n.data)

    def rename(self, a, b):
        pa, na = self.lookup(a, False)
        if b == "":
            raise err(E.ENOENT, b)
        pb = self.resolve(b, False)
        self.parent_ok(pb, b)
        if self.dev(pa) != self.dev(pb):
            raise OSError(E.EXDEV, os.strerror(E.EXDEV), a, None, b)
        nb = self.ents.get(pb)
        if nb is na:
            return
        if nb is not None:
            if nb.kind == "d" and na.kind != "d":
                raise err(E.EISDIR, b)
            if na.kind == "d" and nb.kind != "d":
                raise err(E.ENOTDIR, b)
            if nb.kind == "d" and any(x.startswith(pb + "/") for x in self.ents):
                raise err(E.ENOTEMPTY, b)
        rec = [(pa, None), (pb, na)]
        if na.kind == "d":
            for x, n in list(self.ents.items()):
                if x.startswith(pa + "/"):
                    rec += [(x, None), (pb + x[len(pa) :], n)]
        self._meta(rec)
        if nb is not None and nb.kind == "f" and self.nlink(nb) == 0:
            self.used[nb.dev] -= len(nb.data)

    def link(self, a, b):
        pa, na = self.lookup(a, False)
        pb = self.resolve(b, False)
        self.parent_ok(pb, b)
        if self.dev(pa) != self.dev(pb):
            raise OSError(E.EXDEV, os.strerror(E.EXDEV), a, None, b)
        if pb in self.ents:
            raise err(E.EEXIST, b)
        self._meta([(pb, na)])

    def symlink(self, target, path):
        p = self.resolve(path, False)
        self.parent_ok(p, path)
        if p in self.ents:
            raise err(E.EEXIST, path)
        n = self._inode("l", self.dev(p), 0o777)
        n.target = target
        self._meta([(p, n)])

    def readlink(self, path):
        _, n = self.lookup(path, False)
        if n.kind != "l":
            raise err(E.EINVAL, path)
        return n.target

    def mkdir(self, path, mode):
        p = self.resolve(path, False)
        if p in self.ents:
            raise err(E.EEXIST, path)
        self.parent_ok(p, path)
        self._meta([(p, self._inode("d", self.dev(p), mode))])

    def rmdir(self, path):
        p, n = self.lookup(path, False)
        if n.kind != "d":
            raise err(E.ENOTDIR, path)
        if any(x.startswith(p + "/") for x in self.ents):
            raise err(E.ENOTEMPTY, path)
        self._meta([(p, None)])

    def listdir(self, path):
        p, n = self.lookup(path)
        if n.kind != "d":
            raise err(E.ENOTDIR, path)
        return sorted(x[len(p) + 1 :] for x in self.ents if posixpath.dirname(x) == p and x != p)
