"""The simulator: processes, threads, scheduler, system-call seam and fault injection.

Real code: everything in /repo/palworld_save_tools (fresh import per simulated process,
compiled from the current working tree), CPython's io buffering and text layers, json,
zlib, argparse.  Simulated: the file system (simfs.py), file descriptors, stdin/stdout,
clock, randomness, process ids, environment, locale encoding, kills, power loss, interrupts,
allocation failures and every scheduling decision.

One run is a pure function of its plan (JSON) and the code under test.
"""

import argparse
import ast
import base64
import binascii
import builtins
import collections
import contextlib
import copy
import copyreg
import ctypes
import datetime
import errno as E
import functools
import gc
import gzip
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import logging
import math
import operator
import os
import posixpath
import pprint
import random
import re
import shutil
import signal
import stat as S
import struct
import sys
import tempfile
import threading
import time
import traceback
import types
import typing
import uuid
import warnings
import weakref
import zlib

from .simfs import FS, err, is_sim_path

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "palworld_save_tools"


class SimKilled(BaseException):
    pass


class SimHang(BaseException):
    pass


class HarnessError(Exception):
    """The simulator itself cannot do what the code asks for."""


CUR = None  # the task that holds the baton, or None outside simulated code

# ------------------------------------------------------------------ code under test


def _all_codes(c, out):
    out.append(c)
    for k in c.co_consts:
        if isinstance(k, type(c)):
            _all_codes(k, out)


class Codes:
    """Compiled sources of the package, in three variants: plain, line- and
    instruction-instrumented."""

    def __init__(self, repo):
        self.src = {}
        base = os.path.join(repo, PKG)
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                    pk = rel.endswith(".__init__")
                    name = rel[: -len(".__init__")] if pk else rel
                    with open(p, "rb") as fh:
                        self.src[name] = (p, fh.read(), pk)
        # namespace-style package directories without __init__.py
        for name in list(self.src):
            parts = name.split(".")
            for i in range(1, len(parts)):
                q = ".".join(parts[:i])
                self.src.setdefault(q, (os.path.join(repo, *parts[:i], "__init__.py"), b"", True))
        self.digest = hashlib.sha256(b"".join(n.encode() + s for n, (_, s, _) in sorted(self.src.items()))).hexdigest()[:16]
        self.variants = {}
        self.shared = None

    def hot(self, variant, place):
        """Does this place of a rehearsal touch shared state?"""
        if self.shared is None:
            self.shared = shared_lines(self.src)
            self.by_start = {}
            cs = []
            for c, p, pk in self.get("plain").values():
                _all_codes(c, cs)
            for c in cs:
                d = self.by_start.setdefault((c.co_filename, c.co_firstlineno), {})
                for a, b, n in c.co_lines():
                    for k in range(a, b, 2):
                        d.setdefault(k, n)
        f, start, at = place
        if variant == "instr":
            at = self.by_start.get((f, start), {}).get(at)
        return (f, at) in self.shared

    def get(self, variant):
        v = self.variants.get(variant)
        if v is None:
            v = {}
            codes = []
            for name, (p, src, pk) in self.src.items():
                c = compile(src, p, "exec", dont_inherit=True)
                v[name] = (c, p, pk)
                _all_codes(c, codes)
            mon = sys.monitoring
            if variant != "plain":
                _ensure_tool()
                ev = mon.events.LINE if variant == "line" else mon.events.INSTRUCTION
                for c in codes:
                    mon.set_local_events(TOOL, c, ev)
            self.variants[variant] = v
        return v


MUTATORS = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "remove", "reverse", "sort",
            "write", "seek", "truncate", "appendleft", "popleft", "pack_into"}


def _root(x):
    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
        x = x.func if isinstance(x, ast.Call) else x.value
    return x.id if isinstance(x, ast.Name) else None


def shared_lines(sources):
    """Lines that touch state outliving a call and changed by calls: module variables, class and function
    attributes, mutable defaults, settings of the process. Only used to aim schedules and faults; no verdict
    depends on it."""
    trees = {}
    for name, (p, src, pk) in sources.items():
        try:
            trees[p] = ast.parse(src)
        except SyntaxError:
            pass
    top = {}  # file: names bound at module level
    classattrs = set()
    for p, tree in trees.items():
        t = top[p] = set()
        todo = list(tree.body)
        while todo:
            y = todo.pop()
            if isinstance(y, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                todo += [z for z in ast.iter_child_nodes(y) if isinstance(z, ast.stmt)]
            elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                t.add(y.name)
            elif isinstance(y, (ast.Import, ast.ImportFrom)):
                t.update((z.asname or z.name).split(".")[0] for z in y.names)
            else:
                t.update(z.id for z in ast.walk(y) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store))
        for x in ast.walk(tree):
            if isinstance(x, ast.ClassDef):
                for y in x.body:
                    classattrs.update(z.id for z in ast.walk(y) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value)

    funcs = []  # (file, function, names that are not local to it)
    for p, tree in trees.items():
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            a = f.args
            args = a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]
            named = a.posonlyargs + a.args
            pairs = list(zip(named[len(named) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
            dflt = {n.arg for n, d in pairs if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call))}
            declared, stored = set(), {z.arg for z in args}
            for y in ast.walk(f):
                if isinstance(y, (ast.Global, ast.Nonlocal)):
                    declared.update(y.names)
                elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    stored.add(y.id)
            funcs.append((p, f, (top[p] - stored) | declared | dflt, declared))
    names, attrs = set(), set()
    for p, f, outer, declared in funcs:
        for y in ast.walk(f):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and y.id in declared:
                names.add(y.id)
            what = None
            if isinstance(y, (ast.Attribute, ast.Subscript)) and isinstance(y.ctx, (ast.Store, ast.Del)):
                what = y
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTATORS:
                what = y.func.value
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "pack_into" and y.args:
                what = y.args[0]
            if what is None:
                continue
            root = _root(what)
            if root in outer or root == "cls":
                names.add(root)
                if isinstance(what, ast.Attribute):
                    attrs.add(what.attr)
            for z in ast.walk(what):
                if isinstance(z, ast.Attribute) and z.attr in classattrs and z is not y:
                    attrs.add(z.attr)
    names -= {"self", "cls"}
    hot = set()
    for p, f, outer, declared in funcs:
        for y in ast.walk(f):
            if isinstance(y, ast.Name) and y.id in names and y.id in outer or isinstance(y, ast.Attribute) and y.attr in attrs:
                hot.add((p, y.lineno))
    return hot


TOOL = 4
_tool_ready = False


def _on_point(code, _where):
    t = CUR
    if t is not None:
        if t.world.places is not None:
            t.world.places.append((code.co_filename, code.co_firstlineno, _where))
        t.point()


def _ensure_tool():
    global _tool_ready
    if not _tool_ready:
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, _on_point)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_point)
        _tool_ready = True


_codes = None


def codes():
    global _codes
    if _codes is None:
        _codes = Codes(REPO)
    return _codes


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        t = CUR
        table = codes().get(t.proc.variant if t is not None else "plain")
        if name not in table:
            return None
        c, p, pk = table[name]
        spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pk)
        spec.has_location = True
        if pk:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        t = CUR
        table = codes().get(t.proc.variant if t is not None else "plain")
        if t is None:
            exec(table[module.__name__][0], module.__dict__)
            return
        # no task switch while the interpreter's import lock of this module is held
        t.world.noyield += 1
        try:
            exec(table[module.__name__][0], module.__dict__)
        finally:
            t.world.noyield -= 1


# ------------------------------------------------------------------ files of a process


class OpenFile:
    def __init__(self, proc, fd, path, inode, flags):
        self.proc, self.fd, self.path, self.inode, self.flags = proc, fd, path, inode, flags
        self.pos = 0
        acc = flags & os.O_ACCMODE
        self.r = acc in (os.O_RDONLY, os.O_RDWR)
        self.w = acc in (os.O_WRONLY, os.O_RDWR)

    def live(self):
        p = self.proc
        return not p.finished and CUR is not None and CUR.proc is p

    def read(self, n):
        if not self.live():
            return b""
        if not self.r:
            raise err(E.EBADF)
        if self.inode.kind == "d":
            raise err(E.EISDIR)
        t = CUR
        f = t.syscall("read", self.path, n)
        lim = t.chunk(n)
        if f:
            k = f["f"]
            if k == "eof":
                t.fire("eof")
                return b""
            if k == "short" and n > 1:
                lim = min(lim, max(1, int(n * f.get("frac", 0.5))))
                t.fire("short_read")
        b = bytes(self.inode.data[self.pos : self.pos + lim])
        if f and f["f"] == "flip" and b:
            i = f["off"] % len(b)
            b = b[:i] + bytes([b[i] ^ f["mask"]]) + b[i + 1 :]
            t.fire("flip_read")
        self.pos += len(b)
        t.after(f)
        return b

    def write(self, b):
        if not self.live():
            return len(b)
        if not self.w:
            raise err(E.EBADF)
        t = CUR
        f = t.syscall("write", self.path, len(b))
        lim = t.chunk(len(b))
        if f:
            k = f["f"]
            if k == "short" and len(b) > 1:
                lim = min(lim, max(1, int(len(b) * f.get("frac", 0.5))))
                t.fire("short_write")
            elif k in ("killmid", "powermid"):
                self._put(b[: int(len(b) * f.get("frac", 0.5))])
                t.die(f)
        n = self._put(b[:lim])
        t.after(f)
        return n

    def _put(self, b):
        w = self.proc.world
        if self.flags & os.O_APPEND:
            self.pos = len(self.inode.data)
        if not b:
            return 0
        n = w.fs.write(self.inode, self.pos, b, w.now)
        self.pos += n
        w.mutated()
        return n

    def seek(self, off, whence):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.inode.data) + off
        return self.pos

    def truncate(self, size):
        if not self.live():
            return
        t = CUR
        f = t.syscall("truncate", self.path)
        self.proc.world.fs.truncate(self.inode, size, self.proc.world.now)
        self.proc.world.mutated()
        t.after(f)

    def sync(self):
        if not self.live():
            return
        t = CUR
        f = t.syscall("fsync", self.path)
        self.proc.world.fs.fsync(self.inode)
        t.after(f)

    def close(self):
        if self.proc.fds.pop(self.fd, None) is None or not self.live():
            return
        t = CUR
        f = t.syscall("close", self.path)
        t.after(f)


class SimRaw(io.RawIOBase):
    def __init__(self, of, name, mode, closefd=True):
        self.of = of
        self.name = name
        self.mode = mode
        self.closefd = closefd

    def readinto(self, b):
        d = self.of.read(len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        return self.of.write(bytes(b))

    def seek(self, off, whence=0):
        return self.of.seek(off, whence)

    def tell(self):
        return self.of.pos

    def truncate(self, size=None):
        if size is None:
            size = self.of.pos
        self.of.truncate(size)
        return size

    def readable(self):
        return self.of.r

    def writable(self):
        return self.of.w

    def seekable(self):
        return self.of.inode.special is None

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.of.fd

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                if self.closefd:
                    self.of.close()
            finally:
                super().close()


class StdoutRaw(io.RawIOBase):
    def __init__(self, proc, which):
        self.proc, self.which = proc, which

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.proc.finished or CUR is None or CUR.proc is not self.proc:
            return len(b)
        t = CUR
        f = t.syscall(self.which, "", len(b))
        self.proc.out += b
        t.after(f)
        return len(b)


class Stdin(io.TextIOBase):
    """Scripted standard input: items are reply lines, or "^eof", "^intr", "^err"."""

    def __init__(self, proc, script):
        self.proc, self.script = proc, list(script)
        self.used = 0
        self.log = []

    encoding = "utf-8"
    errors = "strict"

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return True

    def readline(self, size=-1):
        t = CUR
        f = t.syscall("stdin", "")
        self.used += 1
        x = self.script.pop(0) if self.script else "^eof"
        self.log.append(x)
        if x == "^eof":
            self.script.insert(0, "^eof")
            return ""
        if x == "^intr":
            t.fire("intr_prompt")
            raise KeyboardInterrupt
        if x == "^err":
            t.fire("stdin_error")
            raise err(E.EIO)
        t.after(f)
        return x + "\n"

    def read(self, size=-1):
        out = []
        while True:
            s = self.readline()
            if not s:
                return "".join(out)
            out.append(s)

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s


# ------------------------------------------------------------------ processes and tasks
DATA_OPS = {"read", "write", "fsync", "close", "open", "rename", "stdout", "truncate", "unlink", "mkdir", "chmod", "link"}


class Overlay:
    """State of the interpreter and of the standard library that belongs to a process.

    What a simulated process assigns to attributes of the modules and objects below, and
    to the settings of the interpreter, is taken back when it is switched out and put in
    place again when it is switched in: one process cannot be seen by another, nor by the
    harness, and a history does not depend on what ran before it in the same worker.
    """

    def __init__(self):
        self.objs = [json, json.encoder, json.decoder, json.scanner, json.encoder.JSONEncoder, json.decoder.JSONDecoder, json._default_encoder,
                     json._default_decoder, base64, binascii, struct, zlib, gzip, argparse, argparse.ArgumentParser, argparse.Namespace, copy, contextlib,
                     ctypes, functools, logging, logging.root, math, operator, pprint, re, traceback, typing, types, builtins]
        self.tables = [copy._deepcopy_dispatch, copyreg.dispatch_table, json.decoder.BACKSLASH, json.encoder.ESCAPE_DCT]
        self.base = [dict(vars(o)) for o in self.objs]
        self.clean = self.settings()

    def settings(self):
        return (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), sys.get_int_max_str_digits(), sys.excepthook,
                threading.excepthook, warnings.showwarning, tuple(warnings.filters), tuple(sys.path), [dict(t) for t in self.tables])

    def set(self, v):
        if v[0] != sys.getrecursionlimit():
            sys.setrecursionlimit(v[0])
        sys.setswitchinterval(v[1])
        (gc.enable if v[2] else gc.disable)()
        gc.set_threshold(*v[3])
        sys.set_int_max_str_digits(v[4])
        sys.excepthook, threading.excepthook, warnings.showwarning = v[5:8]
        if tuple(warnings.filters) != v[8]:
            warnings.filters[:] = v[8]
            warnings._filters_mutated()
        sys.path[:] = v[9]
        for t, x in zip(self.tables, v[10]):
            t.clear()
            t.update(x)

    def take(self):
        """Take back what the running process changed; returns it for put()."""
        out = []
        for i, (o, b) in enumerate(zip(self.objs, self.base)):
            d = vars(o)
            if len(d) == len(b) and all(map(operator.is_, d.values(), b.values())):
                continue
            diff = {k: v for k, v in d.items() if k not in b or b[k] is not v}
            gone = [k for k in b if k not in d]
            for k in diff:
                if k not in b:
                    delattr(o, k)
            for k in list(diff) + gone:
                if k in b:
                    setattr(o, k, b[k])
            if diff or gone:
                out.append((i, diff, gone))
        now = self.settings()
        if now == self.clean:
            now = None
        else:
            self.set(self.clean)
        return out, now

    def put(self, changes):
        for i, diff, gone in changes[0]:
            for k, v in diff.items():
                setattr(self.objs[i], k, v)
            for k in gone:
                delattr(self.objs[i], k)
        if changes[1] is not None:
            self.set(changes[1])


_overlay = None


def _environ(data):
    """Make `data` the environment; returns the old one.  The C level keeps its own."""
    d = os.environ._data
    old = dict(d)
    d.clear()
    d.update(data)
    return old


class Proc:
    """One simulated process: its own modules, environment, descriptors and streams."""

    def __init__(self, world, spec):
        self.world = world
        self.spec = spec
        self.idx = len(world.procs)
        world.procs.append(self)
        self.pid = 4000 + self.idx
        self.variant = spec.get("variant", "plain")
        env = {"TMPDIR": "/simtmp", "HOME": "/sim", "PATH": "/bin", **spec.get("env", {})}
        self.env = {os.environ.encodekey(k): os.environ.encodevalue(v) for k, v in env.items() if v is not None}
        self.cwd = spec.get("cwd", "/sim/w")
        self.locale = spec.get("locale", "utf-8")
        self.rng = random.Random(f"urandom-{spec.get('seed', 0)}-{self.idx}")
        self.umask = 0o022
        self.fds = {}
        self.next_fd = 1000
        self.files = []
        self.modules = {}
        self.finished = False
        self.dead = False
        self.out = bytearray()
        self.escapes = []
        self.exit = None
        self.exc = None
        self.finalizing = False
        self.argv = ["prog"] + list(spec.get("argv", []))
        self.stdin = Stdin(self, spec.get("stdin", [])) if spec.get("stdin", []) is not None else None
        tty = spec.get("tty", False)

        def mk(which):
            return io.TextIOWrapper(io.BufferedWriter(StdoutRaw(self, which), 8192), encoding="utf-8", errors="backslashreplace", line_buffering=tty)

        self.stdout = mk("stdout")
        self.stderr = mk("stderr")
        self.saved = None
        self.sys = self.argv, self.stdin, self.stdout, self.stderr
        self.changes = ([], None)  # of the interpreter and the standard library
        self.random = random.Random(f"random-{spec.get('seed', 0)}-{self.idx}").getstate()

    # context switching
    def enter(self):
        self.saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr), _environ(self.env)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = self.sys
        _overlay.put(self.changes)
        random.setstate(self.random)
        for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
            del sys.modules[k]
        sys.modules.update(self.modules)

    def leave(self):
        self.modules = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}
        for k in self.modules:
            del sys.modules[k]
        self.changes = _overlay.take()
        if not self.finished:
            self.random = random.getstate()
        self.sys = sys.argv, sys.stdin, sys.stdout, sys.stderr
        old, env = self.saved
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        self.env = _environ(env)

    def new_fd(self, path, inode, flags):
        fd = self.next_fd
        self.next_fd += 1
        of = OpenFile(self, fd, path, inode, flags)
        self.fds[fd] = of
        return of

    def abspath(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith("/") else (self.cwd + "/" + p if p else "")

    def text(self):
        return self.out.decode("utf-8", "replace")

    def finalize(self):
        """What the interpreter does at exit: flush and close what is still open."""
        if not self.dead:
            self.finalizing = True
            for ref in self.files:
                f = ref()
                if f is not None and not f.closed:
                    try:
                        f.close()
                    except (Exception, KeyboardInterrupt):
                        pass
            for s in (self.stdout, self.stderr):
                try:
                    s.flush()
                except KeyboardInterrupt:
                    self.exit = 130
                except Exception:
                    if s is self.stdout:
                        self.exit = 120
        self.finished = True
        self.fds.clear()


class Task:
    """A schedulable thread of a process."""

    def __init__(self, proc, fn, spec=None):
        spec = spec or {}
        self.proc = proc
        self.world = proc.world
        self.fn = fn
        self.idx = len(self.world.tasks)
        self.world.tasks.append(self)
        self.nops = 0
        self.nlines = 0
        self.opfaults = {}
        self.linefaults = {}
        for f in spec.get("faults", []):
            if "op" in f:
                self.opfaults[f["op"]] = f
            else:
                self.linefaults[f["line"]] = f
        self.sticky = None
        self.pending = None
        c = spec.get("chunk")
        self.chunk_rng = random.Random(c) if c is not None else None
        self.chunk_max = [1, 7, 64, 513, 4096][c % 5] if c is not None else 0
        self.line_cap = spec.get("line_cap")
        self.op_cap = spec.get("op_cap", 200000)
        self.done = False
        self.result = None
        self.lock = threading.Lock()
        self.lock.acquire()

    # -- seam
    def fire(self, kind):
        self.world.fired[kind] += 1

    def chunk(self, n):
        if self.chunk_rng is None or n <= 1 or self.nops > 20000:
            return n
        m = min(n, self.chunk_rng.randint(1, self.chunk_max))
        # keep huge transfers affordable
        m = max(m, n // 64)
        if m < n:
            self.world.fired["chunked_io"] += 1
        return m

    def point(self):
        """A line (or instruction) of the code under test is about to run."""
        n = self.nlines = self.nlines + 1
        w = self.world
        if w.fine:
            w.yield_point(self)
        if n in self.linefaults:
            f = self.linefaults[n]
            if f["f"] == "intr":
                self.fire("intr_line")
                raise KeyboardInterrupt
            if f["f"] == "mem":
                self.fire("memory_error")
                raise MemoryError
            if f["f"] == "kill":
                self.die(f)
        if self.line_cap is not None and n > self.line_cap:
            raise SimHang(f"more than {self.line_cap} lines")

    def syscall(self, kind, path, n=0):
        """Called before each operation takes effect; returns the fault to apply, if any."""
        w = self.world
        if self.proc.dead:
            raise SimKilled
        self.nops += 1
        if self.nops > self.op_cap:
            raise SimHang(f"more than {self.op_cap} operations")
        w.now += 0.0001
        if w.coarse:
            w.yield_point(self)
            if self.proc.dead:
                raise SimKilled
        w.log.append((self.idx, kind, path))
        f = self.opfaults.get(self.nops)
        if kind in ("stdout", "stderr"):
            # input() of the interpreter ignores what its flush raises, so an interrupt that
            # arrives during terminal output is delivered at the next operation instead
            if f is not None and f["f"] in ("intr", "intrafter"):
                self.pending = {"f": "intr"}
                f = None
        elif self.pending is not None and f is None:
            f, self.pending = self.pending, None
        if self.sticky is not None and kind in self.sticky["kinds"]:
            self.fire("sticky_" + self.sticky["no"])
            raise err(getattr(E, self.sticky["no"]), path or None)
        if f is None:
            return None
        k = f["f"]
        if k in ("err", "errs") and kind == "stat":
            return None
        if k == "err":
            self.fire(f["no"] + "_" + kind)
            raise err(getattr(E, f["no"]), path or None)
        if k == "errs":
            self.sticky = f
            if kind in f["kinds"]:
                self.fire("sticky_" + f["no"])
                raise err(getattr(E, f["no"]), path or None)
            return None
        if k == "full":
            dev = f.get("dev", 1)
            w.fs.cap[dev] = w.fs.used[dev] + f["extra"]
            self.fire("disk_full_set")
            return None
        if k == "intr":
            self.fire("intr_op")
            raise KeyboardInterrupt
        if k in ("kill", "power"):
            self.die(f)
        if k in ("killmid", "powermid") and kind != "write":
            self.die(f)
        return f

    def after(self, f):
        """Faults that strike right after the operation took effect."""
        if f is None:
            return
        k = f["f"]
        if k in ("killafter", "powerafter"):
            self.die(f)
        if k == "intrafter":
            self.fire("intr_op")
            raise KeyboardInterrupt

    def die(self, f):
        w = self.world
        if f["f"].startswith("power"):
            self.fire("power_loss")
            w.powered = False
            for p in w.procs:
                if not p.finished:
                    p.dead = True
            w.fs.power_loss(random.Random(f["seed"]))
            w.mutated()
        else:
            self.fire(f["f"] if f["f"] != "killafter" else "kill")
            self.proc.dead = True
        raise SimKilled


class World:
    def __init__(self, seed=0):
        self.seed = seed
        self.fs = FS()
        self.procs = []
        self.tasks = []
        self.now = 1_700_000_000.0
        self.log = []
        self.fired = collections.Counter()
        self.monitor = None
        self.violation = None
        self.sched = {}
        self.gstep = 0
        self.switches = 0
        self.coarse = False
        self.fine = False
        self.powered = True
        self.trace = []
        self.noyield = 0
        self.places = None  # list: where each step of a rehearsal was

    def mutated(self):
        if self.monitor is not None and self.violation is None:
            v = self.monitor(self)
            if v:
                self.violation = v

    # -- scheduling
    def yield_point(self, task):
        self.gstep += 1
        s = self.sched.get(self.gstep)
        if s is None or self.noyield:
            return
        self.switch(task, s)

    def switch(self, task, s):
        """Hand the baton to another task; returns when this one is scheduled again."""
        others = [t for t in self.tasks if not t.done and t is not task and t.started]
        if not others:
            return
        nxt = others[s % len(others)]
        self.switches += 1
        self.trace.append((self.gstep, nxt.idx))
        self._hand(task, nxt)
        task.lock.acquire()
        self._enter(task)

    def _enter(self, task):
        global CUR
        if self.inproc is not task.proc:
            if self.inproc is not None:
                self.inproc.leave()
            task.proc.enter()
            self.inproc = task.proc
        CUR = task

    def _hand(self, cur, nxt):
        global CUR
        CUR = None
        nxt.lock.release()

    def run(self):
        """Run all tasks that have not run yet to their end."""
        global CUR
        tasks = [t for t in self.tasks if not t.done]
        for t in tasks:
            t.started = True
        self.inproc = None
        _install()
        if len(tasks) == 1:
            t = tasks[0]
            self._enter(t)
            try:
                self._body(t)
            finally:
                CUR = None
                self.inproc.leave()
                self.inproc = None
                t.done = True
            return
        self.finish = threading.Lock()
        self.finish.acquire()
        self.crash = None
        ths = []
        for t in tasks:
            th = threading.Thread(target=self._thread, args=(t,), daemon=True)
            ths.append(th)
            th.start()
        tasks[0].lock.release()
        self.finish.acquire()
        for th in ths:
            th.join()
        CUR = None
        if self.inproc is not None:
            self.inproc.leave()
            self.inproc = None
        if self.crash is not None:
            raise self.crash

    def _thread(self, t):
        global CUR
        t.lock.acquire()
        try:
            self._enter(t)
            self._body(t)
        except BaseException as e:
            self.crash = HarnessError(f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}")
        CUR = None
        t.done = True
        rest = [x for x in self.tasks if not x.done and x.started]
        if rest:
            rest[0].lock.release()
        else:
            self.finish.release()

    def _body(self, t):
        if t.proc.dead:
            return
        t.result = t.fn(t)

    # -- results
    def digest(self):
        h = hashlib.sha256()
        for x in self.log:
            h.update(repr(x).encode("utf-8", "backslashreplace"))
        h.update(repr(self.trace).encode())
        return h.hexdigest()[:16]


# ------------------------------------------------------------------ running commands


def _run_as_main(module):
    """python -m <module>: the module body runs under the name __main__."""
    importlib.import_module(module.rpartition(".")[0])
    c, path, _ = codes().get(CUR.proc.variant)[module]
    m = types.ModuleType("__main__")
    m.__dict__.update(__file__=path, __package__=module.rpartition(".")[0], __spec__=None, __builtins__=builtins)
    exec(c, m.__dict__)


def command_body(module, as_main=False):
    def body(task):
        p = task.proc
        code = 0
        try:
            try:
                if as_main:
                    _run_as_main(module)
                else:  # what an installed console script does
                    sys.exit(importlib.import_module(module).main())
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 0xFF
                else:
                    code = 1
                p.exc = ("SystemExit", str(e.code))
                _clear(e)
            except KeyboardInterrupt as e:
                code = 130
                p.exc = ("KeyboardInterrupt", "")
                _clear(e)
            except HarnessError:
                raise
            except (SimKilled, SimHang):
                raise
            except BaseException as e:
                code = 1
                p.exc = (type(e).__name__, str(e)[:300])
                _clear(e)
            p.exit = code
            p.finalize()
            if p.dead:
                p.exit = -9
        except SimKilled as e:
            _clear(e)
            p.exit = -9
            p.dead = True
            p.finalize()
        except SimHang as e:
            p.exc = ("SimHang", str(e))
            _clear(e)
            p.exit = "hang"
            p.dead = True
            p.finalize()
        return p.exit

    return body


def _clear(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        if tb is not None:
            try:
                traceback.clear_frames(tb)
            except RuntimeError:
                pass
        e.__traceback__ = None
        e = e.__context__


def start_command(world, module, spec):
    # only convert is installed as a console script; both are also started with python -m
    p = Proc(world, spec)
    return Task(p, command_body(PKG + ".commands." + module, module != "convert" or spec.get("seed", 0) % 3 == 0), spec)


def run_command(world, module, spec):
    """Run one command of the tool as a simulated process; returns the Proc."""
    t = start_command(world, module, spec)
    world.run()
    return t.proc


# ------------------------------------------------------------------ the patched seam
_real = {}
_installed = False


def _sim(path):
    """Absolute path if it lies in the simulated tree, else None."""
    if isinstance(path, int):
        return None
    p = os.fspath(path)
    a = CUR.proc.abspath(p)
    return a if a == "" or is_sim_path(a) else None


def _escape(name, path):
    CUR.proc.escapes.append((name, str(path)))
    raise PermissionError(E.EACCES, "outside the simulated tree", str(path))


def _wrap(name):
    def deco(fn):
        real = getattr(os, name, None)
        if real is None:
            return fn
        _real[name] = real

        def patched(*a, **k):
            if CUR is None:
                return real(*a, **k)
            return fn(real, *a, **k)

        patched.__name__ = name
        setattr(os, name, patched)
        return fn

    return deco


def _fd(fd):
    return CUR.proc.fds.get(fd) if CUR is not None and isinstance(fd, int) else None


def _bytesio(path, res):
    return os.fsencode(res) if isinstance(path, bytes) else res


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    real = _real["io.open"]
    if CUR is None:
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    proc = CUR.proc
    if not isinstance(mode, str):
        raise TypeError("invalid mode")
    ms = set(mode)
    if ms - set("axrwb+tU") or len(mode) > len(ms) or len(ms & set("xrwa")) != 1 or ("t" in ms and "b" in ms):
        raise ValueError(f"invalid mode: {mode!r}")
    b, plus = "b" in ms, "+" in ms
    if b and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    if "r" in ms:
        flags, rm = 0, "rb"
    elif "w" in ms:
        flags, rm = os.O_CREAT | os.O_TRUNC, "wb"
    elif "x" in ms:
        flags, rm = os.O_CREAT | os.O_EXCL, "xb"
    else:
        flags, rm = os.O_CREAT | os.O_APPEND, "ab"
    flags |= os.O_RDWR if plus else (os.O_RDONLY if "r" in ms else os.O_WRONLY)
    if isinstance(file, int):
        of = _fd(file)
        if of is None:
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        name = file
    else:
        name = file
        if opener is not None:
            fd = opener(file, flags)
            of = _fd(fd)
            if of is None:
                raise HarnessError("opener returned a real descriptor")
        else:
            a = _sim(file)
            if a is None:
                if "r" in ms and not plus:
                    return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
                if os.fspath(file) == os.devnull:
                    return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
                _escape("open", file)
            of = do_open(a, flags, 0o666)
        if of.inode.kind == "d":
            of.close()
            raise err(E.EISDIR, file)
    raw = SimRaw(of, name, rm + ("+" if plus else ""), closefd)
    if "a" in ms:
        of.pos = len(of.inode.data)
    if buffering == 0:
        if not b:
            raise ValueError("can't have unbuffered text I/O")
        proc.files.append(weakref.ref(raw))
        return raw
    line = buffering == 1 and not b
    size = buffering if buffering > 1 else CUR.proc.spec.get("bufsize", 8192)
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif "r" in ms:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if b:
        proc.files.append(weakref.ref(buf))
        return buf
    if encoding is None or encoding == "locale":
        encoding = proc.locale
    f = io.TextIOWrapper(buf, encoding, errors, newline, line)
    f.mode = mode
    proc.files.append(weakref.ref(f))
    return f


def do_open(a, flags, mode):
    t = CUR
    w = t.world
    f = t.syscall("open", a)
    existed = w.fs.content(a)
    p, n = w.fs.open(a, flags, mode & ~t.proc.umask, w.now)
    of = t.proc.new_fd(p, n, flags)
    if flags & (os.O_CREAT | os.O_TRUNC):
        w.mutated()
    acc = flags & os.O_ACCMODE
    w.log.append((t.idx, "opened", p, "w" if acc != os.O_RDONLY else "r"))
    t.after(f)
    return of


class _DirEntry:
    def __init__(self, d, name):
        self.name = name
        self.path = posixpath.join(d, name)

    def __fspath__(self):
        return self.path

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path) if follow_symlinks else os.lstat(self.path)

    def is_dir(self, *, follow_symlinks=True):
        try:
            return S.S_ISDIR(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return S.S_ISREG(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_symlink(self):
        return S.S_ISLNK(os.lstat(self.path).st_mode)

    def inode(self):
        return os.lstat(self.path).st_ino


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class SimFileIO:
    """io.FileIO for simulated paths."""

    def __new__(cls, file, mode="r", closefd=True, opener=None):
        if CUR is None:
            return _real["FileIO"](file, mode, closefd, opener)
        m = mode if "b" in mode else mode + "b"
        return sim_open(file, m, 0, closefd=closefd, opener=opener)


def _mutator(name, kind, paths, method):
    """os function that changes the namespace at its first `paths` arguments."""

    @_wrap(name)
    def f(real, *a, **k):
        k = {x: y for x, y in k.items() if y is not None}
        sims = [_sim(p) for p in a[:paths]]
        if any(s is None for s in sims):
            if any(s is not None for s in sims) or True:
                _escape(name, a[:paths])
        t = CUR
        fl = t.syscall(kind, sims[-1])
        method(t.world.fs, *sims, *a[paths:], **k)
        t.world.mutated()
        t.after(fl)

    return f


class SimLock:
    """threading.Lock/RLock whose waiting is decided by the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = CUR if CUR is not None else threading.get_ident()
        if self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            w = CUR.world
            for k in range(100000):
                others = [t for t in w.tasks if not t.done and t is not CUR and t.started]
                if not others:
                    raise SimHang("deadlock")
                w.switch(CUR, k)
                if self.owner is None:
                    break
            else:
                raise SimHang("deadlock")
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _install():
    global _installed, _overlay
    if _installed:
        return
    _installed = True
    sys.meta_path.insert(0, _Finder())
    sys.unraisablehook = lambda *_: None
    _real["io.open"] = io.open
    _real["FileIO"] = io.FileIO
    builtins.open = sim_open
    io.open = sim_open
    import _io

    _io.open = sim_open
    io.FileIO = SimFileIO

    @_wrap("open")
    def _(real, path, flags, mode=0o777, *, dir_fd=None):
        a = _sim(path)
        if a is None:
            if flags & os.O_ACCMODE == os.O_RDONLY or os.fspath(path) == os.devnull:
                return real(path, flags, mode, dir_fd=dir_fd)
            _escape("open", path)
        return do_open(a, flags, mode).fd

    @_wrap("fdopen")
    def _(real, fd, mode="r", buffering=-1, encoding=None, *args, **kw):
        return sim_open(fd, mode, buffering, encoding, *args, **kw)

    @_wrap("close")
    def _(real, fd):
        of = _fd(fd)
        return of.close() if of else real(fd)

    @_wrap("read")
    def _(real, fd, n):
        of = _fd(fd)
        return of.read(n) if of else real(fd, n)

    @_wrap("write")
    def _(real, fd, b):
        of = _fd(fd)
        if of:
            return of.write(bytes(b))
        if fd == 1:
            return CUR.proc.stdout.buffer.raw.write(b)
        if fd == 2:
            return CUR.proc.stderr.buffer.raw.write(b)
        return real(fd, b)

    @_wrap("pread")
    def _(real, fd, n, off):
        of = _fd(fd)
        if of is None:
            return real(fd, n, off)
        keep, of.pos = of.pos, off
        try:
            return of.read(n)
        finally:
            of.pos = keep

    @_wrap("pwrite")
    def _(real, fd, b, off):
        of = _fd(fd)
        if of is None:
            return real(fd, b, off)
        keep, of.pos = of.pos, off
        try:
            return of.write(bytes(b))
        finally:
            of.pos = keep

    @_wrap("lseek")
    def _(real, fd, off, how):
        of = _fd(fd)
        return of.seek(off, how) if of else real(fd, off, how)

    @_wrap("fstat")
    def _(real, fd):
        of = _fd(fd)
        return CUR.world.fs.stat_of(of.inode) if of else real(fd)

    @_wrap("ftruncate")
    def _(real, fd, n):
        of = _fd(fd)
        return of.truncate(n) if of else real(fd, n)

    for nm in ("fsync", "fdatasync"):

        @_wrap(nm)
        def _(real, fd):
            if hasattr(fd, "fileno"):
                fd = fd.fileno()
            of = _fd(fd)
            return of.sync() if of else real(fd)

    @_wrap("sync")
    def _(real):
        t = CUR
        t.syscall("fsync", "")
        t.world.fs.settle()

    @_wrap("sendfile")
    def _(real, out_fd, in_fd, offset, count, *a, **k):
        i, o = _fd(in_fd), _fd(out_fd)
        if i is None or o is None:
            return real(out_fd, in_fd, offset, count, *a, **k)
        if offset is not None:
            i.pos = offset
        b = i.read(min(count, 65536))
        return o.write(b) if b else 0

    @_wrap("copy_file_range")
    def _(real, src, dst, count, offset_src=None, offset_dst=None):
        i, o = _fd(src), _fd(dst)
        if i is None or o is None:
            return real(src, dst, count, offset_src, offset_dst)
        b = i.read(min(count, 65536))
        return o.write(b) if b else 0

    @_wrap("isatty")
    def _(real, fd):
        return False if _fd(fd) else real(fd)

    @_wrap("dup")
    def _(real, fd):
        of = _fd(fd)
        if of is None:
            return real(fd)
        return CUR.proc.new_fd(of.path, of.inode, of.flags).fd

    @_wrap("stat")
    def _(real, path, *, dir_fd=None, follow_symlinks=True):
        of = _fd(path)
        if of:
            return CUR.world.fs.stat_of(of.inode)
        a = _sim(path)
        if a is None:
            return real(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        t = CUR
        f = t.syscall("stat", a)
        r = t.world.fs.stat(a, follow_symlinks)
        t.after(f)
        return r

    @_wrap("lstat")
    def _(real, path, *, dir_fd=None):
        a = _sim(path)
        if a is None:
            return real(path, dir_fd=dir_fd)
        t = CUR
        f = t.syscall("stat", a)
        r = t.world.fs.stat(a, False)
        t.after(f)
        return r

    @_wrap("access")
    def _(real, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        a = _sim(path)
        if a is None:
            return real(path, mode)
        CUR.syscall("stat", a)
        try:
            n = CUR.world.fs.lookup(a)[1]
            CUR.world.fs.may(n, mode & os.R_OK, mode & os.W_OK, a)
            return not (mode & os.X_OK and n.kind == "f" and not n.mode & 0o100)
        except OSError:
            return False

    @_wrap("readlink")
    def _(real, path, *, dir_fd=None):
        a = _sim(path)
        if a is None:
            return real(path, dir_fd=dir_fd)
        CUR.syscall("stat", a)
        return _bytesio(path, CUR.world.fs.readlink(a))

    @_wrap("listdir")
    def _(real, path="."):
        a = _sim(path if path is not None else ".")
        if a is None:
            return real(path)
        CUR.syscall("stat", a)
        return [_bytesio(path, x) for x in CUR.world.fs.listdir(a)]

    @_wrap("scandir")
    def _(real, path="."):
        p = path if path is not None else "."
        a = _sim(p)
        if a is None:
            return real(path)
        CUR.syscall("stat", a)
        return _Scan([_DirEntry(os.fspath(p), x) for x in CUR.world.fs.listdir(a)])

    ren = lambda fs, a, b, **k: fs.rename(a, b)
    _mutator("rename", "rename", 2, ren)
    _mutator("replace", "rename", 2, ren)
    _mutator("link", "link", 2, lambda fs, a, b, **k: fs.link(a, b))
    _mutator("unlink", "unlink", 1, lambda fs, a, **k: fs.unlink(a))
    _mutator("remove", "unlink", 1, lambda fs, a, **k: fs.unlink(a))
    _mutator("mkdir", "mkdir", 1, lambda fs, a, mode=0o777, **k: fs.mkdir(a, mode & ~CUR.proc.umask))
    _mutator("rmdir", "mkdir", 1, lambda fs, a, **k: fs.rmdir(a))

    @_wrap("symlink")
    def _(real, src, dst, target_is_directory=False, *, dir_fd=None):
        a = _sim(dst)
        if a is None:
            _escape("symlink", dst)
        t = CUR
        f = t.syscall("link", a)
        t.world.fs.symlink(os.fsdecode(src), a)
        t.after(f)

    @_wrap("chmod")
    def _(real, path, mode, *, dir_fd=None, follow_symlinks=True):
        of = _fd(path)
        if of:
            of.inode.mode = mode & 0o7777
            return
        a = _sim(path)
        if a is None:
            _escape("chmod", path)
        t = CUR
        f = t.syscall("chmod", a)
        t.world.fs.lookup(a, follow_symlinks)[1].mode = mode & 0o7777
        t.after(f)

    @_wrap("fchmod")
    def _(real, fd, mode):
        of = _fd(fd)
        if of is None:
            return real(fd, mode)
        CUR.syscall("chmod", of.path)
        of.inode.mode = mode & 0o7777

    for nm in ("chown", "lchown", "setxattr", "chflags"):

        @_wrap(nm)
        def _(real, path, *a, **k):
            if _sim(path) is None and _fd(path) is None:
                _escape("chown", path)

    for nm in ("fchown", "posix_fallocate", "posix_fadvise", "lockf"):

        @_wrap(nm)
        def _(real, fd, *a, **k):
            if _fd(fd) is None:
                return real(fd, *a, **k)

    @_wrap("listxattr")
    def _(real, path=None, **k):
        return [] if path is None or _sim(path) is not None or _fd(path) else real(path, **k)

    @_wrap("utime")
    def _(real, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        a = _sim(path)
        if a is None:
            if _fd(path):
                return
            _escape("utime", path)
        CUR.syscall("chmod", a)
        CUR.world.fs.lookup(a, follow_symlinks)[1].mtime = times[1] if times else ns[1] / 1e9 if ns else CUR.world.now

    @_wrap("truncate")
    def _(real, path, n):
        of = _fd(path)
        if of:
            return of.truncate(n)
        a = _sim(path)
        if a is None:
            _escape("truncate", path)
        t = CUR
        f = t.syscall("truncate", a)
        t.world.fs.truncate(t.world.fs.lookup(a)[1], n, t.world.now)
        t.world.mutated()
        t.after(f)

    @_wrap("statvfs")
    def _(real, path):
        if _fd(path) is None and _sim(path) is None:
            return real(path)
        d = CUR.world.fs
        free = 10**9 if d.cap[1] is None else max(0, d.cap[1] - d.used[1])
        return os.statvfs_result((512, 512, 10**7, free // 512, free // 512, 10**6, 10**6, 10**6, 0, 255))

    @_wrap("getcwd")
    def _(real):
        return CUR.proc.cwd

    @_wrap("getcwdb")
    def _(real):
        return os.fsencode(CUR.proc.cwd)

    @_wrap("chdir")
    def _(real, path):
        a = _sim(path)
        if a is None:
            _escape("chdir", path)
        p, n = CUR.world.fs.lookup(a)
        if n.kind != "d":
            raise err(E.ENOTDIR, path)
        CUR.proc.cwd = p

    @_wrap("umask")
    def _(real, m):
        old, CUR.proc.umask = CUR.proc.umask, m
        return old

    @_wrap("getpid")
    def _(real):
        return CUR.proc.pid

    @_wrap("urandom")
    def _(real, n):
        return CUR.proc.rng.randbytes(n)

    @_wrap("_exit")
    def _(real, code):
        CUR.proc.exc = ("_exit", str(code))
        raise SystemExit(code)

    for nm in ("system", "popen", "fork", "execv", "execve", "kill", "killpg", "posix_spawn"):

        @_wrap(nm)
        def _(real, *a, **k):
            _escape("exec", a)

    def timef(name, f):
        real = getattr(time, name)

        def patched():
            return real() if CUR is None else f(CUR.world.now)

        setattr(time, name, patched)

    timef("time", lambda t: t)
    timef("time_ns", lambda t: int(t * 1e9))
    timef("monotonic", lambda t: t - 1_600_000_000)
    timef("monotonic_ns", lambda t: int((t - 1_600_000_000) * 1e9))
    timef("perf_counter", lambda t: t - 1_600_000_000)
    timef("perf_counter_ns", lambda t: int((t - 1_600_000_000) * 1e9))
    timef("process_time", lambda t: t - 1_700_000_000)
    rsleep = time.sleep

    def sleep(s):
        if CUR is None:
            return rsleep(s)
        CUR.world.now += s
        CUR.syscall("sleep", "")

    time.sleep = sleep
    ru = random._urandom
    random._urandom = lambda n: ru(n) if CUR is None else CUR.proc.rng.randbytes(n)
    u1 = uuid.uuid1
    uuid.uuid1 = lambda *a, **k: u1(*a, **k) if CUR is None else uuid.UUID(bytes=CUR.proc.rng.randbytes(16), version=1)

    rl, rr = threading.Lock, threading.RLock

    def _from_package():
        f = sys._getframe(2)
        return f.f_globals.get("__name__", "").startswith(PKG)

    threading.Lock = lambda: SimLock() if CUR is not None and _from_package() else rl()
    threading.RLock = lambda: SimLock(True) if CUR is not None and _from_package() else rr()

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            r = CUR.proc.rng if CUR is not None else random
            return "%08x" % r.getrandbits(32)

    tempfile._get_candidate_names = lambda: Names()
    # defaults that were bound before the functions of os were replaced
    tempfile._TemporaryFileCloser.cleanup.__defaults__ = (False, lambda p: os.unlink(p))
    shutil._use_fd_functions = False
    import fcntl
    import mmap

    for nm in ("flock", "lockf", "fcntl", "ioctl"):

        def _fc(name=nm):
            real = getattr(fcntl, name)

            def patched(fd, *a, **k):
                n = fd.fileno() if hasattr(fd, "fileno") else fd
                return 0 if _fd(n) else real(fd, *a, **k)

            setattr(fcntl, name, patched)

        _fc()
    rmap = mmap.mmap

    class SimMmap(rmap):
        """Mapping of a simulated file: a private copy of its content, readable only."""

        def __new__(cls, fileno, length, *a, **k):
            of = _fd(fileno)
            if of is None:
                return rmap.__new__(rmap, fileno, length, *a, **k)
            if k.get("access") != mmap.ACCESS_READ and k.get("prot") != mmap.PROT_READ:
                raise HarnessError("writable mapping of a simulated file")
            t = CUR
            f = t.syscall("read", of.path, len(of.inode.data))
            data = bytes(of.inode.data[: length or None])
            if not data:
                raise ValueError("cannot mmap an empty file")
            m = rmap.__new__(rmap, -1, len(data))
            m.write(data)
            m.seek(0)
            t.after(f)
            return m

    mmap.mmap = SimMmap
    rdt = datetime.datetime

    class SimDatetime(rdt):
        @classmethod
        def now(cls, tz=None):
            return rdt.now(tz) if CUR is None else rdt.fromtimestamp(CUR.world.now, tz or datetime.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return rdt.now(datetime.timezone.utc).replace(tzinfo=None) if CUR is None else cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    datetime.datetime = SimDatetime
    rt = tempfile._gettempdir
    tempfile._gettempdir = lambda: rt() if CUR is None else "/simtmp"
    rs = signal.signal
    signal.signal = lambda *a: rs(*a) if CUR is None else signal.SIG_DFL
    try:
        import recordclass  # noqa: F401
    except ImportError:
        pass
    _overlay = Overlay()
