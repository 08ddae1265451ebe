"""Changes to the file system and to databases that fail, or before which the process is killed."""
import builtins
import errno
import os
import sqlite3

from props.crashkit import Killed, _hooked


class Faults:
    """While armed, the at-th change fails or is never made because the process ends."""

    def __init__(self, x, at, kill=False, databases=False):
        self.x, self.at, self.kill, self.databases = x, at, kill, databases
        self.count = 0
        self.armed = self.hit = False
        self.what = None
        if x.symbolic:
            x.fs.on_change = self.step
            x.on_cleanup(self._detach)
        else:
            self._patch()

    def _detach(self):
        self.x.fs.on_change = None

    def attach(self, module):
        """Databases opened by the module are counted, too."""
        if not self.databases:
            return
        if self.x.symbolic:
            self.x.sqlite.on_statement = self.statement
        else:
            self.x.patch(module, 'sqlite3', _hooked(self.statement))

    def detach(self):
        if self.databases and self.x.symbolic:
            self.x.sqlite.on_statement = None

    def statement(self, *_):
        self.step('database', None)

    def step(self, what, path):
        if not self.armed:
            return
        if self.hit:
            if self.kill:
                raise Killed
            return
        self.count += 1
        if self.at == self.count - 1:
            self.hit, self.what = True, what
            if self.kill:
                if not self.x.symbolic:
                    os._exit(9)
                raise Killed
            if what == 'database':
                raise sqlite3.OperationalError('database or disk is full')
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))

    # -- the same for the real file system
    def _patch(self):
        faults = self
        root = self.x.fs.root

        def ours(path):
            return isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(root)

        def wrap(name, real, which=0):
            def f(*a, **k):
                if isinstance(a[which], int) or ours(a[which]):
                    faults.step(name, a[which])
                return real(*a, **k)

            return f

        for name in ('mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'mknod', 'chmod', 'chown', 'utime', 'truncate',
                     'write', 'ftruncate'):
            self.x.patch(os, name, wrap(name, getattr(os, name)))
        for name in ('symlink', 'link'):
            self.x.patch(os, name, wrap(name, getattr(os, name), 1))
        real_open, real_builtin = os.open, builtins.open

        def creating(path, creat, trunc):
            if ours(path):
                if os.path.exists(path):
                    if trunc and os.path.isfile(path):
                        faults.step('truncate', path)
                elif creat:
                    faults.step('create', path)

        def os_open(path, flags, *a, **k):
            creating(path, flags & os.O_CREAT, flags & os.O_TRUNC)
            return real_open(path, flags, *a, **k)

        class File:
            def __init__(self, f):
                self.f = f

            def write(self, data):
                faults.step('write', None)
                return self.f.write(data)

            def __enter__(self):
                self.f.__enter__()
                return self

            def __exit__(self, *a):
                return self.f.__exit__(*a)

            def __iter__(self):
                return iter(self.f)

            def __getattr__(self, name):
                return getattr(self.f, name)

        def opened(path, mode='r', *a, **k):
            if not faults.armed or not ours(path) or not any(c in mode for c in 'wax+'):
                return real_builtin(path, mode, *a, **k)
            creating(path, not mode.startswith('r'), 'w' in mode)
            return File(real_builtin(path, mode, *a, **k))

        self.x.patch(os, 'open', os_open)
        self.x.patch(builtins, 'open', opened)
