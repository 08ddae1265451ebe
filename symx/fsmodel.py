"""A POSIX file system in memory, for code that works on files and folders.

Names and the tree are concrete on every path; contents, sizes and metadata may be symbolic. The concrete side of the
same harness (RealFS) uses a scratch directory of the real file system, so replays and sampled paths compare this model
with the operating system. Permissions are not enforced (as for root) and access times are not kept.
"""
import builtins
import errno
import io
import os
import pathlib
import posixpath
import shutil
import stat
import tempfile
import types

from . import core
from .data import SBytes, SStr, has_sym, repeat_bytes, seq_len
from .values import SBool, SInt, ite, mk_int, s_max, s_min

ROOT = '/verif-model-fs'
NOW = 1_900_000_000  # the time, in seconds, that changes are stamped with


def model():
    c = core.CURRENT
    return None if c is None else c.env.get('fs')


class Node:
    count = 0

    def __init__(self, fs, kind, mode, target=None):
        self.kind = kind  # 'f', 'd', 'l', or 'p' for anything else made by mknod
        self.mode = mode
        self.mtime = NOW * 10**9
        self.uid = self.gid = 0
        self.data = b''
        self.children = {} if kind == 'd' else None
        self.target = target
        self.xattrs = {}
        self.nlink = 1
        self.db = None
        fs.inodes += 1
        self.ino = fs.inodes

    def size(self):
        if self.kind == 'f':
            return seq_len(self.data)
        return len(self.target) if self.kind == 'l' else 4096 if self.kind == 'd' else 0


class Stat:
    """The attributes of os.stat_result."""

    def __init__(self, node):
        self.st_mode = node.mode
        self.st_ino = node.ino
        self.st_dev = 77
        self.st_nlink = node.nlink
        self.st_uid = node.uid
        self.st_gid = node.gid
        self.st_size = node.size()
        ns = node.mtime
        self.st_mtime_ns = self.st_atime_ns = self.st_ctime_ns = ns
        s = ns / 10**9 if isinstance(ns, SInt) else ns / 1e9
        self.st_mtime = self.st_atime = self.st_ctime = s
        self.st_blksize = 4096
        self.st_blocks = 0


class Entry:
    """os.DirEntry"""

    def __init__(self, fs, folder, name, node):
        self.fs, self.name, self.node = fs, name, node
        self.path = posixpath.join(folder, name)

    def is_symlink(self):
        return self.node.kind == 'l'

    def _end(self, follow):
        if not follow or self.node.kind != 'l':
            return self.node
        try:
            return self.fs.walk(self.path)
        except OSError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        n = self._end(follow_symlinks)
        return n is not None and n.kind == 'd'

    def is_file(self, *, follow_symlinks=True):
        n = self._end(follow_symlinks)
        return n is not None and n.kind == 'f'

    def stat(self, *, follow_symlinks=True):
        return self.fs.stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return self.node.ino

    def __fspath__(self):
        return self.path


class Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class Opened:
    def __init__(self, node, pos, readable, writable, append, path):
        self.node, self.pos, self.readable, self.writable, self.append = node, pos, readable, writable, append
        self.path = path


def cut(data, start, stop):
    return SBytes([data]).cut(start, stop) if isinstance(data, bytes) else data.cut(start, stop)


def overwrite(old, offset, data):
    """Contents after writing data at an offset."""
    n, k = seq_len(old), seq_len(data)
    if k == 0:
        return old
    if n < offset:  # forks for symbolic sizes
        old = old + repeat_bytes(b'\0', offset - n)
        n = offset
    r = cut(old, 0, offset) + data
    end = offset + k
    if end < n:
        r = r + cut(old, end, n)
    return r


def resize(old, n):
    k = seq_len(old)
    if n < k:
        return cut(old, 0, n)
    return old + repeat_bytes(b'\0', n - k)


class ModelFS:
    symbolic = True

    def __init__(self, api):
        self.api = api
        self.inodes = 100
        self.top = Node(self, 'd', stat.S_IFDIR | 0o755)
        self.root = ROOT
        self.fds = {}
        self.next_fd = 1000
        self.on_change = None  # called before every change with its description
        self.temp = 0
        self.reads = []

    # -- paths ----------------------------------------------------------------------------------
    @staticmethod
    def text(p):
        if isinstance(p, SStr):
            p = p._concrete()
        p = os.fspath(p)
        return os.fsdecode(p) if isinstance(p, bytes) else p

    def owns(self, p):
        if isinstance(p, (int, SInt)):
            return not isinstance(p, SInt) and p in self.fds
        if not isinstance(p, (str, bytes, SStr)) and not hasattr(p, '__fspath__'):
            return False
        p = self.text(p)
        return p == ROOT or p.startswith(ROOT + '/')

    def _error(self, code, path):
        return OSError(code, os.strerror(code), path)

    def _resolve(self, path, follow, depth=0):
        """(parent node, name, node or None); the last component is followed if asked."""
        full = path
        path = self.text(path)
        if depth > 8:
            raise self._error(errno.ELOOP, full)
        parts = [p for p in path[len(ROOT):].split('/') if p and p != '.']
        slash = path.endswith('/')
        stack = [(None, '', self.top)]
        for k, name in enumerate(parts):
            if len(name) > 255:
                raise self._error(errno.ENAMETOOLONG, full)
            node = stack[-1][2]
            if node is None:
                raise self._error(errno.ENOENT, full)
            if node.kind != 'd':
                raise self._error(errno.ENOTDIR, full)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            child = node.children.get(name)
            last = k == len(parts) - 1
            if child is not None and child.kind == 'l' and (not last or follow or slash):
                here = ROOT + '/' + '/'.join(s[1] for s in stack[1:])
                target = child.target if child.target.startswith('/') else posixpath.join(here, child.target)
                if not self.owns(target):
                    raise self._error(errno.ENOENT, full)
                rest = '/'.join(parts[k + 1:])
                return self._resolve(target + ('/' + rest if rest else ''), follow, depth + 1)
            stack.append((node, name, child))
        parent, name, node = stack[-1]
        if slash and node is not None and node.kind != 'd':
            raise self._error(errno.ENOTDIR, full)
        return parent, name, node

    def walk(self, path, follow=True):
        node = self._resolve(path, follow)[2]
        if node is None:
            raise self._error(errno.ENOENT, path)
        return node

    def _parent(self, path):
        parent, name, node = self._resolve(path, False)
        return parent, name, node

    def change(self, what, path):
        if self.on_change is not None:
            self.on_change(what, path)

    def _touch(self, node):
        node.mtime = NOW * 10**9

    # -- os -------------------------------------------------------------------------------------
    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return Stat(self.fds[path].node)
        return Stat(self.walk(path, follow_symlinks))

    def lstat(self, path, *, dir_fd=None):
        return Stat(self.walk(path, False))

    def fstat(self, fd):
        return Stat(self._fd(fd).node)

    def statvfs(self, path):
        if not isinstance(path, int):
            self.walk(path)
        return os.statvfs_result((4096, 4096, 1000, 900, 800, 700, 600, 500, 0, 255))

    def readlink(self, path, *, dir_fd=None):
        node = self.walk(path, False)
        if node.kind != 'l':
            raise self._error(errno.EINVAL, path)
        return node.target

    def listdir(self, path='.'):
        node = self.walk(path)
        if node.kind != 'd':
            raise self._error(errno.ENOTDIR, path)
        return list(node.children)

    def scandir(self, path='.'):
        node = self.walk(path)
        if node.kind != 'd':
            raise self._error(errno.ENOTDIR, path)
        return Scan(Entry(self, self.text(path), n, c) for n, c in node.children.items())

    def os_walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = self.text(top)
        try:
            entries = self.scandir(top)
        except OSError as e:
            if onerror is not None:
                onerror(e)
            return
        dirs = [e.name for e in entries if e.is_dir()]
        files = [e.name for e in entries if not e.is_dir()]
        if topdown:
            yield top, dirs, files
        for name in list(dirs):
            path = posixpath.join(top, name)
            if followlinks or self.walk(path, False).kind != 'l':
                yield from self.os_walk(path, topdown, onerror, followlinks)
        if not topdown:
            yield top, dirs, files

    def access(self, path, mode, **kw):
        try:
            self.walk(path)
            return True
        except OSError:
            return False

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        parent, name, node = self._parent(self.text(path).rstrip('/') or path)
        if node is not None:
            raise self._error(errno.EEXIST, path)
        self.change('mkdir', self.text(path))
        parent.children[name] = Node(self, 'd', stat.S_IFDIR | (mode & 0o7777 & ~self.umask()))
        self._touch(parent)

    @staticmethod
    def umask():
        return 0o022

    def makedirs(self, name, mode=0o777, exist_ok=False):
        name = self.text(name)
        head, tail = posixpath.split(name)
        if not tail:
            head, tail = posixpath.split(head)
        if head and tail and not self.exists(head):
            try:
                self.makedirs(head, exist_ok=exist_ok)
            except FileExistsError:
                pass
            if tail == '.':
                return
        try:
            self.mkdir(name, mode)
        except OSError:
            if not exist_ok or not self.isdir(name):
                raise

    def rmdir(self, path, *, dir_fd=None):
        parent, name, node = self._parent(path)
        if node is None:
            raise self._error(errno.ENOENT, path)
        if node.kind != 'd':
            raise self._error(errno.ENOTDIR, path)
        if node.children:
            raise self._error(errno.ENOTEMPTY, path)
        if parent is None:
            raise self._error(errno.EBUSY, path)
        self.change('rmdir', self.text(path))
        del parent.children[name]
        self._touch(parent)

    def unlink(self, path, *, dir_fd=None):
        parent, name, node = self._parent(path)
        if node is None:
            raise self._error(errno.ENOENT, path)
        if node.kind == 'd':
            raise self._error(errno.EISDIR, path)
        self.change('unlink', self.text(path))
        del parent.children[name]
        node.nlink -= 1
        self._touch(parent)

    remove = unlink

    def rename(self, src, dst, **kw):
        p1, n1, a = self._parent(src)
        p2, n2, b = self._parent(dst)
        if a is None:
            raise self._error(errno.ENOENT, src)
        if p2 is None or p1 is None:
            raise self._error(errno.EBUSY, dst)
        if a is b:
            return
        if a.kind == 'd' and (self.text(dst).rstrip('/') + '/').startswith(self.text(src).rstrip('/') + '/'):
            raise self._error(errno.EINVAL, dst)
        if b is not None:
            if b.kind == 'd' and a.kind != 'd':
                raise self._error(errno.EISDIR, dst)
            if a.kind == 'd' and b.kind != 'd':
                raise self._error(errno.ENOTDIR, dst)
            if b.kind == 'd' and b.children:
                raise self._error(errno.ENOTEMPTY, dst)
        self.change('rename', f'{self.text(src)} -> {self.text(dst)}')
        del p1.children[n1]
        p2.children.pop(n2, None)
        p2.children[n2] = a
        self._touch(p1)
        self._touch(p2)

    replace = rename

    def symlink(self, src, dst, target_is_directory=False, *, dir_fd=None):
        parent, name, node = self._parent(dst)
        if node is not None:
            raise self._error(errno.EEXIST, dst)
        self.change('symlink', self.text(dst))
        parent.children[name] = Node(self, 'l', stat.S_IFLNK | 0o777, target=self.text(src))
        self._touch(parent)

    def link(self, src, dst, **kw):
        node = self.walk(src, False)
        if node.kind == 'd':
            raise self._error(errno.EPERM, src)
        parent, name, old = self._parent(dst)
        if old is not None:
            raise self._error(errno.EEXIST, dst)
        self.change('link', self.text(dst))
        parent.children[name] = node
        node.nlink += 1
        self._touch(parent)

    def mknod(self, path, mode=0o600, device=0, *, dir_fd=None):
        parent, name, node = self._parent(path)
        if node is not None:
            raise self._error(errno.EEXIST, path)
        self.change('mknod', self.text(path))
        fmt = (mode & 0o170000) or stat.S_IFREG
        new = Node(self, 'f' if fmt == stat.S_IFREG else 'p', fmt | (mode & 0o7777 & ~self.umask()))
        parent.children[name] = new
        self._touch(parent)

    def chmod(self, path, mode, *, dir_fd=None, follow_symlinks=True):
        node = self.walk(path, follow_symlinks)
        self.change('chmod', self.text(path))
        node.mode = (node.mode & 0o170000) | (mode & 0o7777)

    def chown(self, path, uid, gid, *, dir_fd=None, follow_symlinks=True):
        node = self.walk(path, follow_symlinks)
        self.change('chown', self.text(path))
        if uid != -1:
            node.uid = uid
        if gid != -1:
            node.gid = gid

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        node = self._fd(path).node if isinstance(path, int) else self.walk(path, follow_symlinks)
        self.change('utime', str(path))
        if ns is not None:
            node.mtime = ns[1]
        elif times is not None:
            node.mtime = times[1] * 10**9
        else:
            self._touch(node)

    def truncate(self, path, length):
        if isinstance(path, int):
            return self.ftruncate(path, length)
        node = self.walk(path)
        if node.kind == 'd':
            raise self._error(errno.EISDIR, path)
        if length < 0:
            raise self._error(errno.EINVAL, path)
        self.change('truncate', self.text(path))
        node.data = resize(node.data, length)
        self._touch(node)

    def ftruncate(self, fd, length):
        f = self._fd(fd)
        if not f.writable or length < 0:
            raise self._error(errno.EINVAL, f.path)
        self.change('truncate', f.path)
        f.node.data = resize(f.node.data, length)
        self._touch(f.node)

    def listxattr(self, path, *, follow_symlinks=True):
        return list(self.walk(path, follow_symlinks).xattrs)

    def getxattr(self, path, name, *, follow_symlinks=True):
        x = self.walk(path, follow_symlinks).xattrs
        if name not in x:
            raise self._error(errno.ENODATA, path)
        return x[name]

    # -- descriptors ------------------------------------------------------------------------------
    def _fd(self, fd):
        f = self.fds.get(fd)
        if f is None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return f

    def _open(self, path, flags, mode=0o777):
        follow = not (flags & os.O_NOFOLLOW)
        parent, name, node = self._resolve(path, follow)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if node is None:
            if not flags & os.O_CREAT:
                raise self._error(errno.ENOENT, path)
            self.change('create', self.text(path))
            node = Node(self, 'f', stat.S_IFREG | (mode & 0o7777 & ~self.umask()))
            parent.children[name] = node
            self._touch(parent)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise self._error(errno.EEXIST, path)
            if node.kind == 'd' and (acc != os.O_RDONLY or flags & os.O_CREAT):
                raise self._error(errno.EISDIR, path)
            if node.kind == 'l':
                raise self._error(errno.ELOOP, path)
            if flags & os.O_TRUNC and node.kind == 'f':
                self.change('truncate', self.text(path))
                node.data = b''
                self._touch(node)
        return Opened(
            node, 0, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR), bool(flags & os.O_APPEND),
            self.text(path),
        )

    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        f = self._open(path, flags, mode)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = f
        return fd

    def close(self, fd):
        self._fd(fd)
        del self.fds[fd]

    def lseek(self, fd, pos, whence=0):
        f = self._fd(fd)
        new = pos + (0 if whence == 0 else f.pos if whence == 1 else f.node.size())
        if new < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        f.pos = new
        return new

    def _read(self, f, n):
        if not f.readable:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if f.node.kind == 'd':
            raise OSError(errno.EISDIR, os.strerror(errno.EISDIR))
        size = f.node.size()
        if n is None or (not isinstance(n, SInt) and n < 0):
            n = size
        end = s_min(size, f.pos + n)
        start = s_min(f.pos, end)
        data = cut(f.node.data, start, end)
        f.pos = f.pos + seq_len(data)
        return data

    def read(self, fd, n):
        return self._read(self._fd(fd), n)

    def pread(self, fd, n, off):
        f = self._fd(fd)
        g = Opened(f.node, off, f.readable, f.writable, f.append, f.path)
        return self._read(g, n)

    def _write(self, f, data):
        if not f.writable:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if hasattr(data, '_v'):
            data = data._v()
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        if f.append:
            f.pos = f.node.size()
        n = seq_len(data)
        self.change('write', f.path)
        f.node.data = overwrite(f.node.data, f.pos, data)
        f.pos = f.pos + n
        self._touch(f.node)
        return n

    def write(self, fd, data):
        return self._write(self._fd(fd), data)

    def fsync(self, fd):
        self._fd(fd)

    fdatasync = fsync

    def fchdir(self, fd):
        raise core.Unsupported('fchdir')

    # -- os.path ----------------------------------------------------------------------------------
    def exists(self, path):
        try:
            self.walk(path)
            return True
        except OSError:
            return False

    def lexists(self, path):
        try:
            self.walk(path, False)
            return True
        except OSError:
            return False

    def isdir(self, path):
        try:
            return self.walk(path).kind == 'd'
        except OSError:
            return False

    def isfile(self, path):
        try:
            return self.walk(path).kind == 'f'
        except OSError:
            return False

    def islink(self, path):
        try:
            return self.walk(path, False).kind == 'l'
        except OSError:
            return False

    def ismount(self, path):
        return False

    def getsize(self, path):
        return self.stat(path).st_size

    def getmtime(self, path):
        return self.stat(path).st_mtime

    def realpath(self, path, *, strict=False):
        path = self.text(path)
        done = ROOT
        rest = [p for p in path[len(ROOT):].split('/') if p and p != '.']
        hops = 0
        while rest:
            name = rest.pop(0)
            if name == '..':
                done = posixpath.dirname(done) if done != ROOT else done
                continue
            here = done + '/' + name
            if self.islink(here) and hops < 20:
                hops += 1
                target = self.walk(here, False).target
                if target.startswith('/'):
                    if not self.owns(target):
                        return posixpath.normpath(posixpath.join(target, *rest))
                    done = ROOT
                    target = target[len(ROOT):]
                rest = [p for p in target.split('/') if p and p != '.'] + rest
                continue
            done = here
        return done

    def samefile(self, a, b):
        return self.walk(a) is self.walk(b)

    # -- files ------------------------------------------------------------------------------------
    def open_file(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        binary = 'b' in mode
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[[m for m in mode if m in 'rwax'][0]]
        if '+' in mode:
            flags = (flags & ~os.O_WRONLY) | os.O_RDWR
        if isinstance(path, int):
            f = self._fd(path)
        else:
            f = self._open(path, flags, 0o666)
            if f.node.kind == 'd':
                raise self._error(errno.EISDIR, path)
        if 'a' in mode:
            f.pos = f.node.size()
        return FSFile(self, f, path, mode, None if binary else (encoding or 'utf-8'))

    def disk_usage(self, path):
        self.walk(path)
        return shutil._ntuple_diskusage(10**9, 10**8, 9 * 10**8)

    def rmtree(self, path, ignore_errors=False, onerror=None, **kw):
        parent, name, node = self._parent(path)
        if node is None:
            if ignore_errors:
                return
            raise self._error(errno.ENOENT, path)
        self.change('rmtree', self.text(path))
        del parent.children[name]

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        self.temp += 1
        base = (dir or ROOT + '/.tmp').rstrip('/')
        if not self.isdir(base):
            self.makedirs(base)
        path = f'{base}/{prefix or "tmp"}{self.temp}{suffix or ""}'
        self.mkdir(path, 0o700)
        return path

    # -- harness ----------------------------------------------------------------------------------
    def add(self, path, kind, size=0, mode=None, mtime=None, target=None, content=None, uid=None, gid=None, xattrs=None):
        """Adds an entry below the root; a file holds the first size bytes of the named source."""
        hook, self.on_change = self.on_change, None
        full = ROOT + '/' + path.strip('/')
        if kind == 'd':
            if not self.isdir(full):
                self.makedirs(full)
        else:
            up = posixpath.dirname(full)
            if not self.isdir(up):
                self.makedirs(up)
            if kind == 'l':
                self.symlink(target, full)
            else:
                self._open(full, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        node = self.walk(full, False)
        if kind in 'fh':
            node.data = content if isinstance(content, (bytes, SBytes)) else self.api.segment(
                self.api.source(content or path), 0, size)
        if mode is not None:
            node.mode = (node.mode & 0o170000) | mode
        if mtime is not None:
            node.mtime = mtime * 10**9
        if uid is not None:
            node.uid, node.gid = uid, gid
        if xattrs:
            node.xattrs.update(xattrs)
        self.on_change = hook
        return full

    def data(self, path):
        return self.walk(ROOT + '/' + path.strip('/'), False).data

    def snapshot(self, top=''):
        """path -> (kind, mode, size, contents, target) of everything below top."""
        out = {}

        def visit(rel, node):
            for name, c in node.children.items():
                p = rel + '/' + name
                out[p] = (c.kind, c.mode, c.mtime, c.data if c.kind == 'f' else None, c.target, c.uid, c.gid)
                if c.kind == 'd':
                    visit(p, c)

        visit('', self.walk(ROOT + '/' + top.strip('/')))
        return out

    def names(self, top=''):
        return sorted(self.snapshot(top))


class FSFile(io.IOBase):
    """The result of open()."""

    def __init__(self, fs, f, path, mode, encoding):
        self._fs, self._f, self.name, self.mode, self._encoding = fs, f, path, mode, encoding
        self._fileno = None
        self._closed = False

    def _check(self):
        if self._closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        return self._f.readable

    def writable(self):
        return self._f.writable

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        self._check()
        if self._fileno is None:
            self._fileno = self._fs.next_fd
            self._fs.next_fd += 1
            self._fs.fds[self._fileno] = self._f
        return self._fileno

    @property
    def closed(self):
        return self._closed

    def close(self):
        if not self._closed:
            self._closed = True
            if self._fileno is not None:
                self._fs.fds.pop(self._fileno, None)

    def __del__(self):
        pass

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()

    def flush(self):
        self._check()

    def tell(self):
        self._check()
        return self._f.pos

    def seek(self, pos, whence=0):
        self._check()
        new = pos + (0 if whence == 0 else self._f.pos if whence == 1 else self._f.node.size())
        if new < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        self._f.pos = new
        return new

    def truncate(self, n=None):
        self._check()
        n = self._f.pos if n is None else n
        self._fs.change('truncate', self._f.path)
        self._f.node.data = resize(self._f.node.data, n)
        return n

    def read(self, n=-1):
        self._check()
        if not self._f.readable:
            raise io.UnsupportedOperation('not readable')
        data = self._fs._read(self._f, n)
        if self._encoding is not None:
            return data.decode(self._encoding)
        return data

    read1 = read

    def readinto(self, b):
        data = self.read(len(b))
        n = seq_len(data)
        b[:n] = data
        return n

    def write(self, data):
        self._check()
        if not self._f.writable:
            raise io.UnsupportedOperation('not writable')
        if self._encoding is not None:
            self._fs._write(self._f, data.encode(self._encoding))
            return len(data)
        return self._fs._write(self._f, data)

    def readlines(self, hint=-1):
        return list(self)

    def readline(self, n=-1):
        raise core.Unsupported('readline on a model file')


_OS = {
    'stat', 'lstat', 'statvfs', 'readlink', 'listdir', 'scandir', 'access', 'mkdir', 'makedirs', 'rmdir', 'unlink', 'remove',
    'rename', 'replace', 'link', 'mknod', 'chmod', 'chown', 'utime', 'truncate', 'listxattr', 'getxattr', 'open',
}
_FD = {'fstat', 'ftruncate', 'close', 'lseek', 'read', 'pread', 'write', 'fsync', 'fdatasync', 'fchdir'}
_PATH = {'exists', 'lexists', 'isdir', 'isfile', 'islink', 'ismount', 'getsize', 'getmtime', 'realpath', 'samefile'}


def _switch(name, real, attr=None):
    attr = attr or name

    def f(path, *a, **k):
        fs = model()
        if fs is not None and fs.owns(path):
            return getattr(fs, attr)(path, *a, **k)
        from . import rt

        return rt.call(real, path, *a, **k)

    f.__name__ = name
    return f


class PathDispatch(types.ModuleType):
    def __init__(self):
        super().__init__('posixpath')
        for n in _PATH:
            self.__dict__[n] = _switch(n, getattr(posixpath, n))
        self.__dict__['abspath'] = self._abspath

    def __getattr__(self, name):
        return getattr(posixpath, name)

    @staticmethod
    def _abspath(p):
        fs = model()
        if fs is not None and fs.owns(p):
            return posixpath.normpath(fs.text(p))
        from . import rt

        return rt.call(posixpath.abspath, p)


class OsDispatch(types.ModuleType):
    def __init__(self):
        super().__init__('os')
        for n in _OS | _FD:
            if hasattr(os, n):
                self.__dict__[n] = _switch(n, getattr(os, n))
        self.__dict__['path'] = PathDispatch()
        real_symlink, real_walk = os.symlink, os.walk

        def symlink(src, dst, *a, **k):
            fs = model()
            if fs is not None and fs.owns(dst):
                return fs.symlink(src, dst, *a, **k)
            return real_symlink(src, dst, *a, **k)

        self.__dict__['symlink'] = symlink
        self.__dict__['walk'] = _switch('walk', real_walk, 'os_walk')

    def __getattr__(self, name):
        return getattr(os, name)


class ShutilDispatch(types.ModuleType):
    def __init__(self):
        super().__init__('shutil')
        for n in ('disk_usage', 'rmtree'):
            self.__dict__[n] = _switch(n, getattr(shutil, n))
        self.__dict__['copyfileobj'] = copyfileobj

    def __getattr__(self, name):
        return getattr(shutil, name)


def copyfileobj(fsrc, fdst, length=0):
    length = length or shutil.COPY_BUFSIZE
    while True:
        buf = fsrc.read(length)
        if seq_len(buf) == 0:
            return
        fdst.write(buf)


class TempDispatch(types.ModuleType):
    def __init__(self):
        super().__init__('tempfile')

    def __getattr__(self, name):
        fs = model()
        if name == 'mkdtemp' and fs is not None:
            return fs.mkdtemp
        return getattr(tempfile, name)


def open_switch(path, *a, **k):
    fs = model()
    if fs is not None and fs.owns(path):
        return fs.open_file(path, *a, **k)
    from . import rt

    return rt.call(builtins.open, path, *a, **k)


class ModelPath(pathlib.PurePosixPath):
    """pathlib.Path of a path of the model."""

    def exists(self):
        return model().exists(str(self))

    def is_dir(self):
        return model().isdir(str(self))

    def is_file(self):
        return model().isfile(str(self))

    def is_symlink(self):
        return model().islink(str(self))

    def resolve(self, strict=False):
        return ModelPath(model().realpath(str(self)))

    def absolute(self):
        return self

    def stat(self):
        return model().stat(str(self))

    def lstat(self):
        return model().lstat(str(self))

    def open(self, *a, **k):
        return model().open_file(str(self), *a, **k)

    def read_bytes(self):
        with self.open('rb') as f:
            return f.read()

    def write_bytes(self, data):
        with self.open('wb') as f:
            return f.write(data)

    def unlink(self, missing_ok=False):
        if not missing_ok or model().lexists(str(self)):
            model().unlink(str(self))

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            model().makedirs(str(self), mode, exist_ok)
        elif not (exist_ok and self.is_dir()):
            model().mkdir(str(self), mode)

    def iterdir(self):
        return [self / n for n in model().listdir(str(self))]


def path_switch(*parts):
    fs = model()
    if fs is not None and parts and fs.owns(parts[0]):
        return ModelPath(*parts)
    return pathlib.Path(*parts)


# -- concrete counterpart -------------------------------------------------------------------------


class RealFS:
    """The same harness interface over a scratch directory."""

    symbolic = False

    def __init__(self, api):
        self.api = api
        self.root = api.scratch()
        os.umask(0o022)
        self.on_change = None

    def add(self, path, kind, size=0, mode=None, mtime=None, target=None, content=None, uid=None, gid=None, xattrs=None):
        full = self.root + '/' + path.strip('/')
        if kind == 'd':
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(posixpath.dirname(full), exist_ok=True)
            if kind == 'l':
                os.symlink(target.replace(ROOT, self.root), full)
            else:
                with open(full, 'wb') as f:
                    # h: a file nobody reads, of which only the size matters
                    f.truncate(size) if kind == 'h' else f.write(content if isinstance(content, bytes) else
                            self.api.segment(self.api.source(content or path), 0, size))
        if mode is not None and kind != 'l':
            os.chmod(full, mode)
        if uid is not None:
            os.chown(full, uid, gid, follow_symlinks=False)
        for k, v in (xattrs or {}).items():
            os.setxattr(full, k, v, follow_symlinks=False)
        if mtime is not None:
            os.utime(full, ns=(mtime * 10**9, mtime * 10**9), follow_symlinks=False)
        return full

    def data(self, path):
        with open(self.root + '/' + path.strip('/'), 'rb') as f:
            return f.read()

    def snapshot(self, top=''):
        out = {}
        base = (self.root + '/' + top.strip('/')).rstrip('/')
        for d, dirs, files in os.walk(base):
            for n in dirs + files:
                full = d + '/' + n
                s = os.lstat(full)
                kind = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFLNK: 'l'}.get(stat.S_IFMT(s.st_mode), 'p')
                data = None
                if kind == 'f':
                    with open(full, 'rb') as f:
                        data = f.read()
                out[full[len(base):]] = (
                    kind, s.st_mode, s.st_mtime_ns, data, os.readlink(full) if kind == 'l' else None, s.st_uid, s.st_gid,
                )
        return out

    def names(self, top=''):
        return sorted(self.snapshot(top))
