"""TAR archives whose members have arbitrary sizes; stands in for the tarfile module and the archive file."""
import io
import tarfile


class Member:
    def __init__(self, name, header, blocks, size, kind, members=(), linkname='', sparse=None,
                 attrs=None, pax=None):
        self.name, self.header, self.size, self.kind, self.linkname = name, header, size, kind, linkname
        self.offset = header + 512 * blocks
        self.members = list(members)
        self.sparse = sparse
        self.attrs, self.pax = attrs or {}, pax or {}
        self.stored = size if kind in 'ftScaD' else 0
        if sparse is not None:
            self.stored = sum((n for _, n in sparse), 0)
        self.end = self.offset + (self.stored + 511) // 512 * 512


TYPES = {'f': tarfile.REGTYPE, 'd': tarfile.DIRTYPE, 't': tarfile.REGTYPE, 'l': tarfile.LNKTYPE, 's': tarfile.SYMTYPE,
         'S': tarfile.GNUTYPE_SPARSE, 'C': tarfile.CHRTYPE, 'B': tarfile.BLKTYPE, 'F': tarfile.FIFOTYPE,
         'c': tarfile.CONTTYPE, 'a': tarfile.AREGTYPE, 'D': b'D'}


class Archive:
    """The members, where the last one ends, and the size of the file."""

    def __init__(self, members, size, end=0):
        self.members = members
        self.size = size
        self.end = members[-1].end if members else end

    def lists(self):
        def visit(members):
            yield members
            for m in members:
                if m.kind == 't':
                    yield from visit(m.members)

        return visit(self.members)


class File(io.IOBase):
    """The archive file: zeros after the last member, something else before."""

    def __init__(self, x, archive):
        self.x, self.archive = x, archive
        self.pos = 0
        self.last = None
        # Where archives were opened to go over all their members.
        self.analyzed = []

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 1:
            offset = self.pos + offset
        elif whence == 2:
            offset = self.archive.size + offset
        if offset < 0:
            raise ValueError('negative seek value')
        self.pos = offset
        return offset

    def read(self, size=-1):
        self.last = self.pos
        n = self.archive.size - self.pos
        if size is not None and size >= 0 and size < n:
            n = size
        n = self.x.fork(n) if n > 0 else 0
        end = self.archive.end
        zeros = self.pos >= end
        for members in self.archive.lists():
            for m in members:
                # Nested archives end with zeros, too.
                if m.kind == 't':
                    inner = m.members[-1].end if m.members else m.offset
                    zeros = zeros or (self.pos >= inner and self.pos < m.end)
        self.pos = self.pos + n
        return (b'\0' if zeros else b'\1') * n

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


def info(m, base):
    t = tarfile.TarInfo(m.name)
    t.offset = m.header - base
    t.offset_data = m.offset - base
    t.size = m.size
    t.type = TYPES[m.kind]
    t.linkname = m.linkname
    t.mode = 0o644
    t.mtime = 5
    for key, value in m.attrs.items():
        setattr(t, key, value)
    t.pax_headers = dict(m.pax)
    if m.sparse is not None:
        t.sparse = m.sparse
    return t


class Opened:
    """What tarfile.open returns for a file object that starts somewhere in the archive."""

    def __init__(self, x, file, fileobj, mode):
        # Reading ahead would need to know how much follows.
        fileobj = getattr(fileobj, 'raw', fileobj)
        fileobj.seek(0)
        file.last = None
        fileobj.read(1)
        self.base = file.last
        if mode == 'r:':
            file.analyzed.append(self.base)
        self.found = []
        self.members = []
        self.offset = 0
        if self.base is None:
            raise tarfile.ReadError('empty file')
        for members in file.archive.lists():
            for k, m in enumerate(members):
                if self.base == m.header:
                    self.found = members[k:]
                    return
        for members in file.archive.lists():
            for m in members:
                if m.kind == 'f' and self.base == m.offset:
                    raise tarfile.ReadError('not a TAR')

    def __iter__(self):
        for m in self.found:
            yield info(m, self.base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Module:
    """The tarfile module for one archive file."""

    def __init__(self, x, file):
        self._x, self._file = x, file

    def open(self, name=None, mode='r', fileobj=None, **kw):
        return Opened(self._x, self._file, fileobj, mode)

    def __getattr__(self, name):
        return getattr(tarfile, name)


def mount(x, archive, path, file=None, **options):
    """Opens the archive with the real implementation of TAR support."""
    import ratarmountcore.mountsource.formats.tar as module

    file = file or File(x, archive)
    x.patch(module, 'open_compressed_file', lambda f, **k: (file, None, None))
    x.patch(module, 'might_be_format', lambda f, fid: True)
    x.patch(module, 'tarfile', Module(x, file))
    # Depends on the time.
    x.patch(module.SQLiteIndexedTar, '_update_progress_bar', lambda *a: None)
    try:
        source = module.SQLiteIndexedTar(path, **options)
        source.analyzed = file.analyzed
        return source
    finally:
        for _ in range(4):
            x._cleanups.pop()()


def layout(x, prefix, kinds, start=0, names='abcdefgh', biggest=1 << 28, blocks=1, folder=''):
    """Members of the given kinds with any sizes, one after the other."""
    members = []
    at = start
    for k, kind in enumerate(kinds):
        name = folder + names[k]
        headers = x.int(f'{prefix}headers{k}', 1, blocks) if blocks > 1 else 1
        size = x.int(f'{prefix}size{k}', 0, biggest) if kind in 'f' else 0
        inner = []
        if kind == 't':
            inner = layout(x, f'{prefix}inner{k}', 'f', at + 512 * headers, names='xyz', biggest=biggest // 4)
            size = inner[-1].end + 1024 - (at + 512 * headers)
            name += '.tar'
        members.append(Member(name, at, headers, size, kind, inner))
        at = members[-1].end
    return members


class Placed:
    """The archive file with its contents; remembers where it was read last."""

    def __init__(self, file, archive):
        self.file, self.archive = file, archive
        self.last = None
        self.analyzed = []

    def read(self, size=-1):
        self.last = self.file.pos
        return self.file.read(size)

    def readinto(self, b):
        self.last = self.file.pos
        return self.file.readinto(b)

    def __getattr__(self, name):
        return getattr(self.file, name)
