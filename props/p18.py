"""P18: checksums cover the complete contents of every file, whatever has been stored before."""
import stat

from symx.runner import Harness

from . import bytekit, crashkit, indexkit, tarkit

LEVEL = 'model_checking'
ASSUMPTIONS = ['the checksums of hashlib and zlib depend on all data they are updated with', 'SQLite as modelled in symx/sqlmini.py']
OUTSIDE = ['hashlib and zlib', 'the smplayer checksum of files that have more than the given bytes other than zero']

FILE = stat.S_IFREG | 0o644
KNOWN = ['crc32', 'md5', 'sha3-512', 'smplayer']


class _Digests:
    """Stand-ins for hashlib and zlib whose checksums name what they were computed of."""

    def __init__(self, x, module):
        self.x, self.data, self.chunks = x, [], {0: []}
        real = module.hashlib
        digests = self

        class Hasher:
            def __init__(self, name):
                real.new(name)
                self.name, self.parts = name, []

            def update(self, data):
                self.parts.append(data)

            def hexdigest(self):
                digests.data.append(self.parts)
                return f'{len(digests.data) - 1}'

        class Hashlib:
            algorithms_available = real.algorithms_available
            new = staticmethod(lambda name, data=b'': Hasher(name))

        class Zlib:
            @staticmethod
            def crc32(data, value=0):
                digests.chunks[len(digests.chunks)] = [*digests.chunks[value], data]
                return len(digests.chunks) - 1

        x.patch(module, 'hashlib', Hashlib)
        x.patch(module, 'zlib', Zlib)

    def parts(self, name, digest):
        return self.chunks[int(digest, 16)] if name == 'crc32' else self.data[int(digest)]


def digests(x):
    """All bytes of a file are hashed, in order, once."""
    import ratarmountcore.hashing as module

    model = _Digests(x, module)
    size = x.int('size', 0, x.cfg['size'])
    f = x.file('f', size)
    f.seek(x.int('position', 0, 1 << 30))
    names = x.pick('hashes', [['md5'], ['crc32'], ['crc32', 'sha3-512', 'md5'], ['none', '', 'md5'], ['shake-128', 'crc32'], []])
    progress = []
    got = module.compute_hashes(f, size, names, *([progress.append] if x.flag('progress') else []))
    x.check(sorted(got) == sorted(n for n in names if n in KNOWN), 'checksums')
    for name, digest in got.items():
        at = 0
        for data in model.parts(name, digest):
            x.check_bytes(data, x.len(data), lambda j, at=at: x.at(f.src, at + j), name)
            at = at + x.len(data)
        x.check(x.eq(at, size), name + ': covers all bytes')
    for a, b in zip(progress, progress[1:]):
        x.check(b >= a, 'progress')
    if progress:
        x.check(x.eq(progress[-1], size), 'progress: end')
    x.reach(f'{len(got)} checksums')


def smplayer(x):
    """The checksum that adds up the words in the first and last 64 KiB."""
    import ratarmountcore.hashing as module

    half = 1 << 16
    size = x.pick('size', [0, 1, 7, 8, 9, 20, half - 1, half, half + 1, half + 8, 2 * half - 1, 2 * half, 2 * half + 1, 2 * half + 12,
                           3 * half, 5 * half + 3] if x.cfg['sizes'] else [1, 9, half, half + 9, 2 * half - 1, 2 * half + 12])
    at = sorted({p for p in (0, 1, 8, half - 1, half, half + 1, 2 * half - 1, 2 * half, size - half - 1, size - half, size - 1)
                 if 0 <= p < size})
    data = x.bytes('data', len(at))
    parts, last = [], 0
    for k, p in enumerate(at):
        parts += ([bytes(p - last)] if p > last else []) + [data[k:k + 1]]
        last = p + 1
    f = bytekit.BytesFile(x, 'f', bytekit.join(x, parts + ([bytes(size - last)] if size > last else [])))
    f.seek(x.pick('position', [0, 5]))
    want = size
    second = max(half, size - half)
    for k, p in enumerate(at):
        if p < half:
            want = want + data[k] * 256 ** (p % 8)
        elif p >= second:
            want = want + data[k] * 256 ** ((p - second) % 8)
    got = module.compute_hashes(f, size, ['smplayer'])
    x.check(list(got) == ['smplayer'], 'computed')
    x.check(x.eq(got['smplayer'], x.hex(want, 16)), 'smplayer')
    x.reach('small' if size < half else 'large')


def stored(x):
    """Checksums of the members of an index in which some are stored already."""
    import ratarmountcore.mountsource.SQLiteIndexMountSource as module

    indexkit.fast(x)
    indexkit.tokens(x)
    fs = x.fs
    fs.add('archive', 'f', content=b'1', mtime=100)
    many = x.flag('many')
    where = ':memory:' if many else x.pick('index', [':memory:', fs.root + '/i'])
    n = 21 if many else x.cfg['files']
    names = ['crc32', 'md5']
    # More than are stored at once.
    others = [f'h{k}' for k in range(49)] if many else []
    rows, kinds, contents = [], [], {}
    for k in range(n):
        header = 100 + k if many else x.int(f'header{k}', 0, 1000)
        for row in rows:
            x.assume(row[2] != header)
        kind = 'file' if many else x.pick(f'kind{k}', ['file', 'folder', 'link', 'generated', 'fails'])
        kinds.append(kind)
        same = kind in ('file', 'fails') and k and not many and x.flag(f'same name{k}')
        mode = {'folder': stat.S_IFDIR, 'link': stat.S_IFLNK}.get(kind, stat.S_IFREG) | 0o644
        rows.append(('/d' if k == 1 and not same else '', 'n0' if same else f'n{k}', header, 0, k if many else x.int(f'size{k}', 0, 1000), k, mode,
                     0, 't' if kind == 'link' else '', 0, 0, False, False, kind == 'generated', 0))
    hashed = []

    class File:
        def __init__(self, k):
            self.k = k

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def compute(f, size, algorithms, progress_callback=None):
        hashed.append(f.k)
        x.check(x.eq(size, rows[f.k][4]), 'the size of the file')
        if progress_callback:
            progress_callback(size)
        return {name: f'{name} of {f.k}' for name in [*algorithms, *others]}

    x.patch(module, 'compute_hashes', compute)
    stage = [False]

    class Source(module.SQLiteIndexMountSource):
        def __init__(self, **options):
            super().__init__(archiveFilePath=fs.root + '/archive', backendName='Verif', indexFilePath=where, indexFolders=[],
                             writeIndex=True, **options)
            self._finalize_index(self._create)

        def _create(self):
            self.index.set_file_infos(rows)
            for k in range(n):
                if not many and x.flag(f'other{k}'):
                    self.index.setxattrs([(rows[k][2], key, b'kept') for key in ('user.other', 'user.another')])
                    contents[k] = True

        def open(self, fileInfo, buffering=-1):
            at = fileInfo.userdata[-1].offsetheader
            for k in range(n):
                if at == rows[k][2]:
                    if kinds[k] == 'fails' and not stage[0]:
                        raise OSError('corrupt')
                    return File(k)
            x.fail('unknown file')

    first = x.pick('first', [[], names[:1], names[1:], names]) if where != ':memory:' else None
    if first is not None:
        Source(hashes=first).close()
        if x.flag('repaired'):
            stage[0] = True
        if x.flag('again'):
            hashed.clear()
            Source(hashes=first).close()
            if first:
                x.check(all(kinds[k] == 'fails' for k in hashed), 'files are not hashed again')
    source = Source(hashes=names)
    for k, row in enumerate(rows):
        if 0 < k < n - 2 and many:
            continue
        found = [source.lookup(row[0] + '/' + row[1], v) for v in range(1 if many else n)]
        info = next(i for i in found if i is not None and i.userdata and bool(i.userdata[-1].offsetheader == row[2]))
        regular = kinds[k] == 'file' or kinds[k] == 'fails' and stage[0]
        partial = kinds[k] == 'fails' and not stage[0]
        for name in names + others[:1] + others[-1:]:
            got = source.get_xattr(info, 'user.hash.' + name)
            if regular:
                x.check(got == f'{name} of {k}'.encode(), 'checksum')
            elif not partial:
                x.check(got is None, 'only files have checksums')
            else:
                x.check(got is None, 'no checksums of files that cannot be read')
        keys = source.list_xattr(info)
        want = (['user.hash.' + name for name in names + others] if regular else []) + (['user.other', 'user.another'] if contents.get(k) and kinds[k] != 'generated' else [])
        x.check(sorted(keys) == sorted(want), 'keys')
        if 'user.other' in want:
            x.check(source.get_xattr(info, 'user.other') == b'kept', 'other attributes')
    source.close()
    x.reach('many' if many else 'few')


def tars(x):
    """Checksums of the members of TAR archives that are mounted again, possibly after having been appended to."""
    import ratarmountcore.mountsource.SQLiteIndexMountSource as module
    import ratarmountcore.SQLiteIndex as index

    indexkit.fast(x)
    indexkit.tokens(x)
    x.patch(index.SQLiteIndex, 'NUMBER_OF_METADATA_TO_VERIFY', 3)
    fs = x.fs
    path = fs.root + '/archive'
    names = ['crc32', 'md5']
    options = {'indexFilePath': fs.root + '/i', 'indexFolders': [], 'writeIndex': True, 'isGnuIncremental': False}
    now = [None, True]

    class File:
        def __init__(self, info):
            self.info = info

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def opened(self, info, buffering=-1):
        return File(info)

    def compute(f, size, algorithms, progress_callback=None):
        if not now[1]:
            raise crashkit.Killed()
        user = f.info.userdata[-1]
        for m in now[0].members:
            if user.offsetheader == m.header:
                x.check(x.and_(x.eq(size, m.size), x.eq(user.offset, m.offset)), 'the file that is hashed')
                return {name: f'{name} of {m.name}' for name in algorithms}
        x.fail('unknown file')

    import ratarmountcore.mountsource.formats.tar as tar

    x.patch(module, 'compute_hashes', compute)
    x.patch(tar.SQLiteIndexedTar, 'open', opened)
    old = tarkit.layout(x, 'old', x.pick('kinds', x.cfg['kinds']), biggest=x.cfg['biggest'])
    was = tarkit.Archive(old, old[-1].end + 512 * x.int('slack', 2, 40))
    fs.add('archive', 'h', size=was.size, mtime=1)
    now[0] = was
    first = x.pick('first', [[], names[:1], names])
    now[1] = not (first and x.flag('interrupted'))
    try:
        tarkit.mount(x, was, path, hashes=first, **options).close()
    except crashkit.Killed:
        pass
    now[1] = True
    appended = x.flag('appended')
    if appended:
        new = tarkit.layout(x, 'new', x.cfg['new'], start=was.end, names='pqr', biggest=x.cfg['biggest'])
        size = 512 * x.int('blocks', 0, 1 << 20)
        x.assume(x.and_(size >= was.size, size >= new[-1].end + 1024))
        now[0] = tarkit.Archive(old + new, size)
        fs.add('archive', 'h', size=size, mtime=2)
    source = tarkit.mount(x, now[0], path, hashes=names, **options)
    for m in now[0].members:
        info = source.lookup('/' + m.name)
        if m.kind == 'd':
            continue
        for name in names:
            got = source.get_xattr(info, 'user.hash.' + name)
            x.check(got == (f'{name} of {m.name}'.encode() if m.kind == 'f' else None), 'checksum of a member')
    source.close()
    x.reach('appended' if appended else 'same')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('digests', digests, 'files of any size up to 5 MiB, at any position', {'size': 5 << 20}, {'size': 20 << 20},
       ['0 checksums', '1 checksums', '3 checksums']),
    _h('smplayer', smplayer, 'files of 6 sizes around multiples of 64 KiB, with any bytes where the sums start and end',
       {'sizes': False}, {'sizes': True}, ['small', 'large']),
    _h('stored', stored, '2 files of any kind, some of the checksums being stored by earlier mounts', {'files': 2}, {'files': 3},
       ['many', 'few']),
    _h('tars', tars, 'TAR archives of up to 2 members of any size below 256 MiB that are mounted twice, the second time possibly '
       'after up to 1 member has been appended', {'kinds': ['f', 'fl', 'df'], 'new': 'f', 'biggest': 1 << 28},
       {'kinds': ['f', 'fl', 'df', 'ff', 'fff'], 'new': 'ff', 'biggest': 1 << 28}, ['appended', 'same']),
]
