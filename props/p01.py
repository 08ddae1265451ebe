"""P01: joined, cut-out and generated file views read like plain files."""
from symx.runner import Harness

from .filecheck import drive_file

LEVEL = 'model_checking'


def _stencils(x, n, files, lock):
    """n cut-outs of the given files, all inside their file; zero sizes allowed."""
    M = x.cfg['size_max']
    fobjs, sizes = [], []
    for k in range(files):
        size = x.int(f'filesize{k}', 0, M)
        sizes.append(size)
        fobjs.append(x.file(f'F{k}', size, lock))
    out = []
    for i in range(n):
        fi = x.choose(f'file{i}', files)
        off = x.int(f'off{i}', 0, M)
        size = x.int(f'size{i}', 0, M)
        x.assume(off + size <= sizes[fi])
        out.append((fobjs[fi], off, size))
    return out


def _reference(x, parts):
    """parts: list of (source, offset, size); returns total size and at(j)"""
    cum = [0]
    for _, _, size in parts:
        cum.append(cum[-1] + size)

    def at(j):
        r = -1
        for k in range(len(parts) - 1, -1, -1):
            src, off, _ = parts[k]
            r = x.ite(x.and_(j >= cum[k], j < cum[k + 1]), x.at(src, off + j - cum[k]), r)
        return r

    return cum[-1], at


def raw_stenciled(x):
    from ratarmountcore.StenciledFile import RawStenciledFile

    lock = x.lock() if x.flag('shared') else None
    stencils = _stencils(x, x.cfg['stencils'], 2, lock)
    f = RawStenciledFile(stencils, lock)
    total, at = _reference(x, [(o.src, off, n) for o, off, n in stencils])
    drive_file(x, f, total, at, x.cfg['ops'], x.cfg['size_max'])
    x.reach('end')


def stenciled(x):
    """The buffered variant with any buffer size."""
    from ratarmountcore.StenciledFile import StenciledFile

    lock = x.lock() if x.flag('shared') else None
    stencils = _stencils(x, x.cfg['stencils'], x.cfg['files'], lock)
    f = StenciledFile(stencils, lock, bufferSize=x.int('buffer', 1, x.cfg['size_max']))
    total, at = _reference(x, [(o.src, off, n) for o, off, n in stencils])
    drive_file(x, f, total, at, x.cfg['ops'], x.cfg['size_max'], negative='skip')
    x.reach('end')


def joined(x):
    from ratarmountcore.StenciledFile import JoinedFile

    lock = x.lock() if x.flag('shared') else None
    sizes = [x.int(f'size{k}', 0, x.cfg['size_max']) for k in range(x.cfg['files'])]
    files = [x.file(f'F{k}', n) for k, n in enumerate(sizes)]
    f = JoinedFile(files, lock, buffer_size=x.int('buffer', 1, x.cfg['size_max']))
    if lock is not None:
        lock.files += files
        for o in files:
            o.lock = lock
    total, at = _reference(x, [(o.src, 0, n) for o, n in zip(files, sizes)])
    drive_file(x, f, total, at, x.cfg['ops'], x.cfg['size_max'], negative='skip')
    x.reach('end')


def joined_factory(x):
    from ratarmountcore.StenciledFile import JoinedFileFromFactory, RawJoinedFileFromFactory

    raw = x.flag('raw')
    sizes = [x.int(f'size{k}', 0, x.cfg['size_max']) for k in range(x.cfg['files'])]
    opened = []

    def factory(k):
        def make():
            f = x.file(f'F{k}', sizes[k], source=sources[k])
            opened.append(f)
            return f

        return make

    sources = [x.source(f'F{k}') for k in range(len(sizes))]
    factories = [factory(k) for k in range(len(sizes))]
    if raw:
        f = RawJoinedFileFromFactory(factories)
    else:
        f = JoinedFileFromFactory(factories, buffer_size=x.int('buffer', 1, x.cfg['size_max']))
    total, at = _reference(x, [(src, 0, n) for src, n in zip(sources, sizes)])
    drive_file(
        x, f, total, at, x.cfg['ops'], x.cfg['size_max'],
        negative='clamp' if raw else 'skip', exact=not raw, readall=not raw,
    )
    x.check(len([o for o in opened if not o.closed]) <= 1, 'at most one part is kept open')
    f.close()
    x.check(all(o.closed for o in opened), 'closing the view closes its parts')
    x.reach('end')


def generated(x):
    from ratarmountcore.StenciledFile import LambdaReaderFile, ZeroFile

    size = x.int('size', 0, x.cfg['size_max'])
    if x.flag('zero'):
        f = ZeroFile(size)
        at = lambda j: 0  # noqa: E731
    else:
        src = x.source('F')

        def raw_read(offset, n):
            x.check(x.and_(offset >= 0, n >= 0, x.implies(n > 0, offset + n <= size)), 'range asked of the reader')
            return x.segment(src, offset, n)

        f = LambdaReaderFile(raw_read, size)
        at = lambda j: x.at(src, j)  # noqa: E731
    drive_file(x, f, size, at, x.cfg['ops'], x.cfg['size_max'])
    x.reach('end')


def two_views(x):
    """Two cut-outs of one shared file, used alternately: neither disturbs the other."""
    from ratarmountcore.StenciledFile import RawStenciledFile, StenciledFile

    M = x.cfg['size_max']
    size = x.int('filesize', 0, M)
    base = x.file('F', size)
    lock = x.lock() if x.flag('lock') else None
    cls = x.pick('cls', [RawStenciledFile, StenciledFile])
    views = []
    for i in range(2):
        off, n = x.int(f'off{i}', 0, M), x.int(f'size{i}', 0, M)
        x.assume(off + n <= size)
        views.append((cls([(base, off, n)], lock), off, n))
    src = base.src
    pos = [0, 0]
    order = x.cfg['turns']
    for k in range(len(order)):
        i = order[k]
        f, off, total = views[i]
        if k < 2 and x.flag(f'turn{k}.seek'):
            p = x.int(f'turn{k}.p', 0, M)
            f.seek(p)
            pos[i] = p
        n = x.int(f'turn{k}.n', 0, M)
        want = x.min(n, x.max(0, total - pos[i]))
        data = f.read(n)
        x.check_bytes(data, want, lambda j, s=off + pos[i]: x.at(src, s + j), 'read of a view')
        pos[i] = pos[i] + want
        x.observe(f'turn{k}', f.tell())
    x.reach('end')


def into_buffer(x):
    """readinto of the raw views."""
    from ratarmountcore.StenciledFile import LambdaReaderFile, RawJoinedFileFromFactory, RawStenciledFile

    M = x.cfg['size_max']
    sizes = [x.int(f'size{k}', 0, M) for k in range(2)]
    files = [x.file(f'F{k}', n) for k, n in enumerate(sizes)]
    kind = x.choose('kind', 3)
    if kind == 0:
        f = RawStenciledFile([(files[0], 0, sizes[0]), (files[1], 0, sizes[1])])
        total, at = _reference(x, [(o.src, 0, n) for o, n in zip(files, sizes)])
    elif kind == 1:
        f = RawJoinedFileFromFactory(
            [lambda k=k: x.file(f'F{k}', sizes[k], source=files[k].src) for k in range(2)]
        )
        total, at = _reference(x, [(o.src, 0, n) for o, n in zip(files, sizes)])
    else:
        f = LambdaReaderFile(lambda offset, n: x.segment(files[0].src, offset, n), sizes[0])
        total, at = _reference(x, [(files[0].src, 0, sizes[0])])
    p = x.int('p', 0, M)
    f.seek(p)
    buffer = bytearray(x.int('n', 0, 40))
    n = f.readinto(buffer)
    want = x.min(x.len(buffer), x.max(0, total - p))
    x.check(n <= want, 'readinto length')
    if kind != 1:
        x.check(x.eq(n, want), 'readinto fills the buffer')
    x.check(x.implies(want > 0, n > 0), 'empty readinto before the end')
    x.check_bytes(buffer[:n], n, lambda j: at(p + j), 'readinto')
    x.reach('end')


_FILE_BOUNDS = (
    'sizes, offsets, arguments and buffer sizes symbolic integers 0..{size_max}; contents arbitrary (uninterpreted); '
)


def _h(name, fn, text, quick, thorough):
    h = Harness(name, fn, _FILE_BOUNDS.format(**quick) + text, quick, thorough)
    h.must_reach = ['end']
    return h


HARNESSES = [
    _h('raw_stenciled', raw_stenciled, 'cut-outs of 2 files, operations per history: see cfg',
       {'stencils': 2, 'ops': 2, 'size_max': 100000}, {'stencils': 3, 'ops': 3}),
    _h('stenciled', stenciled, 'buffered view', {'stencils': 2, 'files': 1, 'ops': 2, 'size_max': 100000},
       {'stencils': 2, 'files': 2, 'ops': 3}),
    _h('joined', joined, 'whole files joined', {'files': 2, 'ops': 2, 'size_max': 100000}, {'files': 3, 'ops': 3}),
    _h('joined_factory', joined_factory, 'parts opened on demand', {'files': 2, 'ops': 2, 'size_max': 100000},
       {'files': 3, 'ops': 3}),
    _h('generated', generated, 'lambda and zero files', {'ops': 3, 'size_max': 100000}, {'ops': 4}),
    _h('two_views', two_views, 'alternating reads of two views over one file', {'turns': [0, 1, 0], 'size_max': 100000},
       {'turns': [0, 1, 0, 1]}),
    _h('into_buffer', into_buffer, 'readinto with buffers up to 40 bytes', {'size_max': 100000}, {}),
]
