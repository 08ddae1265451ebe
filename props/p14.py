"""P14: stored compression offsets are exactly those of the archive, used when there and rebuilt when not."""
import gc
import types

from symx.runner import Harness

from . import crashkit, indexkit, tarkit
from .p05 import _check_state, _state

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'SQLite as modelled in symx/sqlmini.py; each statement happens completely or not at all, and statements that are '
    'not committed are lost when the process ends',
    'decompression backends export the same offsets each time and refuse gzip offsets that are cut off or empty',
]
OUTSIDE = ['the decompression backends themselves', 'databases damaged because journaling is off',
           'gzip offsets of another file of the same size that replaced the archive']

MAGIC = {'zran': b'GZIDX', 'gztool': b'gzipindX'}


class Backend(tarkit.File):
    """A file object of a decompression backend."""

    def __init__(self, x, archive):
        super().__init__(x, archive)
        self.reached = 0
        self.imported = self.exported = self.refused = 0

    def read(self, size=-1):
        data = super().read(size)
        if self.pos > self.reached:
            self.reached = self.pos
        return data


class Blocks(Backend):
    offsets = None
    picky = True

    def block_offsets(self):
        self.exported += 1
        return dict(self.offsets)

    def set_block_offsets(self, offsets):
        if len(offsets) < 2:
            self.refused += 1
            if self.picky:
                raise ValueError('Block offset map must contain at least one valid block and one EOS block!')
            return
        self.x.check(sorted(offsets) == sorted(self.offsets), 'loaded offsets: blocks')
        for key, value in self.offsets.items():
            self.x.check(self.x.eq(offsets[key], value), 'loaded offsets: positions')
        self.imported += 1


class Seekable(Backend):
    """A gzip file whose offsets are written as pieces of any sizes."""

    pieces = None
    error = None

    def _write(self, to, kind):
        self.exported += 1
        # Not all backends know of what they have not gone over yet.
        self.x.check(self.reached >= self.archive.size, 'offsets of the whole archive are stored')
        for k, piece in enumerate(self.pieces[kind]):
            if self.error == k:
                raise ValueError('cannot write')
            to.write(piece)

    def _read(self, source, kinds):
        x = self.x
        data = source.read()
        for kind in kinds:
            pieces = self.pieces[kind]
            if x.len(data) == sum((x.len(p) for p in pieces), 0) and data[: len(MAGIC[kind])] == MAGIC[kind]:
                start = 0
                for piece in pieces:
                    n = x.len(piece)
                    x.check_bytes(data[start:start + n], n, lambda j, p=piece: x.byte(p, j), 'loaded offsets')
                    start = start + n
                self.imported += 1
                return
        self.refused += 1
        raise ValueError('not the offsets of this file')


class Indexed(Seekable):
    def export_index(self, filename=None, fileobj=None):
        self._write(fileobj, 'zran')

    def import_index(self, filename=None, fileobj=None):
        self._read(fileobj, ['zran'])


class Rapid(Seekable):
    formats = True

    def export_index(self, fileobj, index_format='zran'):
        self._write(fileobj, index_format)

    def import_index(self, fileobj):
        self._read(fileobj, ['gztool', 'zran'])


def _world(x):
    indexkit.fast(x)
    indexkit.tokens(x)
    import ratarmountcore.SQLiteIndex as module

    x.patch(module.SQLiteIndex, '_MAX_BLOB_SIZE', x.int('blob', x.cfg['blob'], x.cfg['size']))
    x.fs.add('archive', 'h', size=1000, mtime=1)
    size = x.pick('contents', x.cfg['contents'])
    return tarkit.Archive([tarkit.Member('a', 0, 1, 100, 'f')], size)


def _mount(x, archive, backend, fid, **options):
    import ratarmountcore.mountsource.formats.tar as module
    import ratarmountcore.SQLiteIndex as index

    rapid = {'RapidgzipFile': Rapid, 'IndexedBzip2File': Blocks}
    if isinstance(backend, Rapid) and backend.formats:
        rapid['IndexFormat'] = types.SimpleNamespace(GZTOOL='gztool')
    x.patch(index, 'rapidgzip', types.SimpleNamespace(**rapid))
    x.patch(module, 'open_compressed_file', lambda f, **k: (backend, f, fid))
    x.patch(module, 'might_be_format', lambda f, fid: True)
    x.patch(module, 'tarfile', tarkit.Module(x, backend))
    x.patch(module.SQLiteIndexedTar, '_update_progress_bar', lambda *a: None)
    try:
        source = module.SQLiteIndexedTar(
            x.fs.root + '/archive', **({'indexFilePath': x.fs.root + '/i', 'indexFolders': [], 'writeIndex': True,
                                        'isGnuIncremental': False} | options))
    finally:
        for _ in range(5):
            x._cleanups.pop()()
    x.check(list(source.list('/')) == ['a'], 'contents')
    x.check(source.lookup('/a').userdata[-1].offset == 512, 'offset')
    return source


def _change(x, *statements):
    db = x.sqlite.connect(x.fs.root + '/i')
    for statement in statements:
        db.execute(statement)
    db.commit()
    db.close()


def _has(x, name):
    db = x.sqlite.connect(x.fs.root + '/i')
    try:
        return name in [row[0] for row in db.execute("SELECT name FROM sqlite_master WHERE type='table';")]
    finally:
        db.close()


def _history(x, archive, make, fid, tables):
    """Mounts of which one may be interrupted or fail, with offsets missing before or not."""
    from ratarmountcore.utils import RatarmountError

    event = x.pick('event', x.cfg['events'])
    then = 'second'
    if x.pick('when', ['first', 'later']) == 'later':
        backend = make('first')
        then = 'third'
        _mount(x, archive, backend, fid).close()
        x.check(backend.exported == 1, 'stored once')
        stored = [n for n in tables if _has(x, n)]
        x.check(len(stored) == 1, 'offsets are stored')
        left = x.pick('left', ['all', 'none', 'empty'])
        for n in stored:
            if left != 'all':
                _change(x, f'DROP TABLE {n}' if left == 'none' else f'DELETE FROM {n}')
    backend = make('second')

    def again():
        _mount(x, archive, backend, fid).close()

    if event == 'kill':
        x.reach('killed' if crashkit.killed(x, again, x.int('at', 0, x.cfg['steps'])) else 'not killed')
    elif event == 'failure':
        hit, error = crashkit.failing(x, again, x.int('at', 0, x.cfg['steps']), False)
        x.reach('failed' if hit else 'not failed')
    elif event == 'reading':
        path = x.fs.root + '/i'
        before = _state(x, path)
        try:
            _mount(x, archive, backend, fid, readOnlyIndex=True).close()
            x.check(before is not None, 'no index is made')
        except RatarmountError:
            x.check(before is None, 'mounted without changing the index')
        x.check(backend.exported == 0, 'nothing is stored')
        gc.collect()
        _check_state(x, before, _state(x, path))
    elif event == 'export':
        backend.error = x.choose('piece', x.cfg['pieces'])
        failed = False
        try:
            again()
        except Exception:
            failed = True
        gc.collect()
        x.reach('export failed' if failed else 'no export')
        x.check(not failed or backend.exported > 0, 'only failing exports fail')
        x.check(not (failed and _has(x, 'gztoolindex' if isinstance(backend, Rapid) and backend.formats else 'gzipindexes')),
                'no incomplete offsets are left')
    a = make(then)
    _mount(x, archive, a, fid).close()
    x.check(a.imported + a.exported == 1, 'offsets are either loaded or stored')
    b = make(then)
    _mount(x, archive, b, fid).close()
    x.check(b.imported == 1 and b.exported == 0, 'the stored offsets are loaded')
    x.reach('end')


def blocks(x):
    """Block offsets of bzip2 and Zstandard files."""
    from ratarmountcore.formats import FileFormatID

    fid = FileFormatID[x.pick('format', ['BZIP2', 'ZSTANDARD'])]
    archive = _world(x)
    offsets = {100 * k: x.int(f'offset{k}', 0, 1 << 40) for k in range(2 + x.choose('blocks', x.cfg['blocks']))}

    def make(tag):
        backend = Blocks(x, archive)
        backend.offsets, backend.picky = offsets, fid == FileFormatID.BZIP2
        return backend

    _history(x, archive, make, fid, ['bzip2blocks', 'zstdblocks'])


def gzip(x):
    """Offsets and windows of gzip files as written by different backends."""
    from ratarmountcore.formats import FileFormatID

    fid = FileFormatID[x.pick('format', x.cfg['formats'])]
    archive = _world(x)
    pieces = {}
    for kind in ('zran', 'gztool'):
        source = x.source(kind)
        start, pieces[kind] = 0, []
        for k in range(x.cfg['pieces']):
            n = x.int(f'{kind}{k}', 0 if k else 1, x.cfg['size'])
            pieces[kind].append(x.segment(source, start, n))
            start = start + n
        pieces[kind].insert(0, MAGIC[kind])
    kinds = {}

    def make(tag):
        if tag not in kinds:
            kinds[tag] = x.pick(tag, ['indexed_gzip', 'rapidgzip', 'old rapidgzip'][: x.cfg['kinds'] if tag != 'first' else 3])
        backend = (Indexed if kinds[tag] == 'indexed_gzip' else Rapid)(x, archive)
        backend.formats = kinds[tag] == 'rapidgzip'
        backend.pieces = pieces
        return backend

    _history(x, archive, make, fid, ['gzipindex', 'gzipindexes', 'gztoolindex'])


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)'])
    h.must_reach = reach
    return h


EVENTS = ['none', 'kill', 'failure', 'reading']
HARNESSES = [
    _h('blocks', blocks, '2 or 3 blocks at any offsets, the process ending before or an error at any of the first 70 statements '
       'of the first mount or of one with offsets, without, or with incomplete ones', {'blocks': 2, 'steps': 70, 'events': EVENTS,
       'contents': [1536], 'size': 3, 'blob': 1}, {'blocks': 4}, ['killed', 'not killed', 'failed', 'not failed', 'end']),
    _h('gzip', gzip, 'offsets written as a header and 1 piece of any size up to 1 GiB, blobs of 9 bytes to 1 GiB; interruptions as above, or the export failing',
       {'pieces': 1, 'kinds': 2, 'blob': 9, 'size': 1 << 30, 'steps': 70, 'events': EVENTS + ['export'], 'contents': [(1 << 20) + 512], 'formats': ['GZIP']},
       {'pieces': 2, 'kinds': 3, 'blob': 1, 'formats': ['GZIP', 'ZLIB'], 'contents': [1536, (1 << 20) + 512, 3 << 20]},
       ['killed', 'not killed', 'failed', 'not failed', 'end']),
]
