"""P27: an index whose creation was interrupted is never mistaken for the index of the archive."""
import stat

from symx.runner import Harness

from . import crashkit, indexkit, tarkit

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'SQLite as modelled in symx/sqlmini.py; each statement happens completely or not at all, and statements that are '
    'not committed are lost when the process ends',
]
OUTSIDE = ['SQLite itself: databases damaged in the middle of a statement because journaling is off',
           'archives changed while they are being indexed', 'compression offsets stored along with the index']

FILE = stat.S_IFREG | 0o644


def _source_class():
    from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource

    class Source(SQLiteIndexMountSource):
        """An archive format whose members are given."""

        def __init__(self, path, members, contents=None, **options):
            self.members, self.contents = members, contents
            self.created = False
            super().__init__(**(options | {'archiveFilePath': path, 'backendName': 'Verif'}))
            self._finalize_index(self._create)

        def _create(self):
            self.created = True
            for row in self.members:
                if row is None:
                    raise OSError('Input/output error')
                self.index.set_file_infos([row])

        def open(self, fileInfo, buffering=-1):
            return self.contents(fileInfo)

    return Source


def _members(x, prefix, n, names):
    rows = []
    for k in range(n):
        header = x.int(f'{prefix}header{k}', 0, 1000)
        for row in rows:
            x.assume(row[2] != header)
        rows.append(('/d' if names[k] == 'c' else '', names[k], header, 0, x.int(f'{prefix}size{k}', 0, 1000), k, FILE, 0,
                     '', 0, 0, False, False, False, 0))
    return rows


def _listed(source):
    """All files of the source: path to offset and size."""
    found = {}
    for folder in ('/', '/d'):
        for name, info in (source.list(folder) or {}).items():
            if not stat.S_ISDIR(info.mode):
                found[(folder, name)] = (info.userdata[-1].offsetheader, info.size)
    return found


def _check(x, source, rows, label):
    got = _listed(source)
    want = {(row[0] or '/', row[1]): (row[2], row[4]) for row in rows}
    x.check(sorted(got) == sorted(want), label + ': files')
    for key, value in want.items():
        x.check(x.eq(got[key], value), label + ': offsets and sizes')


def _options(x, fs):
    return x.pick('index', [
        {'indexFilePath': fs.root + '/i', 'indexFolders': []},
        {'indexFolders': [fs.root + '/idx', fs.root + '/other'], 'indexMinimumFileCount': 1},
        {'indexFolders': [fs.root + '/idx', fs.root + '/other'], 'indexMinimumFileCount': 0},
    ]) | {'writeIndex': True}


def _hashes(x, on):
    import ratarmountcore.mountsource.SQLiteIndexMountSource as module

    x.patch(module, 'compute_hashes', lambda f, size, names, progress_callback=None: {n: 'v' for n in names})
    return {'hashes': ['crc32']} if on else {}


class _Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def kills(x):
    """The process ends at any point of the first mount; then the archive changes or not and is mounted again, twice."""
    indexkit.fast(x)
    indexkit.tokens(x)
    fs = x.fs
    archive = fs.root + '/archive'
    Source = _source_class()
    options = _options(x, fs) | _hashes(x, x.flag('hashes'))
    fs.add('archive', 'f', content=b'1', mtime=100)
    rows = _members(x, 'old', x.choose('files', x.cfg['files']) + 1, 'bca')
    at = x.int('at', 0, x.cfg['steps'])

    def mount(members):
        source = Source(archive, members, lambda info: _Nothing(), **options)
        return source

    def first():
        mount(rows).close()

    hit = crashkit.killed(x, first, at)
    if hit:
        x.reach('killed')
    else:
        x.reach('not killed')
    change = x.choose('change', 2)
    if change:
        fs.add('archive', 'f', content=b'12', mtime=200)
        rows = _members(x, 'new', 1, 'a')
    second = mount(rows)
    _check(x, second, rows, 'mounted again')
    x.observe('created', second.created)
    stored = second.index.indexFilePath != ':memory:'
    if not hit and stored:
        x.check(second.created == bool(change), 'a complete index is used')
    if options.get('hashes'):
        for row in rows:
            info = second.lookup(row[0] + '/' + row[1])
            x.check(second.get_xattr(info, 'user.hash.crc32') == b'v', 'checksums are complete')
    second.close()
    third = mount(rows)
    _check(x, third, rows, 'mounted once more')
    if stored:
        x.check(not third.created, 'the complete index is used')
    third.close()
    x.reach('end')


def updates(x):
    """The process ends at any point while a TAR archive that was appended to, or changed otherwise, is mounted."""
    import ratarmountcore.SQLiteIndex as module

    indexkit.fast(x)
    indexkit.tokens(x)
    x.patch(module.SQLiteIndex, 'NUMBER_OF_METADATA_TO_VERIFY', 2)
    fs = x.fs
    path = fs.root + '/archive'
    options = {'indexFilePath': fs.root + '/i', 'indexFolders': [], 'writeIndex': True, 'isGnuIncremental': False,
               'recursive': False, 'verifyModificationTime': True}
    old = tarkit.layout(x, 'old', 'ff', biggest=1 << 28)
    was = tarkit.Archive(old, old[-1].end + 1024)
    fs.add('archive', 'h', size=was.size, mtime=1)
    tarkit.mount(x, was, path, **options).close()
    what = x.pick('change', ['appended', 'replaced'])
    if what == 'appended':
        new = tarkit.layout(x, 'new', 'f', start=was.end, names='pqr', biggest=1 << 28)
        now = tarkit.Archive(old + new, new[-1].end + 1024)
    else:
        new = tarkit.layout(x, 'new', 'f', names='uv', biggest=1 << 28)
        now = tarkit.Archive(new, new[-1].end + 1024)
    fs.add('archive', 'h', size=now.size, mtime=2)
    hit = crashkit.killed(x, lambda: tarkit.mount(x, now, path, **options).close(), x.int('at', 0, x.cfg['steps']))
    x.reach('killed' if hit else 'not killed')
    if x.cfg['again'] and x.flag('again'):
        newer = tarkit.layout(x, 'newer', 'f', names='w', biggest=1 << 28)
        now = tarkit.Archive(newer, newer[-1].end + 1024)
        fs.add('archive', 'h', size=now.size, mtime=3)
    for k in range(2):
        source = tarkit.mount(x, now, path, **options)
        got = _listed(source)
        want = {('/', m.name): (m.header, m.size) for m in now.members}
        x.check(sorted(got) == sorted(want), f'{what}, mounted again: files')
        for key, value in want.items():
            x.check(x.eq(got[key], value), f'{what}, mounted again: offsets and sizes')
        if k:
            x.check(len(source.analyzed) == 0, 'the complete index is used')
        source.close()


def failures(x):
    """A statement or reading the archive fails while the index is created; later mounts are right."""
    indexkit.fast(x)
    indexkit.tokens(x)
    fs = x.fs
    archive = fs.root + '/archive'
    Source = _source_class()
    options = _options(x, fs) | _hashes(x, x.flag('hashes'))
    fs.add('archive', 'f', content=b'1', mtime=100)
    rows = _members(x, 'old', 2, 'ca')

    def mount(**kw):
        return Source(archive, rows, lambda info: _Nothing(), **kw, **options)

    def first():
        source = mount()
        try:
            _check(x, source, rows, 'mounted in spite of an error')
        finally:
            source.close()

    if x.flag('reading'):
        rows.insert(x.choose('before', 3), None)
        failed = False
        try:
            mount().close()
        except Exception:
            failed = True
        x.check(failed, 'the error is reported')
        rows.remove(None)
    else:
        at = x.int('at', 0, x.cfg['steps'])
        hit, error = crashkit.failing(x, first, at, x.flag('full'))
        x.reach('failed' if hit else 'no failure')
        x.observe('error', error is not None)
    for k in range(2):
        source = mount()
        _check(x, source, rows, 'mounted again')
        source.close()
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('kills', kills, '1 or 2 files with any offsets and sizes, the process ending before any of the first 60 statements',
       {'files': 2, 'steps': 60}, {'files': 3, 'steps': 80}, ['killed', 'not killed', 'end']),
    _h('updates', updates, '2 files and 1 appended of any sizes, the process ending before any of the first 60 statements',
       {'steps': 60, 'again': False}, {'steps': 80, 'again': True}, ['killed', 'not killed']),
    _h('failures', failures, '2 files with any offsets, any of the first 60 statements failing once or from then on',
       {'steps': 60}, {'steps': 80}, ['failed', 'no failure', 'end']),
]
