"""P05: an index is used exactly when it belongs to the archive as it is now."""
import gc
import stat

from symx.runner import Harness

from . import indexkit, tarkit
from .p27 import _listed, _members, _Nothing, _source_class

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'SQLite as modelled in symx/sqlmini.py; SELECT ... ORDER BY RANDOM() returns the rows in the order of insertion',
    'tarfile yields the members of the archive from where the given file object starts',
]
OUTSIDE = ['archives changed in place without changing the size when --verify-mtime is not given',
           'compressed archives and compressed or remote indexes', 'SQLite itself',
           'archives replaced by others of the same size or with an end-of-archive mark at the same place',
           'TAR archives ending with a sparse file that are appended to without changing the size']


def changes(x):
    """Mounts of an archive that is changed in between, with other options and backends."""
    indexkit.fast(x)
    indexkit.tokens(x)
    fs = x.fs
    archive = fs.root + '/archive'
    Source = _source_class()
    options = {'indexFilePath': fs.root + '/i', 'indexFolders': [], 'writeIndex': True}
    generations = []

    def change(k):
        size, mtime = x.int(f'size{k}', 0, x.cfg['size']), x.int(f'mtime{k}', 0, 1000)
        fs.add('archive', 'h', size=size, mtime=mtime)
        generations.append((size, mtime, _members(x, f'g{k}', 1, 'abc'[k])))

    change(0)
    used = 0
    source = Source(archive, generations[0][2], **options)
    x.check(source.created, 'created at first')
    source.close()
    for k in range(1, x.cfg['mounts']):
        if x.flag(f'changed{k}'):
            change(k)
        else:
            generations.append(generations[-1])
        verify = x.flag(f'verify{k}')
        source = Source(archive, generations[k][2], verifyModificationTime=verify, **options)
        size, mtime, _ = generations[k]
        fits = x.eq(size, generations[used][0]) and (not verify or x.eq(mtime, generations[used][1]))
        if fits:
            x.check(not source.created, 'an index that belongs to the archive is used')
            x.reach('used')
        else:
            x.check(source.created, 'an index of an older state of the archive is not used')
            x.reach('recreated')
            used = k
        got = _listed(source)
        want = {(row[0] or '/', row[1]): (row[2], row[4]) for row in generations[used][2]}
        x.check(sorted(got) == sorted(want), 'files')
        for key, value in want.items():
            x.check(x.eq(got[key], value), 'offsets and sizes')
        source.close()


def given(x):
    """Databases given to be used read-only or to be mounted stay as they are, whatever is in them."""
    import ratarmountcore.mountsource.SQLiteIndexMountSource as module

    indexkit.fast(x)
    indexkit.tokens(x)
    fs = x.fs
    archive = fs.root + '/archive'
    path = fs.root + '/i'
    Source = _source_class()
    fs.add('archive', 'h', size=10, mtime=5)
    rows = _members(x, 'g', 1, 'a')
    hashes = _hashes(x)
    what = x.pick('database', ['index', 'incomplete', 'other', 'empty', 'missing', 'outdated', 'old'])
    if what in ('index', 'incomplete', 'outdated', 'old'):
        Source(archive, rows, indexFilePath=path, indexFolders=[], writeIndex=True).close()
    elif what == 'empty':
        fs.add('i', 'f', content=b'')
    db = x.sqlite.connect(path) if what in ('incomplete', 'other', 'old') else None
    if what == 'incomplete':
        db.executescript('CREATE TABLE "parentfolders" ( "path" VARCHAR(65535) );')
    elif what == 'other':
        db.executescript('CREATE TABLE "mine" ( "path" VARCHAR(65535) );')
    elif what == 'old':
        db.executescript('DROP TABLE "versions"; DROP TABLE "metadata";')
    elif what == 'outdated':
        fs.add('archive', 'h', size=x.int('size', 0, 20), mtime=7)
    if db is not None:
        db.close()
    before = _state(x, path)
    source = None
    if x.flag('mounted'):
        if not x.symbolic or what == 'missing':
            x.assume(what not in ('missing', 'empty'))
        x.assume(what not in ('missing', 'empty'))
        x.patch(module.SQLiteIndexMountSource, '_quick_check_file', staticmethod(lambda f, n: None))
        try:
            source = module.SQLiteIndexMountSource(path)
        except Exception:
            source = None
        x.check((source is not None) == (what in ('index', 'outdated', 'old')), 'only an index can be mounted')
    else:
        try:
            source = Source(archive, rows, lambda info: _Nothing(), indexFilePath=path, indexFolders=[], writeIndex=x.flag('write'),
                            readOnlyIndex=True, verifyModificationTime=x.flag('verify'),
                            **({'hashes': hashes} if x.flag('hashes') else {}))
        except Exception:
            source = None
        if what in ('incomplete', 'other', 'empty', 'missing'):
            x.check(source is None, 'not used')
        elif what == 'index':
            x.check(source is not None, 'used')
    if source is not None:
        want = {('/', 'a'): (rows[0][2], rows[0][4])}
        x.check(x.eq(sorted(_listed(source).items()), sorted(want.items())), 'files')
        source.close()
        x.reach('used')
    else:
        x.reach('not used')
    gc.collect()
    _check_state(x, before, _state(x, path))


def _check_state(x, before, after):
    x.check((before is None) == (after is None), 'no database is made or removed')
    if before is not None:
        x.check([name for name, rows in before] == [name for name, rows in after], 'tables stay as they are')
        x.check(x.eq(before, after), 'the database stays as it is')


def _hashes(x):
    import ratarmountcore.mountsource.SQLiteIndexMountSource as module

    x.patch(module, 'compute_hashes', lambda f, size, names, progress_callback=None: {n: 'v' for n in names})
    return ['crc32']


def _state(x, path):
    """Tables of a database and their rows, or None if there is no such file."""
    if '/' + path.rsplit('/', 1)[1] not in x.fs.names():
        return None
    db = x.sqlite.connect(path)
    names = [row[0] for row in db.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").fetchall()]
    state = [(name, [tuple(row) for row in db.execute(f'SELECT * FROM "{name}"').fetchall()]) for name in names
             if not name.startswith('sqlite_')]
    db.close()
    return state


def _tree(archive):
    """Path to offset and size of all files, mounted archives being folders."""
    found = {}

    def visit(members, folder):
        for m in members:
            path, name = (folder + '/' + m.name).rsplit('/', 1)
            if m.kind == 't':
                visit(m.members, path + '/' + name)
            elif m.kind == 'f':
                found[(path or '/', name)] = (m.header, m.size)

    visit(archive.members, '')
    return found


def appended(x):
    """A TAR archive is appended to or replaced between two mounts, and mounted a third time."""
    import ratarmountcore.SQLiteIndex as module

    indexkit.fast(x)
    indexkit.tokens(x)
    x.patch(module.SQLiteIndex, 'NUMBER_OF_METADATA_TO_VERIFY', x.cfg['verify'])
    fs = x.fs
    path = fs.root + '/archive'
    options = {'indexFilePath': fs.root + '/i', 'indexFolders': [], 'writeIndex': True,
               'recursive': x.flag('recursive'), 'isGnuIncremental': False}
    kinds = x.pick('kinds', x.cfg['kinds'])
    old = tarkit.layout(x, 'old', kinds, biggest=x.cfg['biggest'])
    slack = x.int('slack', 2, 40)
    was = tarkit.Archive(old, old[-1].end + 512 * slack)
    t0 = x.int('mtime0', 0, 100)
    fs.add('archive', 'h', size=was.size, mtime=t0)
    source = tarkit.mount(x, was, path, **options)
    _check_tree(x, source, was, options, 'first mount')
    source.close()

    what = x.pick('change', ['none', 'appended', 'replaced', 'copied'])
    t1 = t0
    now = was
    if what == 'appended':
        new = tarkit.layout(x, 'new', x.cfg['new'], start=was.end, names='pqr', biggest=x.cfg['biggest'])
        size = 512 * x.int('blocks1', 0, x.cfg['size'] // 512)
        x.assume(x.and_(size >= was.size, size >= new[-1].end + 1024))
        now = tarkit.Archive(old + new, size)
        t1 = x.int('mtime1', 0, 100)
        x.assume(t1 >= t0)
    elif what == 'replaced':
        new = tarkit.layout(x, 'new', 'ff', names='uv', biggest=x.cfg['biggest'])
        now = tarkit.Archive(new, new[-1].end + 512 * x.int('slack1', 2, 40))
        t1 = x.int('mtime1', 0, 100)
    elif what == 'copied':
        t1 = x.int('mtime1', 0, 100)
    verify = x.flag('verify')
    if what == 'replaced':
        # Without any of these, the change is not noticed.
        x.assume(x.or_(now.size != was.size, x.and_(verify, t1 != t0)))
    fs.add('archive', 'h', size=now.size, mtime=t1)
    if x.flag('reading'):
        before = _state(x, options['indexFilePath'])
        try:
            source = tarkit.mount(x, now, path, verifyModificationTime=verify, **(options | {'writeIndex': x.flag('write')}),
                                  readOnlyIndex=True)
        except Exception:
            source = None
        if what == 'none':
            x.check(source is not None, 'an index that fits can be used without changing it')
        if source is not None:
            # The index is used as it is.
            _check_tree(x, source, was, options, what + ', mounted without changing the index')
            source.close()
        gc.collect()
        _check_state(x, before, _state(x, options['indexFilePath']))
    source = tarkit.mount(x, now, path, verifyModificationTime=verify, **options)
    _check_tree(x, source, now, options, what)
    if what == 'appended' and source.analyzed and not x.or_(*[base == 0 for base in source.analyzed]):
        x.reach('only the new part is analyzed')
    source.close()
    source = tarkit.mount(x, now, path, verifyModificationTime=True, **options)
    _check_tree(x, source, now, options, what + ', mounted again')
    source.close()
    x.reach(what)


def _check_tree(x, source, archive, options, label):
    if options['recursive']:
        want = _tree(archive)
    else:
        want = {('/', m.name): (m.header, m.size) for m in archive.members if m.kind != 'd'}
    got = {}
    folders = ['/'] + ['/' + m.name for m in archive.members if m.kind == 't']
    for folder in folders:
        for name, info in (source.list(folder) or {}).items():
            if not stat.S_ISDIR(info.mode):
                got[(folder, name)] = (info.userdata[-1].offsetheader, info.size)
    x.check(sorted(got) == sorted(want), label + ': files')
    for key, value in want.items():
        x.check(x.eq(got[key], value), label + ': offsets and sizes')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('changes', changes, 'archives of any size and modification time, 3 or 4 mounts, one file with any offset and size',
       {'mounts': 3, 'size': 1000}, {'mounts': 4}, ['used', 'recreated']),
    _h('given', given, '7 kinds of databases', {}, {}, ['used', 'not used']),
    _h('appended', appended, '2 members, 1 appended, of any sizes up to 256 MiB, any times',
       {'kinds': ['ff', 'ft'], 'new': 'f', 'verify': 2, 'biggest': 1 << 28, 'size': 1 << 31},
       {'kinds': ['ff', 'fd', 'df', 'ft', 'tf', 'fff'], 'new': 'ff'}, ['none', 'appended', 'replaced', 'copied', 'only the new part is analyzed']),
]
