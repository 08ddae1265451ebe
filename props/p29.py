"""P29: remote file systems are shown as they are, and mounts can be used through the fsspec interface."""
import datetime
import stat

from symx.runner import Harness

from .fakesource import make_class, normal

LEVEL = 'model_checking'
ASSUMPTIONS = ['file systems list the entries of a folder with their full paths, as the fsspec specification asks for',
               'web servers quote the names in the folders they list']
OUTSIDE = ['the implementations of fsspec file systems', 'file systems that list names without types', 'Dropbox',
           'the time zones of modification times', 'formats of modification times other than those of FTP and SSH']

TREE = {'/f': ['f'], '/d': ['d'], '/d/g': ['f'], '/d/e': ['d'], '/d/e/g': ['f'], '/l': ['lf']}
PATHS = ['/', '/f', '/d', '/d/g', '/d/e', '/d/e/g', '/l', '/none', '/f/x']


def _served(x):
    """The interface to a source that is given to the file system instead of a TAR."""
    import ratarmountcore.SQLiteIndexedTarFsspec as module

    source = make_class(x)('S', TREE, listing=x.pick('listing', ['dict', 'names']))
    x.patch(module, 'SQLiteIndexedTar', lambda **options: source)
    return source, module.SQLiteIndexedTarFileSystem(fo='archive')


def served(x):
    """Listing, information on and contents of files through fsspec."""
    source, fs = _served(x)
    path = x.pick('path', PATHS)
    spelled = x.pick('spelled', [path, path.lstrip('/'), 'ratar://' + path.lstrip('/'), 'ratar://' + path, path + '/'])
    bare = spelled[8:] if spelled.startswith('ratar://') else spelled
    n = source.count(path)
    own = source.info(path, n - 1) if n else None

    def entry(e, name, info, label):
        x.check(e['name'] == name, label + ': name')
        x.check(e['type'] == ('directory' if stat.S_ISDIR(info.mode) else 'file'), label + ': type')
        x.check(x.eq(e['size'], info.size), label + ': size')
        x.check(int(e['mode'], 8) == info.mode, label + ': mode')

    try:
        info = fs.info(spelled)
    except FileNotFoundError:
        info = None
    x.check((info is not None) == (own is not None), 'exists')
    x.check(fs.exists(spelled) == (own is not None), 'exists()')
    if own is not None:
        entry(info, bare, own, 'info')
    names = source.children(path)
    for detail in (True, False):
        try:
            listed = fs.ls(spelled, detail=detail)
        except FileNotFoundError:
            listed = None
        x.check((listed is not None) == (names is not None), 'only folders are listed')
        if names is None:
            continue
        prefix = bare.rstrip('/') + '/' if bare else ''
        found = sorted(e['name'] if detail else e for e in listed)
        x.check(found == sorted(prefix + name for name in names), 'listed names')
        if detail:
            for e in listed:
                full = normal('/' + e['name'])
                entry(e, e['name'], source.info(full, source.count(full) - 1), 'listed')
                entry(fs.info(e['name']), e['name'], source.info(full, source.count(full) - 1), 'listed and looked up')
        x.reach('listed')
    if own is not None and stat.S_ISREG(own.mode):
        at, size = x.int('at', 0, 1000), x.int('n', 0, 1000)
        with fs.open(spelled) as f:
            f.seek(at)
            data = f.read(size)
        x.check_bytes(data, x.min(size, x.max(0, own.size - at)), lambda j: x.at(x.source(f'S{path}#0'), at + j), 'read')
        x.reach('read')
    elif own is None:
        failed = False
        try:
            fs.open(spelled)
        except FileNotFoundError:
            failed = True
        x.check(failed, 'missing files cannot be opened')


def walked(x):
    """Going over everything, as fsspec does for its other methods."""
    source, fs = _served(x)
    top = x.pick('top', ['', '/', 'd', 'd/', '/d', 'ratar://d'])
    below = normal('/' + (top[8:] if top.startswith('ratar://') else top))
    want = sorted(p.lstrip('/') for p, v in TREE.items() if v[0][0] != 'd' and p.startswith(below.rstrip('/') + '/'))
    got = sorted(p.lstrip('/') for p in fs.find(top))
    x.check(got == want, 'all files are found')
    x.reach('end')


def _spelled(style, path, folder=False):
    """How a file system spells a path."""
    if style == 'absolute':
        return path
    bare = path[1:]
    return bare + '/' if folder and style == 'slash' and path != '/' else bare


def _remote(x, tree, style):
    """A file system with all of tree, a list of paths and types, sizes and times."""
    import fsspec

    class Remote(fsspec.AbstractFileSystem):
        protocol = 'verif'
        cachable = False

        def _find(self, path):
            for p, e in tree:
                if x.eq(_spelled(style, p), path) or style == 'absolute' and x.eq(p[1:], path):
                    return p, e
            return None

        @staticmethod
        def _entry(p, e):
            return {'name': _spelled(style, p, e[0] == 'directory'), 'type': e[0], 'size': e[1]} | e[2]

        def info(self, path, **kwargs):
            hit = self._find(path)
            if hit is None:
                raise FileNotFoundError(path)
            return self._entry(*hit)

        def exists(self, path, **kwargs):
            return self._find(path) is not None

        def ls(self, path, detail=True, **kwargs):
            hit = self._find(path)
            if hit is None:
                raise FileNotFoundError(path)
            if hit[1][0] != 'directory':
                raise NotADirectoryError(path)
            return [self._entry(p, e) for p, e in tree if p != '/' and x.eq(p.rpartition('/')[0] or '/', hit[0])]

        def open(self, path, mode='rb', block_size=None, **kwargs):
            hit = self._find(path)
            if hit is None:
                raise FileNotFoundError(path)
            f = x.file('opened', hit[1][1])
            f.tag = hit[0]
            return f

    return Remote()


def _check(x, m, tree, base, path, label):
    """What the source shows at a path below base."""
    hits = [(p, e) for p, e in tree if x.eq(p, normal(base + path))]
    info = m.lookup(path)
    x.check((info is not None) == bool(hits), label + ': found')
    x.check(bool(m.exists(path)) == bool(hits), label + ': exists')
    x.check(m.versions(path) == len(hits), label + ': versions')
    folder = bool(hits) and hits[0][1][0] == 'directory'
    x.check(bool(m.is_dir(path)) == folder, label + ': folder')

    def same(info, e, label):
        x.check(stat.S_IFMT(info.mode) == (stat.S_IFDIR if e[0] == 'directory' else stat.S_IFREG), label + ': type')
        if e[0] != 'directory':
            x.check(x.eq(info.size, e[1]), label + ': size')
            x.check(x.eq(info.mtime, e[3]), label + ': time')

    def opened(info, p, label):
        f = m.open(info)
        x.check(x.eq(f.tag, p), label + ': opened')
        f.close()

    if hits:
        same(info, hits[0][1], label)
        if not folder:
            opened(info, hits[0][0], label)
            x.reach('file')
    listed, modes = m.list(path), m.list_mode(path)
    if not folder:
        x.check(not listed and not modes, label + ': only folders are listed')
        return
    children = [(p, e) for p, e in tree if p != '/' and x.eq(p.rpartition('/')[0] or '/', hits[0][0])]
    if not children:
        x.check(len(list(listed)) == 0 and len(list(modes)) == 0, label + ': empty')
        return
    x.check(len(listed) == len(children) and len(modes) == len(children), label + ': number of names')
    for p, e in children:
        name = p.rpartition('/')[2]
        found = [(n, i) for n, i in listed.items() if x.eq(n, name)]
        x.check(len(found) == 1, label + ': name is listed')
        same(found[0][1], e, label + ', listed')
        if e[0] != 'directory':
            opened(found[0][1], p, label + ', listed')
        found = [(n, i) for n, i in modes.items() if x.eq(n, name)]
        x.check(len(found) == 1, label + ': name is listed with its mode')
        x.check(stat.S_IFMT(found[0][1]) == (stat.S_IFDIR if e[0] == 'directory' else stat.S_IFREG), label + ': listed mode')
    x.reach('folder')


def remote(x):
    """File systems that spell paths in different ways, and parts of them."""
    from ratarmountcore.mountsource.formats.fsspec import FSSpecMountSource

    name = x.string('name', 1 + x.choose('length', x.cfg['name']), 'ae. %#?:\\~é')
    x.assume(x.and_(name != '.', name != '..', name != 'e'))
    kind = x.pick('times', ['none', 'mtime', 'number', 'modify'])
    unsized = x.pick('unsized', [0, None])

    def entry(k, folder=False):
        if folder:
            return 'directory', unsized, {}, 0
        seconds = x.int(f'time{k}', 0, 1 << 40) if kind == 'number' else 86400 * k
        times = {'none': {}, 'number': {'mtime': seconds},
                 'mtime': {'mtime': datetime.datetime.fromtimestamp(86400 * k)},
                 'modify': {'modify': datetime.datetime.fromtimestamp(86400 * k).strftime('%Y%m%d%H%M%S')}}[kind]
        return 'file', x.int(f'size{k}', 0, 1 << 40), times, seconds if times else 0

    tree = [('/', entry(0, True)), ('/f', entry(1)), ('/d', entry(0, True)), ('/d/' + name, entry(2)), ('/d/e', entry(0, True)),
            ('/d/e/g', entry(3)), ('/d/e/z', entry(0, True))]
    fs = _remote(x, tree, x.pick('style', ['absolute', 'bare', 'slash']))
    prefix = x.pick('prefix', [None, '', '/', '/d', 'd', '/d/e/', '/f'])
    base = ''
    if prefix is not None and prefix.strip('/'):
        hit = fs._find(prefix.rstrip('/') if prefix.startswith('/') else prefix)
        # Only the file systems themselves know how they spell their paths.
        x.assume(fs._find(prefix) is not None)
        if hit[1][0] == 'directory':
            base = hit[0]
    m = FSSpecMountSource(fs, prefix)
    below = [p[len(base):] or '/' for p, e in tree if p == base or p == '/' or p.startswith(base + '/')]
    path = x.pick('path', [p for p in below if p != '/' or not base] + ['/', '/none', '/d/none', '/f/x'])
    _check(x, m, tree, base, path, 'remote')


NAMES = ['a b', '100%', 'q?x', 'h#y', 'é', 'a+b', '%20', '?x', '#', 'a&b', 'x:y', '~', "'", 'd.html', '(1)', 'a;b=c']


def web(x):
    """Folders listed by web servers."""
    import urllib.parse

    from fsspec.implementations.http import HTTPFileSystem

    from ratarmountcore.mountsource.formats.fsspec import FSSpecMountSource

    top = 'http://h/p q'
    name = x.pick('name', NAMES)
    tree = [('/', ('directory', 0, {}, 0)), ('/f', ('file', x.int('size1', 0, 1 << 40), {}, 0)), ('/d', ('directory', 0, {}, 0)),
            ('/d/' + name, ('file', x.int('size2', 0, 1 << 40), {}, 0)), ('/d/e ', ('directory', 0, {}, 0)),
            ('/d/e /' + name, ('file', 0, {}, 0)), ('/d/i.html', ('file', 7, {}, 0))]
    safe = x.pick('safe', ['/', "/:;=~+&'()"])

    def url(path):
        return 'http://h' + urllib.parse.quote(top[8:] + path, safe=safe)

    class Web(HTTPFileSystem):
        cachable = False

        def __init__(self):
            pass

        def _find(self, path):
            x.check(urllib.parse.quote(path, safe="/:;=~+&'()%") == path, 'valid URL')
            path = urllib.parse.unquote(path)
            for p, e in tree:
                if (top + p).rstrip('/') == path.rstrip('/'):
                    return p, e
            return None

        def exists(self, path, **kwargs):
            return self._find(path) is not None

        def info(self, path, **kwargs):
            p, e = self._find(path)
            return {'name': path, 'size': e[1], 'type': 'file',
                    'mimetype': 'text/html' if e[0] == 'directory' or p.endswith('html') else None}

        def isdir(self, path):
            hit = self._find(path)
            return hit is not None and hit[1][0] == 'directory'

        def ls(self, path, detail=True, **kwargs):
            hit = self._find(path)
            if hit is None or hit[1][0] != 'directory':
                raise FileNotFoundError(path)
            folder = url(hit[0]).rstrip('/') + '/'
            out = [{'name': folder + '?C=N;O=D', 'size': None, 'type': 'file'}] if x.flag('sorting ' + hit[0]) else []
            for p, e in tree:
                if p != '/' and (p.rpartition('/')[0] or '/') == hit[0]:
                    ending = '/' if e[0] == 'directory' else ''
                    out.append({'name': url(p) + ending, 'size': None, 'type': 'directory' if ending else 'file'})
            return out

        def open(self, path, **kwargs):
            hit = self._find(path)
            f = x.file('opened', hit[1][1])
            f.tag = hit[0]
            return f

    m = FSSpecMountSource(Web(), url('') + x.pick('ending', ['', '/']))
    path = x.pick('path', [p for p, e in tree] + ['/none', '/d/none'])
    hit = next(((p, e) for p, e in tree if p == path), None)
    info = m.lookup(path)
    x.check((info is not None) == (hit is not None), 'found')
    x.check(m.exists(path) == (hit is not None), 'exists')
    x.check(m.versions(path) == (hit is not None), 'versions')
    if hit is not None:
        x.check(stat.S_ISDIR(info.mode) == (hit[1][0] == 'directory'), 'type')
        if hit[1][0] == 'file':
            x.check(x.eq(info.size, hit[1][1]), 'size')
            x.check(m.open(info).tag == path, 'opened')
    listed = m.list(path)
    if hit is None or hit[1][0] != 'directory':
        x.check(not listed, 'only folders are listed')
        return
    want = {p.rpartition('/')[2]: (p, e) for p, e in tree if p != '/' and (p.rpartition('/')[0] or '/') == path}
    x.check(sorted(listed) == sorted(want) or not want and not list(listed), 'names')
    for n, (p, e) in want.items():
        x.check(stat.S_ISDIR(listed[n].mode) == (e[0] == 'directory'), 'listed type')
        if e[0] == 'file':
            x.check(m.open(listed[n]).tag == p, 'listed and opened')
    x.reach('listed')


def united(x):
    """A remote file system below or above another source."""
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.formats.fsspec import FSSpecMountSource

    tree = [(p, ('directory' if k == 'd' else 'file', x.int('size ' + p, 0, 1000) if k == 'f' else 0, {}, 0))
            for p, k in (('/', 'd'), ('/f', 'f'), ('/d', 'd'), ('/d/r', 'f'), ('/r', 'd'), ('/r/f', 'f'))]
    other = make_class(x)('S', TREE)
    m = FSSpecMountSource(_remote(x, tree, x.pick('style', ['absolute', 'bare', 'slash'])))
    layers = [other, m] if x.flag('above') else [m, other]
    u = UnionMountSource(layers, maxCacheDepth=x.choose('depth', 2), maxCacheEntries=1000, maxSecondsToCache=1000)
    path = x.pick('path', PATHS + ['/d/r', '/r', '/r/f'])
    both = {p for p, e in tree} | set(TREE)
    x.check((u.lookup(path) is not None) == (path == '/' or path in both), 'found')
    if path != '/':
        x.check(u.versions(path) == sum(p == path for p, e in tree) + other.count(path), 'versions')
    listed = u.list(path)
    names = {p.rpartition('/')[2] for p in both if p != '/' and (p.rpartition('/')[0] or '/') == path}
    x.check(sorted(listed or ()) == sorted(names), 'listed')
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough)
    h.must_reach = reach
    return h


HARNESSES = [
    _h('served', served, '6 files and folders of any sizes, paths in 5 spellings', {}, {}, ['listed', 'read']),
    _h('walked', walked, 'trees below 6 spellings of folders', {}, {}, ['end']),
    _h('remote', remote, '6 files and folders of any sizes and times, one with any name of up to 2 characters', {'name': 2}, {'name': 3},
       ['file', 'folder']),
    _h('web', web, '7 files and folders, 2 with each of 16 names', {}, {}, ['listed']),
    _h('united', united, '2 sources', {}, {}, ['end']),
]
