"""P19: archives found inside of mounted archives are shown as folders, everything else stays as it is."""
import re
import stat

from props.fakesource import REG, make_class, normal, same_info
from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = ['mount sources answer lookups, listings and version counts consistently with each other']
OUTSIDE = ['archives that opening reports as damaged only later', 'several archives or files that map to the same mount point',
           'mount points below folders that do not exist', 'TAR files inside TAR files, which share one index']

# name of the archive file -> what is inside; archives that are not named here cannot be opened
OUTER = {'/a.tar': ['f', 'f'], '/d': ['d'], '/d/b.zip': ['f'], '/f': ['f'], '/t.tar': ['d'], '/t.tar/g': ['f'], '/e': ['d']}
INNER = {
    'S/a.tar#1': {'/x': ['f', 'f'], '/n.tar': ['f'], '/e': ['d'], '/d': ['d'], '/d/y': ['f']},
    'S/d/b.zip#0': {'/z': ['f'], '/l': ['l/z']},
    'S/a.tar#1/n.tar#0': {'/y': ['f'], '/m.zip': ['f']},
    'S/a.tar#1/n.tar#0/m.zip#0': {'/w': ['f']},
}
PATHS = ['/', '/a.tar', '/a', '/a.tar/x', '/a.tar/n.tar', '/a.tar/n.tar/y', '/a.tar/n.tar/m.zip', '/a.tar/n.tar/m.zip/w',
         '/a.tar/e', '/a.tar/d', '/a.tar/d/y', '/d', '/d/b.zip', '/d/b.zip/z', '/d/b.zip/l', '/f', '/t.tar', '/t.tar/g',
         '/e', '/none', '/a.tar/none', '/n', '/n/y', '/b.zip', '/f/x']


class World:
    def __init__(self, x):
        self.x = x
        self.make = make_class(x)
        self.inner = {}
        self.broken = x.pick('broken', x.cfg['broken'])
        self.asked, self.mounted = [], []
        self.outer = self.make('S', OUTER, listing=x.pick('listing', ('dict', 'names')), immutable=self.broken == '')

    def source(self, tag):
        """The source of an archive, by what opening it returned."""
        if tag == self.broken or tag not in INNER:
            return None
        if tag not in self.inner:
            self.inner[tag] = self.make(tag, INNER[tag], listing=self.outer.listing)
        return self.inner[tag]

    def patch(self):
        import ratarmountcore.mountsource.compositing.automount as module

        def open_mount_source(file, **options):
            name, path, k = file.tag
            self.asked.append((file.tag, options))
            s = self.source(f'{name}{path}#{k}')
            if s is None:
                raise ValueError('not an archive')
            self.mounted.append(file.tag)
            return s

        self.x.patch(module, 'open_mount_source', open_mount_source)


def _layer(x, w, **options):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer

    w.patch()
    layer = AutoMountLayer(w.outer, **options)
    return layer


def _mounts(w, depth, place):
    """mount point -> (source, archive's path in the layer, source that contains it, path in it)"""
    out, todo = {'/': (w.outer, None, None, None)}, [('/', w.outer, 1)]
    while todo:
        point, source, level = todo.pop(0)
        if level > depth:
            continue
        for p in source.tree:
            if source.tree[p][-1][0] == 'd' or not p.endswith(('.tar', '.zip')):
                continue
            inside = w.source(f'{source.name}{p}#{len(source.tree[p]) - 1}')
            if inside is None:
                continue
            at = place(normal(point + p))
            if at not in out:
                out[at] = (inside, normal(point + p), source, p)
                todo.append((at, inside, level + 1))
    return out


def _split(mounts, path):
    """The mount point above a path and the rest of the path."""
    best = max((m for m in mounts if path == m or path.startswith(m.rstrip('/') + '/')), key=len)
    return best, normal(path[len(best.rstrip('/')):])


def _names(mounts, path):
    point, rest = _split(mounts, path)
    names = mounts[point][0].children(rest)
    if names is None:
        return None
    extra = [m.rsplit('/', 1)[1] for m in mounts if m != '/' and (m.rsplit('/', 1)[0] or '/') == path]
    return sorted(set(names) | set(extra))


def _usable(x, w, layer, info, want, label):
    """open, read and attributes of a file's info reach the file (source, path, version)."""
    source, path, k = want
    own = source.info(path, k)
    before = list(info.userdata)
    f = layer.open(info)
    x.check(getattr(f, 'tag', None) == (source.name, path, k), label + ': opened')
    n, off = x.int('n ' + label, 0, 1000), x.int('off ' + label, 0, 1000)
    x.check_bytes(layer.read(info, n, off), x.min(n, x.max(0, own.size - off)),
                  lambda j: x.at(x.source(f'{source.name}{path}#{k}'), off + j), label + ': read')
    x.check(sorted(layer.list_xattr(info)) == sorted(source.list_xattr(own)), label + ': attribute names')
    x.check(layer.get_xattr(info, 'user.tag') == source.get_xattr(own, 'user.tag'), label + ': attribute')
    sub = layer.get_mount_source(info)
    x.check(sub[1] is source and sub[2].userdata == own.userdata, label + ': source')
    x.check(len(before) == len(info.userdata), label + ': the file info can be used again')
    return sub[0]


def _check_folder(x, info, archive, label):
    """The top of a mounted archive: a folder with the owner and time of the archive that can be entered if it can be read."""
    x.check(stat.S_ISDIR(info.mode), label + ': shown as a folder')
    x.check(x.eq((info.mtime, info.uid, info.gid), (archive.mtime, archive.uid, archive.gid)), label + ': owner and time')
    x.check(info.mode & 0o777 == 0o755, label + ': permissions')


def _check_path(x, w, layer, mounts, path, lazy=False):
    point, rest = _split(mounts, path)
    source = mounts[point][0]
    top = rest == '/' and point != '/'
    n = source.count(rest)
    # the archive files below a mount point of the outer source count as older versions
    older = w.outer.count(path) if top else 0
    aspect = x.pick('aspect', x.cfg['aspects'])
    info = layer.lookup(path)
    x.check((info is not None) == (n > 0), 'found')
    x.check(layer.exists(path) == (n > 0), 'exists')
    x.check(layer.versions(path) == n + older, 'number of versions')
    listing, modes = layer.list(path), layer.list_mode(path)
    names = _names(mounts, path)
    x.observe('names', None if listing is None else sorted(listing))
    if not lazy:
        x.check((listing is None) == (names is None) and (modes is None) == (names is None), 'folders are listed')
        if names is not None:
            x.check(sorted(listing) == names and sorted(modes) == names, 'names')
    if n == 0:
        x.reach('missing')
        return
    if top:
        _check_folder(x, info, mounts[point][2].info(mounts[point][3], mounts[point][2].count(mounts[point][3]) - 1), 'archive')
        x.check(layer.list_xattr(info) == [] and layer.get_xattr(info, 'user.tag') is None, 'attributes of the folder')
        x.reach('archive')
        if point.count('/') > 1 or len(mounts) > 3:
            x.reach('nested')
    elif path != '/':
        own = source.info(rest, n - 1)
        same_info(x, info, own, 'file')
        if aspect == 'newest' and stat.S_ISREG(own.mode):
            at = _usable(x, w, layer, info, (source, rest, n - 1), 'file')
            x.check(normal(at) == point, 'mount point')
            x.reach('file')
    else:
        x.check(stat.S_ISDIR(info.mode), 'the top is a folder')
    if aspect == 'listed':
        return _check_listed(x, w, layer, mounts, path, listing, modes)
    if aspect != 'versions':
        return
    v = x.int('version', -4, 4)
    total = n + older
    info = layer.lookup(path, fileVersion=v)
    k = v if v > 0 else total + v
    if x.or_(k < 1, k > total):
        x.check(info is None, 'no such version')
        return
    k = x.fork(k)
    x.check(info is not None, 'version found')
    if top and k > older:
        x.check(stat.S_ISDIR(info.mode), 'newest version is the folder')
    elif top:
        own = w.outer.info(path, k - 1)
        same_info(x, info, own, 'archive version')
        if stat.S_ISREG(own.mode):
            _usable(x, w, layer, info, (w.outer, path, k - 1), 'archive version')
            x.reach('older')
    elif path != '/':
        own = source.info(rest, k - 1)
        same_info(x, info, own, 'version')
        if stat.S_ISREG(own.mode):
            _usable(x, w, layer, info, (source, rest, k - 1), 'version')


def _check_listed(x, w, layer, mounts, path, listing, modes):
    """The listed file infos are those that are found, and can be used."""
    if listing and isinstance(listing, dict):
        name = x.pick('entry', sorted(listing))
        below = normal(path + '/' + name)
        found = layer.lookup(below)
        same_info(x, listing[name], found, 'listed')
        x.check(stat.S_IFMT(modes[name]) == stat.S_IFMT(found.mode), 'listed kind')
        p, r = _split(mounts, below)
        if stat.S_ISREG(found.mode):
            _usable(x, w, layer, listing[name], (mounts[p][0], r, mounts[p][0].count(r) - 1), 'listed')
            x.reach('listed')


def eager(x):
    """All archives are mounted up to the depth."""
    w = World(x)
    depth = x.pick('depth', x.cfg['depths'])
    kind = x.pick('names', x.cfg['names'])
    options = {'keep': {}, 'strip': {'stripRecursiveTarExtension': True},
               'transform': {'transformRecursiveMountPoint': ('.*/([^/]*)[.]tar', r'\1')}}[kind]

    def place(path):
        if kind == 'strip':
            return path.rsplit('.', 1)[0]
        if kind == 'transform':
            return '/' + re.sub('.*/([^/]*)[.]tar', r'\1', path).lstrip('/')
        return path

    layer = _layer(x, w, recursionDepth=depth, **options)
    mounts = _mounts(w, depth, place)
    x.check(len(set(w.mounted)) == len(w.mounted), 'each archive is mounted once')
    for tag, o in w.asked:
        x.check(tag[0].count('#') + 1 <= depth, 'nothing deeper than allowed is opened')
        x.check(o['recursionDepth'] == depth - tag[0].count('#') - 1, 'depth that is left')
    _check_path(x, w, layer, mounts, x.pick('path', x.cfg['paths']))
    for s in w.inner.values():
        x.check(s.exited == 0, 'still open')
    layer.__exit__(None, None, None)
    x.check(w.outer.exited == 1 and all(s.exited == 1 for _, (s, *_) in mounts.items()), 'everything is closed')


def lazy(x):
    """Archives are mounted when something in them is asked for; the result is as if they had been before."""
    w = World(x)
    depth = x.pick('depth', x.cfg['depths'])
    layer = _layer(x, w, recursionDepth=depth, lazyMounting=True)
    x.check(not w.asked, 'nothing is opened in advance')
    mounts = _mounts(w, depth, lambda p: p)
    for k in range(x.choose('before', 2)):
        path = x.pick(f'path {k}', x.cfg['before'])
        getattr(layer, x.pick(f'call {k}', x.cfg['calls']))(path)
    _check_path(x, w, layer, mounts, x.pick('path', x.cfg['paths']), lazy=True)


PARTS = ['/d/s.001', '/d/s.002', '/d/s.003']


def joined(x):
    """Parts of a split file are shown joined, wherever they are."""
    w = World(x)
    tree = {'/d': ['d'], '/d/s.001': ['f'], '/d/s.002': ['f'], '/d/s.004': ['f'], '/d/o.001': ['f']}
    if x.flag('third'):
        tree['/d/s.003'] = ['f']
    inside = x.flag('inside')
    strip = bool(w.outer.listing == 'names') or (x.cfg['strip'] and x.flag('strip'))
    if inside:
        INNER['S/a.tar#0'] = tree
        w.outer = w.make('S', {'/a.tar': ['f']})
    else:
        w.outer = w.make('S', tree)
    layer = _layer(x, w, recursionDepth=1 + inside, stripRecursiveTarExtension=strip)
    base = ('/a' if strip else '/a.tar') if inside else ''
    source = w.source('S/a.tar#0') if inside else w.outer
    point = base + ('/d/s' if strip else '/d/s.001')
    info = layer.lookup(point)
    x.check(info is not None and stat.S_ISDIR(info.mode), 'shown as a folder')
    name = point.rsplit('/', 1)[1]
    x.check(list(layer.list(point)) == [name], 'holds the joined file')
    file = layer.lookup(point + '/' + name)
    parts = [p for p in sorted(tree) if p.startswith('/d/s.')]
    if '/d/s.003' not in tree:
        parts.remove('/d/s.004')
    sizes = [source.info(p, 0).size for p in parts]
    total = sizes[0]
    for s in sizes[1:]:
        total = total + s
    x.check(x.eq(file.size, total), 'size')

    def byte(j):
        at = x.at(x.source(f'{source.name}{parts[-1]}#0'), j - (total - sizes[-1]))
        end = total - sizes[-1]
        for p, s in list(zip(parts, sizes))[-2::-1]:
            at = x.ite(j < end, x.at(x.source(f'{source.name}{p}#0'), j - (end - s)), at)
            end = end - s
        return at

    off, n = x.int('off', 0, 2000), x.int('n', 0, 2000)
    x.check_bytes(layer.read(file, n, off), x.min(n, x.max(0, total - off)), lambda j: byte(off + j), 'joined contents')
    x.check(stat.S_ISREG(layer.lookup(base + '/d/o.001').mode), 'single parts stay files')
    x.reach('inside' if inside else 'outside')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['in-memory mount sources'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('eager', eager, 'archives nested up to 3 deep, any versions, symbolic metadata, depths 0 to 4',
       {'depths': (0, 1, 2, 4), 'names': ('keep', 'strip', 'transform'), 'paths': PATHS, 'broken': ('', 'S/a.tar#1/n.tar#0'),
        'aspects': ('newest', 'versions', 'listed')},
       {'depths': (0, 1, 2, 3, 4), 'broken': ('', 'S/a.tar#1', 'S/a.tar#1/n.tar#0', 'S/d/b.zip#0')},
       ['missing', 'archive', 'nested', 'file', 'older', 'listed']),
    _h('lazy', lazy, 'archives nested up to 3 deep, one earlier call', {'depths': (0, 2, 4), 'paths': PATHS[:19], 'broken': ('',), 'aspects': ('newest', 'versions'), 'before': PATHS[:8],
        'calls': ('lookup', 'list')},
       {'depths': (0, 1, 2, 3, 4), 'broken': ('', 'S/a.tar#1', 'S/a.tar#1/n.tar#0', 'S/d/b.zip#0'), 'paths': PATHS,
        'before': PATHS[:19], 'calls': ('lookup', 'list', 'list_mode', 'versions', 'exists')},
       ['missing', 'archive', 'nested', 'file', 'older']),
    _h('joined', joined, '2 to 4 parts of symbolic sizes, in the outer source or an archive', {'broken': ('',), 'strip': False}, {'strip': True},
       ['inside', 'outside']),
]
