"""P09: layers that add version folders, resolve hard links or move a source into a subfolder."""
import stat

from symx.runner import Harness

from .fakesource import check_routed, make_class, normal, same_info

LEVEL = 'model_checking'
ASSUMPTIONS = ['mount sources answer lookups, listings and version counts consistently with each other']
OUTSIDE = ['hard link chains longer than the limit of 128', 'names that themselves end in .versions']

TREES = [
    {'/a': ['f']},
    {'/a': ['f', 'f', 'f']},
    {'/a': ['f', 'd'], '/a/b': ['f', 'f']},
    {'/a': ['d', 'f'], '/a/b': ['f', 'f']},
    {'/a': ['d'], '/a/b': ['f', 'f'], '/c': ['f']},
]


def versions(x):
    """Every listed version of a file is found below its version folder and is that version."""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    source = make_class(x)('S', x.pick('tree', TREES), immutable=x.flag('fixed'), listing=x.pick('listing', ('dict', 'names')))
    layer = FileVersionLayer(source)
    path = x.pick('path', ('/a', '/a/b', '/c', '/none'))
    n = source.count(path)
    info = layer.lookup(path)
    x.check((info is not None) == (n > 0), 'found')
    x.check(layer.exists(path) == (n > 0) and layer.versions(path) == n, 'number of versions')
    if n:
        own = source.info(path, n - 1)
        same_info(x, info, own, 'newest')
        if stat.S_ISREG(own.mode):
            check_routed(x, layer, info, (source, path, n - 1), 'newest')
    # the folder of versions
    parent = x.pick('parent', ('/a', '/a.versions/1'))
    folder = (path if parent == '/a' or not path.startswith('/a/') else parent + path[2:]) + '.versions'
    finfo = layer.lookup(folder)
    listing, modes = layer.list(folder), layer.list_mode(folder)
    x.observe('versions', None if listing is None else sorted(listing))
    x.check((finfo is not None) == (n > 0), 'version folder exists')
    x.check((listing is not None) == (n > 0) and (modes is not None) == (n > 0), 'version folder is listed')
    if not n:
        x.check(layer.lookup(folder + '/1') is None, 'no version')
        x.reach('none')
        return
    x.check(stat.S_ISDIR(finfo.mode), 'version folder is a folder')
    x.check(layer.list_xattr(finfo) == [] and layer.get_xattr(finfo, 'user.tag') is None, 'version folder attributes')
    x.check(layer.get_mount_source(finfo)[1] is layer, 'version folder source')
    for f in (layer.open, lambda i: layer.read(i, 1, 0)):
        try:
            f(finfo)
            x.fail('opening a version folder fails')
        except Exception:
            pass
    x.check(len(finfo.userdata) == len(layer.lookup(folder).userdata), 'file info can be used again')
    x.check(sorted(listing) == sorted(str(k + 1) for k in range(n)) == sorted(modes), 'one entry for each version')
    k = x.choose('version', n + 1)
    info = layer.lookup(f'{folder}/{k + 1}')
    x.check((info is not None) == (k < n), 'listed version is found')
    if k < n:
        own = source.info(path, k)
        same_info(x, info, own, 'version')
        if stat.S_ISREG(own.mode):
            check_routed(x, layer, info, (source, path, k), 'version')
            x.reach('version')
        else:
            for inner in ('/b', '/none'):
                inside, own = layer.lookup(f'{folder}/{k + 1}{inner}'), source.lookup(path + inner)
                x.check((inside is None) == (own is None), 'files in the version of a folder')
                if own is not None:
                    same_info(x, inside, own, 'file in the version of a folder')
            got, want = layer.list(f'{folder}/{k + 1}'), source.list(path)
            x.check((got is None) == (want is None) and (got is None or sorted(got) == sorted(want)), 'folder version listed')
    for bad in ('x', '01', '1.5', ''):
        if bad:
            x.check(layer.lookup(f'{folder}/{bad}') is None, 'only numbers name versions')


def listings(x):
    """Listings pass through; files named there can be opened."""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    source = make_class(x)('S', x.pick('tree', TREES), listing=x.pick('listing', ('dict', 'names')))
    layer = FileVersionLayer(source)
    path = x.pick('path', ('/', '/a', '/a/b', '/c', '/none', '/a.versions/1'))
    want = source.list(path.replace('.versions/1', ''))
    got, modes = layer.list(path), layer.list_mode(path)
    x.check((got is None) == (want is None) and (modes is None) == (want is None), 'listed')
    if want is not None:
        x.check(sorted(got) == sorted(want) == sorted(modes), 'names')
        if isinstance(got, dict):
            for n in want:
                same_info(x, got[n], want[n], 'listing')
                x.check(modes[n] == want[n].mode, 'mode')
                if stat.S_ISREG(want[n].mode) and x.flag('open' + n):
                    check_routed(x, layer, got[n], (source,) + want[n].userdata[0][1:], 'listed file ' + n)
                    x.reach('opened')


LINKS = ['f', 'h/a', 'h/b', 'ha', 'h/c', 'l/a']


def hardlinks(x):
    """A hard link shows the file it refers to; a link to itself the next older version."""
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource as SubvolumeMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    tree = {}
    for p in ('/a', '/b', '/c'):
        kinds = [x.pick(f'kind{p}{k}', LINKS[: x.cfg['kinds']]) for k in range(x.choose(f'n{p}', x.cfg['versions'] + 1))]
        if kinds:
            tree[p] = kinds
    source = make_class(x)('S', tree)
    top = x.pick('mounted at', ['', '/s'])
    layer = FileVersionLayer(SubvolumeMountSource({'s': source}) if top else source)
    path, k = '/a', len(tree.get('/a', ())) - 1
    numbered = x.choose('numbered', 1 + k + 1) if k >= 0 else 0
    if numbered:
        k = numbered - 1
    want, seen = None, set()
    cycle = False
    while k >= 0:
        if (path, k) in seen:
            cycle = True
            break
        seen.add((path, k))
        kind = tree[path][k]
        if kind[0] != 'h':
            want = (path, k)
            break
        target = '/' + kind[1:].lstrip('/')
        if target == path:
            k -= 1
        else:
            path, k = target, len(tree.get(target, ())) - 1
    x.assume(not cycle)
    info = layer.lookup(top + '/a' if not numbered else f'{top}/a.versions/{numbered}')
    x.observe('found', info is not None)
    x.check((info is not None) == (want is not None), 'resolved')
    if want is not None:
        same_info(x, info, source.info(*want), 'target')
        if stat.S_ISREG(info.mode):
            check_routed(x, layer, info, (source,) + want, 'target')
        if len(seen) > 1:
            x.reach('link')
        if len(seen) > len({p for p, _ in seen}):
            x.reach('older')


def prefix(x):
    """A source moved into a subfolder."""
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource

    p = x.pick('prefix', x.cfg['prefixes'])
    source = make_class(x)('S', TREES[4], immutable=x.flag('fixed'), listing=x.pick('listing', ('dict', 'names')))
    layer = RemovePrefixMountSource(p, source)
    base = normal(p).rstrip('/')
    path = normal(x.pick('path', ['/', '/p', '/p/q', '/pq', base + '/a', base + '/a/b', base + '/none', base + 'a']))
    spelled = x.pick('spelled', [path, path[1:], path.rstrip('/') + '/'])
    got, modes = layer.list(spelled), layer.list_mode(spelled)
    version = x.int('version', -1, 2)
    info = layer.lookup(spelled, fileVersion=version)
    x.observe('found', info is not None)
    if path == base or (base + '/') == path or path.startswith(base + '/') or not base:
        sub = path[len(base):] or '/'
        want = source.list(sub)
        x.check((got is None) == (want is None) and (modes is None) == (want is None), 'listed')
        if want is not None:
            x.check(sorted(got) == sorted(want) == sorted(modes), 'names')
        own = source.lookup(sub, fileVersion=version)
        x.check((info is None) == (own is None), 'found')
        x.check(layer.versions(spelled) == source.versions(sub), 'versions')
        x.check(layer.exists(spelled) == source.exists(sub) and layer.is_dir(spelled) == source.is_dir(sub), 'exists')
        if own is not None:
            same_info(x, info, own, 'file')
            if stat.S_ISREG(own.mode):
                check_routed(x, layer, info, (source,) + own.userdata[0][1:], 'file')
                x.reach('file')
        return
    inside = path == '/' or base.startswith(path + '/')
    x.check((info is not None) == inside and layer.exists(spelled) == inside and layer.is_dir(spelled) == inside, 'folders')
    x.check(layer.versions(spelled) == (1 if inside else 0), 'versions of folders')
    name = base[len(path.rstrip('/')) + 1:].split('/')[0]
    x.check((None if got is None else list(got)) == ([name] if inside else None), 'listing of folders')
    x.check((None if modes is None else list(modes)) == ([name] if inside else None), 'listing of folders')
    if inside:
        x.check(stat.S_ISDIR(info.mode) and stat.S_ISDIR(modes[name]), 'folder')
        x.check(layer.list_xattr(info) == [] and layer.get_xattr(info, 'user.tag') is None, 'folder attributes')
        x.check(layer.get_mount_source(info)[1] is layer, 'folder source')
        x.reach('folder')


def single(x):
    """One file object shown as a folder with one file; each opened file has its own position."""
    from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource

    size = x.int('size', 0, 1000)
    base = x.file('F', size)
    source = SingleFileMountSource(x.pick('name', ('bar', '/bar', '//bar/', './bar')), base)
    x.check(list(source.list('/')) == ['bar'] and list(source.list_mode('/')) == ['bar'], 'listing')
    x.check(source.list('/bar') is None and source.list('/other') is None, 'listing of others')
    root = source.lookup('/')
    x.check(stat.S_ISDIR(root.mode) and source.versions('/bar') == 1 and source.versions('/x') == 0, 'versions')
    info = source.lookup(x.pick('path', ('/bar', 'bar')))
    x.check(info is not None and stat.S_ISREG(info.mode) and bool(x.eq(info.size, size)), 'file')
    x.check(source.lookup('/barr') is None and source.lookup('/bar/x') is None, 'others are not found')
    f = source.open(info, buffering=x.pick('buffer', (-1, 0, 100)))
    g = source.open(info)
    n = [x.int(f'n{k}', 0, 1000) for k in range(4)]
    pos = [0, 0]
    for k, i in enumerate((0, 1, 0)):
        file = (f, g)[i]
        if k == 1:
            file.seek(n[3])
            pos[i] = n[3]
        want = x.min(n[k], x.max(0, size - pos[i]))
        x.check_bytes(file.read(n[k]), want, lambda j, i=i: x.at(base.src, pos[i] + j), 'read')
        pos[i] = pos[i] + want
    off = x.int('off', 0, 1000)
    x.check_bytes(
        source.read(info, n[0], off), x.min(n[0], x.max(0, size - off)), lambda j: x.at(base.src, off + j), 'read at'
    )
    source.__exit__(None, None, None)
    x.check(base.closed, 'closed')
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['in-memory mount sources'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('versions', versions, 'trees with up to 3 versions and 2 levels, symbolic metadata', {}, {}, ['version', 'none']),
    _h('listings', listings, 'trees with up to 3 versions and 2 levels, symbolic metadata', {}, {}, ['opened']),
    _h('hardlinks', hardlinks, '3 names with up to 2 versions, any links between them',
       {'kinds': 4, 'versions': 2}, {'kinds': 6}, ['link', 'older']),
    _h('prefix', prefix, 'prefixes of up to 2 components', {'prefixes': ['p', '/p/q/', '/', 'p//q']},
       {'prefixes': ['p', '/p/q/', '/', 'p//q', '', './p', '/pq']}, ['file', 'folder']),
    _h('single', single, 'file of symbolic size, 3 reads', {}, {}, ['end']),
]
