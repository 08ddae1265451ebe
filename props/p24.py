"""P24: a folder source shows exactly what the folder holds, in lookups, listings and an index of it alike."""
import posixpath
import stat

from props.fusekit import OS, failing
from props.indexkit import fast
from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'file systems behave as modelled in symx/fsmodel.py and SQLite as in symx/sqlmini.py; replays and sampled paths compare '
    'both with the real ones',
    'paths are normalized, as the kernel passes them',
]
OUTSIDE = ['devices, sockets and pipes in the folder', 'names that are not valid Unicode',
           'folders that change while their index is in use']

LINKS = ['f', 'd', 'd/g', '../f', '../d', '../outer/o', '../../outer/o', '../top/f', '../outer', 'none', '../none', 'l',
         './f', 'd/../f', 'd/../../outer/o', '/ROOT/outer/o']
PATHS = ['/', '/f', '/d', '/d/g', '/d/m', '/l', '/l/g', '/f/x', '/d/none', '/d/e', '/none', '/e', '/l/o', '/d/m/o']


def _fill(x):
    """A folder 'top' next to a folder 'outer'; returns the path of the former and the kinds of its entries."""
    fs = x.fs
    fs.add('outer', 'd', mode=0o750, uid=3, gid=4)
    fs.add('outer/o', 'f', x.int('size o', 0, 1000), mode=0o640, mtime=x.int('mtime o', 1, 10**6), content='o', uid=3, gid=4)
    fs.add('top', 'd', mode=0o755)
    kinds = {'/f': 'f', '/d': 'd', '/d/g': 'f'}
    for n in ('/l', '/d/m'):
        target = x.pick('target ' + n, ['-'] + x.cfg['links'])
        if target != '-':
            kinds[n] = 'l' + target.replace('/ROOT', fs.root)
            if n == '/l' and not x.cfg['both']:
                break
    extra = x.pick('empty folder', x.cfg['extra'])
    if extra:
        kinds[extra] = 'd'
    for p, k in kinds.items():
        t, u = x.int('mtime ' + p, 1, 10**6), x.int('uid ' + p, 0, 60000)
        xattrs = {'user.tag': p.encode()} if k == 'f' and x.cfg['xattr'] else None
        if k == 'd':
            fs.add('top' + p, 'd', mode=0o750, uid=u, gid=5)
        elif k == 'f':
            fs.add('top' + p, 'f', x.int('size ' + p, 0, 1000), mode=0o4755 if '/' in p[1:] else 0o644, mtime=t, content=p,
                   uid=u, gid=5, xattrs=xattrs)
        else:
            fs.add('top' + p, 'l', target=k[1:], uid=u, gid=5, mtime=t)
    return fs.root + '/top', kinds


def _stat(real):
    return failing(OS.lstat, real)[0]


def _leaves(root, path, target):
    """Whether the target of the relative link at this path is named via folders outside of the source."""
    depth = path.count('/') - 1
    for part in target.split('/'):
        if part == '..':
            depth -= 1
            if depth < 0:
                return True
        elif part not in ('', '.'):
            depth += 1
    return False


def _expected(root, path):
    """(attributes, link target, path of the file shown) or None."""
    real = root + path.rstrip('/')
    s = _stat(real)
    if s is None:
        return None
    if not stat.S_ISLNK(s.st_mode):
        return s, '', real
    target = OS.readlink(real)
    if not posixpath.isabs(target) and _leaves(root, path, target):
        # the kernel would look for it elsewhere in the mount; show what it refers to unless that is missing
        real2 = OS.path.realpath(real)
        s2 = _stat(real2)
        if s2 is not None:
            return s2, '', real2
    return s, target, real


def _same(x, info, want, label):
    s, target, _ = want
    x.check(info is not None, label + ': found')
    x.check(info.mode == s.st_mode, label + ': mode')
    x.check(x.eq((info.size, info.mtime, info.uid, info.gid),
                 (s.st_size, s.st_mtime, s.st_uid, s.st_gid)), label + ': attributes')
    x.check(info.linkname == target, label + ': link target')


def _opens(x, source, info, want, label, name):
    """The file is opened and read by its file info."""
    s, _, real = want
    if not stat.S_ISREG(s.st_mode):
        return
    data = x.fs.data(real[len(x.fs.root):])
    f = source.open(info, buffering=x.pick('buffering ' + name, x.cfg['buffering']))
    x.check_bytes(f.read(), x.len(data), lambda j: x.byte(data, j), label + ': contents')
    f.close()
    off, n = x.int('off ' + name, 0, 1000), x.int('n ' + name, 0, 1000)
    x.check_bytes(
        source.read(info, n, off), x.min(n, x.max(0, x.len(data) - off)), lambda j: x.byte(data, off + j), label + ': read'
    )
    x.check(source.get_file_path(info) == real or OS.path.samefile(source.get_file_path(info), real), label + ': path')


def plain(x):
    """Lookups and listings of a folder against the folder itself."""
    from ratarmountcore.mountsource.formats.folder import FolderMountSource

    root, kinds = _fill(x)
    before = x.fs.snapshot()
    source = FolderMountSource(root + ('/' if kinds.get('/l') else ''))
    x.check(not source.is_immutable(), 'folders may change')
    path = x.pick('path', x.cfg['paths'])
    want = _expected(root, path)
    info = source.lookup(path)
    x.check((info is None) == (want is None) and source.exists(path) == (want is not None), 'exists')
    x.check(source.versions(path) == (1 if want else 0), 'number of versions')
    x.check(source.lookup(path, fileVersion=x.int('other version', 2, 5)) is None, 'no other versions')
    if want is None:
        x.check(source.list(path) is None and source.list_mode(path) is None, 'missing folders are not listed')
        x.reach('missing')
        return
    _same(x, info, want, 'lookup')
    first = source.lookup(path, fileVersion=1)
    _same(x, first, want, 'first version')
    _opens(x, source, info, want, 'lookup', 'file')
    if stat.S_ISREG(want[0].st_mode) and not want[1] and x.cfg['xattr']:
        x.check(source.list_xattr(info) == OS.listxattr(want[2]), 'attribute names')
        for key in OS.listxattr(want[2]):
            x.check(source.get_xattr(info, key) == OS.getxattr(want[2], key), 'attribute')
            x.reach('xattr')
    listing, modes = source.list(path), source.list_mode(path)
    if not OS.path.isdir(root + path):
        x.check(listing is None and modes is None, 'files are not listed')
        x.reach('file')
    else:
        names = sorted(OS.listdir(root + path))
        x.check(sorted(listing) == names and sorted(modes) == names, 'names')
        # pick one entry to look at
        if names:
            name = x.pick('entry', names)
            below = path.rstrip('/') + '/' + name
            entry = _expected(root, below)
            # a link on the way may lead out of the folder
            if not OS.path.islink(root + path):
                _same(x, listing[name], entry, 'listed')
                x.check(stat.S_IFMT(modes[name]) == stat.S_IFMT(entry[0].st_mode), 'listed kind')
                _opens(x, source, listing[name], entry, 'listed', 'entry')
                if entry[1]:
                    x.reach('link')
                elif stat.S_ISLNK(_stat(root + below).st_mode):
                    x.reach('outside')
            else:
                found = source.lookup(below)
                x.check(x.eq((listing[name].size, listing[name].mtime, listing[name].mode, listing[name].linkname),
                             (found.size, found.mtime, found.mode, found.linkname)), 'listed as found')
    x.check(sorted(x.fs.snapshot()) == sorted(before), 'nothing is changed')


def indexed(x):
    """The index of a folder against the folder itself."""
    from ratarmountcore.mountsource.formats.folder import IndexedFolderMountSource

    fast(x)
    root, kinds = _fill(x)
    source = IndexedFolderMountSource(root, indexFilePath=':memory:')
    x.on_cleanup(source.close)
    path = x.pick('path', x.cfg['paths'])
    s = _stat(root + path.rstrip('/'))
    through_link = any(OS.path.islink(root + path[:k]) for k in range(1, len(path)) if path[k] == '/')
    info = source.lookup(path)
    listing, modes = source.list(path), source.list_mode(path)
    if s is None or through_link:
        x.check(info is None and source.versions(path) == 0, 'missing')
        x.check(listing is None and modes is None, 'missing folders are not listed')
        x.reach('missing')
        return
    if path != '/':
        want = (s, OS.readlink(root + path) if stat.S_ISLNK(s.st_mode) else '', root + path)
        _same(x, info, want, 'lookup')
        x.check(source.versions(path) == 1, 'number of versions')
        _opens(x, source, info, want, 'lookup', 'file')
    else:
        x.check(info is not None and stat.S_ISDIR(info.mode), 'the top is a folder')
    if not stat.S_ISDIR(s.st_mode):
        x.check(listing is None and modes is None, 'files are not listed')
        x.reach('file')
        return
    names = sorted(OS.listdir(root + path))
    if not names:
        x.check((not listing) and (not modes), 'empty folder')
        x.reach('empty')
        return
    x.check(sorted(listing) == names and sorted(modes) == names, 'names')
    name = x.pick('entry', names)
    below = root + path.rstrip('/') + '/' + name
    e = _stat(below)
    want = (e, OS.readlink(below) if stat.S_ISLNK(e.st_mode) else '', below)
    _same(x, listing[name], want, 'listed')
    x.check(stat.S_IFMT(modes[name]) == stat.S_IFMT(e.st_mode), 'listed kind')
    _opens(x, source, listing[name], want, 'listed', 'entry')
    x.reach('entry')


def large(x):
    """The index of a folder with more entries than are added to it at once."""
    from ratarmountcore.mountsource.formats.folder import IndexedFolderMountSource

    fast(x)
    n = x.cfg['entries']
    for k in range(n):
        x.fs.add(f'd/{k:04}', 'f', x.int(f'size {k}', 1, 1000) if k in (0, 1, n - 1) else 7, mtime=k)
    source = IndexedFolderMountSource(x.fs.root + '/d', indexFilePath=':memory:')
    x.on_cleanup(source.close)
    names = source.list_mode('/')
    x.check(len(names) == n, 'all files are listed')
    k = x.pick('which', [0, 1, n - 1])
    info = source.lookup(f'/{k:04}')
    data = x.fs.data(f'd/{k:04}')
    x.check(x.eq(info.size, x.len(data)) and info.mtime == k, 'attributes')
    at = x.int('at', 0, 1000)
    x.check_bytes(source.read(info, 10, at), x.min(10, x.max(0, x.len(data) - at)), lambda j: x.byte(data, at + j), 'contents')
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['file system', 'SQLite'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('plain', plain, 'folder with up to 7 entries in 2 levels, links inside and outside of it, any sizes and times',
       {'links': LINKS, 'both': False, 'paths': PATHS, 'xattr': True, 'extra': ('',), 'buffering': (-1,)},
       {'links': LINKS, 'both': True, 'paths': PATHS, 'xattr': True, 'extra': ('', '/d/e', '/e'), 'buffering': (-1, 0)},
       ['missing', 'file', 'link', 'outside', 'xattr']),
    _h('indexed', indexed, 'folder with up to 7 entries in 2 levels, links inside and outside of it, any sizes and times',
       {'links': LINKS[:8], 'both': False, 'paths': PATHS, 'xattr': False, 'extra': ('/d/e', '/e'), 'buffering': (-1,)},
       {'links': LINKS, 'both': True, 'paths': PATHS, 'xattr': False, 'extra': ('', '/d/e', '/e'), 'buffering': (-1, 0)},
       ['missing', 'file', 'entry', 'empty']),
    _h('large', large, '1001 files, 3 of them of any sizes', {'entries': 1001}, {'entries': 2001}, ['end']),
]
