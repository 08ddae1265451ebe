"""P12: the mount shows what the sources hold, open files do not disturb each other, and nothing can be changed."""
import errno
import os
import stat

from props.fakesource import make_class, normal
from props.fusekit import OS, failing, mount
from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = ['file systems behave as modelled in symx/fsmodel.py; replays and sampled paths compare it with the real one']
OUTSIDE = ['the kernel side of FUSE and mfusepy', 'trees and histories larger than the stated ones']

TREES = [
    {'/f': ['f'], '/d': ['d'], '/d/g': ['f', 'f'], '/l': ['ld/g'], '/e': ['d']},
    {'/f': ['f'], '/d': ['d'], '/d/h': ['f'], '/d/e': ['d'], '/d/e/l': ['lx']},
]
PATHS = ['/', '/f', '/d', '/d/g', '/d/h', '/d/e', '/d/e/l', '/l', '/e', '/f/x', '/none', '/d/none']


def _sources(x):
    source = make_class(x, eighths=True)
    return [source(n, t, listing=x.pick('listing ' + n, x.cfg['listings'])) for n, t in zip('ab', TREES)]


def _mount(x, sources, names=('a.tar', 'b.tar'), **options):
    given = []
    for s, n in zip(sources, names):
        x.fs.add(n, 'f', 10)
        given.append((x.fs.root + '/' + n, s))
    return mount(x, given, **options)


def _expected(sources, path):
    """The source whose file is visible at a path of the union, and the version in it."""
    for s in reversed(sources):
        if s.count(path) and path != '/':
            return s, s.count(path) - 1
    return None


def _same_attr(x, attr, info, label):
    x.check(
        x.eq((attr['st_size'], attr['st_mode'], attr['st_uid'], attr['st_gid'], attr['st_mtime']),
             (info.size, info.mode, info.uid, info.gid, info.mtime * 10**9)), label + ': attributes')
    x.check(x.and_(attr['st_blocks'] * 512 >= info.size, attr['st_blocks'] * 512 < info.size + 512), label + ': blocks')
    x.check(attr['st_nlink'] >= 1, label + ': links')


def attributes(x):
    """getattr, readdir, readlink and extended attributes of every path."""
    sources = _sources(x)[: 1 + x.choose('sources', 2)]
    for k, s in enumerate(sources):
        s.immutable = x.flag(f'immutable {k}')
    m = _mount(x, sources, enableFileVersions=x.flag('versions'))
    path = x.pick('path', PATHS)
    hit = _expected(sources, path)
    stats = m.statfs(path)
    x.check(stats['f_bsize'] >= 256 * 1024 and stats['f_frsize'] >= 256 * 1024, 'block size')
    if path == '/':
        x.check(stat.S_ISDIR(m.getattr(path)['st_mode']), 'the top is a folder')
    elif hit is None:
        for f in (lambda: m.getattr(path), lambda: m.readlink(path), lambda: m.open(path, os.O_RDONLY),
                  lambda: m.listxattr(path), lambda: m.getxattr(path, 'user.tag')):
            x.check(failing(f)[1] == errno.ENOENT, 'missing files are reported as missing')
        x.reach('missing')
        return
    else:
        s, k = hit
        own = s.info(path, k)
        _same_attr(x, m.getattr(path), own, 'getattr')
        x.check(m.readlink(path) == own.linkname, 'link target')
        x.check(sorted(m.listxattr(path)) == sorted(s.list_xattr(own)), 'attribute names')
        x.check(m.getxattr(path, 'user.tag') == s.get_xattr(own, 'user.tag'), 'attribute')
        x.check(m.getxattr(path, 'user.empty') == b'', 'empty attribute')
        x.check(failing(lambda: m.getxattr(path, 'user.none'))[1] == errno.ENODATA, 'missing attribute')
        x.check(failing(lambda: m.getxattr(path, 'user.tag', 5))[1] is not None, 'positions in attributes are refused')
        x.reach('found')
    if path == '/' or stat.S_ISDIR(own.mode):
        want = set()
        for s in sources:
            want |= set(s.children(path) or ())
        entries = list(m.readdir(path, 0))
        names = [e if isinstance(e, str) else e[0] for e in entries]
        x.check(sorted(names) == sorted(want | {'.', '..'}), 'names listed')
        for e in entries:
            if not isinstance(e, str):
                p = normal(path + '/' + e[0])
                if e[0] == '.':
                    p = path
                elif e[0] == '..':
                    x.check(stat.S_ISDIR(e[1]), 'the folder above is a folder')
                    continue
                x.check(x.eq(stat.S_IFMT(e[1]), stat.S_IFMT(m.getattr(p)['st_mode'])), 'listed kind of file')
        x.reach('listed')


def handles(x):
    """Interleaved reads through several open files."""
    sources = _sources(x)
    m = _mount(x, sources, enableFileVersions=x.flag('versions'))
    files = ['/f', '/d/g', '/d/h']
    opened = {}

    def closed():
        return [f for f in sources[0].files + sources[1].files if f.closed]

    for k in range(x.cfg['ops']):
        op = x.pick(f'op{k}', ['open', 'read', 'release'])
        if op == 'open':
            path = x.pick(f'path{k}', files)
            fh = m.open(path, os.O_RDONLY)
            x.check(fh not in opened, 'handles of open files differ')
            opened[fh] = path
            continue
        x.assume(len(opened) > 0)
        fh = list(opened)[x.choose(f'which{k}', len(opened)) if len(opened) > 1 else 0]
        if op == 'release':
            m.flush(opened[fh], fh)
            m.release(opened[fh], fh)
            x.check(failing(lambda: m.release(opened[fh], fh))[1] is not None, 'a released handle is gone')
            x.check(len(closed()) == len(sources[0].files + sources[1].files) - len(opened) + 1, 'released files are closed')
            del opened[fh]
            continue
        path = opened[fh]
        s, v = _expected(sources, path)
        off, n = x.int(f'off{k}', 0, 1200), x.int(f'n{k}', 0, 1200)
        data = m.read(path, n, off, fh)
        size = s.info(path, v).size
        name = f'{s.name}{path}#{v}'
        x.check_bytes(data, x.min(n, x.max(0, size - off)), lambda j: x.at(x.source(name), off + j), 'read')
        x.reach('read')
    stale = max(list(opened) + [0]) + 1000
    path = x.pick('stale path', files)
    off, n = x.int('off', 0, 1200), x.int('n', 0, 1200)
    data = m.read(path, n, off, stale)
    s, v = _expected(sources, path)
    name = f'{s.name}{path}#{v}'
    size = s.info(path, v).size
    x.check_bytes(data, x.min(n, x.max(0, size - off)), lambda j: x.at(x.source(name), off + j), 'read without handle')
    x.check(failing(lambda: m.release(path, stale))[1] is not None, 'releasing an unknown handle is refused')


def versions(x):
    """Version folders are reachable through the mount."""
    sources = _sources(x)
    m = _mount(x, sources)
    path = x.pick('path', ['/f', '/d/g', '/d/h', '/d/e/l'])
    history = [(s, k) for s in sources for k in range(s.count(path))]
    names = [e if isinstance(e, str) else e[0] for e in m.readdir(path + '.versions', 0)]
    x.check(sorted(n for n in names if n not in ('.', '..')) == sorted(str(k + 1) for k in range(len(history))),
            'versions listed')
    k = x.choose('version', len(history))
    s, v = history[k]
    own = s.info(path, v)
    p = f'{path}.versions/{k + 1}'
    _same_attr(x, m.getattr(p), own, 'version')
    x.check(m.readlink(p) == own.linkname, 'version: link target')
    if stat.S_ISREG(own.mode):
        fh = m.open(p, os.O_RDONLY)
        off, n = x.int('off', 0, 1200), x.int('n', 0, 1200)
        name = f'{s.name}{path}#{v}'
        x.check_bytes(m.read(p, n, off, fh), x.min(n, x.max(0, own.size - off)), lambda j: x.at(x.source(name), off + j),
                      'version: read')
        m.release(p, fh)
    x.check(failing(lambda: m.getattr(f'{path}.versions/{len(history) + 1}'))[1] == errno.ENOENT, 'no such version')
    x.reach('version')


def readonly(x):
    """Nothing can be changed without a write overlay."""
    sources = [make_class(x)('a', TREES[0])] if x.flag('archive') else []
    if sources:
        m = _mount(x, sources)
    else:
        x.fs.add('folder', 'd')
        x.fs.add('folder/f', 'f', x.int('size', 0, 1000))
        x.fs.add('folder/d/g', 'f', x.int('size2', 0, 1000))
        m = mount(x, [(x.fs.root + '/folder', None)])
    before = x.fs.snapshot()
    path = x.pick('path', ['/f', '/d', '/d/g', '/n', '/d/n'])
    n, off = x.int('n', 0, 1000), x.int('off', 0, 1000)
    data = x.segment(x.source('new'), 0, n)
    mode = x.int('mode', 0, 0o777)

    def write(flags):
        fh = m.open('/f', flags)
        try:
            return m.write('/f', data, off, fh)
        finally:
            m.flush('/f', fh)
            m.fsync('/f', 0, fh)
            m.release('/f', fh)

    ops = {
        'chmod': lambda: m.chmod(path, mode),
        'chown': lambda: m.chown(path, 5, 6),
        'create': lambda: m.create(path, stat.S_IFREG | mode),
        'link': lambda: m.link(path, '/f'),
        'mkdir': lambda: m.mkdir(path, mode),
        'mknod': lambda: m.mknod(path, stat.S_IFREG | mode, 0),
        'rename': lambda: m.rename(path, x.pick('new', ['/n', '/d/n', '/f'])),
        'rmdir': lambda: m.rmdir(path),
        'symlink': lambda: m.symlink(path, 'f'),
        'truncate': lambda: m.truncate(path, n),
        'unlink': lambda: m.unlink(path),
        'utimens': lambda: m.utimens(path, (5, 5)),
        'write': lambda: write(os.O_WRONLY),
        'write, truncating': lambda: write(os.O_RDWR | os.O_TRUNC),
        'read only': lambda: write(os.O_RDONLY),
    }
    op = x.pick('op', list(ops))
    result, e = failing(ops[op])
    # utimens is answered without an error and without effect by mfusepy
    x.check(e == errno.EROFS or (op == 'utimens' and e is None), f'{op} is refused on a read-only mount')
    after = x.fs.snapshot()
    x.check(sorted(after) == sorted(before), 'no files appear or vanish')
    for p, a in after.items():
        b = before[p]
        if not p.startswith('/mounted'):
            x.check(x.eq((a[:3], a[4:]), (b[:3], b[4:])), 'metadata is unchanged')
        if a[0] == 'f':
            x.check_bytes(a[3], x.len(b[3]), lambda j, b=b: x.byte(b[3], j), 'contents are unchanged')
    x.reach('refused')


def separate(x):
    """Sources shown in subfolders instead of a union."""
    names = x.pick('names', x.cfg['names'])
    source = make_class(x)
    sources = [source(f's{k}', {f'/f{k}': ['f'], '/same': ['f']}) for k in range(len(names))]
    given = []
    for k, n in enumerate(names):
        x.fs.add(f'in{k}/{n}', 'f', 10)
        given.append((f'{x.fs.root}/in{k}/{n}', sources[k]))
    m = mount(x, given, disableUnionMount=True)
    top = [e if isinstance(e, str) else e[0] for e in m.readdir('/', 0)]
    top = [n for n in top if n not in ('.', '..')]
    x.check(len(top) == len(names), 'every source has its own folder')
    seen = set()
    for folder in top:
        listed = {e if isinstance(e, str) else e[0] for e in m.readdir('/' + folder, 0)} - {'.', '..'}
        k = [k for k in range(len(names)) if f'f{k}' in listed]
        x.check(len(k) == 1 and listed == {f'f{k[0]}', 'same'}, 'a folder shows one source')
        x.check(folder == names[k[0]] or folder.startswith(names[k[0]]), 'the folder is named after the source')
        seen.add(k[0])
        path = f'/{folder}/same'
        own = sources[k[0]].info('/same', 0)
        _same_attr(x, m.getattr(path), own, 'getattr')
        fh = m.open(path, os.O_RDONLY)
        x.check(x.eq(x.len(m.read(path, 2000, 0, fh)), own.size), 'size')
    x.check(seen == set(range(len(names))), 'every source is shown')
    x.reach('shown')


HARNESSES = [
    Harness('attributes', attributes, 'one or two small trees, 12 paths; sizes and times symbolic',
            quick=dict(listings=['dict', 'names'])),
    Harness('handles', handles, 'up to 4 (thorough: 5) opens, reads and releases on 3 files; sizes, offsets, lengths symbolic',
            quick=dict(ops=4, listings=['dict']), thorough=dict(ops=6)),
    Harness('versions', versions, 'two small trees with up to three versions of a file', quick=dict(listings=['dict', 'names'])),
    Harness('readonly', readonly, '15 kinds of changes on 5 paths of an archive and a folder; sizes, offsets, modes symbolic',
            quick=dict()),
    Harness('separate', separate, 'up to four sources with clashing names',
            quick=dict(names=[('a', 'b'), ('a', 'a'), ('a', 'a.1', 'a'), ('a', 'a', 'a.1'), ('a', 'a', 'b', 'b'),
                              ('b', 'b', 'a', 'a'), ('a', 'a.1', 'a.2', 'a'), ('a.1', 'a', 'a', 'a.1')])),
]
for h, r in zip(HARNESSES, (['found', 'missing', 'listed'], ['read'], ['version'], ['refused'], ['shown'])):
    h.must_reach = r
