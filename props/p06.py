"""P06: a mounted TAR archive shows each member with its own metadata and contents."""
import base64
import stat

from symx.runner import Harness

from . import bytekit, indexkit, tarkit
from .filecheck import drive_file

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'SQLite as modelled in symx/sqlmini.py',
    'tarfile yields the members of the archive from where the given file object starts',
    'without the lock, other threads may move the file at any time',
]
OUTSIDE = ['parsing the headers (tarfile)', 'volume labels and continued members of multi-volume archives',
           'compressed archives', 'members of nested archives that end in the middle of a header',
           'ignore-zeros mode other than to recognize GNU incremental archives']

FORMAT = {'f': stat.S_IFREG, 'a': stat.S_IFREG, 'c': stat.S_IFREG, 'S': stat.S_IFREG, 't': stat.S_IFREG, 'd': stat.S_IFDIR,
          's': stat.S_IFLNK, 'l': 0, 'C': stat.S_IFCHR, 'B': stat.S_IFBLK, 'F': stat.S_IFIFO, 'D': stat.S_IFREG}


def _opened(x, archive, path, stored, **options):
    """The mounted archive, created just now or loaded, whose file needs the lock for accesses."""
    indexkit.fast(x)
    indexkit.tokens(x)
    x.fs.add('archive', 'h', size=archive.size, mtime=1)
    options = {'indexFilePath': x.fs.root + '/i' if stored else None, 'indexFolders': [], 'writeIndex': stored} | options
    if stored:
        tarkit.mount(x, archive, path, **options).close()
    source = tarkit.mount(x, archive, path, **options)
    source.fileObjectLock = x.lock()
    source.tarFileObject = tarkit.Placed(x.file('T', archive.size, source.fileObjectLock), archive)
    return source


def _read(x, source, info, offset, size, label):
    """Some range of a file."""
    at = x.int('at', 0, x.cfg['span'])
    n = x.int('n', 0, x.cfg['span'])
    want = x.min(n, x.max(0, size - at))
    T = source.tarFileObject.src
    how = x.pick('how', x.cfg['hows'])
    if how == 'read':
        data = source.read(info, n, at)
    else:
        with source.open(info, **({'buffering': 0} if how == 'raw' else {})) as f:
            f.seek(at)
            data = f.read(n)
    x.check_bytes(data, want, lambda j: x.at(T, offset + at + j), f'{label}: {how}')
    x.reach(how)


def members(x):
    """Members of all kinds with any metadata."""
    path = x.fs.root + '/archive'
    kinds = x.pick('kinds', x.cfg['kinds'])
    made = []
    at = 0
    for k, kind in enumerate(kinds):
        attrs = {name: x.int(f'{name}{k}', 0, top) for name, top in
                 (('mode', 0o7777), ('uid', 1 << 31), ('gid', 1 << 31), ('mtime', 1 << 40))}
        if x.cfg['typed'] and k == 0 and kind != 'D' and x.flag('typed'):
            # Some programs store the type in the mode, too.
            attrs['mode'] = attrs['mode'] + FORMAT[kind]
        pax = {}
        if k == 0:
            pax = x.pick('xattrs', [{}, {'SCHILY.xattr.user.k': 'v', 'path': 'a'},
                                    {'LIBARCHIVE.xattr.user.k%20': base64.b64encode(b'vw').decode().rstrip('=')}])
        size = x.int(f'size{k}', 0, 1 << 33) if kind in 'fcaD' else 0
        folder = x.pick('folder', ['', 'd/']) if k == 0 else ''
        made.append(tarkit.Member(folder + 'abc'[k], at, x.int(f'headers{k}', 1, 3), size, kind, linkname='d/a' if kind in 'ls' else '',
                                  attrs=attrs, pax=pax))
        at = made[-1].end
    archive = tarkit.Archive(made, at + 1024)
    source = _opened(x, archive, path, x.flag('stored'), isGnuIncremental=False, recursive=False)
    for k, m in enumerate(made):
        listed = source.list('/' + m.name.rpartition('/')[0])
        infos = [('looked up', source.lookup('/' + m.name)), ('listed', listed.get(m.name.rpartition('/')[2]))]
        if m.kind == 'D':
            infos = [('file of folder', source.lookup('/' + m.name, 1))]
            folder = source.lookup('/' + m.name)
            x.check(stat.S_ISDIR(folder.mode), 'dumped folder')
        for label, info in infos:
            label = f'{m.kind} {label}'
            x.check(info is not None, label)
            x.check(x.eq(info.mode, x.ite(m.attrs['mode'] >= 0o10000, m.attrs['mode'], m.attrs['mode'] + FORMAT[m.kind])),
                    label + ': mode')
            for name in ('uid', 'gid', 'mtime'):
                x.check(x.eq(getattr(info, name), m.attrs[name]), f'{label}: {name}')
            x.check(x.eq(info.size, m.size), label + ': size')
            x.check(info.linkname == m.linkname, label + ': link')
            want = {'user.k': b'v'} if 'SCHILY.xattr.user.k' in m.pax else {'user.k ': b'vw'} if m.pax else {}
            x.check(sorted(source.list_xattr(info)) == sorted(want), label + ': attributes')
            for key, value in want.items():
                x.check(source.get_xattr(info, key) == value, label + ': value')
    which = x.choose('which', len(made))
    m = made[which]
    if m.kind in 'fca':
        _read(x, source, source.lookup('/' + m.name), m.offset, m.size, m.kind)
    x.check(set(source.list('/')) == {m.name.split('/')[0] for m in made}, 'names')
    source.close()


def sparse(x):
    """Sparse members with any map in which the data is in the order of the holes."""
    import ratarmountcore.mountsource.formats.tar as module

    path = x.fs.root + '/archive'
    top = x.cfg['top']
    n = x.choose('chunks', x.cfg['chunks'] + 1)
    spread, end, stored = [], 0, 0
    for k in range(n):
        gap, size = x.int(f'gap{k}', 0, top), x.int(f'chunk{k}', 0, top)
        if k < n - 1:
            x.assume(size % 512 == 0)
        if k:
            x.assume(gap > 0)
        spread.append((end + gap, size))
        end = end + gap + size
        stored = stored + size
    size = end + x.int('rest', 0, top)
    ending = x.pick('ending', ['none', 'empty', 'zero'])
    if ending == 'empty':
        spread.append((size, 0))
    elif ending == 'zero':
        spread.append((0, 0))
    x.assume(len(spread) > 0)
    # The size in the header may be the one that is stored, see https://github.com/python/cpython/issues/136601
    attrs = {}
    outer, compact = x.pick('where', x.cfg['where'])
    pax = {}
    if compact:
        pax = {'GNU.sparse.realsize': size, 'size': stored}
        attrs = {'size': stored}
    first = tarkit.Member('a', 0, 1, x.int('before', 0, top), 'f')
    at = first.end
    blocks = x.int('blocks', 1, 3)
    if outer:
        at = at + 512
    s = tarkit.Member('s', at, blocks, size, 'S', sparse=spread, attrs=attrs, pax=pax)
    inner = tarkit.Member('b', s.end, 1, x.int('after', 0, top), 'f')
    if outer:
        made = [first, tarkit.Member('t.tar', first.end, 1, inner.end + 1024 - at, 't', [s, inner])]
    else:
        made = [first, s, inner]
    archive = tarkit.Archive(made, made[-1].end + 1024)
    source = _opened(x, archive, path, False, isGnuIncremental=False, recursive=True)
    T = source.tarFileObject.src
    # Reading the sparse map needs to find the header again.
    x.patch(module, 'tarfile', tarkit.Module(x, source.tarFileObject))
    folder = '/t.tar/' if outer else '/'
    info = source.lookup(folder + 's')
    x.check(x.eq(info.size, size), 'size')

    def want(j):
        r = 0
        offset = s.offset
        for start, length in spread:
            r = x.ite(x.and_(j >= start, j < start + length), x.at(T, offset + (j - start)), r)
            offset = offset + length
        return r

    if x.cfg['ops'] and x.flag('mapped'):
        f = source.open(info, buffering=0)
        drive_file(x, f, size, want, x.cfg['ops'], 2 * top, kinds=('set', 'read'))
    else:
        at, count = x.int('at', 0, 4 * top), x.int('n', 0, 4 * top)
        data = source.read(info, count, at)
        x.check_bytes(data, x.min(count, x.max(0, size - at)), lambda j: want(at + j), 'read')
    x.reach('nested' if outer else 'plain')


def recursive(x):
    """Archives inside the archive, files that only look like archives, stripped and transformed mount points."""
    path = x.fs.root + '/archive'
    depth = x.pick('depth', x.cfg['depths'])
    options = x.pick('naming', [{}, {'stripRecursiveTarExtension': True}, {'transformRecursiveMountPoint': ('[.](t)ar$', r'-\1')},
                                {'transformRecursiveMountPoint': ('(.*)/(.*)[.]tar', r'/m/\2')}])
    made = []
    at = 0

    def add(name, kind, members=lambda start: [], end=lambda m, start: 0):
        nonlocal at
        blocks = x.int(f'headers.{name}', 1, 2)
        start = at + 512 * blocks
        inner = members(start)
        size = end(inner, start) if inner or kind == 't' else x.int(f'size.{name}', 0, x.cfg['span']) if kind == 'f' else 0
        made.append(tarkit.Member(name, at, blocks, size, kind, inner))
        at = made[-1].end

    def several(start, names, deeper=False):
        out = []
        for name in names:
            size = x.int(f'inner.{name}', 0, x.cfg['span'])
            out.append(tarkit.Member(name, start, 1, size, 'f'))
            start = out[-1].end
        if deeper:
            inner = several(start + 512, ['u'])
            out.append(tarkit.Member('e/n.tar', start, 1, inner[-1].end + 1024 - start - 512, 't', inner))
        return out

    stop = lambda inner, start: (inner[-1].end if inner else start) + 1024 - start
    for what in x.pick('layout', x.cfg['layouts']):
        if what == 'nested':
            add('t.tar', 't', lambda start: several(start, ['x'], deeper=True), stop)
        elif what == 'empty':
            add('o.tar', 't', lambda start: [], stop)
        elif what == 'upper':
            add('d/T.TAR', 't', lambda start: several(start, ['x']), stop)
        elif what == 'fake':
            add('k.tar', 'f')
        elif what == 'file':
            add('f', 'f')
        elif what == 'folder':
            add('d', 'd')
    archive = tarkit.Archive(made, at + 1024)
    source = _opened(x, archive, path, x.flag('stored'), isGnuIncremental=False, recursive=depth is True,
                     recursionDepth=None if depth is True else depth, **options)
    limit = 100 if depth is True else depth
    files, folders = {}, {}

    def place(members, prefix, level):
        import re

        for m in members:
            full = prefix + '/' + m.name
            if m.kind == 'd':
                folders.setdefault(full, None)
                continue
            files.setdefault(full, []).append(m)
            if m.kind == 't' and level < limit:
                mount = full[:-4] if options.get('stripRecursiveTarExtension') else full
                if 'transformRecursiveMountPoint' in options:
                    mount = re.sub(*options['transformRecursiveMountPoint'], mount)
                folders[mount] = m
                place(m.members, mount, level + 1)

    place(archive.members, '', 0)
    for full in list(folders) + list(files):
        while '/' in full[1:]:
            full = full.rpartition('/')[0]
            folders.setdefault(full, None)
    everything = set(files) | set(folders)
    for full in sorted(everything):
        info = source.lookup(full)
        x.check(info is not None, full + ' exists')
        x.check(stat.S_ISDIR(info.mode) == (full in folders), full + ' kind')
        if full not in folders:
            x.check(x.eq(info.size, files[full][-1].size), full + ' size')
        x.check(source.versions(full) == len(files.get(full, [])) + (full in folders), full + ' versions')
        folder, name = full.rsplit('/', 1)
        x.check(name in (source.list(folder or '/') or {}), full + ' is listed')
    for folder in [''] + sorted(folders):
        got = set(source.list(folder or '/') or {})
        x.check(got == {p.rsplit('/', 1)[1] for p in everything if p.rsplit('/', 1)[0] == folder}, folder + ' listing')
        x.check(set(source.list_mode(folder or '/') or {}) == got, folder + ' modes')
    full = x.pick('which', sorted(files))
    m = files[full][-1]
    info = source.lookup(full, 1 if full in folders else 0)
    x.check(info is not None and stat.S_ISREG(info.mode), full + ' is a file')
    x.check(x.eq(info.size, m.size), full + ' size')
    _read(x, source, info, m.offset, m.size, full)
    x.reach('fake' if m.kind == 'f' and m.name.endswith('.tar') else 'archive' if m.kind == 't' else 'inside' if full not in
            made_names(made) else 'outside')


def incremental(x):
    """GNU incremental archives: recognized, and shown without the times in front of the names."""
    indexkit.fast(x)
    indexkit.tokens(x)
    stamp = b'13666753432\0' + x.pick('second', [b'13666377326\0', b'\0' * 12, b'\1\2/'])
    kinds = x.pick('kinds', x.cfg['kinds'])
    parts, made, at = [], [], 0

    def block(name, kind, size, prefix=b'', magic=b'ustar  \0'):
        return (name.ljust(100, b'\0') + b'0000644\0' * 3, size,
                b'\0' + b'00000000005\0' + b'0000000\0' + kind + bytes(100) + magic.ljust(88, b'\0') + prefix.ljust(155, b'\0') + bytes(12))

    def add(*pieces):
        nonlocal at
        for p in pieces:
            parts.append(p)
            at = at + x.len(p)

    def data(name, n):
        add(x.segment(x.source(name), 0, n), bytes((-n) % 512) if isinstance(n, int) else x.segment(x.source(name + ' padding'), 0, (-n) % 512))

    for k, kind in enumerate(kinds):
        start = at
        name, link = 'd/' + 'fgh'[k], ''
        digits, size = bytekit.number(x, f'size{k}', 4, 8) if kind in 'fLo' else (b'0000', 0)
        digits = bytekit.join(x, [b'0000000', digits])
        flag = {'D': b'D', 'K': b'2'}.get(kind, b'0')
        prefix = b'' if kind in 'op' else stamp
        if kind in 'LK':
            n = x.pick(f'long{k}', x.cfg['long'])
            if kind == 'L':
                name = 'd/' + 'l' * (n - 3)
            else:
                link = 'l' * (n - 1)
            add(*block(b'././@LongLink', kind.encode(), b'%011o' % n), (name if kind == 'L' else link).encode() + b'\0', bytes((-n) % 512))
        if kind == 'p':
            size = 1024
            record = x.pick(f'record{k}', [b'13 size=1024\n', b'9 uid=12\n13 size=1024\n', b'13 size=1024\n9 uid=12\n'])
            add(*block(b'x', b'x', b'%011o' % len(record)), record, bytes(512 - len(record)))
        if kind == 'D':
            name = 'd'
        add(*block(name.encode()[:100], flag, digits, prefix))
        offset = at
        data(f'contents{k}', size)
        shown = name if kind in 'Lop' else '13666753432/' + name
        made.append((name, kind, size, offset))
        m = tarkit.Member(shown, start, 1, size, {'K': 's', 'D': 'D'}.get(kind, 'f'), linkname=link)
        m.offset, m.end = offset, at
        made[-1] += (m,)
        if k == 0 and x.cfg['zeros'] and x.flag('zeros'):
            add(bytes(1024))
    archive = tarkit.Archive([m for *_, m in made], at + 1024)
    contents = bytekit.join(x, [*parts, bytes(1024)])
    x.fs.add('archive', 'h', size=archive.size, mtime=1)
    options = {'indexFilePath': x.fs.root + '/i', 'indexFolders': [], 'writeIndex': True, 'recursive': False, 'ignoreZeros': True,
               'isGnuIncremental': x.pick('given', [None, True])}

    def mount():
        file = tarkit.Placed(bytekit.BytesFile(x, 'T', contents), archive)
        source = tarkit.mount(x, archive, x.fs.root + '/archive', file=file, **options)
        source.tarFileObject = file
        return source

    source = mount()
    if x.flag('again'):
        source.close()
        source = mount()
    x.check(bool(source._isGnuIncremental), 'recognized')
    for k, (name, kind, size, offset, m) in enumerate(made):
        info = source.lookup('/' + name)
        x.check(info is not None, kind + ' found')
        if kind == 'D':
            x.check(stat.S_ISDIR(info.mode), kind + ' is a folder')
            info = source.lookup('/' + name, 1)
        x.check(stat.S_ISLNK(info.mode) if kind == 'K' else stat.S_ISREG(info.mode), kind + ' type')
        x.check(x.eq(info.size, size) and info.linkname == m.linkname, kind + ' size and link')
        if kind in 'fLop':
            i = x.int(f'at{k}', 0, 1 << 13)
            x.check_bytes(source.read(info, 5, i), x.min(5, x.max(0, size - i)), lambda j: x.at(x.source(f'contents{k}'), i + j), kind + ' read')
    x.check(set(source.list('/')) == {'d'}, 'names')
    x.reach('end')


def made_names(members):
    return {'/' + m.name for m in members}


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)', 'tarfile (props/tarkit.py)'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('members', members, '2 members of 11 kinds, any metadata, sizes to 8 GiB',
       {'kinds': ['ff', 'da', 'sc', 'lf', 'Cf', 'Bf', 'Fa', 'Df'], 'span': 1 << 34, 'typed': True, 'hows': ['read', 'open', 'raw']},
       {'kinds': [a + b for a in 'facdslCBFD' for b in 'facdslCBFD']}, ['read', 'open', 'raw']),
    _h('sparse', sparse, 'up to 2 chunks of any sizes, any holes', {'chunks': 2, 'top': 1 << 16, 'ops': 0, 'where': [(True, False), (False, True)]},
       {'chunks': 3, 'ops': 2, 'where': [(a, b) for a in (False, True) for b in (False, True)]},
       ['nested', 'plain']),
    _h('recursive', recursive, 'archives nested 2 deep, any sizes and offsets',
       {'depths': [True, 0, 1], 'hows': ['open'], 'span': 1 << 20, 'layouts': [('nested', 'file'), ('empty', 'fake'), ('upper', 'folder'), ('fake', 'nested')]},
       {'depths': [True, 0, 1, 2], 'hows': ['read', 'open', 'raw'], 'layouts': [(a, b, 'file') for a in ('nested', 'empty', 'upper', 'fake') for b in
                                               ('nested', 'empty', 'upper', 'fake', 'folder') if a != b]},
       ['fake', 'archive', 'inside', 'outside']),
    _h('incremental', incremental, '2 members of any sizes up to 4 KiB, long names and links of 4 lengths',
       {'kinds': ['Df', 'fD', 'LD', 'KD', 'pD', 'oD'], 'long': [101, 511, 512, 513], 'zeros': True},
       {'kinds': [a + b for a in 'fLKpoD' for b in 'fLKpoD' if 'D' in a + b] + ['LKD', 'pfD'], 'long': [101, 511, 512, 513, 1024]}, ['end']),
]
