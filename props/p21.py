"""P21: archives that are read through libraries show every member with its metadata and contents."""
import calendar
import datetime
import io
import os
import posixpath
import stat
import struct
import time
import zipfile

from symx.runner import Harness

from . import bytekit, indexkit, lakit

LEVEL = 'model_checking'
ASSUMPTIONS = ['the libraries (zipfile, rarfile, libarchive) return what the archive contains']
OUTSIDE = ['archives that contain members below paths that are files or links', 'encrypted archives',
           'RAR and SQLAR archives with several members at the same path', 'contents of files in SQLAR archives (P03)']

LENGTHS = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _length(x, y, m):
    """Days of a month from 1980 to 2107, 0 for months that do not exist."""
    days = 0
    for k in range(1, 13):
        days = x.ite(m == k, LENGTHS[k], days)
    leap = x.and_(m == 2, y % 4 == 0, x.not_(y == 2100))
    return days + x.ite(leap, 1, 0)


def _valid(x, t):
    return x.and_(t[1] >= 1, t[1] <= 12, t[2] >= 1, t[2] <= _length(x, t[0], t[1]), t[3] < 24, t[4] < 60, t[5] < 60)


def _seconds(x, t):
    """Time of a valid date."""
    days = 365 * (t[0] - 1970) + (t[0] - 1969) // 4 + t[2] - 1
    days = days - x.ite(t[0] > 2100, 1, 0)
    total = 0
    for k in range(1, 13):
        days = days + x.ite(t[1] == k, total, 0)
        total += LENGTHS[k]
    days = days + x.ite(x.and_(t[1] > 2, t[0] % 4 == 0, x.not_(t[0] == 2100)), 1, 0)
    return ((days * 24 + t[3]) * 60 + t[4]) * 60 + t[5]


def _zone(name):
    os.environ.pop('TZ', None)
    if name is not None:
        os.environ['TZ'] = name
    time.tzset()


class _Datetime:
    """datetime.datetime for symbolic years from 1980 to 2107."""

    def __init__(self, x):
        self.x = x

    def __call__(self, *t, tzinfo=None):
        if not _valid(self.x, t):
            raise ValueError('invalid date')
        return _Time(self.x, t, tzinfo)


class _Time:
    def __init__(self, x, t, zone):
        self.x, self.t, self.zone = x, t, zone

    def replace(self, tzinfo):
        return _Time(self.x, self.t, tzinfo)

    def timestamp(self):
        self.x.check(self.zone is datetime.timezone.utc, 'time zone')
        return _seconds(self.x, self.t)

    def timetuple(self):
        return self

    utctimetuple = timetuple


class _Module:
    def __init__(self, base, **names):
        self._base = base
        self.__dict__.update(names)

    def __getattr__(self, name):
        return getattr(self._base, name)


def _times(x, module):
    if not x.symbolic:
        # Times in archives are the same in all time zones.
        before = os.environ.get('TZ')
        x.on_cleanup(lambda: _zone(before))
        _zone('ABC-5')
    if x.symbolic:
        if hasattr(module, 'datetime'):
            x.patch(module, 'datetime', _Module(datetime, datetime=_Datetime(x)))
        if hasattr(module, 'calendar'):
            x.patch(module, 'calendar', _Module(calendar, timegm=lambda t: _seconds(x, t.t if isinstance(t, _Time) else t)))


def _date(x, k):
    """What zipfile and rarfile return for any DOS time."""
    if x.cfg['dates'] <= k:
        return [(2001, 2, 3, 4, 5, 6), (1980, 0, 0, 0, 0, 0), (2100, 3, 1, 23, 59, 58)][k % 3]
    return (x.int(f'year{k}', 1980, 2107), x.int(f'month{k}', 0, 15), x.int(f'day{k}', 0, 31), x.int(f'hour{k}', 0, 31),
            x.int(f'minute{k}', 0, 63), 2 * x.int(f'second{k}', 0, 31))


def _place(name):
    """The path of a member."""
    path = posixpath.normpath(name)
    while path.startswith('../'):
        path = path[3:]
    return '/' + path.strip('/')


def _tree(x, members):
    """path -> members, oldest first; None for folders that are no members. Files have nothing below."""
    tree = {}
    for m in members:
        tree.setdefault(m.place, []).append(m)
    for m in members:
        parts = m.place.split('/')
        for k in range(2, len(parts)):
            parent = '/'.join(parts[:k])
            x.assume(all(p.kind == 'd' for p in tree.get(parent, [])))
            if not tree.get(parent):
                tree[parent] = []
    return tree


class Member:
    def __init__(self, x, k, name):
        self.name, self.place = name, _place(name)
        self.kind = 'd' if name.endswith('/') else x.pick(f'kind{k}', x.cfg['kinds'])
        self.size = 0 if self.kind == 'd' else 3 if self.kind == 'l' else x.int(f'size{k}', 0, 10**12)
        self.perm = x.int(f'permissions{k}', 0, 0o777) if k < x.cfg['dates'] else 0o640
        self.date = _date(x, k)
        self.target = f't{k}x' if self.kind == 'l' else ''
        self.token = f'contents of member {k}'.encode()

    def time(self, x):
        """Whether there is a valid time, and the time."""
        return _valid(x, self.date), _seconds(x, self.date)

    def check(self, x, data, label):
        x.check(data == self.token, label)


def _members(x):
    return [Member(x, k, x.pick(f'name{k}', x.cfg['names'])) for k in range(x.cfg['members'])]


class _Contents:
    """The file that a library opens."""

    def __init__(self, member):
        self.member = member

    def read(self, size=-1):
        return self.member.token

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _check_info(x, info, m, perm, path):
    x.check(info is not None, f'{path} is missing')
    fmt = {'d': stat.S_IFDIR, 'l': stat.S_IFLNK, 'f': stat.S_IFREG, 'h': 0}[m.kind]
    x.check(x.eq(info.mode, fmt | perm), f'mode of {path}')
    x.check(m.kind == 'd' or x.eq(info.size, m.size), f'size of {path}')
    known, seconds = m.time(x)
    x.check(x.implies(known, x.eq(info.mtime, seconds)), f'time of {path}')
    x.check(info.linkname == m.target, f'target of {path}')


def _browse(x, source, members, perm, duplicates):
    """Listing, looking up, and opening everything."""
    tree = _tree(x, members)
    for path, found in [('/', [])] + sorted(tree.items()):
        folder = path == '/' or not found or found[-1].kind == 'd'
        children = sorted({p[len(path.rstrip('/')) + 1:].split('/')[0] for p in tree
                           if p.startswith(path.rstrip('/') + '/')})
        listed, modes = source.list(path), source.list_mode(path)
        if not folder:
            x.check(not listed and not modes, f'{path} is no folder')
        else:
            x.check(listed is not None and sorted(listed) == children, f'names in {path}')
            x.check(modes is not None and sorted(modes) == children, f'names in {path} with modes')
            x.reach('folder')
        info = source.lookup(path)
        x.check(info is not None, f'{path} is missing')
        x.check(bool(stat.S_ISDIR(info.mode)) == folder, f'type of {path}')
        x.check(source.exists(path) and source.is_dir(path) == folder, f'whether {path} exists')
        if path != '/':
            parent, name = path.rsplit('/', 1)
            other = source.list(parent or '/')
            x.check(name in other, f'{path} in its folder')
            both = [info] + ([other[name]] if isinstance(other, dict) else [])
            for i in both if found else []:
                _check_info(x, i, found[-1], perm(found[-1]), path)
            for i in both:
                x.check(bool(stat.S_ISDIR(i.mode)) == folder, f'type of {path} in its folder')
            mode = source.list_mode(parent or '/')
            x.check(not isinstance(mode, dict) or x.eq(mode[name], info.mode), f'listed mode of {path}')
        if found and not folder and duplicates:
            # Folders of the same path are the same.
            x.check(source.versions(path) == len(found), f'number of versions of {path}')
            for version, m in [(k + 1, m) for k, m in enumerate(found)] + [(k - len(found) + 1, m) for k, m in enumerate(found)]:
                i = source.lookup(path, version)
                _check_info(x, i, m, perm(m), f'{path} version {version}')
                if m.kind == 'f' and version > 0:
                    with source.open(i) as f:
                        m.check(x, f.read(), f'contents of {path} version {version}')
                    x.reach('opened')
            for version in (len(found) + 1, -len(found)):
                x.check(source.lookup(path, version) is None, f'{path} has no version {version}')
    for path in ('/missing', '/d/missing', '/f/missing'):
        x.check(source.lookup(path) is None and source.list(path) is None and not source.exists(path)
                and source.versions(path) == 0, f'{path} does not exist')
    x.reach('end')


class _RarInfo:
    def __init__(self, m):
        self.member = m
        self.filename = m.name
        self.file_size = m.size
        self.date_time = m.date
        self.mode = m.perm
        self.file_redir = (1, 0, m.target) if m.kind == 'l' else None

    def is_dir(self):
        return self.member.kind == 'd'

    isdir = is_dir

    def is_file(self):
        return self.member.kind == 'f'

    def is_symlink(self):
        return self.member.kind == 'l'


def rar(x):
    """RAR archives."""
    import ratarmountcore.mountsource.formats.rar as module
    import sys

    _times(x, module)
    members = _members(x)
    opened = []

    class RarFile:
        def __init__(self, file, mode='r'):
            self.infos = [_RarInfo(m) for m in members]

        def needs_password(self):
            return False

        def infolist(self):
            return list(self.infos)

        def open(self, info, mode='r'):
            opened.append(info)
            return _Contents(info.member)

        def close(self):
            pass

    # One path has one member: others replace it.
    x.assume(len({m.place for m in members}) == len(members))
    x.patch(module, 'rarfile', _Module(object(), RarFile=RarFile, RarInfo=_RarInfo))
    x.patch(sys, 'modules', {**sys.modules, 'rarfile': module.rarfile})
    with module.RarMountSource('archive.rar') as source:
        _browse(x, source, members, lambda m: m.perm, True)


def zip_(x):
    """ZIP archives."""
    import ratarmountcore.mountsource.formats.zip as module

    indexkit.fast(x)
    _times(x, module)
    members = _members(x)
    infos = []
    for k, m in enumerate(members):
        info = zipfile.ZipInfo('name')
        info.filename, info.date_time, info.file_size, info.header_offset = m.name, m.date, m.size, 1000 * k
        kind = {'d': stat.S_IFDIR, 'l': stat.S_IFLNK, 'f': stat.S_IFREG}[m.kind]
        m.unix = m.kind == 'l' or k >= x.cfg['dates'] or x.flag(f'unix{k}')
        info.external_attr = (kind + m.perm) * 65536 if m.unix else 0
        infos.append(info)

    class ZipFile:
        def __init__(self, file, mode='r'):
            pass

        def infolist(self):
            return list(infos)

        filelist = property(infolist)

        def namelist(self):
            return [info.filename for info in infos]

        def getinfo(self, name):
            found = [info for info in infos if info.filename == name]
            if not found:
                raise KeyError(name)
            return found[-1]

        def open(self, info, mode='r'):
            info = self.getinfo(info) if isinstance(info, str) else info
            return _Contents(members[infos.index(info)])

        def read(self, info):
            info = self.getinfo(info) if isinstance(info, str) else info
            return members[infos.index(info)].target.encode()

        def close(self):
            pass

    def perm(m):
        default = 0o770 if m.kind == 'd' else 0o660
        return x.ite(m.perm == 0, default, m.perm) if m.unix else default

    x.patch(module, 'zipfile', _Module(zipfile, ZipFile=ZipFile))
    with module.ZipMountSource('archive.zip', writeIndex=False) as source:
        _browse(x, source, members, perm, True)


class Entry(Member):
    """A member of an archive opened with libarchive."""

    def __init__(self, x, k, earlier):
        self.name = x.pick(f'name{k}', x.cfg['names'])
        self.place = _place(self.name)
        self.kind = 'd' if self.name.endswith('/') else x.pick(f'kind{k}', x.cfg['kinds'] + (['h'] if earlier else []))
        self.target, self.times = '', {}
        if self.kind == 'h':
            x.assume(any(m.kind == 'f' for m in earlier))
            linked = [m for m in earlier if m.kind == 'f'][0]
            x.assume(linked.place != self.place)
            self.target = linked.name
        elif self.kind == 'l':
            self.target = 'some/where'
        self.size = 0 if self.kind != 'f' else 4 if earlier else x.int(f'size{k}', 0, 9)
        self.perm = x.int(f'permissions{k}', 0, 0o7777)
        self.source = x.source(f'contents{k}')
        meta = {'mode': {'d': stat.S_IFDIR, 'l': stat.S_IFLNK}.get(self.kind, stat.S_IFREG) + self.perm}
        meta['type'] = {'d': stat.S_IFDIR, 'l': stat.S_IFLNK}.get(self.kind, stat.S_IFREG)
        meta['sized'] = self.kind != 'f' or bool(earlier) or x.flag(f'sized{k}')
        if self.target:
            meta['hardlink' if self.kind == 'h' else 'symlink'] = self.target
        if not earlier:
            for kind in x.pick('times', [(), ('mtime',), ('ctime',), ('birthtime',), ('mtime', 'ctime', 'birthtime')]):
                meta[kind] = self.times[kind] = x.int(f'{kind} of {k}', -10**9, 10**10)
            if 'mtime' in meta and x.flag(f'fraction{k}'):
                meta['mtime_nsec'] = 500000000
                self.times['mtime'] = meta['mtime'] + 0.5
        self.meta = meta

    def time(self, x):
        for kind in ('mtime', 'ctime', 'birthtime'):
            if kind in self.times:
                return True, self.times[kind]
        return True, 0

    def check(self, x, data, label):
        x.check_bytes(data, self.size, lambda j: x.at(self.source, j), label)


def libarchive(x):
    """Archives that libarchive opens."""
    indexkit.fast(x)
    members = []
    for k in range(x.cfg['members']):
        members.append(Entry(x, k, list(members)))
    module, library = lakit.install(x, [(m.name, m.size, m.meta) for m in members], 'read')
    file = lakit.File(x, 'A', bytekit.join(x, [x.segment(m.source, 0, m.size) for m in members]))
    source = module.LibarchiveMountSource(file)
    try:
        _browse(x, source, members, lambda m: m.perm % 512, True)
    finally:
        library.end()


def sqlar(x):
    """SQLite archives."""
    import ratarmountcore.mountsource.formats.sqlar as module

    names = x.cfg['names']
    members = []
    for k in range(x.cfg['members']):
        m = Member(x, k, x.pick(f'name{k}', names))
        m.size = 0 if m.kind == 'l' else m.size
        m.perm = x.int(f'permissions{k}', 0, 0o777)
        m.seconds = x.int(f'time{k}', 0, 10**10)
        m.time = lambda x, m=m: (True, m.seconds)
        members.append(m)
    x.assume(len({m.place for m in members}) == len(members))
    fmt = {'d': stat.S_IFDIR, 'l': stat.S_IFLNK, 'f': stat.S_IFREG}
    path = x.scratch() + '/archive.sqlar'
    db = x.sqlite.connect(path)
    db.execute('CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB);')
    for m in members:
        db.execute('INSERT INTO sqlar VALUES (?,?,?,?,?);', (
            m.name.rstrip('/') or '/', fmt[m.kind] + m.perm, m.seconds, -1 if m.kind == 'l' else m.size,
            None if m.kind == 'd' else m.target if m.kind == 'l' else b'data'))
    db.commit()
    db.close()
    if x.symbolic:
        x.patch(module, 'open', lambda *a: io.BytesIO(b'SQLite format 3\0' + bytes(84)))
    with module.SQLARMountSource(path) as source:
        _browse(x, source, members, lambda m: m.perm, False)


class Packed(Member):
    """A member of an ASAR archive."""

    def __init__(self, x, k):
        super().__init__(x, k, x.pick(f'name{k}', x.cfg['names']))
        self.target = {'/f': 'd/t', '/d/f': 't', '/d/e/g': '../t'}[self.place] if self.kind == 'l' else ''
        self.size, self.perm = (x.int(f'length{k}', 0, 50) if self.kind == 'f' else 0), 0o777
        self.at = x.int(f'offset{k}', 0, 50) if self.kind == 'f' else 0
        self.source = x.source('data')

    def time(self, x):
        return True, 0

    def check(self, x, data, label):
        x.check_bytes(data, self.size, lambda j: x.at(self.source, self.at + j), label)


def asar(x):
    """ASAR archives: also with files that are stored beside them."""
    import ratarmountcore.mountsource.formats.asar as module

    indexkit.fast(x)
    members = [Packed(x, k) for k in range(x.cfg['members'])]
    x.assume(len({m.place for m in members}) == len(members))
    header = {'files': {}}
    for m in members:
        folder = header
        parts = m.place[1:].split('/')
        for part in parts[:-1] if m.kind != 'd' else parts:
            x.assume('files' in folder)
            folder = folder['files'].setdefault(part, {'files': {}})
        if m.kind == 'f':
            folder['files'][parts[-1]] = {'offset': m.at, 'size': m.size}
        elif m.kind == 'l':
            folder['files'][parts[-1]] = {'link': 'd/t'}
        if m is members[0] and x.flag('file beside') and 'files' in folder:
            folder.setdefault('files', {})['beside'] = {'size': 7, 'unpacked': True}
    _tree(x, members)
    length = x.choose('length', 4) + 2
    padding = -length % 4
    start = struct.pack('<LLLL', 4, length + padding + 8, length + padding + 4, length) + b'{' + bytes(length + padding - 1)
    file = bytekit.BytesFile(x, 'A', bytekit.join(x, [start, x.segment(x.source('data'), 0, 120)]))

    class Json:
        @staticmethod
        def load(f):
            x.check(x.eq(x.len(f.read()), length), 'length of the header')
            return header

        @staticmethod
        def loads(text):
            x.check(x.eq(x.len(text), length), 'length of the header')
            return header

    x.patch(module, 'json', Json)
    source = module.ASARMountSource(file, writeIndex=False)
    _browse(x, source, members, lambda m: m.perm, True)


def ogg(x):
    """OGG files: every stream is shown as an OGG file with its pages."""
    import ratarmountcore.mountsource.formats.ogg as module

    indexkit.fast(x)
    if x.symbolic:
        x.patch(module, 'json', indexkit.Tokens())
    x.patch(module.time, 'time', lambda: 1234.0)
    parts, position, streams = [], 0, {}
    src = x.source('packets')
    for k in range(x.cfg['pages']):
        stream = 77 + x.choose(f'stream{k}', min(2, len(streams) + 1))
        first = stream not in streams
        pages = streams.setdefault(stream, [])
        last = not first and k >= x.cfg['pages'] - 2 and x.flag(f'last{k}')
        x.assume(not any(page[3] for page in pages))
        segments = 1 if first else x.choose(f'segments{k}', 3)
        header = b'OggS' + struct.pack('<BBQIIIB', 0, 2 * first + 4 * last, k, stream, len(pages), 99, segments)
        if first:
            table, data, size = b'\x1e', b'\x01vorbis' + bytes(23), 30
        else:
            table = x.bytes(f'segments of {k}', segments)
            size = 0
            for j in range(segments):
                size = size + table[j]
            data = x.segment(src, 1000 * k, size)
        page = bytekit.join(x, [header, table, data])
        pages.append((page, k, 27 + segments + size, last))
        parts.append(page)
    file = bytekit.BytesFile(x, 'A', bytekit.join(x, parts))
    source = module.OGGMountSource(file, writeIndex=False)
    names = {f'audio_{stream:08x}.oga': pages for stream, pages in streams.items()}
    listed = source.list('/')
    x.check(sorted(listed) == sorted(names), 'files of the streams')
    for name, pages in names.items():
        info = source.lookup('/' + name)
        size = sum((page[2] for page in pages), 0)
        x.check(x.eq(info.size, size), f'size of {name}')
        x.check(x.eq(listed[name].size, size), f'listed size of {name}')
        with source.open(info) as f:
            data = f.read()
        whole = bytekit.join(x, [page[0] for page in pages])
        x.check_bytes(data, size, lambda j: x.byte(whole, j), f'contents of {name}')
        x.reach('opened')
    x.reach('folder')
    x.reach('end')


NAMES = ['f', 'd/', 'd/f', 'd/e/', 'd/e/g', './f', '../d/f', 'd//h']


def _h(name, fn, text, quick, thorough):
    h = Harness(name, fn, text, quick, thorough, models=['library', 'SQLite', 'datetime'])
    h.must_reach = ['folder', 'end'] + (['opened'] if fn is not sqlar else [])
    return h


HARNESSES = [
    _h('rar', rar, 'archives with 2 (thorough: 3) members at different paths, 1 with any permissions and DOS time, of any size', {
        'members': 2, 'names': NAMES, 'kinds': ['f', 'l'], 'dates': 1}, {'members': 3}),
    _h('zip', zip_, 'archives with 2 (thorough: 3) members, 1 with any permissions and DOS time, of any size', {
        'members': 2, 'names': NAMES, 'kinds': ['f', 'l'], 'dates': 1}, {'members': 3}),
    _h('libarchive', libarchive, 'archives with 2 (thorough: 3) members with any permissions and times, symbolic and hard links', {
        'members': 2, 'names': NAMES[:5], 'kinds': ['f', 'l']}, {'members': 3}),
    _h('sqlar', sqlar, 'archives with 3 (thorough: 4) members at different paths, with special characters, with any times, permissions, and sizes', {
        'members': 3, 'names': ['f', 'd/', 'd/f', 'd/e/g', './f', '../f', '[d]/', '[d]/f', '*/', '*/f', 'dx/h'], 'kinds': ['f', 'l'],
        'dates': 0}, {'members': 4}),
    _h('asar', asar, 'archives with 2 (thorough: 3) members at different paths, of any sizes and offsets up to 50', {
        'members': 2, 'names': ['f', 'd/', 'd/f', 'd/e/g'], 'kinds': ['f', 'l'], 'dates': 0}, {'members': 3}),
    _h('ogg', ogg, 'files with 4 (thorough: 5) pages of 1 or 2 streams, with up to 2 segments of any size', {'pages': 4}, {'pages': 5}),
]
