"""P15: a mounted AR archive shows each member with its name, metadata and contents."""
import stat

from symx.runner import Harness

from . import bytekit, indexkit

LEVEL = 'model_checking'
ASSUMPTIONS = ['SQLite as modelled in symx/sqlmini.py', 'without the lock, other threads may move the file at any time']
OUTSIDE = ['the names of links in thin archives, which are shown under the position of their name', 'names that are not valid in the encoding of the index', 'sizes of more than 3 digits',
           'symbol tables of BSD archives, which are shown like files', 'several members of the same name',
           'broken headers other than the tested kinds']

LONG = ['a_name_longer_than_16', 'another_long_name_of_a_file.txt', 'with spaces in its name.txt']
SHORT = ['s', 'fifteen_letters', ' b.o']


class Built:
    """An archive as a program of the given kind writes it."""

    def __init__(self, x, flavor):
        self.x, self.flavor = x, flavor
        self.parts = [b'!<thin>\n' if flavor == 'thin' else b'!<arch>\n']
        self.members = []

    def size(self):
        return sum((self.x.len(p) for p in self.parts), 0)

    def header(self, name, size, mtime=b'0', uid=b'0', gid=b'0', mode=b'644'):
        x = self.x

        def pad(field, n):
            return [field, b' ' * (n - x.len(field))]

        self.parts += pad(name, 16) + pad(mtime, 12) + pad(uid, 6) + pad(gid, 6) + pad(mode, 8) + pad(size, 10) + [b'`\n']

    def contents(self, tag, size, fill=None):
        """Any contents, and what follows so that the next header is at an even position."""
        x = self.x
        self.parts.append(x.segment(x.source(tag), 0, size) if fill is None else fill)
        if x.fork(size % 2):
            self.parts.append(b'\n')

    def table(self, names, padded, end):
        """The table of long names; returns the positions of the names."""
        text, at = b'', []
        for name in names:
            at.append(len(text))
            text += name.encode() + end
        if padded and len(text) % 2:
            text += b'\n'
        if self.late is not None:
            # Goes behind the members.
            parts, self.parts = self.parts, []
        self.header(b'//', str(len(text)).encode(), b'', b'', b'', b'')
        self.contents('', len(text), text)
        if self.late is not None:
            self.parts, self.late = parts, self.parts
        return at

    def member(self, k, name, stored, long=b''):
        """A member with any metadata; long is the name in front of the contents."""
        x = self.x
        width = x.pick(f'digits{k}', x.cfg['digits'])
        digits, size = bytekit.number(x, f'size{k}', width)
        x.assume(size >= len(long))
        empty = x.cfg['unset'] and x.flag('unset')
        fields = {}
        for field, n, base in (('mtime', x.cfg['mtime'], 10), ('uid', 2, 10), ('gid', x.cfg['gid'], 10), ('mode', 3, 8)):
            fields[field] = (b'', 0o660 if field == 'mode' else 0) if empty else bytekit.number(x, f'{field}{k}', n, base)
        self.header(stored, digits, **{f: v[0] if f != 'mode' or empty else bytekit.join(x, [b'100', v[0]])
                                       for f, v in fields.items()})
        offset = self.size()
        self.parts += [long] if long else []
        if self.flavor != 'thin':
            tag = f'C{k}'
            if long:
                self.parts.append(x.segment(x.source(tag), 0, size - len(long)))
                if x.fork(size % 2):
                    self.parts.append(b'\n')
            else:
                self.contents(tag, size)
        shown = stored.decode()[1:] if self.flavor == 'thin' else name
        self.members.append((shown, name, offset + len(long), size - len(long), {f: v[1] for f, v in fields.items()}, f'C{k}'))


def _build(x):
    flavor, which, symbols, padded = x.pick('variant', x.cfg['variants'])
    kind, flavor = flavor, flavor.split()[0]
    built = Built(x, flavor)
    built.late = [] if 'late' in kind else None
    count = x.cfg['members']
    names = [[LONG[0], SHORT[0], LONG[1]], [LONG[2], LONG[0], SHORT[1]], [SHORT[2], LONG[1], LONG[2]]][which][:count]
    if flavor in ('gnu', 'thin') and symbols:
        digits, size = bytekit.number(x, 'symbols.size', 2)
        built.header(symbols.encode(), digits, mode=b'0')
        built.contents('symbols', size)
    at = {}
    if flavor in ('gnu', 'thin'):
        # Thin archives store paths in the table, even of files with short names.
        long = [n for n in names if len(n) > 15 or flavor == 'thin']
        at = dict(zip(long, built.table(long, padded, b'\0' if 'coff' in kind else b'/\n')))
    for k, name in enumerate(names):
        raw = name.encode()
        if flavor in ('gnu', 'thin'):
            built.member(k, name, b'/%d' % at[name] if name in at else raw + b'/')
        elif flavor == 'bsd':
            if len(raw) > 16 or b' ' in raw:
                raw = raw + b'\0' * x.pick(f'nulls{k}', [0, 3])
                built.member(k, name, b'#1/%d' % len(raw), raw)
            else:
                built.member(k, name, raw)
    built.parts += built.late or []
    return built, flavor


def archive(x):
    """Archives as GNU and BSD programs write them."""
    import ratarmountcore.mountsource.formats.ar as module

    indexkit.fast(x)
    built, flavor = _build(x)
    data = bytekit.join(x, built.parts)
    lock = x.lock()
    file = bytekit.BytesFile(x, 'A', data)
    source = module.ARMountSource(file, indexFilePath=':memory:', indexFolders=[], writeIndex=False)
    listed = source.list('/')
    x.check(sorted(listed) == sorted(m[0] for m in built.members), flavor + ': names')
    source.fileObjectLock = lock
    lock.files.append(file)
    file.lock = lock
    for shown, name, offset, size, fields, tag in built.members:
        for label, info in (('listed', listed[shown]), ('looked up', source.lookup('/' + shown))):
            label = f'{flavor} {label}'
            kind = stat.S_IFLNK if flavor == 'thin' else stat.S_IFREG
            x.check(x.eq(info.mode, fields['mode'] + kind), label + ': mode')
            if flavor == 'thin':
                x.check(info.linkname == name, label + ': link')
            else:
                x.check(x.eq(info.size, size), label + ': size')
            for field in ('mtime', 'uid', 'gid'):
                x.check(x.eq(getattr(info, field), fields[field]), f'{label}: {field}')
    k = x.choose('which', len(built.members)) if x.cfg['any member'] else len(built.members) - 1
    shown, name, offset, size, fields, tag = built.members[k]
    info = source.lookup('/' + shown)
    if flavor == 'thin':
        x.reach('thin')
        return
    top = x.cfg['top']
    at, n = x.int('at', 0, top), x.int('n', 0, top) if x.cfg['any n'] else top
    x.assume(x.or_(x.cfg['any at'], x.eq(at, 0), x.eq(at, 1)))
    src = x.source(tag)
    if x.pick('raw', x.cfg['raw']):
        with source.open(info, buffering=0) as f:
            f.seek(at)
            got = f.read(n)
    else:
        got = source.read(info, n, at)
    x.check_bytes(got, x.min(n, x.max(0, size - at)), lambda j: x.at(src, at + j), flavor + ': contents')
    x.reach(flavor)


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('archive', archive, '2 (3) members with any contents and metadata, long and short names, symbol tables',
       {'members': 2, 'digits': [2], 'unset': False, 'mtime': 4, 'gid': 2, 'top': 120, 'variants': [('gnu', 0, '/', True), ('gnu', 2, '/SYM64/', False), ('bsd', 1, '', True), ('thin', 0, '/', True), ('gnu late', 2, '', True), ('thin late', 0, '', True), ('gnu coff', 1, '', False)], 'raw': [False], 'any member': True, 'any n': True, 'any at': True},
       {'members': 3, 'digits': [1, 3], 'unset': True, 'mtime': 10, 'gid': 6, 'top': 1100, 'variants': [(f, n, s, p) for f in ('gnu', 'bsd', 'thin', 'gnu late', 'thin late', 'gnu coff') for n in range(3) for s in ('', '/', '/SYM64/') for p in (False, True)
                      if f != 'bsd' or (not s and p)], 'raw': [False, True], 'any member': True, 'any n': True, 'any at': True}, ['gnu', 'bsd', 'thin']),
]
