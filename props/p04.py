"""P04: what was recorded for an archive is what lookups, listings and version queries return."""
import stat

from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = ['SQLite as modelled in symx/sqlmini.py, which setup compares with the real library']
OUTSIDE = ['SQLite itself', 'names longer than the bound', 'names that are not valid Unicode']

MODES = [stat.S_IFREG | 0o644, stat.S_IFDIR | 0o755, stat.S_IFLNK | 0o777]


def _index(x):
    from ratarmountcore.SQLiteIndex import SQLiteIndex

    index = SQLiteIndex(':memory:', backendName='Verif')
    x.on_cleanup(index.close)
    return index


def _rows(x, n, layout):
    """n rows with symbolic paths, names, offsets, sizes, modes and flags."""
    rows = []
    for k in range(n):
        path = x.pick(f'path{k}', layout)
        name = x.char(f'name{k}', x.cfg['letters'])
        header = x.int(f'header{k}', 0, 10000)
        for other in rows:
            x.assume(x.not_(x.and_(other[0] == path, x.eq(other[1], name), x.eq(other[2], header))))
        rows.append(
            (path, name, header, x.int(f'offset{k}', 0, 10000), x.int(f'size{k}', 0, 10000), k, x.pick(f'mode{k}', MODES),
             0, '', k, 7, False, False, False, 0)
        )
    return rows


def _fill(x, index, rows, split):
    def create():
        if split:
            index.set_file_infos(rows[:1])
            for row in rows[1:]:
                index.set_file_info(row)
        else:
            index.set_file_infos(rows)

    index.finalize_index(create)


def _expected(x, rows, path, name):
    """The recorded rows of one file, oldest first."""
    found = []
    for row in rows:
        if row[0] == path and x.eq(row[1], name):
            pos = len(found)
            while pos > 0 and row[2] < found[pos - 1][2]:
                pos -= 1
            found.insert(pos, row)
    return found


def _same(x, info, row, label):
    x.check(info is not None, label + ': found')
    u = info.userdata[-1]
    got = (info.size, info.mtime, info.mode, info.uid, info.gid, u.offsetheader, u.offset)
    x.check(x.eq(got, (row[4], row[5], row[6], row[9], row[10], row[2], row[3])), label)


def lookups(x):
    """Lookups of every version and the number of versions against the recorded rows."""
    index = _index(x)
    rows = _rows(x, x.cfg['rows'], x.cfg['folders'])
    _fill(x, index, rows, x.cfg['split'] and x.flag('split'))
    path = x.pick('path', x.cfg['folders'])
    name = x.char('name', x.cfg['names'])
    found = _expected(x, rows, path, name)
    x.assume(len(found) > 0)
    full = path + '/' + name
    implicit = any(
        row[0] == path + '/' + l or row[0].startswith(path + '/' + l + '/') for row in rows for l in [x.text(name)]
    )
    versions = index.versions(full)
    if not implicit:
        x.check(x.eq(len(versions), len(found)), 'number of versions')
        v = x.int('version', -len(rows) - 1, len(rows) + 1)
        want = v - 1 if v > 0 else len(found) - 1 + v
        info = index.lookup(full, fileVersion=v)
        if x.and_(want >= 0, want < len(found)):
            _same(x, info, found[x.fork(want)], 'version')
            x.check(x.eq(versions[str(x.fork(want) + 1)].userdata[-1].offsetheader, found[x.fork(want)][2]), 'listed version')
            x.reach('version')
        else:
            x.check(info is None, 'no such version')
    else:
        info = index.lookup(full)
        x.check(info is not None, 'found')
        if any(stat.S_ISDIR(row[6]) for row in found):
            _same(x, info, found[-1], 'newest')
            x.check(x.eq(len(versions), len(found)), 'number of versions')
        x.reach('folder')
    x.observe('n', len(versions))


def listings(x):
    """A listing names exactly the recorded entries and the folders above them, and agrees with lookups."""
    index = _index(x)
    rows = _rows(x, x.cfg['rows'], x.cfg['folders'])
    _fill(x, index, rows, x.flag('split'))
    folders = {''}
    for row in rows:
        for k in range(1, row[0].count('/') + 1):
            folders.add('/'.join(row[0].split('/')[:k + 1]))
    path = x.pick('path', x.cfg['folders'])
    names = {x.text(row[1]) for row in rows if row[0] == path}
    names |= {f.rsplit('/', 1)[1] for f in folders if f and f.rsplit('/', 1)[0] == path}
    listing = index.list(path + '/' if path == '' or x.flag('slash') else path)
    modes = index.list_mode(path or '/')
    x.observe('names', sorted(listing) if listing is not None else None)
    if path not in folders and not names:
        up, name = path.rsplit('/', 1)
        own = _expected(x, rows, up, name)
        if own and stat.S_ISDIR(own[-1][6]):
            x.check(listing is not None and len(listing) == 0, 'an empty folder')
            x.check(modes is not None and len(modes) == 0, 'an empty folder')
            x.reach('empty')
            return
        x.check(listing is None, 'nothing to list')
        x.check(modes is None, 'nothing to list')
        x.reach('nothing')
        return
    x.check(listing is not None and {x.text(n) for n in listing} == names, 'names listed')
    x.check(modes is not None and {x.text(n) for n in modes} == names, 'names listed with their modes')
    for name, info in listing.items():
        other = index.lookup(path + '/' + name)
        x.check(other is not None, 'listed file is found')
        x.check(
            x.eq(
                (info.size, info.mtime, info.mode, info.uid, info.gid, info.linkname, info.userdata[-1].offsetheader,
                 info.userdata[-1].offset),
                (other.size, other.mtime, other.mode, other.uid, other.gid, other.linkname,
                 other.userdata[-1].offsetheader, other.userdata[-1].offset),
            ),
            'listing agrees with the lookup',
        )
        x.check(x.eq(modes[name], info.mode), 'mode agrees')
    for f in folders:
        if f:
            x.check(len(index.versions(f)) > 0, 'every folder above a file is found')
            if not any(row[0] + '/' + x.text(row[1]) == f for row in rows):
                info = index.lookup(f)
                x.check(info is not None and stat.S_ISDIR(info.mode), 'an implied folder is a folder')
    x.reach('listed')


def spelling(x):
    """Redundant slashes and dots in a path change nothing."""
    index = _index(x)
    rows = [
        ('', 'a', 0, 1, 5, 0, MODES[1], 0, '', 0, 0, False, False, False, 0),
        ('/a', 'b', 2, 3, 5, 1, MODES[0], 0, '', 0, 0, False, False, False, 0),
        ('', 'c', 4, 5, 6, 2, MODES[0], 0, '', 0, 0, False, False, False, 0),
    ]
    _fill(x, index, rows, False)
    path = x.string('path', x.choose('n', x.cfg['length'] + 1), '/.abc')
    if x.flag('slash'):
        path = '/' + path
    else:
        x.assume(not x.text(path).startswith('..'))
    parts = []
    for p in x.text(path).split('/'):
        if p == '..':
            parts = parts[:-1]
        elif p not in ('', '.'):
            parts.append(p)
    plain = '/' + '/'.join(parts)
    want = {'/a': 0, '/a/b': 2, '/c': 4}.get(plain)
    info = index.lookup(path)
    x.observe('found', info is not None)
    if plain == '/':
        x.check(info is not None and stat.S_ISDIR(info.mode), 'root')
    else:
        x.check((info is None) == (want is None), 'found by any spelling')
        if info is not None:
            x.check(info.userdata[-1].offsetheader == want, 'the right file')
            x.reach('found')
    listing = index.list(path)
    x.check(
        (sorted(listing) if listing is not None else None) == {'/': ['a', 'c'], '/a': ['b']}.get(plain), 'listing'
    )


def attributes(x):
    """Extended attributes belong to the member they were stored for."""
    index = _index(x)
    headers = [x.int(f'header{k}', 0, 100) for k in range(2)]
    x.assume(headers[0] != headers[1])
    rows = [('/d', 'ab'[k], headers[k], 0, 1, 0, MODES[0], 0, '', 0, 0, False, False, False, 0) for k in range(2)]
    stored = []
    for k in range(x.cfg['attrs']):
        owner = x.choose(f'owner{k}', 2)
        key = 'user.' + x.char(f'key{k}', 'pq')
        stored.append((headers[owner], key, x.bytes(f'value{k}', 1)))

    def create():
        index.set_file_infos(rows)
        if x.flag('at_once'):
            index.setxattrs(stored)
        else:
            for s in stored:
                index.setxattrs([s])

    index.finalize_index(create)
    for k in range(2):
        info = index.lookup('/d/' + 'ab'[k])
        want = {}
        for h, key, value in stored:
            if x.eq(h, headers[k]):
                want[x.text(key)] = value
        x.check(sorted(x.text(n) for n in index.list_xattr(info)) == sorted(want), 'attribute names')
        for key in ('user.p', 'user.q', 'user.r'):
            got = index.get_xattr(info, key)
            x.check(x.eq(got is None, want.get(key) is None), 'attribute exists')
            if got is not None:
                x.check(x.eq(got, want[key]), 'attribute value')
    folder = index.lookup('/d')
    x.check(folder is not None and index.list_xattr(folder) == [], 'folders above members have no attributes')
    x.check(all(index.get_xattr(folder, key) is None for key in ('user.p', 'user.q')), 'folders above members have no attributes')
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('lookups', lookups, '3 rows in folders of depth up to 2, names of 1 character from 2 letters, any offsets',
       {'rows': 3, 'folders': ['', '/a'], 'letters': 'ab', 'names': 'a', 'split': False},
       {'rows': 3, 'folders': ['', '/a', '/a/b'], 'names': 'ab', 'split': True}, ['version', 'folder']),
    _h('listings', listings, '3 rows in folders of depth up to 2, names of 1 character from 2 letters, any offsets',
       {'rows': 2, 'folders': ['', '/a', '/a/b', '/b'], 'letters': 'ab'},
       {'rows': 3}, ['listed', 'nothing', 'empty']),
    _h('spelling', spelling, 'paths of up to 5 characters out of / . a b c', {'length': 4}, {'length': 6}, ['found']),
    _h('attributes', attributes, '3 attributes on 2 files', {'attrs': 3}, {'attrs': 4}, ['end']),
]
