"""P07: a union of mount sources."""
import stat

from symx.runner import Harness

from .fakesource import check_routed, make_class, same_info

LEVEL = 'model_checking'
ASSUMPTIONS = ['mount sources answer lookups, listings and version counts consistently with each other']
OUTSIDE = ['paths that are not absolute and normalised', 'sources that change while the union is used']

TREES = [
    {},
    {'/a': ['f']},
    {'/a': ['f', 'f']},
    {'/a': ['d']},
    {'/a': ['d'], '/a/b': ['f']},
    {'/a': ['d'], '/a/b': ['d'], '/c': ['f']},
    {'/a': ['d'], '/c': ['d'], '/c/b': ['d']},  # an empty folder next to a deeper one
    {'/a': ['d'], '/a/b': ['d'], '/a/b/c': ['f', 'f']},
    {'/a': ['d'], '/a/b': ['d'], '/a/b/c': ['d'], '/a/b/c/d': ['f']},
]
PATHS = ['/a', '/a/b', '/a/b/c', '/a/b/c/d', '/c', '/a/c']


def _union(x, n, trees):
    import time

    from ratarmountcore.mountsource.compositing.union import UnionMountSource

    Fake = make_class(x)
    sources = [
        Fake(f'S{i}', x.pick(f'tree{i}', trees), immutable=x.flag(f'fixed{i}') if x.cfg['mutable'] else True,
             listing=x.pick(f'listing{i}', x.cfg['listings']))
        for i in range(n)
    ]
    for i, s in enumerate(sources):
        if all(len(v) == 1 for v in s.tree.values()) and s.tree and not s.immutable:
            s.versioned = x.flag(f'versioned{i}')
    clock = [0]

    def now():
        # Any non-decreasing clock: it may pass the limit between any two readings.
        clock[0] += 1
        return 0 if clock[0] <= expires else 1000.0

    expires = x.pick('expires', x.cfg['clocks'])
    x.patch(time, 'time', now)
    kw = {}
    limit = x.pick('limit', x.cfg['limits'])
    if limit is not None:
        kw['maxCacheEntries'] = limit
    depth = x.pick('depth', x.cfg['depths'])
    if depth is not None:
        kw['maxCacheDepth'] = depth
    return UnionMountSource(sources, **kw), sources


def lookups(x):
    """Lookups of any version, version counts, opening and reading; with any state of the folder cache."""
    u, sources = _union(x, x.cfg['sources'], x.cfg['trees'])
    path = x.pick('path', x.cfg['paths'])
    entries = [(s, path, k) for s in sources for k in range(s.count(path))]
    x.check(u.versions(path) == len(entries), 'number of versions')
    v = x.int('version', -len(entries) - 1, len(entries) + 1)
    want = v - 1 if v > 0 else len(entries) - 1 + v
    info = u.lookup(path, fileVersion=v)
    x.observe('found', info is not None)
    if x.and_(want >= 0, want < len(entries)):
        s, p, k = entries[x.fork(want)]
        same_info(x, info, s.info(p, k), 'version')
        if stat.S_ISREG(info.mode):
            point = check_routed(x, u, info, (s, p, k), 'version')
            x.check(point == '/', 'mount point')
        x.reach('found')
    else:
        x.check(info is None, 'no such version')
        x.reach('missing')
    x.check(u.exists(path) == bool(entries), 'exists')


def listings(x):
    """Listings show the names of all sources with the metadata a lookup returns."""
    u, sources = _union(x, x.cfg['sources'], x.cfg['trees'])
    path = x.pick('path', x.cfg['paths'])
    children = [s.children(path) for s in sources]
    names = set()
    for c in children:
        names |= set(c or ())
    listing, modes = u.list(path), u.list_mode(path)
    x.observe('names', None if listing is None else sorted(listing))
    if all(c is None for c in children):
        x.check(listing is None and modes is None, 'nothing to list')
        x.reach('nothing')
        return
    x.check(listing is not None and set(listing) == names, 'names listed')
    x.check(modes is not None and set(modes) == names, 'names listed with modes')
    for n in names:
        full = path.rstrip('/') + '/' + n
        info = u.lookup(full)
        x.check(info is not None, 'listed file is found')
        s = [s for s in sources if s.count(full)][-1]
        same_info(x, info, s.info(full, s.count(full) - 1), 'listed file')
        if isinstance(listing, dict):
            same_info(x, listing[n], info, 'listing')
            if x.cfg['use'] and stat.S_ISREG(info.mode):
                check_routed(x, u, listing[n], (s, full, s.count(full) - 1), 'listed file ' + n)
        if isinstance(modes, dict):
            x.check(x.eq(modes[n], info.mode), 'mode listed')
        x.reach('listed')


def closing(x):
    u, sources = _union(x, x.cfg['sources'], x.cfg['trees'])
    root = u.lookup('/')
    x.check(root is not None and stat.S_ISDIR(root.mode), 'root')
    x.check(u.list_xattr(root) == [] and u.get_xattr(root, 'user.tag') is None, 'root attributes')
    x.check(len(root.userdata) == len(u.lookup('/').userdata), 'the file info can be used again')
    x.check(u.is_immutable() == all(s.immutable for s in sources), 'unchanging only if all sources are')
    u.__exit__(None, None, None)
    x.check(all(s.exited == 1 for s in sources), 'every source is closed once')
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['in-memory mount sources', 'time.time'])
    h.must_reach = reach
    return h


_Q = {'sources': 2, 'trees': TREES, 'paths': PATHS[:5], 'mutable': True, 'listings': ['dict'], 'clocks': [10**9, 3],
      'limits': [None, 1], 'depths': [None], 'use': True}
_T = {'sources': 3, 'listings': ['dict', 'names'], 'clocks': [10**9, 1, 2, 3, 5], 'limits': [None, 0, 1, 2], 'depths': [None, 2]}
HARNESSES = [
    _h('lookups', lookups, '2 sources with up to 3 levels, any version, cache complete, cut short or timed out', _Q,
       dict(_T, paths=PATHS, sources=2), ['found', 'missing']),
    _h('listings', listings, '2 sources with up to 3 levels', dict(_Q, paths=['/', '/a', '/a/b'], limits=[None], clocks=[10**9]),
       {'sources': 3, 'listings': ['dict', 'names']}, ['listed', 'nothing']),
    _h('closing', closing, '2 sources', dict(_Q, trees=TREES[:2], limits=[None], clocks=[10**9]), {'sources': 3}, ['end']),
]
