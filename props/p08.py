"""P08: mount sources mounted and unmounted below folders."""
import stat

from symx.runner import Harness

from .fakesource import check_routed, make_class, normal, same_info

LEVEL = 'model_checking'
ASSUMPTIONS = ['mount sources answer lookups, listings and version counts consistently with each other']
OUTSIDE = ['lookups of paths with . and .. components', 'concurrent mounts and lookups']

TREE = {'/f': ['f', 'f'], '/d': ['d'], '/d/g': ['f']}


class Reference:
    """path -> source; no mount point lies below another."""

    def __init__(self):
        self.mounts = {}

    def folders(self):
        out = {'/'}
        for p in self.mounts:
            while p != '/':
                p = p.rsplit('/', 1)[0] or '/'
                out.add(p)
        return out

    def free(self, path):
        return path != '/' and path not in self.mounts and path not in self.folders() and not self.above(path)

    def above(self, path):
        return [m for m in self.mounts if path.startswith(m + '/')]


def _history(x, ops, paths):
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource

    Fake = make_class(x)
    v, ref = SubvolumesMountSource({}), Reference()
    sources = []
    for k in range(ops):
        spelled = x.pick(f'path{k}', paths)
        path = normal(spelled)
        op = x.choose(f'op{k}', 3 if k else 1)
        if op == 0:
            source = Fake(f'S{k}', TREE)
            source.joined = 0
            sources.append(source)
            try:
                done = v.mount(spelled, source)
            except Exception as e:
                x.check(type(e).__name__ == 'RatarmountError', 'mount fails with the documented error')
                done = False
            x.check(bool(done) == ref.free(path), 'mounted')
            if done:
                ref.mounts[path] = source
                x.reach('mounted')
        elif op == 1:
            got = v.unmount(spelled)
            x.check(got is ref.mounts.pop(path, None), 'unmounted')
            if got is not None:
                x.reach('unmounted')
        else:
            x.check(v.is_mountable(spelled) == ref.free(path), 'can be mounted')
    return v, ref, sources


def routing(x):
    """After any history of mounts, every path reaches the source mounted there."""
    v, ref, _ = _history(x, x.cfg['ops'], x.cfg['paths'])
    base = x.pick('base', x.cfg['bases'])
    rest = x.pick('rest', ['', '/f', '/d/g', '/none'])
    path = normal(base + rest)
    mount = next((m for m in ref.mounts if path == m or path.startswith(m + '/')), None)
    spelled = x.pick('spelled', [path, path[1:] + '/', path + '/', '/' + path][: x.cfg['spellings']])
    if mount is None:
        info = v.lookup(spelled)
        x.check((info is not None) == (path in ref.folders()), 'folders above mounts exist')
        x.check(v.versions(spelled) == (1 if path in ref.folders() else 0), 'versions of folders above mounts')
        if info is not None:
            x.check(stat.S_ISDIR(info.mode), 'folder')
            x.check(v.list_xattr(info) == [] and v.get_xattr(info, 'user.tag') is None, 'folder attributes')
            x.check(v.get_mount_source(info)[1] is v, 'folder source')
            for f in (v.open, lambda i: v.read(i, 1, 0)):
                try:
                    f(info)
                    x.fail('opening a folder fails')
                except Exception:
                    pass
            x.check(len(info.userdata) == len(v.lookup(spelled).userdata), 'file info can be used again')
        return
    source = ref.mounts[mount]
    sub = path[len(mount):] or '/'
    x.check(v.versions(spelled) == source.count(sub), 'versions')
    version = x.int('version', -2, 3)
    info = v.lookup(spelled, fileVersion=version)
    own = source.lookup(sub, fileVersion=version)
    x.check((info is None) == (own is None), 'found')
    x.observe('found', info is not None)
    if own is not None:
        same_info(x, info, own, 'version')
        if stat.S_ISREG(own.mode):
            point = check_routed(x, v, info, (source,) + own.userdata[0][1:], 'version')
            x.check(point == mount, 'mount point')
            x.reach('file')


def listing(x):
    v, ref, _ = _history(x, x.cfg['ops'], x.cfg['paths'])
    base = x.pick('base', x.cfg['bases'])
    path = normal(base + x.pick('rest', ['', '/d', '/f']))
    spelled = x.pick('spelled', [path, path[1:] + '/', path + '/', '/' + path][: x.cfg['spellings']])
    mount = next((m for m in ref.mounts if path == m or path.startswith(m + '/')), None)
    got, modes = v.list(spelled), v.list_mode(spelled)
    x.observe('names', None if got is None else sorted(got))
    if mount is None:
        names = None
        if path in ref.folders():
            names = set()
            for p in list(ref.mounts) + list(ref.folders()):
                if p != '/' and (p.rsplit('/', 1)[0] or '/') == path:
                    names.add(p.rsplit('/', 1)[1])
        x.check((got is None) == (names is None) and (modes is None) == (names is None), 'folder listed')
        if names is not None:
            x.check(set(got) == names and set(modes) == names, 'mount points listed')
            x.check(all(stat.S_ISDIR(m) for m in modes.values()), 'mount points are folders')
            x.check(all(stat.S_ISDIR(i.mode) for i in got.values()), 'mount points are folders')
            for n in names:
                i = v.lookup(path + '/' + n)
                x.check(i is not None and stat.S_ISDIR(i.mode), 'mount point is found')
            x.reach('folder')
        return
    source = ref.mounts[mount]
    want = source.list(path[len(mount):] or '/')
    x.check((got is None) == (want is None) and (modes is None) == (want is None), 'listed')
    if want is not None:
        x.check(set(got) == set(want) and set(modes) == set(want), 'names')
        for n in want:
            same_info(x, got[n], want[n], 'listing')
            x.check(modes[n] == want[n].mode, 'mode')
            if stat.S_ISREG(want[n].mode):
                check_routed(x, v, got[n], (source,) + want[n].userdata[0][1:], 'listed file ' + n)
        x.reach('source')


def closing(x):
    """Closing and stopping threads reach every mounted source once, unmounted ones not at all."""
    v, ref, sources = _history(x, x.cfg['ops'], x.cfg['paths'])
    for s in sources:
        def join(s=s):
            s.joined += 1
        s.join_threads = join
    v.join_threads()
    v.__exit__(None, None, None)
    for s in sources:
        n = 1 if any(s is m for m in ref.mounts.values()) else 0
        x.check(s.exited == n, 'closed')
        x.check(s.joined == n, 'threads joined')
    x.check(v.is_immutable() is False, 'can change')
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['in-memory mount sources'])
    h.must_reach = reach
    return h


_P = ['a', '/a/b', '/a//b/c/', '/']
HARNESSES = [
    _h('routing', routing, 'histories of 3 mounts and unmounts on nested paths, any version',
       {'ops': 3, 'paths': _P[:3], 'bases': ['/', '/a', '/a/b', '/a/b/c'], 'spellings': 2},
       {'ops': 3, 'paths': _P + ['/../b/./c', 'b'], 'bases': ['/', '/a', '/a/b', '/a/b/c', '/b', '/b/c'], 'spellings': 4},
       ['file', 'mounted', 'unmounted']),
    _h('listing', listing, 'histories of 3 mounts and unmounts on nested paths',
       {'ops': 3, 'paths': _P[:3], 'bases': ['/', '/a', '/a/b', '/a/b/c'], 'spellings': 2},
       {'ops': 3, 'paths': _P + ['/../b/./c', 'b'], 'bases': ['/', '/a', '/a/b', '/a/b/c', '/b', '/b/c'], 'spellings': 4},
       ['folder', 'source']),
    _h('closing', closing, 'histories of 3 mounts and unmounts', {'ops': 3, 'paths': _P}, {'ops': 4}, ['end']),
]
