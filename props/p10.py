"""P10: with a write overlay, the mount behaves like a writable copy of the sources."""
import errno
import os
import stat

from props.fakesource import make_class
from props.fusekit import OS, close, failing, mount, view
from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'file systems behave as modelled in symx/fsmodel.py and SQLite as in symx/sqlmini.py; replays and sampled paths compare '
    'both with the real ones',
    'the kernel refuses operations that are invalid for the visible tree before they reach the mount',
]
OUTSIDE = ['access and change times, modification times of changed files', 'the kernel side of FUSE',
           'longer histories and other trees than the stated ones', 'hard links between files']

TREES = [
    {'/f': ['f'], '/d': ['d'], '/d/g': ['f']},
    {'/d': ['d'], '/d/e': ['d'], '/l': ['l/f'], '/f': ['f']},
    {'/d': ['d'], '/d/d': ['d'], '/d/d/.f': ['f']},
]
FLAGS = [(f | t, nothing) for f in (os.O_WRONLY, os.O_RDWR) for t, nothing in
         ((0, False), (os.O_TRUNC, False), (os.O_TRUNC, True))]


def same_bytes(x, got, want, label):
    x.check_bytes(got, x.len(want), lambda j: x.byte(want, j), label)


class World:
    """A mount with a write overlay and the reference folder."""

    def __init__(self, x, tree, kind, overlay=()):
        self.x, self.fs = x, x.fs
        fs = x.fs
        self.kind, self.count = kind, 0
        source = make_class(x)('a', tree)
        for top in ('lower', 'ref'):
            fs.add(top, 'd')
        fs.add('overlay', 'd')
        if kind == 'archive':
            fs.add('archive.tar', 'f', 10)
        for p in tree:
            i = source.info(p, 0)
            for top in ['ref'] + (['lower'] if kind == 'folder' else []):
                if tree[p][0] == 'd':
                    fs.add(top + p, 'd', mode=stat.S_IMODE(i.mode), uid=1000, gid=1000)
                elif tree[p][0] == 'f':
                    fs.add(top + p, 'f', i.size, mode=stat.S_IMODE(i.mode), mtime=i.mtime, content=f'a{p}#0',
                           uid=1000, gid=1000)
                else:
                    fs.add(top + p, 'l', target=i.linkname, mtime=i.mtime, uid=1000, gid=1000)
        for p in overlay:
            i = x.int(f'overlay size {p}', 0, 1000)
            if p.count('/') > 1:
                up = p.rsplit('/', 1)[0]
                for top in ('overlay',) if up in tree else ('overlay', 'ref'):
                    fs.add(top + up, 'd', mode=0o755, uid=1000, gid=1000)
            for top in ('ref', 'overlay'):
                fs.add(top + p, 'f', i, mode=0o600, content=f'o{p}', uid=0, gid=0)
        self.source = source
        source.strict = False  # changed permissions are passed down
        self.lower = fs.snapshot('lower')
        self.written = set()  # files changed since their time was last set
        self.dirty = set(overlay)  # files whose times are not compared
        self.open()

    def open(self):
        lower = (self.fs.root + '/lower', None) if self.kind == 'folder' else (self.fs.root + '/archive.tar', self.source)
        self.m = mount(self.x, [lower], overlay=self.fs.root + '/overlay')

    def reopen(self):
        close(self.m)
        self.open()

    def ref(self, path):
        return self.fs.root + '/ref' + path

    def exists(self, path):
        return OS.path.lexists(self.ref(path))

    def kindof(self, path):
        return stat.S_IFMT(OS.lstat(self.ref(path)).st_mode) if self.exists(path) else None

    def need(self, cond):
        """What the kernel makes sure of."""
        self.x.assume(bool(cond))

    def parent(self, path):
        up = path.rsplit('/', 1)[0]
        return up == '' or self.kindof(up) == stat.S_IFDIR

    # every operation is done on the mount and on the reference folder
    def both(self, f, g, may_refuse=()):
        _, e = failing(f)
        if e is not None and e in may_refuse:
            self.x.reach('refused')
            return e
        _, want = failing(g)
        self.x.check((e is None) == (want is None), f'the operation works on the mount as in a folder (error {e}, {want})')
        return e

    def op_write(self, tag, path):
        x, m = self.x, self.m
        self.need(self.kindof(path) == stat.S_IFREG)
        flags, nothing = x.pick(tag + ' flags', x.cfg['flags'])
        trunc = bool(flags & os.O_TRUNC)
        off, n = x.int(tag + ' off', 0, 300), x.int(tag + ' n', 1, 300)
        data = x.segment(x.source(tag), 0, n)

        def f():
            fh = m.open(path, flags)
            if not nothing:
                x.check(x.eq(m.write(path, data, off, fh), n), 'bytes written')
            if flags & os.O_RDWR:
                k = x.int(tag + ' rn', 1, 300)
                self.pending = (k, m.read(path, k, off, fh))
            m.flush(path, fh)
            m.fsync(path, x.choose(tag + ' datasync', 2) if x.cfg.get('datasync') else 0, fh)
            m.release(path, fh)

        def g():
            fd = OS.open(self.ref(path), os.O_RDWR | (os.O_TRUNC if trunc else 0))
            if not nothing:
                OS.lseek(fd, off, 0)
                OS.write(fd, data)
            if flags & os.O_RDWR:
                OS.lseek(fd, off, 0)
                same_bytes(x, self.pending[1], OS.read(fd, self.pending[0]), 'data read back before closing')
            OS.close(fd)

        self.both(f, g)
        self.dirty.add(path)
        self.written.add(path)

    def op_create(self, tag, path):
        x, m = self.x, self.m
        self.need(self.parent(path) and not self.exists(path))
        mode = x.pick(tag + ' mode', x.cfg['modes'])
        n = x.int(tag + ' n', 0, 300)
        data = x.segment(x.source(tag), 0, n)

        def f():
            fh = m.create(path, stat.S_IFREG | mode)
            m.write(path, data, 0, fh)
            m.release(path, fh)

        def g():
            fd = OS.open(self.ref(path), os.O_RDWR | os.O_CREAT | os.O_EXCL, mode)
            OS.write(fd, data)
            OS.close(fd)

        self.both(f, g)
        self.dirty.add(path)
        self.written.add(path)

    def op_truncate(self, tag, path):
        n = self.x.int(tag + ' n', 0, 300)
        self.need(self.kindof(path) == stat.S_IFREG)
        self.both(lambda: self.m.truncate(path, n), lambda: OS.truncate(self.ref(path), n))
        self.dirty.add(path)
        self.written.add(path)

    def op_unlink(self, tag, path):
        self.need(self.exists(path) and self.kindof(path) != stat.S_IFDIR)
        self.both(lambda: self.m.unlink(path), lambda: OS.unlink(self.ref(path)))
        self.written.discard(path)

    def op_rmdir(self, tag, path):
        self.need(self.kindof(path) == stat.S_IFDIR)
        self.both(lambda: self.m.rmdir(path), lambda: OS.rmdir(self.ref(path)))

    def op_mkdir(self, tag, path):
        x, m = self.x, self.m
        self.need(self.parent(path) and not self.exists(path))
        mode = x.pick(tag + ' mode', x.cfg['modes'])
        self.both(lambda: m.mkdir(path, mode), lambda: OS.mkdir(self.ref(path), mode))

    def op_symlink(self, tag, path):
        self.need(self.parent(path) and not self.exists(path))
        self.both(lambda: self.m.symlink(path, 'f'), lambda: OS.symlink('f', self.ref(path)))
        self.dirty.add(path)

    def op_mknod(self, tag, path):
        self.need(self.parent(path) and not self.exists(path))
        mode = stat.S_IFREG | 0o640
        self.both(lambda: self.m.mknod(path, mode, 0), lambda: OS.mknod(self.ref(path), mode, 0))
        self.dirty.add(path)

    def op_link(self, tag, path):
        source = self.x.pick(tag + ' source', self.x.cfg['link_from'])
        self.need(self.parent(path) and not self.exists(path) and self.kindof(source) == stat.S_IFREG)
        e = self.both(lambda: self.m.link(path, source), lambda: OS.link(self.ref(source), self.ref(path)),
                      (errno.EXDEV, errno.ENOSYS, errno.EPERM))
        if e is None:
            self.linked = True
        self.dirty.add(path)

    def op_rename(self, tag, path):
        new = self.x.pick(tag + ' new', self.x.cfg['paths'])
        self.need(self.exists(path) and self.parent(new) and path != new and not new.startswith(path + '/'))
        self.need(not path.startswith(new + '/') or self.kindof(new) == stat.S_IFDIR)
        folder = self.kindof(path) == stat.S_IFDIR
        self.need(not self.exists(new) or (self.kindof(new) == stat.S_IFDIR) == folder)
        e = self.both(lambda: self.m.rename(path, new), lambda: OS.rename(self.ref(path), self.ref(new)),
                      (errno.EXDEV,) if folder else ())
        if e is None:
            for paths in (self.dirty, self.written):
                moved = {
                    new + p[len(path):] if p == path or p.startswith(path + '/') else p
                    for p in paths if p != new and not p.startswith(new + '/')
                }
                paths.clear()
                paths |= moved

    def op_chmod(self, tag, path):
        self.need(self.kindof(path) in (stat.S_IFREG, stat.S_IFDIR))
        mode = self.kindof(path) | self.x.int(tag + ' mode', 0o400, 0o777)
        self.both(lambda: self.m.chmod(path, mode), lambda: OS.chmod(self.ref(path), mode & 0o7777))

    def op_chown(self, tag, path):
        x = self.x
        self.need(self.exists(path))
        which = x.pick(tag + ' ids', ['ug', 'g', 'u'])
        uid = x.int(tag + ' uid', 0, 2000) if 'u' in which else -1
        gid = x.int(tag + ' gid', 0, 2000) if 'g' in which else -1
        self.both(lambda: self.m.chown(path, uid, gid), lambda: OS.chown(self.ref(path), uid, gid, follow_symlinks=False))

    def op_utimens(self, tag, path):
        self.need(self.exists(path) and self.kindof(path) != stat.S_IFLNK)
        t = self.x.int(tag + ' time', 0, 1000) * (10**9 // 8)
        self.both(lambda: self.m.utimens(path, (t, t)), lambda: OS.utime(self.ref(path), ns=(t, t)))
        if self.kindof(path) == stat.S_IFREG:
            self.dirty.discard(path)
            self.written.discard(path)

    def compare(self, label):
        """The mount shows exactly the reference folder, and the source is untouched."""
        x = self.x
        got, want = view(x, self.m), self.fs.snapshot('ref')
        x.check(sorted(got) == sorted(want), label + ': names')
        for p, (kind, mode, mtime, data, target, uid, gid) in want.items():
            a = got[p]
            x.check(x.eq(stat.S_IFMT(a['st_mode']), stat.S_IFMT(mode)), label + ': kind of file')
            if kind != 'l':
                x.check(x.eq(a['st_mode'], mode), label + ': permissions')
            if x.cfg.get('owners', True):
                x.check(x.eq((a['st_uid'], a['st_gid']), (uid, gid)), label + ': owner')
            if kind == 'l':
                x.check(self.m.readlink(p) == target, label + ': link target')
            if kind == 'f':
                x.check(x.eq(a['st_size'], x.len(data)), label + ': size')
                if p in self.written:
                    x.check(a['st_mtime'] > 10**18, label + ': changed files have a new time')
                elif p not in self.dirty:
                    x.check(x.eq(a['st_mtime'], mtime), label + ': time')
                fh = self.m.open(p, os.O_RDONLY)
                same_bytes(x, self.m.read(p, x.len(data) + 10, 0, fh), data, label + ': contents')
                self.m.release(p, fh)
        for p in x.cfg['paths']:
            if p not in want:
                x.check(failing(lambda: self.m.getattr(p))[1] == errno.ENOENT, label + ': other files do not exist')
        stats = self.m.statfs('/')
        x.check(stats['f_blocks'] == OS.statvfs(self.fs.root + '/overlay').f_blocks, label + ': disk space')
        x.check(stats['f_bavail'] > 0, label + ': free space')
        if self.kind == 'folder':
            x.check(self.fs.snapshot('lower').keys() == self.lower.keys(), 'the source is untouched')
            for p, entry in self.fs.snapshot('lower').items():
                old = self.lower[p]
                x.check(x.eq(entry[:3] + entry[4:], old[:3] + old[4:]), 'the source is untouched')
                if entry[0] == 'f':
                    same_bytes(x, entry[3], old[3], 'the source is untouched')


OPS = ['write', 'create', 'truncate', 'unlink', 'rmdir', 'mkdir', 'symlink', 'mknod', 'link', 'rename', 'chmod', 'chown',
       'utimens']


def history(x):
    """Histories of changes against the same history in an ordinary folder."""
    tree = x.pick('tree', [TREES[k] for k in x.cfg['trees']])
    w = World(x, tree, x.pick('source', x.cfg['kinds']), x.pick('overlay', x.cfg['overlays']))
    w.dirty |= {p for p in tree if tree[p][0] != 'f'}
    for k in range(x.cfg['ops'] if not x.cfg['shorter'] else 1 + x.choose('length', x.cfg['ops'])):
        op = x.pick(f'op{k}', x.cfg['op_names'])
        getattr(w, 'op_' + op)(f'op{k}', x.pick(f'path{k}', x.cfg['paths']))
    w.compare('afterwards')
    x.reach('compared')
    w.reopen()
    w.compare('after mounting again')
    x.reach('again')


DATABASE = '/.ratarmount.overlay.sqlite'


def database(x):
    """The overlay's own database is no file of the mount: it is not found, and no operation replaces it."""
    w = World(x, TREES[0], x.pick('source', x.cfg['kinds']))
    m = w.m
    op = x.pick('before', x.cfg['before'])
    if op:
        getattr(w, 'op_' + op[0])('before', op[1])
    path = DATABASE + x.pick('suffix', x.cfg['suffixes'])
    x.check(failing(lambda: m.getattr(path))[1] == errno.ENOENT, 'not found')
    x.check(path[1:] not in [e[0] if isinstance(e, tuple) else e for e in m.readdir('/', 0)], 'not listed')
    present = x.pick('file', ['/f', '/n'])
    w.need(w.kindof(present) == stat.S_IFREG)
    tried = x.pick('operation', x.cfg['tried'])
    _, e = failing({
        'create': lambda: m.create(path, stat.S_IFREG | 0o644),
        'mkdir': lambda: m.mkdir(path, 0o755),
        'symlink': lambda: m.symlink(path, 'f'),
        'mknod': lambda: m.mknod(path, stat.S_IFREG | 0o644, 0),
        'link': lambda: m.link(path, present),
        'rename': lambda: m.rename(present, path),
        'open': lambda: m.open(path, os.O_RDWR),
        'truncate': lambda: m.truncate(path, 0),
        'unlink': lambda: m.unlink(path),
        'removed': lambda: m.rename(path, '/x'),
    }[tried])
    x.observe('error', e is not None)
    x.check(e is not None, 'refused')
    x.check(failing(lambda: m.getattr(path))[1] == errno.ENOENT, 'still not found')
    w.compare('afterwards')
    x.reach('compared')
    w.reopen()
    w.compare('after mounting again')
    x.reach('again')


_b = ('histories of up to {} operations (write with and without truncation, create, truncate, unlink, rmdir, mkdir, symlink, '
      'mknod, link, rename, chmod, chown, utimens) on {} paths over {}; file sizes 0 to 1000, offsets, lengths, modes '
      'and times symbolic')
PATHS = ['/f', '/d', '/d/g', '/n', '/d/n']
HARNESSES = [
    Harness('single', history, _b.format(1, 10, 'three source trees (archives and folders) and overlays with earlier files'),
            quick=dict(
        ops=1, shorter=False, trees=[0, 1, 2], kinds=['folder', 'archive'], overlays=[(), ('/o', '/d/g')], op_names=OPS,
        paths=PATHS + ['/o', '/l', '/d/e', '/d/d', '/d/d/.f', '/d/.ratarmount.overlay.sqlite'], link_from=['/f', '/o'], flags=FLAGS, datasync=True, modes=[0o644, 0o700])),
    Harness('history', history, _b.format('2 (thorough: 3)', 5, 'a source tree'), quick=dict(
        ops=2, shorter=False, trees=[0], kinds=['folder'], overlays=[()], op_names=OPS,
        paths=PATHS, link_from=['/f', '/n'], flags=[(os.O_WRONLY, False)], modes=[0o755]),
        thorough=dict(ops=3, flags=[(os.O_RDWR, False)], kinds=['archive'])),
    Harness('reuse', history, 'histories of 3 (thorough: 4) removals, creations and renames on 4 paths', quick=dict(
        ops=3, shorter=False, trees=[0], kinds=['folder'], overlays=[()],
        op_names=['unlink', 'create', 'mkdir', 'rmdir', 'rename', 'symlink'], paths=['/f', '/d', '/d/g', '/n'],
        link_from=['/f'], flags=[(os.O_WRONLY, False)], modes=[0o755]),
        thorough=dict(ops=4)),
    Harness('nested', history, 'histories of 2 (thorough: 3) changes of metadata, removals and renames of folders left by earlier mounts',
            quick=dict(
        ops=2, shorter=False, trees=[0], kinds=['archive'], overlays=[('/n/n', '/n/.m')],
        op_names=['rename', 'chmod', 'chown', 'unlink'], paths=['/n', '/n/n', '/m', '/n/.m', '/m/n', '/d/g'],
        link_from=['/f'], flags=[(os.O_WRONLY, False)], modes=[0o755]),
        thorough=dict(ops=3)),
    Harness('database', database, 'one earlier change and any operation on the name of the database or one of its companions',
            quick=dict(
        kinds=['folder'], before=[('unlink', '/f'), ('create', '/n')], suffixes=['', '-journal', '-copy'], paths=PATHS,
        tried=['create', 'mkdir', 'symlink', 'mknod', 'link', 'rename', 'open', 'truncate', 'unlink', 'removed'], modes=[0o755]),
        thorough=dict(kinds=['folder', 'archive'], suffixes=['', '-journal', '-copy', '-wal', '-shm'],
                      before=[None, ('unlink', '/f'), ('create', '/n'), ('rmdir', '/d'), ('chmod', '/f'), ('unlink', '/d/g')])),
]
for h in HARNESSES:
    h.must_reach = ['compared', 'again']
BUDGET = {'quick': 600, 'thorough': 3 * 3600}
