"""P17: changes through a write overlay that fail or are interrupted leave everything as it was."""
import errno
import os
import stat

from props import p10
from props.crashkit import Killed
from props.faultkit import Faults
from props.fusekit import OS, close, view
from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a change to the storage of the overlay that fails has no effect; statements of SQLite are atomic',
    'file systems behave as modelled in symx/fsmodel.py and SQLite as in symx/sqlmini.py; replays and sampled paths compare '
    'both with the real ones',
]
OUTSIDE = ['several failures in a row', 'failures of the database of the overlay', 'times of files', 'renames and hard links that are interrupted by the end of the process',
           'permissions and owner of the changed file itself after the end of the process', 'loss of data that was not flushed']


class World(p10.World):
    def op_rename(self, path):
        x = self.x
        new = x.pick('new', x.cfg['paths'])
        self.need(self.exists(path) and self.parent(new) and path != new and not new.startswith(path + '/'))
        self.need(not path.startswith(new + '/') or self.kindof(new) == stat.S_IFDIR)
        folder = self.kindof(path) == stat.S_IFDIR
        self.need(not self.exists(new) or (self.kindof(new) == stat.S_IFDIR) == folder)
        return [path, new], None, lambda _: self.m.rename(path, new), lambda: OS.rename(self.ref(path), self.ref(new))

    def op_open(self, path):
        """Opening for writing, or truncating while opening."""
        self.need(self.kindof(path) == stat.S_IFREG)
        trunc = self.x.flag('truncates')

        def act(_):
            self.m.release(path, self.m.open(path, os.O_WRONLY | (os.O_TRUNC if trunc else 0)))

        return [path], None, act, lambda: OS.truncate(self.ref(path), 0) if trunc else None

    def op_write(self, path):
        x = self.x
        self.need(self.kindof(path) == stat.S_IFREG)
        off, n = x.int('off', 0, 300), x.int('n', 1, 300)
        data = x.segment(x.source('written'), 0, n)

        def act(fh):
            self.m.write(path, data, off, fh)
            self.m.flush(path, fh)

        def ref():
            fd = OS.open(self.ref(path), os.O_RDWR)
            OS.lseek(fd, off, 0)
            OS.write(fd, data)
            OS.close(fd)

        return [path], lambda: self.m.open(path, os.O_RDWR), act, ref

    def op_create(self, path):
        self.need(self.parent(path) and not self.exists(path))

        def act(_):
            self.m.release(path, self.m.create(path, stat.S_IFREG | 0o644))

        return [path], None, act, lambda: OS.close(OS.open(self.ref(path), os.O_RDWR | os.O_CREAT, 0o644))

    def op_truncate(self, path):
        n = self.x.int('length', 0, 300)
        self.need(self.kindof(path) == stat.S_IFREG)
        return [path], None, lambda _: self.m.truncate(path, n), lambda: OS.truncate(self.ref(path), n)

    def op_unlink(self, path):
        self.need(self.exists(path) and self.kindof(path) != stat.S_IFDIR)
        return [path], None, lambda _: self.m.unlink(path), lambda: OS.unlink(self.ref(path))

    def op_rmdir(self, path):
        self.need(self.kindof(path) == stat.S_IFDIR and not OS.listdir(self.ref(path)))
        return [path], None, lambda _: self.m.rmdir(path), lambda: OS.rmdir(self.ref(path))

    def op_mkdir(self, path):
        self.need(self.parent(path) and not self.exists(path))
        return [path], None, lambda _: self.m.mkdir(path, 0o755), lambda: OS.mkdir(self.ref(path), 0o755)

    def op_symlink(self, path):
        self.need(self.parent(path) and not self.exists(path))
        return [path], None, lambda _: self.m.symlink(path, 'f'), lambda: OS.symlink('f', self.ref(path))

    def op_mknod(self, path):
        self.need(self.parent(path) and not self.exists(path))
        mode = stat.S_IFREG | 0o644
        return [path], None, lambda _: self.m.mknod(path, mode, 0), lambda: OS.mknod(self.ref(path), mode, 0)

    def op_chmod(self, path):
        self.need(self.kindof(path) in (stat.S_IFREG, stat.S_IFDIR))
        mode = self.kindof(path) | self.x.int('mode', 0o400, 0o777)
        return [path], None, lambda _: self.m.chmod(path, mode), lambda: OS.chmod(self.ref(path), mode & 0o7777)

    def op_chown(self, path):
        self.need(self.exists(path))
        uid = self.x.int('uid', 0, 2000)
        return [path], None, lambda _: self.m.chown(path, uid, -1), lambda: OS.chown(self.ref(path), uid, -1, follow_symlinks=False)

    def shows(self, got, want, targets, label, attributes=True, other=None):
        """The entries are those of the wanted folder; files in targets may also have the other contents."""
        x = self.x
        x.check(sorted(got) == sorted(want), label + ': names')
        for p, (kind, mode, _, data, target, uid, gid) in want.items():
            a = got[p]
            full = attributes or p not in targets
            x.check(x.eq(stat.S_IFMT(a['st_mode']), stat.S_IFMT(mode)), label + ': kind of file')
            if other is not None and p in targets and p in other:
                _, mode2, _, data2, _, uid2, gid2 = other[p]
            else:
                mode2, data2, uid2, gid2 = mode, data, uid, gid
            if full:
                if kind != 'l':
                    x.check(x.or_(x.eq(a['st_mode'], mode), x.eq(a['st_mode'], mode2)), label + ': permissions')
                x.check(x.or_(x.eq((a['st_uid'], a['st_gid']), (uid, gid)), x.eq((a['st_uid'], a['st_gid']), (uid2, gid2))), label + ': owner')
            if kind == 'l':
                x.check(self.m.readlink(p) == target, label + ': link target')
            if kind == 'f':
                same = bool(x.eq(a['st_size'], x.len(data)))
                if not same:
                    data = data2
                n = x.len(data)
                x.check(x.eq(a['st_size'], n), label + ': size')
                fh = self.m.open(p, os.O_RDONLY)
                found = self.m.read(p, n + 10, 0, fh)
                if data is not data2 and same and bool(x.eq(n, x.len(data2))):
                    # Bytes that have been changed by the call are those of before or after.
                    x.check_bytes(found, n, lambda j: x.ite(x.eq(x.byte(found, j), x.byte(data, j)), x.byte(data, j), x.byte(data2, j)),
                                  label + ': contents')
                else:
                    p10.same_bytes(x, found, data, label + ': contents')
                self.m.release(p, fh)
        for p in x.cfg['paths']:
            if p not in want:
                x.check(p not in got, label + ': other files do not exist')


def _start(x):
    w = World(x, x.pick('tree', [p10.TREES[k] for k in x.cfg['trees']]), x.cfg['kind'], x.pick('overlay', x.cfg['overlays']))
    for k in range(x.cfg['before']):
        path = x.pick(f'path before{k}', x.cfg['before_paths'])
        what = x.pick(f'before{k}', ['nothing', 'written', 'removed', 'permissions'])
        x.assume(what != 'nothing' or path == '/f')
        if what == 'nothing':
            continue
        w.need(w.exists(path))
        if what == 'written':
            w.need(w.kindof(path) == stat.S_IFREG)
            w.m.truncate(path, 7)
            OS.truncate(w.ref(path), 7)
        elif what == 'permissions':
            mode = w.kindof(path) | 0o700
            w.m.chmod(path, mode)
            OS.chmod(w.ref(path), mode & 0o7777)
        elif w.kindof(path) == stat.S_IFDIR:
            w.need(not OS.listdir(w.ref(path)))
            w.m.rmdir(path)
            OS.rmdir(w.ref(path))
        else:
            w.m.unlink(path)
            OS.unlink(w.ref(path))
    return w


def failing(x):
    """A call whose k-th change to the overlay fails reports it and changes nothing, and works when it is repeated."""
    w = _start(x)
    op, path = x.pick('op', x.cfg['ops']), x.pick('path', x.cfg['paths'])
    targets, prepare, act, ref = getattr(w, 'op_' + op)(path)
    faults = Faults(x, x.int('at', 0, x.cfg['steps']), databases=x.cfg['databases'])
    if x.cfg['databases']:
        import ratarmount.WriteOverlay as overlay_module

        close(w.m)
        faults.attach(overlay_module)
        w.open()
    handle = prepare() if prepare else None
    old = w.fs.snapshot('ref')
    faults.armed = True
    error = None
    try:
        act(handle)
    except OSError as e:
        error = e.errno
    except Exception as e:
        # Reported to the caller as an input/output error.
        x.check(faults.what == 'database', 'errors of the overlay are errors of the call')
        error = errno.EIO
    faults.armed = False
    x.assume(faults.hit)
    ref()
    new = w.fs.snapshot('ref')
    got = view(x, w.m)
    if error is None:
        w.shows(got, new, targets, 'after a failure that does not matter')
        x.reach('works')
    elif sorted(old) == sorted(new):
        w.shows(got, new, targets, 'after a failure', True, old)
        x.reach('fails')
        if op == 'write':
            k = 20
            found = w.m.read(path, k, 0, handle)
            want = old[path][3] if not bool(x.eq(got[path]['st_size'], x.len(new[path][3]))) else new[path][3]
            x.check(x.eq(x.len(found), x.min(k, x.len(want))), 'reading after a failure')
        act(handle)
        w.shows(view(x, w.m), new, targets, 'repeated')
    elif sorted(got) == sorted(new):
        x.check(faults.what == 'database', 'after a failure: nothing changed')
        w.shows(got, new, targets, 'after a failure', attributes=False)
    else:
        w.shows(got, old, targets, 'after a failure')
        x.reach('fails')
        # It works when the storage works.
        act(prepare() if prepare else None)
        w.shows(view(x, w.m), new, targets, 'repeated')
        x.reach('repeated')
    w.reopen()
    if error is None or sorted(got) == sorted(new) != sorted(old):
        w.shows(view(x, w.m), new, targets, 'mounted again', attributes=error is None)


def killed(x):
    """A mount whose process ends before the k-th change of a call shows the files of before or after the call when mounted again."""
    w = _start(x)
    op, path = x.pick('op', x.cfg['ops']), x.pick('path', x.cfg['paths'])
    targets, prepare, act, ref = getattr(w, 'op_' + op)(path)
    old = w.fs.snapshot('ref')
    at = x.int('at', 0, x.cfg['steps'])
    close(w.m)

    def run():
        import ratarmount.WriteOverlay as overlay_module

        faults = Faults(x, at, kill=True, databases=True)
        faults.attach(overlay_module)
        w.open()
        handle = prepare() if prepare else None
        faults.armed = True
        act(handle)
        faults.detach()
        return faults

    if x.symbolic:
        try:
            run()
            hit = False
        except Killed:
            hit = True
        x.fs.on_change = None
        x.sqlite.on_statement = None
        x.sqlite.crash()
    else:
        pid = os.fork()
        if pid == 0:
            try:
                run()
                os._exit(0)
            except BaseException:
                import traceback

                traceback.print_exc()
                os._exit(1)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if code not in (0, 9):
            raise RuntimeError('the call failed')
        hit = code == 9
    x.assume(hit)
    w.open()
    ref()
    new = w.fs.snapshot('ref')
    got = view(x, w.m)
    if sorted(got) == sorted(new):
        w.shows(got, new, targets, 'mounted again', False, old)
        x.reach('after')
    else:
        w.shows(got, old, targets, 'mounted again', False)
        x.reach('before')


_PATHS = ['/f', '/d', '/d/g', '/n', '/d/n', '/d/e', '/l', '/o']
_OPS = ['open', 'write', 'create', 'truncate', 'unlink', 'rmdir', 'mkdir', 'symlink', 'mknod', 'rename', 'chmod', 'chown']


def _h(name, fn, text, reach, thorough, **quick):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)'])
    h.must_reach = reach
    return h


_b = 'one of {} kinds of calls on 8 paths after up to 1 earlier change, over an archive and overlays with earlier files'
HARNESSES = [
    _h('failing', failing, _b.format(12) + '; any one change to files of the overlay fails', ['fails', 'repeated'], {'trees': [0, 1, 2], 'before_paths': ['/f', '/d', '/d/g', '/d/e']},
       trees=[0, 1], kind='archive', overlays=[(), ('/d/g', '/o')], before=1, before_paths=['/f', '/d/g'], ops=_OPS, paths=_PATHS, steps=8, databases=False, owners=True),
    _h('killed', killed, _b.format(11) + '; the process ends before any change to files or the database', ['before', 'after'], {'trees': [0, 1, 2], 'before_paths': ['/f', '/d', '/d/g', '/d/e']},
       trees=[0, 1], kind='archive', overlays=[(), ('/d/g', '/o')], before=1, before_paths=['/f', '/d/g'], ops=[o for o in _OPS if o != 'rename'], paths=_PATHS, steps=12,
       owners=True),
]
BUDGET = {'quick': 600, 'thorough': 3 * 3600}
