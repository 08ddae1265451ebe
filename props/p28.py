"""P28: committing a write overlay makes the archive hold what the mount showed."""
import os
import posixpath
import stat
import types

from symx.runner import Harness

from . import p10
from .fusekit import OS, close

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'GNU tar deletes the members with exactly the listed names and those below them, and appends the listed files and '
    'everything below listed folders (checked against GNU tar 1.35)',
    'the archive has a member for every folder', 'SQLite as modelled in symx/sqlmini.py', 'file system as modelled in symx/fsmodel.py',
]
OUTSIDE = ['metadata of the committed files, which GNU tar takes from the overlay folder', 'compressed archives',
           'names that cannot be encoded', 'archives and overlays changed meanwhile']


class Tar:
    """What GNU tar does to the archive."""

    def __init__(self, x, tree, source, style):
        self.x, self.members, self.refuse, self.refused = x, [], False, False
        for p in tree:
            kind = tree[p][0][0]
            name = style + p[1:] + ('/' if kind == 'd' else '')
            info = source.info(p, 0)
            data = x.segment(x.source(f'a{p}#0'), 0, info.size) if kind == 'f' else None
            self.members.append((name, kind, data, info.linkname if kind == 'l' else None))

    def run(self, args, env=None, check=False, stderr=None, **_):
        folder, files, archive, action = '.', None, None, None
        args = list(args)
        assert args.pop(0) == 'tar'
        while args:
            a = args.pop(0)
            key, _, value = a.partition('=')
            if key in ('-C', '--directory'):
                folder = value or args.pop(0)
            elif key in ('-T', '--files-from'):
                files = value or args.pop(0)
            elif key in ('-f', '--file'):
                archive = value or args.pop(0)
            elif key in ('--delete', '--append', '-r'):
                action = 'append' if key == '-r' else key[2:]
            elif key == '--no-recursion':
                folder = (folder,)
            elif key not in ('--null', '--verbatim-files-from'):
                raise NotImplementedError('tar ' + a)
        assert archive == self.x.fs.root + '/archive.tar', archive
        with p10_open(files) as f:
            names = [n for n in f.read().split(b'\0') if n]
        errors = getattr(self, action)([n.decode() if isinstance(n, bytes) else str(n) for n in names], folder)
        if errors:
            errors.append('tar: Exiting with failure status due to previous errors')
        assert not (check and errors), errors
        return types.SimpleNamespace(returncode=2 if errors else 0, stderr='\n'.join(errors).encode(), stdout=b'')

    def delete(self, names, _):
        if self.refuse:
            self.refused = True
            return ['tar: archive.tar: Cannot write: No space left on device']
        errors = []
        for n in names:
            n = n.rstrip('/')
            left = [m for m in self.members if m[0].rstrip('/') != n and not m[0].startswith(n + '/')]
            if len(left) == len(self.members):
                errors.append(f'tar: {n}: Not found in archive')
            self.members = left
        return errors

    def append(self, names, folder):
        recurse = not isinstance(folder, tuple)
        folder = folder if recurse else folder[0]
        errors = []

        def add(name):
            full = folder + '/' + name
            if not OS.path.lexists(full):
                errors.append(f'tar: {name}: Cannot stat: No such file or directory')
                return
            kind = stat.S_IFMT(OS.lstat(full).st_mode)
            if kind == stat.S_IFDIR:
                self.members.append((name.rstrip('/') + '/', 'd', None, None))
                for n in OS.listdir(full) if recurse else []:
                    add(name.rstrip('/') + '/' + n)
            elif kind == stat.S_IFLNK:
                self.members.append((name, 'l', None, OS.readlink(full)))
            else:
                with p10_open(full) as f:
                    self.members.append((name, 'f', f.read(), None))

        for n in names:
            add(n)
        return errors

    def shown(self):
        """What a mount of the archive shows: the newest member of each path, and folders for what is below them."""
        out = {}
        for name, kind, data, target in self.members:
            p = posixpath.normpath('/' + name.lstrip('/'))
            up = posixpath.dirname(p)
            while up != '/':
                if up not in out or out[up][0] != 'd':
                    out[up] = ('d', None, None)
                up = posixpath.dirname(up)
            out[p] = (kind, data, target)
        return out


def p10_open(path):
    from symx.fsmodel import model

    fs = model()
    return open(path, 'rb') if fs is None or not fs.owns(path) else fs.open_file(path, 'rb')


def commit(x):
    """Histories of changes, then a commit."""
    import ratarmount.WriteOverlay as module

    tree = x.pick('tree', [p10.TREES[k] for k in x.cfg['trees']])
    w = p10.World(x, tree, 'archive', x.pick('overlay', x.cfg['overlays']))
    tar = Tar(x, tree, w.source, x.pick('style', x.cfg['styles']))
    for k in range(x.cfg['ops']):
        op = x.pick(f'op{k}', x.cfg['op_names'])
        if op == 'link to folder':
            path = x.pick(f'path{k}', x.cfg['paths'])
            w.need(w.parent(path) and not w.exists(path))
            w.both(lambda: w.m.symlink(path, '/d'[1:]), lambda: OS.symlink('d', w.ref(path)))
        else:
            getattr(w, 'op_' + op)(f'op{k}', x.pick(f'path{k}', x.cfg['paths']))
    close(w.m)
    answer = x.pick('answer', x.cfg['answers'])
    tar.refuse = answer == 'commit' and x.flag('refused')
    before = list(tar.members)
    x.patch(module, 'is_tar', lambda *a, **k: True)
    x.patch(module.subprocess, 'run', tar.run)
    x.patch(os, 'popen', lambda *a: _Version())
    x.patch(module, 'input', lambda *a: answer)
    overlay = x.fs.root + '/overlay' + x.pick('slash', x.cfg['slashes'])
    failed = False
    try:
        module.commit_overlay(overlay, x.fs.root + '/archive.tar')
    except module.RatarmountError:
        failed = True
    if answer != 'commit' or tar.refused:
        x.check(tar.members == before, 'nothing changes without confirmation or if deleting fails')
        x.check(failed == tar.refused, 'problems are reported')
        x.reach('refused' if failed else 'canceled')
        return
    x.check(not failed, 'commit works')
    got = tar.shown()
    want = w.fs.snapshot('ref')
    x.check(sorted(got) == sorted(want), 'names')
    for p, (kind, mode, mtime, data, target, uid, gid) in want.items():
        x.check(got[p][0] == kind, 'kind of file')
        if kind == 'f':
            p10.same_bytes(x, got[p][1], data, 'contents')
        if kind == 'l':
            x.check(got[p][2] == target, 'link target')
    x.reach('committed')


class _Version:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def read(self):
        return 'tar (GNU tar) 1.35'


OPS = ['write', 'create', 'truncate', 'unlink', 'rmdir', 'mkdir', 'symlink', 'link', 'rename']
HARNESSES = [
    Harness('commit', commit, 'histories of 2 (thorough: 3) operations on 5 paths before the commit, 3 (thorough) styles of names',
            {'trees': [0], 'overlays': [()], 'ops': 2, 'op_names': OPS, 'paths': p10.PATHS, 'link_from': ['/n'],
             'flags': [(os.O_WRONLY, False)], 'modes': [0o755], 'styles': ['./'], 'slashes': [''], 'answers': ['commit']},
            {'trees': [0, 1], 'ops': 3, 'styles': ['', './', '/'], 'slashes': ['', '/']},
            models=['GNU tar (props/p28.py)', 'SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)']),
    Harness('styles', commit, 'single operations, answers, styles of names, and links to folders',
            {'trees': [0, 1], 'overlays': [(), ('/o', '/d/g')], 'ops': 1, 'op_names': OPS + ['link to folder'],
             'paths': p10.PATHS + ['/o', '/l', '/d/e', '/d/.ratarmount.overlay.sqlite'], 'link_from': ['/o'], 'flags': p10.FLAGS, 'modes': [0o755],
             'styles': ['', './', '/'], 'slashes': ['', '/'], 'answers': ['commit', '', 'no', 'commit ']},
            {},
            models=['GNU tar (props/p28.py)', 'SQLite (symx/sqlmini.py)', 'file system (symx/fsmodel.py)']),
]
HARNESSES[0].must_reach = ['committed', 'refused']
HARNESSES[1].must_reach = ['committed', 'refused', 'canceled']
