"""Builds a FuseMount over model sources and shows its contents the way the kernel would ask for them."""
import errno
import os
import stat

from symx.fsmodel import OsDispatch

OS = OsDispatch()  # the model file system if there is one, else the real one


def mount(x, sources, overlay=None, mount_point=None, **options):
    """A FuseMount of the given [(path, mount source or None for a real folder)]."""
    import ratarmount.FuseMount as module
    from ratarmountcore.mountsource.formats.folder import FolderMountSource

    by_path = dict(sources)

    def open_mount_source(path, **_):
        source = by_path.get(path)
        return FolderMountSource(path) if source is None else source

    x.patch(module, 'open_mount_source', open_mount_source)
    point = mount_point or x.fs.root + '/mounted'
    if not OS.path.exists(point):
        OS.mkdir(point)
    if overlay is not None:
        options['writeOverlay'] = overlay
    m = module.FuseMount([p for p, _ in sources], point, **options)
    x.on_cleanup(lambda: close(m))
    return m


def close(m):
    if m.writeOverlay is not None:
        m.writeOverlay.sqlConnection.close()
    m._close()


def failing(f, *args):
    """(result, None) or (None, errno)."""
    try:
        return f(*args), None
    except OSError as e:
        return None, e.errno


def read_file(x, m, path, size):
    fh = m.open(path, os.O_RDONLY)
    data = m.read(path, size, 0, fh)
    m.flush(path, fh)
    m.release(path, fh)
    return data


def names(m, path):
    out = []
    for e in m.readdir(path, 0):
        out.append(e if isinstance(e, str) else e[0])
    assert len(set(out)) == len(out), 'names are listed once'
    return [n for n in out if n not in ('.', '..')]


def view(x, m, path=''):
    """path -> attributes of everything below a folder of a mount."""
    out = {}
    for e in m.readdir(path or '/', 0):
        n, mode = (e, None) if isinstance(e, str) else e[:2]
        if n in ('.', '..'):
            continue
        p = path + '/' + n
        x.check(p not in out, 'names are listed once')
        a = m.getattr(p)
        if mode is not None:
            x.check(x.eq(stat.S_IFMT(mode), stat.S_IFMT(a['st_mode'])), 'listed kind of file')
        out[p] = a
        if stat.S_ISDIR(a['st_mode']):
            out.update(view(x, m, p))
    return out
