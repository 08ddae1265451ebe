"""An in-memory mount source with symbolic metadata, for the layers stacked on top of mount sources."""
import errno
import posixpath
import stat

REG = stat.S_IFREG | 0o644
DIR = stat.S_IFDIR | 0o755
LNK = stat.S_IFLNK | 0o777


def normal(path):
    return '/' + posixpath.normpath('/' + path).lstrip('/')


def make_class(x, eighths=False):
    from ratarmountcore.mountsource import FileInfo, MountSource

    class FakeSource(MountSource):
        """tree: path -> list of (kind, key), oldest version first. Parents must be folders in the newest version
        for their children to be listed, as for a file system; '/' always exists. Sources that are not versioned ignore the
        version asked for, as folders do."""

        def __init__(self, name, tree, immutable=True, listing='dict', versioned=True):
            self.name, self.tree, self.immutable, self.listing = name, dict(tree), immutable, listing
            self.versioned = versioned
            self.infos = {}
            self.exited = 0
            self.strict = True  # metadata must be passed down unchanged
            self.broken = False  # opening fails
            self.opened = []
            self.files = []

        def info(self, path, k):
            """Metadata of version k (counted from 0) of a path."""
            key = (path, k)
            if key not in self.infos:
                kind = 'd' if path == '/' else self.tree[path][k]
                tag = f'{self.name}{path}#{k}'
                mode, link = {'f': REG, 'd': DIR}.get(kind[0], LNK), ''
                if kind[0] == 'l':
                    link = kind[1:]
                elif kind[0] == 'h':  # hard link as recorded for tar archives
                    mode, link = 0o644, kind[1:]
                self.infos[key] = FileInfo(
                    size=x.int(f'size {tag}', 0, 1000) if kind[0] == 'f' else 0,
                    mtime=x.int(f'mtime {tag}', 0, 8000) / 8 if eighths else x.int(f'mtime {tag}', 0, 1000),
                    mode=mode, linkname=link, uid=1000, gid=1000, userdata=[],
                )
            f = self.infos[key].clone()
            f.userdata = [(self.name, path, k)]
            return f

        def count(self, path):
            return 1 if path == '/' else len(self.tree.get(path, ()))

        def lookup(self, path, fileVersion=0):
            path = normal(path)
            n = self.count(path)
            if path == '/':
                return self.info(path, 0)
            if n and not self.versioned:
                return self.info(path, 0)
            for k in range(n):
                if fileVersion == (k + 1) or fileVersion == k + 1 - n:
                    return self.info(path, k)
            return None

        def versions(self, path):
            return self.count(normal(path))

        def children(self, path):
            path = normal(path)
            if path != '/' and (path not in self.tree or self.tree[path][-1][0] != 'd'):
                return None
            return [p.rsplit('/', 1)[1] for p in self.tree if p.rsplit('/', 1)[0] == path.rstrip('/')]

        def list(self, path):
            names = self.children(path)
            if names is None or self.listing == 'names':
                return names
            base = normal(path).rstrip('/')
            return {n: self.info(base + '/' + n, self.count(base + '/' + n) - 1) for n in names}

        def is_immutable(self):
            return self.immutable

        def own(self, fileInfo):
            """The (path, version) of one of this source's own file infos, exactly as it was returned."""
            x.check(len(fileInfo.userdata) == 1 and isinstance(fileInfo.userdata[0], tuple), 'user data passed down')
            name, path, k = fileInfo.userdata[0]
            x.check(name == self.name, 'passed down to the source it came from')
            want = self.info(path, k)
            x.check(
                not self.strict or x.eq((fileInfo.size, fileInfo.mtime, fileInfo.mode, fileInfo.linkname),
                     (want.size, want.mtime, want.mode, want.linkname)),
                'metadata passed down',
            )
            return path, k

        def open(self, fileInfo, buffering=-1):
            path, k = self.own(fileInfo)
            if self.broken:
                raise OSError(errno.EIO, 'broken')
            f = x.file(f'{self.name}{path}#{k}', self.info(path, k).size)
            f.tag = (self.name, path, k)
            self.opened.append((f.tag, buffering))
            self.files.append(f)
            return f

        def list_xattr(self, fileInfo):
            path, k = self.own(fileInfo)
            return ['user.' + self.name, f'user.{path}#{k}', 'user.empty']

        def get_xattr(self, fileInfo, key):
            path, k = self.own(fileInfo)
            return {'user.tag': f'{self.name}{path}#{k}'.encode(), 'user.empty': b''}.get(key)

        def __exit__(self, exception_type, exception_value, exception_traceback):
            self.exited += 1

    return FakeSource


def check_routed(x, layer, info, want, label):
    """open, read, attributes and the mount source of info reach version want = (source, path, k) of its source."""
    source, path, k = want
    own = source.info(path, k)
    before = [u for u in info.userdata]
    source.broken = True
    for use in (layer.open, lambda i: layer.read(i, 1, 0)):
        try:
            use(info)
            x.fail(label + ': failing is reported')
        except OSError:
            pass
    source.broken = False
    x.check(len(info.userdata) == len(before) and all(a is b for a, b in zip(info.userdata, before)),
            label + ': the file info can be used after failing')
    f = layer.open(info)
    x.check(getattr(f, 'tag', None) == (source.name, path, k), label + ': opened')
    off, n = x.int(f'off {label}', 0, 1000), x.int(f'n {label}', 0, 1000)
    data = layer.read(info, n, off)
    size = own.size
    x.check_bytes(
        data, x.min(n, x.max(0, size - off)), lambda j: x.at(x.source(f'{source.name}{path}#{k}'), off + j), label + ': read'
    )
    x.check(sorted(layer.list_xattr(info)) == sorted(source.list_xattr(own)), label + ': attribute names')
    x.check(layer.get_xattr(info, 'user.tag') == source.get_xattr(own, 'user.tag'), label + ': attribute')
    x.check(layer.get_xattr(info, 'user.none') is None, label + ': missing attribute')
    x.check(layer.get_xattr(info, 'user.empty') == b'', label + ': empty attribute')
    x.check(len(info.userdata) == len(before) and all(a is b for a, b in zip(info.userdata, before)),
            label + ': the file info can be used again')
    sub = layer.get_mount_source(info)
    x.check(sub[1] is source, label + ': source')
    x.check(sub[2].userdata == own.userdata, label + ': file info of the source')
    x.check(len(info.userdata) == len(before), label + ': the file info can be used again')
    return sub[0]


def same_info(x, info, own, label):
    x.check(info is not None, label + ': found')
    x.check(
        x.eq((info.size, info.mtime, info.mode, info.linkname, info.uid, info.gid),
             (own.size, own.mtime, own.mode, own.linkname, own.uid, own.gid)),
        label + ': metadata',
    )
