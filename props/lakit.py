"""A model of libarchive: archives whose members lie behind each other in a file that is read through callbacks."""
from . import bytekit


class Buffer:
    """What ctypes.create_string_buffer returns."""

    def __init__(self, x, size):
        self.x, self.size, self.data = x, size, None

    def symx_len(self):
        return self.size

    def __len__(self):
        return self.size

    @property
    def raw(self):
        data = b'' if self.data is None else self.data
        return bytekit.join(self.x, [data, b'\0' * (self.size - self.x.len(data))])

    def __getitem__(self, index):
        return self.raw[index]

    def __bool__(self):
        return bool(self.size > 0)


class Ctypes:
    c_void_p = c_char_p = None

    def __init__(self, x):
        self.x = x

    def create_string_buffer(self, size):
        return Buffer(self.x, size)

    def cast(self, value, kind):
        return value

    def string_at(self, buffer, size=None):
        return buffer.raw if size is None else buffer.raw[:size]

    def POINTER(self, kind):
        return None


class Io:
    """The io module that also makes files of buffers."""

    def __init__(self, x, io):
        self._x, self._io = x, io

    def BytesIO(self, data=b''):
        data = data.data if isinstance(data, Buffer) else data
        return bytekit.BytesFile(self._x, 'buffer', data) if self._x.symbolic else self._io.BytesIO(data)

    def __getattr__(self, name):
        return getattr(self._io, name)


class Callback:
    def __init__(self, function):
        self.function = function

    def __call__(self, *args):
        return self.function(*args)


class File(bytekit.BytesFile):
    def readinto(self, buffer):
        data = self.read(buffer.size)
        n = self.api.len(data)
        buffer.data = bytekit.join(self.api, [data, b'\0' * 0])
        return n


class Opened:
    """An archive that is being read."""

    def __init__(self):
        self.entry, self.rest = -1, 0
        self.at, self.have = 0, b''
        self.read = self.seek = None


class Entry:
    k = None


class Library:
    """The functions of libarchive.ffi; members are (name, size, metadata)."""

    ARCHIVE_EOF = 1
    NO_OPEN_CB = NO_CLOSE_CB = None

    def __init__(self, x, members, skipping='read'):
        self.x, self.members, self.skipping = x, members, skipping
        self.callbacks = []
        self.total = sum((m[1] for m in members), 0)

    def READ_CALLBACK(self, f):
        self.callbacks.append(Callback(f))
        return self.callbacks[-1]

    SEEK_CALLBACK = READ_CALLBACK

    def end(self):
        for c in self.callbacks:
            c.function = None

    def read_new(self):
        return Opened()

    def read_free(self, a):
        pass

    def get_read_filter_function(self, name):
        return lambda a: None

    get_read_format_function = get_read_filter_function

    def filter_count(self, a):
        return 0

    def format_name(self, a):
        return b'model'

    def read_add_passphrase(self, a, password):
        pass

    def read_set_seek_callback(self, a, f):
        a.seek = f

    def read_open(self, a, context, opened, read, closed):
        a.read = read

    def entry_new(self):
        return Entry()

    def entry_free(self, e):
        pass

    # reading

    def _skip(self, a, n):
        x = self.x
        if self.skipping == 'read' or a.seek is None:
            self._take(a, n)
            return
        target = a.at + n
        if self.skipping == 'set':
            got = a.seek(a, None, target, 0)
        elif self.skipping == 'end':
            got = a.seek(a, None, target - self.total, 2)
        else:
            got = a.seek(a, None, n - x.len(a.have), 1)
        x.check(x.eq(got, target), 'position after seeking')
        a.have, a.at = b'', target

    def _take(self, a, n):
        """The next n bytes of the file."""
        x, out = self.x, []
        while n > 0:
            k = x.len(a.have)
            if not k > 0:
                pointer = [None]
                size = a.read(a, None, pointer)
                if not size > 0:
                    break
                a.have = pointer[0].data[:size]
                continue
            if k <= n:
                out.append(a.have)
                a.have = b''
            else:
                out.append(a.have[:n])
                a.have, k = a.have[n:], n
            n -= k
            a.at += k
        return bytekit.join(x, out)

    def read_next_header2(self, a, e):
        self._skip(a, a.rest)
        a.entry += 1
        if a.entry >= len(self.members):
            a.rest = 0
            return self.ARCHIVE_EOF
        e.k = a.entry
        a.rest = self.members[a.entry][1]
        return 0

    def read_data(self, a, buffer, n):
        x = self.x
        n = a.rest if a.rest < n else n
        data = self._take(a, n)
        got = x.len(data)
        a.rest -= got
        buffer.data = data
        return got

    # metadata

    def _get(self, e, key, default=None):
        return self.members[e.k][2].get(key, default)

    def entry_pathname_w(self, e):
        return self.members[e.k][0] if isinstance(self.members[e.k][0], str) else None

    def entry_pathname(self, e):
        return self.members[e.k][0]

    def entry_size_is_set(self, e):
        return self._get(e, 'sized', True)

    def entry_size(self, e):
        return self.members[e.k][1]

    def entry_mode(self, e):
        return self._get(e, 'mode', 0o100644)

    def entry_filetype(self, e):
        return self._get(e, 'type', 0o100000)

    def entry_symlink_w(self, e):
        return self._get(e, 'symlink')

    def entry_symlink(self, e):
        return None

    def entry_hardlink_w(self, e):
        return self._get(e, 'hardlink')

    def entry_hardlink(self, e):
        return None

    def __getattr__(self, name):
        for kind in ('mtime', 'ctime', 'birthtime'):
            if name == f'entry_{kind}_is_set':
                return lambda e: self._get(e, kind) is not None
            if name == f'entry_{kind}':
                return lambda e: self._get(e, kind)
            if name == f'entry_{kind}_nsec':
                return lambda e: self._get(e, kind + '_nsec', 0)
        raise AttributeError(name)


def install(x, members, skipping='read'):
    import ratarmountcore.mountsource.formats.libarchive as module

    library = Library(x, members, skipping)
    x.patch(module, 'laffi', library)
    x.patch(module, 'ctypes', Ctypes(x))
    x.patch(module, 'io', Io(x, module.io))
    return module, library


class _Threading:
    def __init__(self, lock):
        self.Lock = self.RLock = lambda: lock


def locks(x, module, lock):
    """All locks the module makes are the given one."""
    if hasattr(module, 'threading'):
        x.patch(module, 'threading', _Threading(lock))
