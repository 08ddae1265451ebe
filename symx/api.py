"""The interface harnesses are written against, in a symbolic and a concrete flavour.

The same harness function runs in both: symbolically over instrumented code to decide a property for
all inputs within the bounds, concretely over the unmodified code to replay a counterexample or to
validate that a symbolic path predicts what the real code does.
"""
import zlib


class AssumptionFailed(BaseException):
    pass


class ConcreteViolation(BaseException):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


_TABLES = {}


def _table(name, seed):
    key = (name, seed)
    t = _TABLES.get(key)
    if t is None:
        import random

        r = random.Random(zlib.crc32(name.encode()) * 1000 + seed)
        t = _TABLES[key] = r.randbytes(65521)
    return t


class LargeBytes:
    """Bytes that are too many to be kept in memory: stretches of a length and a function returning parts of them."""

    def __init__(self, parts):
        self.parts = parts

    def __len__(self):
        return sum(n for n, _ in self.parts)

    def _read(self, start, end):
        out, at = [], 0
        for n, read in self.parts:
            a, b = max(start, at), min(end, at + n)
            if a < b:
                out.append((b - a, lambda o, k, read=read, a=a - at: read(a + o, k)))
            at += n
        return LargeBytes(out)

    def __getitem__(self, key):
        n = len(self)
        if not isinstance(key, slice):
            key = key + n if key < 0 else key
            if not 0 <= key < n:
                raise IndexError('index out of range')
            return self[key:key + 1][0]
        start, end, step = key.indices(n)
        if step != 1:
            raise AssumptionFailed("too large for a concrete replay")
        part = self._read(start, end)
        if end - start > 1 << 26:
            return part
        return b''.join(read(0, k) for k, read in part.parts)

    @classmethod
    def join(cls, values):
        parts = []
        for v in values:
            parts += v.parts if isinstance(v, cls) else [(len(v), lambda o, k, v=v: bytes(v[o:o + k]))]
        return cls(parts)


def content_bytes(name, seed, off, n):
    """Deterministic contents standing in for an uninterpreted file."""
    t = _table(name, seed)
    out = bytearray()
    while n > 0:
        block, o = divmod(off, 65521)
        k = min(n, 65521 - o)
        chunk = t[o:o + k]
        if block:
            x = t[(block * 7919) % 65521]
            chunk = bytes(b ^ x ^ (block & 255) for b in chunk)
        out += chunk
        off += k
        n -= k
    return bytes(out)


def norm_observed(v):
    """JSON-comparable form of an observed concrete value."""
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v)
        if len(v) > 2048:
            return ['bytes', len(v), zlib.crc32(v)]
        return 'b:' + v.hex()
    if isinstance(v, str):
        return 's:' + v
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, (list, tuple)):
        return [norm_observed(y) for y in v]
    if isinstance(v, dict):
        return ['dict'] + sorted(([norm_observed(k), norm_observed(y)] for k, y in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((norm_observed(y) for y in v), key=repr)
    return 'o:' + type(v).__name__


class ModelLock:
    """Stand-in for the lock protecting a shared file object.

    While it is not held, other threads may move the position of the shared file.
    """

    def __init__(self, api):
        self.api = api
        self.held = 0
        self.files = []

    def acquire(self, blocking=True, timeout=-1):
        self.__enter__()
        return True

    def release(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        if self.held:
            # threading.Lock would dead-lock here, an RLock would not: ratarmount uses both.
            pass
        self.held += 1
        if self.held == 1:
            for f in self.files:
                f.havoc()
        return self

    def __exit__(self, *a):
        self.held -= 1
        return None

    def locked(self):
        return self.held > 0


class ModelFile:
    """A readable, seekable file of given (possibly symbolic) size with arbitrary contents."""

    def __init__(self, api, name, size, lock=None, source=None, strict_seek=False):
        self.api = api
        self.name = name
        self.size = size
        self.pos = 0
        self.closed = False
        self.src = source if source is not None else api.source(name)
        self.lock = lock
        self.havocs = 0
        self.reads = 0
        self.strict_seek = strict_seek
        if lock is not None:
            lock.files.append(self)

    def havoc(self):
        self.havocs += 1
        self.pos = self.api.int(f'{self.name}.moved{self.havocs}', 0, self.api.cfg.get('havoc_max', 1 << 20))

    def _access(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.lock is not None and not self.lock.held:
            self.havoc()

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        import io

        raise io.UnsupportedOperation("fileno")

    def tell(self):
        self._access()
        return self.pos

    def seek(self, offset, whence=0):
        self._access()
        if whence == 1:
            offset = self.pos + offset
        elif whence == 2:
            offset = self.size + offset
        if offset < 0:
            raise ValueError("negative seek value")
        if self.strict_seek and offset > self.size:
            raise ValueError("seek beyond the end")
        self.pos = offset
        return offset

    def read(self, size=-1):
        self._access()
        self.reads += 1
        a = self.api
        avail = a.max(0, self.size - self.pos)
        if size is None or size < 0:
            n = avail
        else:
            n = a.min(size, avail)
        data = a.segment(self.src, self.pos, n)
        self.pos = self.pos + n
        return data

    read1 = read

    def readinto(self, b):
        data = self.read(self.api.len(b))
        b[: self.api.len(data)] = data
        return self.api.len(data)


class _Base:
    def __init__(self, cfg):
        self.cfg = cfg
        self._cleanups = []

    def cleanup(self):
        while self._cleanups:
            f = self._cleanups.pop()
            try:
                f()
            except Exception:
                pass

    def on_cleanup(self, f):
        self._cleanups.append(f)

    def lock(self):
        return ModelLock(self)

    def file(self, name, size, lock=None, **kw):
        return ModelFile(self, name, size, lock, **kw)

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def scratch(self):
        """A directory removed at the end of the run."""
        import shutil
        import tempfile

        d = tempfile.mkdtemp(prefix='verif-')
        self.on_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def patch(self, obj, attr, value):
        missing = object()
        old = obj.__dict__.get(attr, missing) if hasattr(obj, '__dict__') else getattr(obj, attr)
        setattr(obj, attr, value)
        if old is missing:
            self.on_cleanup(lambda: delattr(obj, attr))
        else:
            self.on_cleanup(lambda: setattr(obj, attr, old))


class SymApi(_Base):
    symbolic = True

    def __init__(self, c):
        super().__init__(c.options.get('cfg', {}))
        self.c = c

    @property
    def sqlite(self):
        from .instr import sqlite_model

        return sqlite_model()

    @property
    def fs(self):
        from .fsmodel import ModelFS

        if 'fs' not in self.c.env:
            self.c.env['fs'] = ModelFS(self)
        return self.c.env['fs']

    # inputs
    def int(self, name, lo=None, hi=None):
        from .values import SInt, mk_int

        v = self.c._declare(name, lo, hi)
        if lo is not None and lo == hi:
            return lo
        return SInt(v)

    def choose(self, name, n):
        if n == 1:
            return 0
        return self.c.concretize(self.c._declare(name, 0, n - 1), limit=100000)

    def bool(self, name):
        from .values import mk_bool

        return mk_bool(self.c._declare(name, 0, 1) != 0)

    def _code(self, name, codes):
        import z3

        from .values import SInt

        codes = sorted(codes)
        if len(codes) == 1:
            self.c._declare(name, codes[0], codes[0])
            return codes[0]
        v = self.c._declare(name, codes[0], codes[-1])
        if len(codes) != codes[-1] - codes[0] + 1:
            self.c.add(z3.Or(*[v == k for k in codes]))
        self.c.env.setdefault('domains', {})[v.get_id()] = frozenset(codes)
        return SInt(v)

    def char(self, name, alphabet):
        from .data import SStr

        return SStr._make([self._code(name, [ord(a) for a in alphabet])])

    def string(self, name, n, alphabet):
        from .data import SStr

        codes = [ord(a) for a in alphabet]
        return SStr._make([self._code(f'{name}[{i}]', codes) for i in range(n)])

    def bytes(self, name, n, values=None):
        from .data import SBytes

        values = range(256) if values is None else values
        return SBytes.from_ints([self._code(f'{name}[{i}]', values) for i in range(n)])

    def hex(self, value, digits):
        """The last digits of a number that is not negative, in hexadecimal."""
        from .rt import _hex

        return _hex(value % 16**digits, digits, 87)

    # logic
    def ite(self, c, a, b):
        from .values import ite

        return ite(c, a, b)

    def and_(self, *xs):
        from .values import s_and

        return s_and(*[self._b(x) for x in xs])

    def or_(self, *xs):
        from .values import s_or

        return s_or(*[self._b(x) for x in xs])

    def not_(self, x):
        from .values import s_not

        return s_not(self._b(x))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    @staticmethod
    def _b(x):
        from .values import SBool, SInt

        return x if isinstance(x, (SBool, bool)) else (x != 0 if isinstance(x, SInt) else bool(x))

    def min(self, a, b):
        from .values import s_min

        return s_min(a, b)

    def max(self, a, b):
        from .values import s_max

        return s_max(a, b)

    def len(self, v):
        from .data import seq_len

        return seq_len(v)

    def fork(self, v):
        from .values import as_concrete

        return as_concrete(v)

    def text(self, v):
        """The concrete string; forks over the values of symbolic characters."""
        return str(v)

    def eq(self, a, b):
        """Deep equality as one formula."""
        from .data import DecInt, SDict, SStr, SeqBase
        from .rt import m_type
        from .values import SBool, SInt

        if isinstance(a, SStr) and any(isinstance(q, DecInt) for q in a.codes) or isinstance(b, SStr) and any(
            isinstance(q, DecInt) for q in b.codes
        ):
            return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.and_(*[self.eq(p, q) for p, q in zip(a, b)]) if len(a) else True
        if isinstance(a, dict) and isinstance(b, dict):
            return a == b
        if isinstance(b, (SInt, SBool, SeqBase)) and not isinstance(a, (SInt, SBool, SeqBase)):
            a, b = b, a
        r = a == b
        return r if isinstance(r, (SBool, bool)) else bool(r)

    # properties
    def assume(self, cond):
        self.c.assume(cond)

    def check(self, cond, label, known=None):
        if known is not None:
            fid, region = known
            self.c.check_known(cond, label, fid, region)
            return
        self.c.check(cond, label)

    def fail(self, label):
        self.c.fail(label)

    def observe(self, name, value):
        self.c.observe(name, value)

    def reach(self, name):
        self.c.reach(name)

    # contents
    def source(self, name):
        from .data import Source

        return Source(name)

    def segment(self, src, off, n):
        from .data import SBytes, Seg

        return SBytes.make([Seg(src, off, n)])

    def at(self, src, off):
        from .values import mk_int

        return mk_int(src.at(off))

    def byte(self, data, j):
        from .data import SBytes
        from .values import mk_int

        if isinstance(data, (bytes, bytearray)):
            data = SBytes([bytes(data)])
        data = SBytes([p for p in data.parts if not isinstance(p, bytes) or p])
        return mk_int(data.byte_at(j)) if data.parts else 0

    def check_bytes(self, data, n, at, label):
        """data has length n and byte j equals at(j) for every j."""
        import z3

        from .data import SByteArray, SBytes, seq_len
        from .rt import SMemoryView
        from .values import SInt, as_int_expr, mk_bool

        if isinstance(data, SMemoryView):
            data = data._val()
        if isinstance(data, SByteArray):
            data = data.v
        if not isinstance(data, (bytes, SBytes)):
            self.c.fail(label + ': not bytes')
        m = seq_len(data)
        self.c.check(m == n, label + ': length')
        if isinstance(m, int) and m == 0:
            return
        if isinstance(data, bytes):
            data = SBytes([data])
        j = self.c.fresh('j')
        term = data.byte_at(j)
        want = as_int_expr(at(SInt(j)))
        self.c.check(
            mk_bool(z3.Implies(z3.And(j >= 0, j < as_int_expr(m)), term == want)), label + ': contents'
        )

    def evaluate(self, v, m):
        """JSON-comparable concrete form of v under the model m."""
        import z3

        from .data import DecInt, Rep, SByteArray, SBytes, SDict, Seg, SSet, SStr
        from .values import SBool, SInt, SReal

        def num(e):
            if isinstance(e, SInt):
                return m.eval(e.e, model_completion=True).as_long()
            return e

        def conv(v):
            if isinstance(v, SInt):
                return num(v)
            if isinstance(v, SBool):
                return z3.is_true(m.eval(v.e, model_completion=True))
            if isinstance(v, SReal):
                f = m.eval(v.e, model_completion=True)
                return float(f.as_fraction())
            if isinstance(v, SStr):
                return ''.join(str(num(c.v)) if isinstance(c, DecInt) else chr(num(c)) for c in v.codes)
            if isinstance(v, SByteArray):
                v = v.v
            if isinstance(v, SBytes):
                out = b''
                for p in v.parts:
                    if isinstance(p, bytes):
                        out += p
                    elif isinstance(p, Seg):
                        out += content_bytes(p.src.name, 0, num(p.off), num(p.n))
                    elif isinstance(p, Rep):
                        out += bytes([p.b]) * num(p.n)
                    else:
                        out += bytes([num(p)])
                return out
            if isinstance(v, SSet):
                return {conv(y) for y in v}
            if isinstance(v, dict):
                return {conv(k): conv(y) for k, y in v.items()}
            if isinstance(v, (list, tuple)):
                return [conv(y) for y in v]
            if isinstance(v, (set, frozenset)):
                return {conv(y) for y in v}
            return v

        return norm_observed(conv(v))


class ConcApi(_Base):
    symbolic = False

    def __init__(self, inputs, cfg, seed=0):
        super().__init__(cfg)
        self.inputs = inputs
        self.seed = seed
        self.observed = []
        self.reached = set()
        self._fs = None

    @property
    def sqlite(self):
        import sqlite3

        return sqlite3

    @property
    def fs(self):
        from .fsmodel import RealFS

        if self._fs is None:
            self._fs = RealFS(self)
        return self._fs

    def _get(self, name, lo):
        v = self.inputs.get(name)
        if v is None:
            v = lo if lo is not None else 0
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo)

    def choose(self, name, n):
        if n == 1:
            return 0
        return self._get(name, 0)

    def bool(self, name):
        return bool(self._get(name, 0))

    def char(self, name, alphabet):
        return chr(self._get(name, min(map(ord, alphabet))))

    def string(self, name, n, alphabet):
        lo = min(map(ord, alphabet)) if alphabet else 0
        return ''.join(chr(self._get(f'{name}[{i}]', lo)) for i in range(n))

    def bytes(self, name, n, values=None):
        lo = 0 if values is None else min(values)
        return bytes(self._get(f'{name}[{i}]', lo) for i in range(n))

    def hex(self, value, digits):
        return f'{value % 16 ** digits:0{digits}x}'

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def len(self, v):
        return len(v)

    def fork(self, v):
        return v

    def text(self, v):
        return v

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(p, q) for p, q in zip(a, b))
        return bool(a == b)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label, known=None):
        if not cond:
            raise ConcreteViolation(label)

    def fail(self, label):
        raise ConcreteViolation(label)

    def observe(self, name, value):
        self.observed.append((name, norm_observed(value)))

    def reach(self, name):
        self.reached.add(name)

    def source(self, name):
        return name

    def segment(self, src, off, n):
        if n > 1 << 26:
            return LargeBytes([(n, lambda at, k: content_bytes(src, self.seed, off + at, k))])
        return content_bytes(src, self.seed, off, n)

    def at(self, src, off):
        if off < 0:
            return -1
        return content_bytes(src, self.seed, off, 1)[0]

    def byte(self, data, j):
        return data[j]

    def check_bytes(self, data, n, at, label):
        if isinstance(data, memoryview):
            data = bytes(data)
        if not isinstance(data, (bytes, bytearray)):
            raise ConcreteViolation(label + ': not bytes')
        if len(data) != n:
            raise ConcreteViolation(label + ': length')
        step = 1 if n <= 20000 else max(1, n // 20000)
        for j in list(range(0, n, step)) + ([n - 1] if n else []):
            if data[j] != at(j):
                raise ConcreteViolation(label + ': contents')
