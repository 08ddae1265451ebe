"""Symbolic strings and bytes.

SStr    a string of concrete length whose characters are code points, some of them symbolic.
SBytes  a rope of concrete chunks, single symbolic bytes, segments of an abstract file (contents are
        an uninterpreted function of the offset) and runs of one byte; lengths may be symbolic.
"""
import z3

from . import core
from .core import Unsupported
from .values import SBool, SInt, as_bool_expr, as_concrete, as_int_expr, ite, mk_bool, mk_int, s_and, s_max, s_min


def code_eq(a, b):
    """Equality of two codes (int or SInt), using declared domains to avoid solver calls."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        d = core.ctx().env.get('domains', {}).get(a.e.get_id())
        if d is not None and b not in d:
            return False
        return mk_bool(a.e == b)
    if a.e.eq(b.e):
        return True
    dom = core.ctx().env.get('domains', {})
    d1, d2 = dom.get(a.e.get_id()), dom.get(b.e.get_id())
    if d1 is not None and d2 is not None and d1 is not d2 and isinstance(d1, frozenset) and isinstance(d2, frozenset):
        if not (d1 & d2):
            return False
    return mk_bool(a.e == b.e)


def code_in(a, codes):
    """a in codes, as bool/SBool."""
    if isinstance(a, int):
        return a in codes
    d = core.ctx().env.get('domains', {}).get(a.e.get_id())
    if d is not None:
        codes = [c for c in codes if c in d]
        if not codes:
            return False
        if len(codes) == len(d):
            return True
    codes = sorted(set(codes))
    # merge into ranges
    parts = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        parts.append(a.e == codes[i] if i == j else z3.And(a.e >= codes[i], a.e <= codes[j]))
        i = j + 1
    return mk_bool(z3.Or(*parts)) if parts else False


class DecInt:
    """The decimal digits of a symbolic int inside a string (used by f-strings)."""

    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class HexInt(DecInt):
    """The hexadecimal digits of a symbolic int that has at most that many."""

    __slots__ = ('digits', 'letters')

    def __init__(self, v, digits, letters):
        super().__init__(v)
        self.digits, self.letters = digits, letters

    def codes(self):
        values = [self.v // 16**k % 16 for k in range(self.digits - 1, -1, -1)]
        return [ite(d < 10, d + 48, d + self.letters) for d in values]


class SeqBase:
    __symx__ = True
    __slots__ = ()

    # subclasses: _codes, _make, _coerce, _WHITESPACE
    def _len(self):
        return len(self._codes())

    def __len__(self):
        return as_concrete(self._len())

    def __bool__(self):
        return bool(self._len() != 0)

    def __iter__(self):
        for c in self._codes():
            yield self._item(c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            codes = self._codes()
            i = slice(*[None if x is None else as_concrete(x) for x in (i.start, i.stop, i.step)])
            return self._make(codes[i])
        codes = self._codes()
        return self._item(codes[as_concrete(i)])

    def _other(self, o):
        """codes of another operand, or None if the type does not fit"""
        if isinstance(o, type(self)):
            return o._codes()
        return self._coerce(o)

    def __eq__(self, o):
        c = self._other(o)
        if c is None:
            return False
        mine = self._codes()
        if len(mine) != len(c):
            return False
        conj = []
        for a, b in zip(mine, c):
            e = code_eq(a, b)
            if e is False:
                return False
            if e is not True:
                conj.append(e.e)
        return mk_bool(z3.And(*conj)) if conj else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.e))

    def __hash__(self):
        # Hash-based containers of the runtime cannot compare symbolically: fork over the values.
        return hash(self._concrete())

    def _concrete(self):
        return self._make([as_concrete(c) for c in self._codes()])

    def _lt(self, o, strict):
        c = self._other(o)
        if c is None:
            return NotImplemented
        mine = self._codes()
        n = min(len(mine), len(c))
        # lexicographic, built from the back
        if strict:
            r = z3.BoolVal(len(mine) < len(c))
        else:
            r = z3.BoolVal(len(mine) <= len(c))
        for a, b in reversed(list(zip(mine[:n], c[:n]))):
            ae, be = as_int_expr(a), as_int_expr(b)
            r = z3.Or(ae < be, z3.And(ae == be, r))
        return mk_bool(r)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else mk_bool(z3.Not(r.e)))

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else mk_bool(z3.Not(r.e)))

    def __add__(self, o):
        c = self._other(o)
        if c is None:
            return NotImplemented
        return self._make(list(self._codes()) + list(c))

    def __radd__(self, o):
        c = self._other(o)
        if c is None:
            return NotImplemented
        return self._make(list(c) + list(self._codes()))

    def __mul__(self, n):
        return self._make(list(self._codes()) * as_concrete(n))

    __rmul__ = __mul__

    __symx_repeat__ = __mul__

    def _need(self, o):
        c = self._other(o)
        if c is None:
            raise TypeError(f"wrong operand type {type(o).__name__}")
        return list(c)

    def __contains__(self, o):
        return self.find(o) >= 0

    @staticmethod
    def _match_at(mine, i, sub):
        return s_and(*[code_eq(mine[i + k], sub[k]) for k in range(len(sub))]) if sub else True

    def _bounds(self, n, start, end):
        start = 0 if start is None else as_concrete(start)
        end = n if end is None else as_concrete(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def _sub_arg(self, sub):
        if isinstance(sub, int) and not isinstance(sub, bool):
            return [sub]
        return self._need(sub)

    def find(self, sub, start=None, end=None):
        mine, sub = self._codes(), self._sub_arg(sub)
        start, end = self._bounds(len(mine), start, end)
        for i in range(start, end - len(sub) + 1):
            if self._match_at(mine, i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        mine, sub = self._codes(), self._sub_arg(sub)
        start, end = self._bounds(len(mine), start, end)
        for i in range(end - len(sub), start - 1, -1):
            if self._match_at(mine, i, sub):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        mine, sub = self._codes(), self._sub_arg(sub)
        start, end = self._bounds(len(mine), start, end)
        if not sub:
            return max(0, end - start + 1)
        n, i = 0, start
        while i + len(sub) <= end:
            if self._match_at(mine, i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        mine = self._codes()
        start, end = self._bounds(len(mine), start, end)
        mine = mine[start:end]
        sub = self._need(prefix)
        return bool(len(sub) <= len(mine) and self._match_at(mine, 0, sub))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        mine = self._codes()
        start, end = self._bounds(len(mine), start, end)
        mine = mine[start:end]
        sub = self._need(suffix)
        return bool(len(sub) <= len(mine) and self._match_at(mine, len(mine) - len(sub), sub))

    def removeprefix(self, p):
        return self[self._need(p).__len__():] if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(self._need(p))
        return self[: len(self) - n] if n and self.endswith(p) else self

    def _strip_set(self, chars):
        return self._WHITESPACE if chars is None else self._need(chars)

    def _in_set(self, c, chars):
        if all(isinstance(x, int) for x in chars):
            return code_in(c, chars)
        return any(bool(code_eq(c, x)) for x in chars)

    def lstrip(self, chars=None):
        chars = self._strip_set(chars)
        codes = self._codes()
        i = 0
        while i < len(codes) and self._in_set(codes[i], chars):
            i += 1
        return self._make(codes[i:])

    def rstrip(self, chars=None):
        chars = self._strip_set(chars)
        codes = self._codes()
        i = len(codes)
        while i > 0 and self._in_set(codes[i - 1], chars):
            i -= 1
        return self._make(codes[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        codes = self._codes()
        maxsplit = as_concrete(maxsplit)
        if sep is None:
            out, cur = [], []
            i = 0
            while i < len(codes):
                if self._in_set(codes[i], self._WHITESPACE):
                    if cur:
                        out.append(self._make(cur))
                        cur = []
                    i += 1
                    continue
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self._make(codes[i:]).rstrip())
                    return out
                cur.append(codes[i])
                i += 1
            if cur:
                out.append(self._make(cur))
            return out
        sub = self._need(sep)
        if not sub:
            raise ValueError("empty separator")
        out, start, i = [], 0, 0
        while i + len(sub) <= len(codes) and (maxsplit < 0 or len(out) < maxsplit):
            if self._match_at(codes, i, sub):
                out.append(self._make(codes[start:i]))
                i += len(sub)
                start = i
            else:
                i += 1
        out.append(self._make(codes[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = as_concrete(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        codes, sub = self._codes(), self._need(sep)
        if not sub:
            raise ValueError("empty separator")
        out, end = [], len(codes)
        i = end - len(sub)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(codes, i, sub):
                out.append(self._make(codes[i + len(sub): end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(self._make(codes[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines(keepends)")
        parts = self.split(self._lit('\n'))
        if parts and len(parts[-1]) == 0:
            parts.pop()
        return parts

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._make([]), self._make([])
        n = len(self._need(sep))
        return self[:i], sep, self[i + n:]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._make([]), self._make([]), self
        n = len(self._need(sep))
        return self[:i], sep, self[i + n:]

    def replace(self, old, new, count=-1):
        codes, o, n = self._codes(), self._need(old), self._need(new)
        if not o:
            raise Unsupported("replace of the empty string")
        count = as_concrete(count)
        out, i, k = [], 0, 0
        while i < len(codes):
            if i + len(o) <= len(codes) and (count < 0 or k < count) and self._match_at(codes, i, o):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(codes[i])
                i += 1
        return self._make(out)

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out.extend(self._codes())
            out.extend(self._need(p))
        return self._make(out)

    def _all(self, ranges):
        codes = self._codes()
        if not codes:
            return False
        for c in codes:
            if isinstance(c, int):
                if not any(a <= c <= b for a, b in ranges):
                    return False
            elif not bool(mk_bool(z3.Or(*[z3.And(c.e >= a, c.e <= b) for a, b in ranges]))):
                return False
        return True

    def _ascii_guard(self):
        for c in self._codes():
            if isinstance(c, SInt):
                d = core.ctx().env.get('domains', {}).get(c.e.get_id())
                if d is not None and max(d) < 128:
                    continue
                if bool(c > 127):
                    raise Unsupported("character class of a non-ASCII symbolic character")

    def isdigit(self):
        self._ascii_guard()
        if all(isinstance(c, int) for c in self._codes()):
            return self._concrete().isdigit()
        return self._all([(48, 57)])

    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        self._ascii_guard()
        return self._all([(65, 90), (97, 122)])

    def isalnum(self):
        self._ascii_guard()
        return self._all([(48, 57), (65, 90), (97, 122)])

    def isspace(self):
        return self._all([(9, 13), (28, 32)])

    def islower(self):
        raise Unsupported("islower")

    def _map_case(self, lo, hi, delta):
        self._ascii_guard()
        out = []
        for c in self._codes():
            if isinstance(c, int):
                out.append(c + delta if lo <= c <= hi else c)
            else:
                d = core.ctx().env.get('domains', {}).get(c.e.get_id())
                if d is not None and not any(lo <= x <= hi for x in d):
                    out.append(c)
                else:
                    out.append(ite(mk_bool(z3.And(c.e >= lo, c.e <= hi)), c + delta, c))
        return self._make(out)

    def lower(self):
        return self._map_case(65, 90, 32)

    def upper(self):
        return self._map_case(97, 122, -32)

    casefold = lower

    def zfill(self, n):
        pad = as_concrete(n) - len(self)
        return self._make([48] * pad + list(self._codes())) if pad > 0 else self

    def ljust(self, n, fill=None):
        pad = as_concrete(n) - len(self)
        f = self._need(fill)[0] if fill is not None else 32
        return self._make(list(self._codes()) + [f] * max(0, pad))

    def rjust(self, n, fill=None):
        pad = as_concrete(n) - len(self)
        f = self._need(fill)[0] if fill is not None else 32
        return self._make([f] * max(0, pad) + list(self._codes()))

    def to_int(self, base=10):
        """int(self, base) for ASCII input; raises ValueError like int()."""
        codes = self.strip()
        codes = list(codes._codes()) if isinstance(codes, SeqBase) else _codes_of(codes)
        sign = 1
        if codes and code_in(codes[0], [43, 45]):
            if code_eq(codes[0], 45):
                sign = -1
            codes = codes[1:]
        if not codes:
            raise ValueError("invalid literal for int()")
        value = 0
        for c in codes:
            if isinstance(c, int):
                try:
                    d = int(chr(c), 36)
                except ValueError:
                    d = 99
                if c > 127 or d >= base:
                    raise ValueError("invalid literal for int()")
            else:
                nd = min(base, 10)
                if mk_bool(z3.And(c.e >= 48, c.e < 48 + nd)):
                    d = c - 48
                elif base > 10 and mk_bool(z3.And(c.e >= 97, c.e < 97 + base - 10)):
                    d = c - 87
                elif base > 10 and mk_bool(z3.And(c.e >= 65, c.e < 65 + base - 10)):
                    d = c - 55
                elif c == 95 or c > 127:
                    raise Unsupported("int() of '_' or non-ASCII digits")
                else:
                    raise ValueError("invalid literal for int()")
            value = value * base + d
        return value * sign

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _codes_of(x):
    if isinstance(x, str):
        return [ord(c) for c in x]
    return list(x)


class SStr(SeqBase):
    __slots__ = ('codes',)
    _WHITESPACE = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160]

    def __init__(self, codes):
        self.codes = codes

    @staticmethod
    def _make(codes):
        codes = list(codes)
        if all(isinstance(c, int) for c in codes):
            return ''.join(map(chr, codes))
        return SStr(codes)

    def __eq__(self, o):
        if isinstance(o, SStr) and len(o.codes) == len(self.codes):
            pairs = [(a, b) for a, b in zip(self.codes, o.codes) if isinstance(a, DecInt) or isinstance(b, DecInt)]
            if pairs and all(type(a) is type(b) is HexInt and a.digits == b.digits and a.letters == b.letters for a, b in pairs):
                conj = [a.v == b.v if isinstance(a, HexInt) else code_eq(a, b) for a, b in zip(self.codes, o.codes)]
                if any(e is False for e in conj):
                    return False
                conj = [e.e for e in conj if e is not True]
                return mk_bool(z3.And(*conj)) if conj else True
        return super().__eq__(o)

    def __hash__(self):
        return super().__hash__()

    def _codes(self):
        if any(isinstance(c, DecInt) for c in self.codes):
            out = []
            for c in self.codes:
                if isinstance(c, HexInt):
                    out.extend(c.codes())
                elif isinstance(c, DecInt):
                    out.extend(map(ord, str(as_concrete(c.v))))
                else:
                    out.append(c)
            self.codes = out
        return self.codes

    def __add__(self, o):
        # keep embedded ints symbolic through concatenation
        if isinstance(o, str):
            return SStr(list(self.codes) + [ord(c) for c in o])
        if isinstance(o, SStr):
            return SStr(list(self.codes) + list(o.codes))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr([ord(c) for c in o] + list(self.codes))
        return NotImplemented

    @staticmethod
    def _item(c):
        return chr(c) if isinstance(c, int) else SStr([c])

    @staticmethod
    def _coerce(o):
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    @staticmethod
    def _lit(s):
        return s

    def __str__(self):
        return str(self._concrete())

    def __repr__(self):
        return 'SStr(' + ''.join(
            chr(c) if isinstance(c, int) else f'<{c.v if isinstance(c, DecInt) else c.e}>' for c in self.codes
        ) + ')'

    def __format__(self, spec):
        return format(str(self), spec)

    def __fspath__(self):
        return str(self)

    def __mod__(self, args):
        raise Unsupported("% formatting with a symbolic format")

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        for c in self._codes():
            if isinstance(c, int):
                out.extend(chr(c).encode(encoding, errors))
            else:
                d = core.ctx().env.get('domains', {}).get(c.e.get_id())
                if not (d is not None and max(d) < 128) and bool(c > 127):
                    out.extend(chr(as_concrete(c)).encode(encoding, errors))
                else:
                    out.append(c)
        return SBytes.from_ints(out)

    def format(self, *a, **k):
        raise Unsupported("format of a symbolic string")

    def isascii(self):
        return not any(bool(c > 127) for c in self._codes())

    def expandtabs(self, *a):
        raise Unsupported("expandtabs")

    def isidentifier(self):
        raise Unsupported("isidentifier")


class Source:
    """An abstract file: size may be symbolic, contents are uninterpreted."""

    def __init__(self, name):
        self.name = name
        self.f = z3.Function('byte_' + name, z3.IntSort(), z3.IntSort())

    def at(self, off):
        return self.f(as_int_expr(off))


class Seg:
    __slots__ = ('src', 'off', 'n')

    def __init__(self, src, off, n):
        self.src, self.off, self.n = src, off, n

    def __repr__(self):
        return f'Seg({self.src.name},{self.off},{self.n})'


class Rep:
    __slots__ = ('b', 'n')

    def __init__(self, b, n):
        self.b, self.n = b, n

    def __repr__(self):
        return f'Rep({self.b},{self.n})'


class SBytes(SeqBase):
    """parts: bytes | SInt (one byte) | Seg | Rep"""

    __slots__ = ('parts',)
    _WHITESPACE = [9, 10, 11, 12, 13, 32]
    MATERIALIZE_LIMIT = 4096

    def __init__(self, parts):
        self.parts = parts

    # -- construction
    @staticmethod
    def make(parts):
        out = []
        for p in parts:
            if isinstance(p, (bytes, bytearray, memoryview)):
                p = bytes(p)
                if not p:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
            elif isinstance(p, (Seg, Rep)):
                if isinstance(p.n, int):
                    if p.n <= 0:
                        continue
                    if isinstance(p, Rep) and p.n <= 65536:
                        q = bytes([p.b]) * p.n
                        if out and isinstance(out[-1], bytes):
                            out[-1] = out[-1] + q
                        else:
                            out.append(q)
                        continue
                if out and isinstance(p, Seg) and isinstance(out[-1], Seg) and out[-1].src is p.src:
                    q = out[-1]
                    gap = q.off + q.n - p.off
                    if isinstance(gap, int) and gap == 0:
                        out[-1] = Seg(q.src, q.off, q.n + p.n)
                        continue
                out.append(p)
            else:
                out.append(p)
        if not out:
            return b''
        if len(out) == 1 and isinstance(out[0], bytes):
            return out[0]
        return SBytes(out)

    @staticmethod
    def from_ints(ints):
        parts = []
        for c in ints:
            parts.append(bytes([c]) if isinstance(c, int) else c)
        return SBytes.make(parts)

    @staticmethod
    def _make(codes):
        return SBytes.from_ints(codes)

    @staticmethod
    def _item(c):
        return c

    @staticmethod
    def _lit(s):
        return s.encode()

    @staticmethod
    def _coerce(o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return list(bytes(o))
        if isinstance(o, SByteArray):
            return o._v()._codes()
        return None

    @staticmethod
    def part_len(p):
        if isinstance(p, bytes):
            return len(p)
        if isinstance(p, (Seg, Rep)):
            return p.n
        return 1

    def _len(self):
        n = 0
        for p in self.parts:
            n = n + self.part_len(p)
        return n

    def byte_at(self, j):
        """z3 term of byte j (0 <= j < len assumed)."""
        j = as_int_expr(j)
        pos = z3.IntVal(0)
        cases = []
        for p in self.parts:
            n = as_int_expr(self.part_len(p))
            rel = j - pos
            if isinstance(p, bytes):
                if len(set(p)) == 1:
                    t = z3.IntVal(p[0])
                elif len(p) <= 512:
                    t = z3.IntVal(p[-1])
                    for k in range(len(p) - 2, -1, -1):
                        t = z3.If(rel == k, z3.IntVal(p[k]), t)
                else:
                    raise Unsupported("symbolic index into a long concrete chunk")
            elif isinstance(p, Seg):
                t = p.src.f(z3.simplify(as_int_expr(p.off) + rel))
            elif isinstance(p, Rep):
                t = z3.IntVal(p.b)
            else:
                t = p.e
            pos = pos + n
            cases.append((j < pos, t))
        r = cases[-1][1]
        for c, t in reversed(cases[:-1]):
            r = z3.If(c, t, r)
        return z3.simplify(r)

    def _codes(self):
        out = []
        for p in self.parts:
            if isinstance(p, bytes):
                out.extend(p)
            elif isinstance(p, Seg):
                n = as_concrete(p.n)
                if n > self.MATERIALIZE_LIMIT:
                    raise Unsupported("materializing a long abstract segment")
                c = core.ctx()
                for k in range(n):
                    t = z3.simplify(p.src.f(z3.simplify(as_int_expr(p.off) + k)))
                    if z3.is_int_value(t):
                        out.append(t.as_long())
                        continue
                    c.add(z3.And(t >= 0, t <= 255))
                    c.model = None
                    out.append(SInt(t))
            elif isinstance(p, Rep):
                out.extend([p.b] * as_concrete(p.n))
            else:
                out.append(p)
        return out

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return SBytes.make(list(self.parts) + [bytes(o)])
        if isinstance(o, SByteArray):
            o = o._v()
            return self + o
        if isinstance(o, SBytes):
            return SBytes.make(list(self.parts) + list(o.parts))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return SBytes.make([bytes(o)] + list(self.parts))
        return NotImplemented

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out.extend(self.parts)
            out.extend(p.parts if isinstance(p, SBytes) else [bytes(p)])
        return SBytes.make(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return super().__getitem__(i)
            n = self._len()
            start = 0 if i.start is None else i.start
            stop = n if i.stop is None else i.stop
            if start < 0:
                start = s_max(0, n + start)
            if stop is not n:
                if stop < 0:
                    stop = s_max(0, n + stop)
                stop = s_min(stop, n)
            return self.cut(start, stop)
        n = self._len()
        if i < 0:
            i = i + n
        if not s_and(0 <= i, i < n):
            raise IndexError("index out of range")
        t = self.byte_at(i)
        if z3.is_int_value(t):
            return t.as_long()
        c = core.ctx()
        c.add(z3.And(t >= 0, t <= 255))
        c.model = None
        return SInt(t)

    def cut(self, start, stop):
        """bytes [start, stop) with 0 <= start and stop <= len"""
        out = []
        pos = 0
        many = len(self.parts) > 1
        for p in self.parts:
            n = self.part_len(p)
            end = pos + n
            if many:
                if stop <= pos:
                    break
                if end <= start:
                    pos = end
                    continue
                lo = 0 if start <= pos else start - pos
                hi = n if end <= stop else stop - pos
            else:
                lo = s_min(start, n) if not isinstance(start, int) or start else 0
                hi = stop
            if isinstance(p, bytes):
                lo, hi = as_concrete(lo), as_concrete(hi)
                out.append(p[lo:max(lo, hi)])
            elif isinstance(p, Seg):
                out.append(Seg(p.src, p.off + lo, s_max(0, hi - lo) if not many else hi - lo))
            elif isinstance(p, Rep):
                out.append(Rep(p.b, s_max(0, hi - lo) if not many else hi - lo))
            else:
                if bool(hi > lo):
                    out.append(p)
            pos = end
        return SBytes.make(out)

    def same(self, o):
        """Structural identity (stronger than equality), as bool/SBool; None when shapes differ."""
        if not isinstance(o, SBytes) or len(o.parts) != len(self.parts):
            return None
        conj = []
        for p, q in zip(self.parts, o.parts):
            if isinstance(p, Seg) and isinstance(q, Seg) and p.src is q.src:
                conj += [mk_bool(as_int_expr(p.off) == as_int_expr(q.off)), mk_bool(as_int_expr(p.n) == as_int_expr(q.n))]
            elif isinstance(p, bytes) and isinstance(q, bytes):
                if p != q:
                    return None
            elif isinstance(p, Rep) and isinstance(q, Rep) and p.b == q.b:
                conj.append(mk_bool(as_int_expr(p.n) == as_int_expr(q.n)))
            elif isinstance(p, SInt) and isinstance(q, SInt):
                conj.append(p == q)
            else:
                return None
        return s_and(*conj) if conj else True

    def __eq__(self, o):
        if isinstance(o, SByteArray):
            o = o._v()
        if not isinstance(o, (SBytes, bytes, bytearray, memoryview)):
            return False
        ol = o._len() if isinstance(o, SBytes) else len(o)
        ml = self._len()
        if isinstance(ml, int) and isinstance(ol, int):
            if ml != ol:
                return False
        elif not (ml == ol):
            return False
        s = self.same(o) if isinstance(o, SBytes) else None
        if s is True:
            return True
        return super().__eq__(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.e))

    def __hash__(self):
        return hash(self._concrete())

    def __repr__(self):
        return f'SBytes({self.parts})'

    def __bytes__(self):
        return self._concrete()

    def __format__(self, spec):
        return '<sbytes>'

    def decode(self, encoding='utf-8', errors='strict'):
        out = []
        codes = self._codes()
        enc = encoding.lower().replace('_', '-')
        for c in codes:
            if isinstance(c, int) and c < 128:
                out.append(c)
                continue
            if isinstance(c, SInt):
                d = core.ctx().env.get('domains', {}).get(c.e.get_id())
                if (d is not None and max(d) < 128) or not bool(c > 127):
                    out.append(c)
                    continue
            if enc in ('latin-1', 'latin1', 'iso-8859-1'):
                out.append(c)
                continue
            raise Unsupported("decoding non-ASCII symbolic bytes")
        return SStr._make(out)

    def hex(self):
        raise Unsupported("hex of symbolic bytes")

    def tobytes(self):
        return self


class SByteArray:
    """bytearray whose content may be symbolic (value semantics inside, identity outside)."""

    __symx__ = True

    def __init__(self, v=b''):
        self.v = v

    def _v(self):
        return self.v if isinstance(self.v, SBytes) else SBytes([self.v]) if self.v else SBytes([])

    def _len(self):
        return self.v._len() if isinstance(self.v, SBytes) else len(self.v)

    def __len__(self):
        return as_concrete(self._len())

    def __bool__(self):
        return bool(self._len() != 0)

    def __iadd__(self, o):
        self.v = self.v + (o.v if isinstance(o, SByteArray) else o)
        return self

    def extend(self, o):
        self.__iadd__(o if isinstance(o, (bytes, SBytes, SByteArray, bytearray)) else bytes(o))

    def append(self, c):
        self.v = self.v + SBytes.from_ints([c])

    def __add__(self, o):
        return SByteArray(self.v + (o.v if isinstance(o, SByteArray) else o))

    def __radd__(self, o):
        return o + self.v

    def __getitem__(self, i):
        r = self.v[i]
        return SByteArray(r) if isinstance(i, slice) else r

    def __setitem__(self, i, value):
        if not isinstance(i, slice):
            self.v = self.v[:i] + SBytes.from_ints([value]) + self.v[i + 1:]
            return
        n = self._len()
        start = 0 if i.start is None else i.start
        stop = n if i.stop is None else i.stop
        if start < 0:
            start = s_max(0, start + n)
        if stop < 0:
            stop = s_max(0, stop + n)
        start, stop = s_min(start, n), s_min(stop, n)
        value = value.v if isinstance(value, SByteArray) else value
        self.v = self.v[:start] + value + self.v[s_max(start, stop):]

    def __delitem__(self, i):
        self.__setitem__(i if isinstance(i, slice) else slice(i, i + 1), b'')

    def clear(self):
        self.v = b''

    def __eq__(self, o):
        return self.v == (o.v if isinstance(o, SByteArray) else o)

    def __ne__(self, o):
        return self.v != (o.v if isinstance(o, SByteArray) else o)

    __hash__ = None

    def __iter__(self):
        return iter(self.v)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        v = self.__dict__['v']
        return getattr(v, name)

    def __bytes__(self):
        return bytes(self.v)


def repeat_bytes(b, n):
    """b * n for concrete b and symbolic n"""
    if len(b) == 0:
        return b''
    if len(b) == 1:
        m = ite(mk_bool(as_int_expr(n) > 0), n, 0)
        return SBytes.make([Rep(b[0], m)])
    return b * as_concrete(n)


def has_sym(x, depth=0):
    if isinstance(x, (SInt, SBool, SStr, SBytes, SByteArray)) or hasattr(type(x), '__symx__'):
        return True
    if depth < 3 and type(x) in (tuple, list, set, frozenset):
        return any(has_sym(y, depth + 1) for y in x)
    return False


def seq_len(x):
    if isinstance(x, (SBytes, SByteArray, SStr)):
        return x._len()
    f = getattr(type(x), 'symx_len', None)
    if f is not None:
        return f(x)
    return len(x)


# -- containers keyed by symbolic values -----------------------------------------------------------


def _key_eq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(_key_eq(x, y) for x, y in zip(a, b))
    return bool(a == b)


class SDict(dict):
    """dict that can hold symbolic keys; behaves natively until the first one is inserted."""

    _items = None

    @classmethod
    def build(cls, pairs):
        d = cls()
        for k, v in pairs:
            d[k] = v
        return d

    def _to_list(self):
        if self._items is None:
            self._items = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, k):
        for item in self._items:
            if _key_eq(item[0], k):
                return item
        return None

    def _symbolic_access(self, k):
        if self._items is not None:
            return True
        return has_sym(k)

    def __getitem__(self, k):
        if not self._symbolic_access(k):
            return dict.__getitem__(self, k)
        if self._items is None:
            for kk in dict.keys(self):
                if _key_eq(kk, k):
                    return dict.__getitem__(self, kk)
        else:
            item = self._find(k)
            if item is not None:
                return item[1]
        if hasattr(self, '__missing__'):
            return self.__missing__(k)
        raise KeyError(k)

    def __setitem__(self, k, v):
        if not self._symbolic_access(k):
            dict.__setitem__(self, k, v)
            return
        self._to_list()
        item = self._find(k)
        if item is None:
            self._items.append([k, v])
        else:
            item[1] = v

    def __delitem__(self, k):
        if not self._symbolic_access(k):
            dict.__delitem__(self, k)
            return
        self._to_list()
        item = self._find(k)
        if item is None:
            raise KeyError(k)
        self._items = [i for i in self._items if i is not item]

    def __contains__(self, k):
        if not self._symbolic_access(k):
            return dict.__contains__(self, k)
        if self._items is None:
            return any(_key_eq(kk, k) for kk in dict.keys(self))
        return self._find(k) is not None

    def get(self, k, default=None):
        if not self._symbolic_access(k):
            return dict.get(self, k, default)
        if self._items is None:
            for kk in dict.keys(self):
                if _key_eq(kk, k):
                    return dict.__getitem__(self, kk)
            return default
        item = self._find(k)
        return default if item is None else item[1]

    def __len__(self):
        return dict.__len__(self) if self._items is None else len(self._items)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        if self._items is None:
            return dict.__iter__(self)
        return iter([k for k, _ in self._items])

    def __reversed__(self):
        return iter([k for k in self][::-1])

    def keys(self):
        return dict.keys(self) if self._items is None else SKeys(self)

    def values(self):
        return dict.values(self) if self._items is None else [v for _, v in self._items]

    def items(self):
        return dict.items(self) if self._items is None else [(k, v) for k, v in self._items]

    def update(self, *a, **kw):
        for x in a:
            pairs = x.items() if hasattr(x, 'items') else x
            for k, v in pairs:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    _RAISE = object()

    def pop(self, k, default=_RAISE):
        if not self._symbolic_access(k):
            return dict.pop(self, k) if default is SDict._RAISE else dict.pop(self, k, default)
        self._to_list()
        item = self._find(k)
        if item is None:
            if default is SDict._RAISE:
                raise KeyError(k)
            return default
        self._items = [i for i in self._items if i is not item]
        return item[1]

    def popitem(self, last=True):
        if self._items is None:
            if last:
                return dict.popitem(self)
            k = next(iter(dict.keys(self)))
            return k, dict.pop(self, k)
        if not self._items:
            raise KeyError("popitem(): dictionary is empty")
        k, v = self._items.pop(-1 if last else 0)
        return k, v

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            items = list(self.items())
            self.clear()
            self[k] = v
            for kk, vv in items:
                self[kk] = vv

    def setdefault(self, k, default=None):
        if k in self:
            return self[k]
        self[k] = default
        return default

    def clear(self):
        dict.clear(self)
        self._items = None

    def copy(self):
        d = type(self)()
        d.update(self)
        return d

    __copy__ = copy

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SDict()
        d.update(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if self._items is None and (not isinstance(o, SDict) or o._items is None):
            return dict.__eq__(self, o)
        if not isinstance(o, dict) or len(o) != len(self):
            return False
        o = o if isinstance(o, SDict) else SDict.build(o.items())
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return dict.__repr__(self) if self._items is None else f'SDict({self._items})'

    def __deepcopy__(self, memo):
        import copy

        d = type(self)()
        for k, v in self.items():
            d[k] = copy.deepcopy(v, memo)
        return d


class SKeys:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __and__(self, o):
        return SSet([k for k in self.d if k in o])

    def __sub__(self, o):
        return SSet([k for k in self.d if k not in o])

    def __or__(self, o):
        return SSet(list(self.d) + list(o))

    def __eq__(self, o):
        return SSet(self.d) == o


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **k):
        super().__init__()
        self.default_factory = factory
        self.update(*a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return SDefaultDict(self.default_factory, self)


class SSet:
    """Set of possibly symbolic elements; insertion ordered (iteration order is outside any claim)."""

    __symx_set__ = True

    def __init__(self, items=()):
        self.d = SDict()
        for i in items:
            self.d[i] = True

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def add(self, k):
        self.d[k] = True

    def discard(self, k):
        self.d.pop(k, None)

    def remove(self, k):
        self.d.pop(k)

    def pop(self):
        return self.d.popitem(last=False)[0]

    def clear(self):
        self.d.clear()

    def update(self, *others):
        for o in others:
            for k in o:
                self.d[k] = True

    def copy(self):
        return SSet(self)

    def union(self, *others):
        s = self.copy()
        s.update(*others)
        return s

    def intersection(self, *others):
        return SSet([k for k in self if all(k in _asset(o) for o in others)])

    def difference(self, *others):
        return SSet([k for k in self if not any(k in _asset(o) for o in others)])

    def difference_update(self, *others):
        r = self.difference(*others)
        self.d = r.d

    def issubset(self, o):
        o = _asset(o)
        return all(k in o for k in self)

    def issuperset(self, o):
        return all(k in self for k in o)

    def isdisjoint(self, o):
        return not any(k in self for k in o)

    def symmetric_difference(self, o):
        o = _asset(o)
        return SSet([k for k in self if k not in o] + [k for k in o if k not in self])

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return _asset(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return _asset(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.d = self.intersection(o).d
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset)) and not hasattr(o, '__and__'):
            return False
        return len(self) == len(o) and all(k in _asset(o) for k in self)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __hash__(self):
        return hash(frozenset(self.d))

    def __repr__(self):
        return f'SSet({list(self.d)})'

    def __deepcopy__(self, memo):
        return SSet(self)


def _asset(o):
    return o if isinstance(o, SSet) else SSet(o)
