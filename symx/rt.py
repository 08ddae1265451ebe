"""Runtime of instrumented code: dispatches operations that the interpreter would do in C."""
import bisect as _bisect
import builtins
import collections
import copy
import datetime
import io
import json
import math
import operator
import os
import pathlib
import posixpath
import re
import stat
import struct
import types

import z3

from . import core, fsmodel
from .core import Unsupported
from .data import (
    DecInt,
    HexInt,
    SByteArray,
    SBytes,
    SDefaultDict,
    SDict,
    SeqBase,
    SKeys,
    SSet,
    SStr,
    has_sym,
    repeat_bytes,
    seq_len,
)
from .values import SBool, SInt, SReal, as_bool_expr, as_concrete, as_int_expr, ite, mk_bool, mk_int, s_max, s_min

SYM = (SInt, SBool, SReal, SStr, SBytes, SByteArray)


def enter(name):
    c = core.CURRENT
    if c is not None:
        c.functions[name] = c.functions.get(name, 0) + 1


slice_ = slice

_MISSING = object()
# The type of methods of C classes that take their class as an argument.
_C_METHOD = type(re.compile('').fullmatch)


def _any_sym(args):
    for a in args:
        if isinstance(a, SYM):
            return True
        t = type(a)
        if t in (tuple, list) and has_sym(a):
            return True
        if t is SDict and a._items is not None:
            return True
        if t is SSet:
            return True
    return False


def call(f, /, *args, **kwargs):
    tf = type(f)
    if tf is types.FunctionType:
        m = PY_MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs)
        return f(*args, **kwargs)
    if tf is types.MethodType:
        return f(*args, **kwargs)
    if tf is types.BuiltinFunctionType or tf is _C_METHOD:  # functions and bound methods of C objects
        try:
            m = C_MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kwargs)
        self = getattr(f, '__self__', None)
        if self is not None and not isinstance(self, types.ModuleType):
            return _builtin_method(f, self, args, kwargs)
        if _any_sym(args) or (kwargs and _any_sym(kwargs.values())):
            return _concretized_call(f, args, kwargs)
        return f(*args, **kwargs)
    if tf is type or isinstance(f, type):
        m = TYPE_MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs)
        return f(*args, **kwargs)
    return f(*args, **kwargs)


def _deep_concrete(a):
    if isinstance(a, (SInt, SBool)):
        return a.__index__()
    if isinstance(a, SStr) or isinstance(a, SBytes):
        return a._concrete()
    if isinstance(a, SByteArray):
        return bytes(a)
    if isinstance(a, SReal):
        raise Unsupported("symbolic float passed to C code")
    if type(a) is tuple:
        return tuple(_deep_concrete(x) for x in a)
    if type(a) is list and has_sym(a):
        return [_deep_concrete(x) for x in a]
    if isinstance(a, SSet):
        return set(_deep_concrete(x) for x in a)
    if isinstance(a, SDict) and a._items is not None:
        return {_deep_concrete(k): _deep_concrete(v) for k, v in a.items()}
    return a


def _concretized_call(f, args, kwargs):
    """Fork over all values of the symbolic arguments (bounded by the engine's limit)."""
    return f(*[_deep_concrete(a) for a in args], **{k: _deep_concrete(v) for k, v in kwargs.items()})


_LIST_SAFE = {
    'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse', 'clear', 'copy',
}


def _builtin_method(f, self, args, kwargs):
    t = type(self)
    name = f.__name__
    if isinstance(self, type):
        # classmethods of C types, e.g. int.from_bytes, dict.fromkeys
        m = CLASS_METHODS.get((self, name))
        if m is not None:
            return m(*args, **kwargs)
        if _any_sym(args):
            return _concretized_call(f, args, kwargs)
        return f(*args, **kwargs)
    if t is str:
        if name == 'join' and args:
            parts = list(args[0])
            if any(isinstance(p, SStr) for p in parts):
                out = SStr([])
                for k, p in enumerate(parts):
                    if k:
                        out = out + self
                    if not isinstance(p, (str, SStr)):
                        raise TypeError("sequence item: expected str instance")
                    out = out + p
                return out if isinstance(out, str) else SStr._make(out.codes) if not any(
                    isinstance(c, DecInt) for c in out.codes
                ) else out
            return f(parts)
        if name == 'format':
            return _str_format(self, args, kwargs)
        if _any_sym(args):
            return getattr(SStr([ord(c) for c in self]), name)(*args, **kwargs)
        return f(*args, **kwargs)
    if t is bytes:
        if name == 'join' and args:
            parts = list(args[0])
            if any(isinstance(p, (SBytes, SByteArray)) for p in parts):
                return SBytes([self] if self else []).join([p.v if isinstance(p, SByteArray) else p for p in parts])
            return f(parts)
        if _any_sym(args):
            return getattr(SBytes([self] if self else []), name)(*args, **kwargs)
        return f(*args, **kwargs)
    if t is list:
        if name == 'pop' and args and isinstance(args[0], SInt):
            args = (as_concrete(args[0]),)
        if name == 'extend' and args and isinstance(args[0], SDict):
            args = (list(args[0]),)
        return f(*args, **kwargs)
    if t is dict or t is collections.OrderedDict or t is collections.defaultdict:
        if args and name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__') and has_sym(args[0]):
            return _native_dict_op(self, name, args)
        if name == 'update' and args and isinstance(args[0], SDict) and args[0]._items is not None:
            for k, v in args[0].items():
                self[_deep_concrete(k)] = v
            return None
        return f(*args, **kwargs)
    if t in (set, frozenset):
        if args and has_sym(args[0]):
            if name in ('add', 'discard', 'remove'):
                return f(_deep_concrete(args[0]))
        if any(isinstance(a, SSet) for a in args):
            return f(*[set(a) if isinstance(a, SSet) else a for a in args])
        return f(*args, **kwargs)
    if t is int and name == 'to_bytes':
        return f(*args, **kwargs)
    if t is re.Pattern:
        if _any_sym(args):
            from . import regex

            return regex.pattern_method(self, name, args, kwargs)
        return f(*args, **kwargs)
    if t is struct.Struct and args and isinstance(args[0], (SBytes, SByteArray)):
        if name == 'unpack':
            return struct_unpack(self.format, args[0])
    if t is bytearray and args and isinstance(args[0], (SBytes, SByteArray)):
        raise Unsupported("symbolic data into a native bytearray")
    if isinstance(self, (io.IOBase, io.BytesIO)) and _any_sym(args):
        return _concretized_call(f, args, kwargs)
    if t is collections.deque:
        return f(*args, **kwargs)
    if args and t.__module__ == 'builtins' and _any_sym(args):
        return _concretized_call(f, args, kwargs)
    return f(*args, **kwargs)


def _native_dict_op(d, name, args):
    k = args[0]
    for kk in list(d):
        if type(kk) is type(k) or isinstance(kk, (str, int, bytes, tuple)):
            if _safe_eq(kk, k):
                return getattr(d, name)(kk, *args[1:])
    if name == 'get':
        return args[1] if len(args) > 1 else None
    if name == '__contains__':
        return False
    if name == 'pop' and len(args) > 1:
        return args[1]
    if name == 'setdefault':
        d[_deep_concrete(k)] = args[1] if len(args) > 1 else None
        return args[1] if len(args) > 1 else None
    if name == '__getitem__' and hasattr(d, '__missing__'):
        return d.__missing__(_deep_concrete(k))
    raise KeyError(k)


def _safe_eq(a, b):
    from .data import _key_eq

    return _key_eq(a, b)


def contains(container, item):
    t = type(container)
    if t is str:
        if isinstance(item, SStr):
            return item in SStr([ord(c) for c in container]) if False else SStr([ord(c) for c in container]).find(item) >= 0
        return item in container
    if t is bytes:
        if isinstance(item, (SBytes, SInt)):
            return SBytes([container] if container else []).find(item) >= 0
        return item in container
    if t is SStr or t is SBytes:
        return container.find(item) >= 0
    if t is dict or t is collections.OrderedDict or t is collections.defaultdict:
        if has_sym(item):
            return any(_safe_eq(k, item) for k in container)
        return item in container
    if t in (set, frozenset):
        if has_sym(item):
            if isinstance(item, SInt) and all(isinstance(x, int) for x in container):
                from .data import code_in

                return bool(code_in(item, list(container)))
            return any(_safe_eq(k, item) for k in container)
        return item in container
    if t is range and isinstance(item, SInt):
        step = container.step
        lo, hi = container.start, container.stop
        if step == 1:
            return bool(mk_bool(z3.And(item.e >= lo, item.e < hi)))
        return as_concrete(item) in container
    if t in (type({}.keys()), type({}.values()), type({}.items())):
        return any(_safe_eq(k, item) for k in container) if has_sym(item) else item in container
    if t in (list, tuple) and isinstance(item, SInt) and all(type(x) is int for x in container):
        from .data import code_in

        return bool(code_in(item, list(container)))
    return item in container


def getitem(obj, idx):
    t = type(obj)
    if t is dict or t is collections.OrderedDict or t is collections.defaultdict:
        if has_sym(idx):
            return _native_dict_op(obj, '__getitem__', (idx,))
        return obj[idx]
    if t is bytes and isinstance(idx, slice) and (
        isinstance(idx.start, SInt) or isinstance(idx.stop, SInt)
    ) and idx.step is None and len(obj) > 0:
        if len(set(obj)) == 1:
            from .data import Rep

            return SBytes([Rep(obj[0], len(obj))])[idx]
        return SBytes([obj])[idx]
    if t in (list, tuple) and isinstance(idx, SInt):
        n = len(obj)
        if not (idx < n) or not (idx >= -n):
            raise IndexError("list index out of range")
        return obj[as_concrete(idx)]
    if t in (str, bytes) and isinstance(idx, SInt):
        n = len(obj)
        if not (idx < n) or not (idx >= -n):
            raise IndexError("index out of range")
        if t is bytes and n <= 64 and (idx >= 0):
            return mk_int(SBytes([obj]).byte_at(idx))
        return obj[as_concrete(idx)]
    return obj[idx]


def _hex(value, n, letters):
    return SStr([HexInt(value, n, letters)]) if isinstance(value, SInt) else format(value, f'0{n}' + ('x' if letters == 87 else 'X'))


def _fmt_one(value, conversion, spec):
    if isinstance(value, (SStr,)):
        if conversion in (-1, 115) and not spec:
            return value
        if conversion == 114:  # repr: only used in messages
            return repr(value)
        return format(str(value), spec or '')
    if isinstance(value, (SInt,)):
        if conversion in (-1, 115, 114) and spec in (None, '', 'd'):
            return SStr([DecInt(value)])
        if conversion == -1 and spec and re.fullmatch('0[0-9]+[xX]', spec):
            n = int(spec[1:-1])
            if value >= 0 and value < 16**n:
                return _hex(value, n, 87 if spec[-1] == 'x' else 55)
        return format(as_concrete(value), spec)
    if isinstance(value, (SBytes, SByteArray, SReal)):
        return repr(value)
    if isinstance(value, SBool):
        value = bool(value)
    if conversion == 114:
        value = _safe_repr(value)
    elif conversion == 115:
        value = _str(value)
        if isinstance(value, SStr):
            return value
    elif conversion == 97:
        value = ascii(value)
    if isinstance(spec, SStr):
        spec = str(spec)
    if spec is None or spec == '':
        if type(value) in (list, tuple, SDict, SSet) or isinstance(value, BaseException):
            return _safe_repr(value) if not isinstance(value, BaseException) else _exc_str(value)
    return format(value, spec or '')


def _exc_str(e):
    if len(e.args) == 1 and isinstance(e.args[0], SStr):
        return e.args[0]
    return str(e) if not has_sym(e.args) else repr(e.args)


def _safe_repr(x):
    return repr(x)


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            p = _fmt_one(*p)
        if isinstance(p, SStr):
            sym = True
        out.append(p)
    if not sym:
        return ''.join(out)
    r = SStr([])
    for p in out:
        r = r + p
    return r


def _str_format(s, args, kwargs):
    import string

    if not (_any_sym(args) or _any_sym(kwargs.values())):
        return s.format(*args, **kwargs)
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kwargs[field]
        else:
            raise Unsupported("format field " + field)
        parts.append((v, ord(conv) if conv else -1, spec))
    return fstr(*parts)


def mod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if _any_sym(args):
            # printf style with %s/%d/%i only
            pieces = re.split(r'(%[sdir%])', a)
            it = iter(args)
            parts = []
            for p in pieces:
                if p == '%%':
                    parts.append('%')
                elif len(p) == 2 and p[0] == '%':
                    v = next(it)
                    parts.append((v, 114 if p[1] == 'r' else -1, None))
                else:
                    if '%' in p:
                        raise Unsupported("printf format " + a)
                    parts.append(p)
            return fstr(*parts)
    return a % b


def mkdict(*entries):
    d = SDict()
    for e in entries:
        if e[0] is True and len(e) == 2:
            d.update(e[1])
        else:
            d[e[1]] = e[2]
    return d


def dictcomp(gen):
    return SDict.build(gen)


def mkset(items):
    items = list(items)
    if not any(has_sym(i) for i in items) and core.CURRENT is None:
        return set(items)
    return SSet(items)


# -- models of builtins ------------------------------------------------------------------------------

_SYM_BASES = {
    SInt: int,
    SBool: bool,
    SReal: float,
    SStr: str,
    SBytes: bytes,
    SByteArray: bytearray,
    SSet: set,
}


def m_isinstance(x, cls):
    base = _SYM_BASES.get(type(x))
    if base is not None:
        clss = _flatten(cls)
        for c in clss:
            if c in (types.UnionType,):
                continue
            try:
                if issubclass(base, c):
                    return True
            except TypeError:
                pass
        return isinstance(x, cls) if not isinstance(cls, (tuple, types.UnionType)) else False
    # instrumented containers are dict subclasses; OrderedDict/defaultdict models
    if isinstance(x, SDict):
        return any(c in (dict, collections.OrderedDict) or _isinst(x, c) for c in _flatten(cls))
    if CLASS_ALIASES:
        for c in _flatten(cls):
            real = CLASS_ALIASES.get(c) if isinstance(c, type) else None
            if real is not None and isinstance(x, real):
                return True
    return isinstance(x, cls)


CLASS_ALIASES = {}  # replaced class -> the real one


def _isinst(x, c):
    try:
        return isinstance(x, c)
    except TypeError:
        return False


def _flatten(cls):
    if isinstance(cls, tuple):
        out = []
        for c in cls:
            out += _flatten(c)
        return out
    if isinstance(cls, types.UnionType):
        return list(cls.__args__)
    return [cls]


def m_len(x):
    return seq_len(x)


def m_int(x=0, base=_MISSING):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mk_int(as_int_expr(x))
    if isinstance(x, SReal):
        return x.__trunc__()
    if isinstance(x, (SStr, SBytes)):
        if isinstance(x, SStr) and len(x.codes) == 1 and isinstance(x.codes[0], DecInt):
            return x.codes[0].v
        return x.to_int(10 if base is _MISSING else base)
    return int(x) if base is _MISSING else int(x, base)


def m_bool(x=False):
    return bool(x)


def _str(x='', *a):
    if isinstance(x, SStr):
        return x
    if isinstance(x, SInt):
        return SStr([DecInt(x)])
    if isinstance(x, (SBytes,)) and a:
        return x.decode(*a)
    if isinstance(x, BaseException):
        return _exc_str(x)
    return str(x, *a)


def m_bytes(x=b'', *a):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SByteArray):
        return x.v
    if isinstance(x, SStr):
        return x.encode(*a)
    if isinstance(x, SInt):
        if x < 0:
            raise ValueError("negative count")
        return repeat_bytes(b'\0', x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        for c in x:
            if not (c >= 0 and c < 256):
                raise ValueError("bytes must be in range(0, 256)")
        return SBytes.from_ints(x)
    if isinstance(x, types.GeneratorType):
        return m_bytes(list(x))
    return bytes(x, *a)


def m_bytearray(x=b'', *a):
    if isinstance(x, SInt):
        if x < 0:
            raise ValueError("negative count")
        return SByteArray(repeat_bytes(b'\0', x))
    if isinstance(x, (SBytes, SByteArray)):
        return SByteArray(x.v if isinstance(x, SByteArray) else x)
    return SByteArray(bytes(x, *a))


def m_memoryview(x):
    if isinstance(x, (SBytes, SByteArray)):
        return SMemoryView(x)
    return memoryview(x)


class SMemoryView:
    """memoryview over symbolic data, format 'B' only."""

    __symx__ = True

    def __init__(self, obj, start=0, stop=None):
        self.obj = obj
        self.start = start
        self.stop = seq_len(obj) if stop is None else stop
        self.format = 'B'
        self.itemsize = 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def release(self):
        pass

    def cast(self, fmt):
        return self

    @property
    def nbytes(self):
        return self._len()

    def _len(self):
        return self.stop - self.start

    def __len__(self):
        return as_concrete(self._len())

    def _val(self):
        v = self.obj.v if isinstance(self.obj, SByteArray) else self.obj
        return v[self.start:self.stop]

    def tobytes(self):
        return self._val()

    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self._len()
            a = 0 if i.start is None else s_min(i.start, n)
            b = n if i.stop is None else s_min(i.stop, n)
            return SMemoryView(self.obj, self.start + a, self.start + s_max(a, b))
        return self._val()[i]

    def __setitem__(self, i, v):
        n = self._len()
        a = 0 if i.start is None else s_min(i.start, n)
        b = n if i.stop is None else s_min(i.stop, n)
        if isinstance(v, SMemoryView):
            v = v._val()
        if not (seq_len(v) == s_max(0, b - a)):
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        self.obj[self.start + a:self.start + b] = v

    def __eq__(self, o):
        return self._val() == o


def m_range(*args):
    if not any(isinstance(a, SInt) for a in args):
        return range(*args)
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    else:
        start, stop = args[0], args[1]
        if len(args) == 3:
            step = args[2]
    return SRange(start, stop, as_concrete(step))


class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def __len__(self):
        return len(list(iter(self)))

    def __contains__(self, x):
        return any(x == y for y in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __getitem__(self, i):
        return list(self)[i]


def m_min(*args, **kw):
    if len(args) == 2 and not kw and all(isinstance(a, (int, SInt)) for a in args) and any(
        isinstance(a, SInt) for a in args
    ):
        return s_min(*args)
    return min(*args, **kw)


def m_max(*args, **kw):
    if len(args) == 2 and not kw and all(isinstance(a, (int, SInt)) for a in args) and any(
        isinstance(a, SInt) for a in args
    ):
        return s_max(*args)
    return max(*args, **kw)


def m_dict(*args, **kw):
    d = SDict()
    d.update(*args, **kw)
    return d


def m_set(items=()):
    return SSet(items)


def m_frozenset(items=()):
    items = list(items)
    return SSet(items) if any(has_sym(i) for i in items) else frozenset(items)


def m_list(x=()):
    return list(x)


def m_tuple(x=()):
    return tuple(x)


def m_ord(c):
    if isinstance(c, SeqBase):
        codes = c._codes()
        if len(codes) != 1:
            raise TypeError("ord() expected a character")
        return codes[0]
    return ord(c)


def m_chr(c):
    return SStr([c]) if isinstance(c, SInt) else chr(c)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_abs(x):
    return abs(x)


def m_divmod(a, b):
    return a // b, a % b


def m_hash(x):
    return hash(x)


def m_type(*args):
    if len(args) == 1:
        b = _SYM_BASES.get(type(args[0]))
        if b is not None:
            return b
        if type(args[0]) is SDict:
            return dict
        return type(args[0])
    return type(*args)


def m_float(x=0.0):
    if isinstance(x, (SInt, SBool)):
        return SReal.of(x)
    if isinstance(x, SReal):
        return x
    if isinstance(x, SStr):
        return float(str(x))
    return float(x)


def m_enumerate(it, start=0):
    if isinstance(start, SInt):
        def gen():
            i = start
            for x in it:
                yield i, x
                i = i + 1
        return gen()
    return enumerate(it, start)


def m_repr(x):
    return repr(x)


def m_fspath(p):
    if isinstance(p, (SStr, SBytes)):
        return p
    return os.fspath(p)


def m_fsencode(p):
    return p.encode() if isinstance(p, SStr) else os.fsencode(p)


def m_fsdecode(p):
    if isinstance(p, SBytes):
        return p.decode()
    return p if isinstance(p, SStr) else os.fsdecode(p)


def m_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SMemoryView):
        b = b._val()
    if isinstance(b, SByteArray):
        b = b.v
    if isinstance(b, (list, tuple)):
        b = m_bytes(b)
    if not isinstance(b, SBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    codes = b._codes()
    if byteorder == 'little':
        codes = list(reversed(codes))
    v = 0
    for c in codes:
        v = v * 256 + c
    if signed and codes:
        n = 256 ** len(codes)
        v = ite(v >= n // 2, v - n, v)
    return v


def struct_unpack(fmt, data):
    """struct.unpack for standard-size formats."""
    if isinstance(data, SByteArray):
        data = data.v
    if isinstance(data, SMemoryView):
        data = data._val()
    if not isinstance(data, SBytes):
        return struct.unpack(fmt, data)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = 'little'
    f = fmt.replace(' ', '')
    native_align = True
    if f[:1] in '<>=!@':
        native_align = f[0] == '@'
        order = 'big' if f[0] in '>!' else 'little'
        f = f[1:]
    if native_align and re.search('[HhIiLlQqfd]', f):
        raise Unsupported("native struct alignment")
    size = struct.calcsize(fmt)
    n = data._len()
    if not (n == size):
        raise struct.error(f"unpack requires a buffer of {size} bytes")
    codes = data._codes()
    out = []
    pos = 0
    for count, ch in re.findall(r'(\d*)([a-zA-Z?])', f):
        if ch == 's':
            k = int(count) if count else 1
            out.append(SBytes.from_ints(codes[pos:pos + k]))
            pos += k
            continue
        if ch == 'x':
            pos += int(count) if count else 1
            continue
        width = struct.calcsize('=' + ch)
        for _ in range(int(count) if count else 1):
            chunk = codes[pos:pos + width]
            pos += width
            if ch in 'BHILQ':
                out.append(m_from_bytes(SBytes.from_ints(chunk), order))
            elif ch in 'bhilq':
                out.append(m_from_bytes(SBytes.from_ints(chunk), order, signed=True))
            elif ch == '?':
                out.append(chunk[0] != 0)
            elif ch == 'c':
                out.append(SBytes.from_ints(chunk))
            else:
                raise Unsupported("struct format " + ch)
    return tuple(out)


def struct_unpack_from(fmt, data, offset=0):
    if not isinstance(data, (SBytes, SByteArray)):
        return struct.unpack_from(fmt, data, offset)
    return struct_unpack(fmt, data[offset:offset + struct.calcsize(fmt)])


def _mode_pred(const):
    def f(mode):
        if isinstance(mode, SInt):
            return (mode & 0o170000) == const
        return (int(mode) & 0o170000) == const

    return f


def m_imode(mode):
    return mode & 0o7777


def m_ifmt(mode):
    return mode & 0o170000


def m_normpath(path):
    if not isinstance(path, SStr):
        return posixpath.normpath(path)
    # the pure Python version of posixpath.normpath
    if not path:
        return '.'
    initial = 1 if path.startswith('/') else 0
    if initial and path.startswith('//') and not path.startswith('///'):
        initial = 2
    comps = []
    for comp in path.split('/'):
        if len(comp) == 0 or comp == '.':
            continue
        if comp != '..' or (not initial and not comps) or (comps and comps[-1] == '..'):
            comps.append(comp)
        elif comps:
            comps.pop()
    r = call('/'.join, comps)
    r = '/' * initial + r if initial else r
    return r if seq_len(r) else '.'


def m_join(a, *p):
    if not _any_sym((a,) + p):
        return posixpath.join(a, *p)
    path = a
    for b in p:
        if seq_len(b) and b.startswith('/') or not seq_len(path):
            path = b
        elif path.endswith('/'):
            path = path + b
        else:
            path = path + '/' + b
    return path


def m_split(p):
    if not isinstance(p, SStr):
        return posixpath.split(p)
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if seq_len(head):
        h = head.rstrip('/')
        if seq_len(h):
            head = h
    return head, tail


def m_dirname(p):
    return m_split(p)[0] if isinstance(p, SStr) else posixpath.dirname(p)


def m_basename(p):
    return p[p.rfind('/') + 1:] if isinstance(p, SStr) else posixpath.basename(p)


def m_isabs(p):
    return p.startswith('/') if isinstance(p, SStr) else posixpath.isabs(p)


def m_splitext(p):
    if not isinstance(p, SStr):
        return posixpath.splitext(p)
    sep, dot = p.rfind('/'), p.rfind('.')
    if dot > sep:
        i = sep + 1
        while i < dot:
            if p[i] != '.':
                return p[:dot], p[dot:]
            i += 1
    return p, ''


def m_ceil(x):
    return x.__ceil__() if isinstance(x, (SInt, SReal)) else math.ceil(x)


def m_floor(x):
    return x.__floor__() if isinstance(x, (SInt, SReal)) else math.floor(x)


def m_trunc(x):
    return x.__trunc__() if isinstance(x, (SInt, SReal)) else math.trunc(x)


def m_round(x, n=None):
    return x.__round__(n) if isinstance(x, (SInt, SReal)) else (round(x) if n is None else round(x, n))


def m_defaultdict(factory=None, *a, **k):
    return SDefaultDict(factory, *a, **k)


def m_re(name):
    def f(pattern, *args, **kw):
        if _any_sym(args):
            from . import regex

            flags = kw.pop('flags', 0)
            return regex.pattern_method(re.compile(pattern, flags), name, args, kw)
        return getattr(re, name)(pattern, *args, **kw)

    return f


def m_json_dumps(x, *a, **k):
    return json.dumps(_deep_concrete_tree(x), *a, **k)


def _deep_concrete_tree(x):
    if isinstance(x, SYM):
        return _deep_concrete(x)
    if isinstance(x, dict):
        return {_deep_concrete(k): _deep_concrete_tree(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_deep_concrete_tree(v) for v in x]
    return x


def m_getattr(o, name, *d):
    if isinstance(name, SStr):
        name = str(name)
    return getattr(o, name, *d)


def m_sorted(it, **kw):
    return sorted(list(it), **kw)


def m_zip(*a, **k):
    return zip(*a, **k)


def m_print(*a, **k):
    return None


def m_hasattr(o, n):
    return hasattr(o, n)


C_MODELS = {
    isinstance: m_isinstance,
    len: m_len,
    min: m_min,
    max: m_max,
    sum: m_sum,
    ord: m_ord,
    chr: m_chr,
    abs: m_abs,
    divmod: m_divmod,
    round: m_round,
    repr: m_repr,
    getattr: m_getattr,
    sorted: m_sorted,
    print: m_print,
    math.ceil: m_ceil,
    math.floor: m_floor,
    math.trunc: m_trunc,
    os.fspath: m_fspath,
    struct.unpack: struct_unpack,
    struct.unpack_from: struct_unpack_from,
    stat.S_ISDIR: _mode_pred(stat.S_IFDIR),
    stat.S_ISREG: _mode_pred(stat.S_IFREG),
    stat.S_ISLNK: _mode_pred(stat.S_IFLNK),
    stat.S_ISCHR: _mode_pred(stat.S_IFCHR),
    stat.S_ISBLK: _mode_pred(stat.S_IFBLK),
    stat.S_ISFIFO: _mode_pred(stat.S_IFIFO),
    stat.S_ISSOCK: _mode_pred(stat.S_IFSOCK),
    stat.S_IMODE: m_imode,
    stat.S_IFMT: m_ifmt,
    posixpath.normpath: m_normpath,
    any: any,
    all: all,
    next: next,
    iter: iter,
    id: id,
    callable: callable,
    hasattr: m_hasattr,
    setattr: setattr,
    issubclass: issubclass,
    map: map,
    filter: filter,
    _bisect.bisect_left: _bisect.bisect_left,
    _bisect.bisect_right: _bisect.bisect_right,
    _bisect.insort_right: _bisect.insort_right,
    _bisect.insort_left: _bisect.insort_left,
    open: fsmodel.open_switch,
    copy.copy: copy.copy,
}

PY_MODELS = {
    posixpath.join: m_join,
    posixpath.split: m_split,
    posixpath.dirname: m_dirname,
    posixpath.basename: m_basename,
    posixpath.isabs: m_isabs,
    posixpath.splitext: m_splitext,
    os.fsencode: m_fsencode,
    os.fsdecode: m_fsdecode,
    json.dumps: m_json_dumps,
    re.match: m_re('match'),
    re.fullmatch: m_re('fullmatch'),
    re.search: m_re('search'),
    re.sub: m_re('sub'),
    re.findall: m_re('findall'),
    re.finditer: m_re('finditer'),
    re.split: m_re('split'),
}
if isinstance(posixpath.normpath, types.FunctionType):
    PY_MODELS[posixpath.normpath] = m_normpath

TYPE_MODELS = {
    pathlib.Path: fsmodel.path_switch,
    int: m_int,
    bool: m_bool,
    str: _str,
    bytes: m_bytes,
    bytearray: m_bytearray,
    memoryview: m_memoryview,
    range: m_range,
    dict: m_dict,
    set: m_set,
    frozenset: m_frozenset,
    list: m_list,
    tuple: m_tuple,
    float: m_float,
    enumerate: m_enumerate,
    type: m_type,
    collections.OrderedDict: m_dict,
    collections.defaultdict: m_defaultdict,
}

CLASS_METHODS = {
    (int, 'from_bytes'): m_from_bytes,
    (dict, 'fromkeys'): lambda it, v=None: SDict.build((k, v) for k in it),
}

MODULE_PATCHES = {}


def patch_module(module):
    for hook in MODULE_PATCHES.get(module.__name__, ()):
        hook(module)
