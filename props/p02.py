"""P02: the block-parallel decompressing reader reads like the decompressed file."""
from symx.runner import Harness

from .filecheck import drive_file

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'python-xz returns the decompressed bytes for a seek and read at a block boundary and reports the block boundaries',
    'a process pool runs the submitted calls in worker processes; its results become ready at any time',
]
OUTSIDE = ['the XZ decoder itself', 'real worker processes and signals']


class FakeXz:
    """The xz module: a file of decompressed bytes with known block boundaries."""

    def __init__(self, x, boundaries, total, src):
        self.x, self.boundaries, self.total, self.src = x, boundaries, total, src
        self.count = 0

    def open(self, filename, mode='rb'):
        self.count += 1
        return XzFile(self, self.x.file(f'xz{self.count}', self.total, source=self.src))


class XzFile:
    def __init__(self, module, f):
        self.m, self.f = module, f
        self.block_boundaries = list(module.boundaries)

    def __len__(self):
        return self.m.total

    def symx_len(self):
        return self.m.total

    def __getattr__(self, name):
        return getattr(self.f, name)


class Result:
    def __init__(self, pool, f, args):
        self.pool, self.f, self.args = pool, f, args
        self.done = False

    def ready(self):
        return self.done or not self.pool.lag()

    def get(self, timeout=None):
        if not self.done:
            self.value = self.f(*self.args)
            self.done = True
        return self.value


class Pool:
    """Results turn ready late or at once, decided by a symbolic flag per operation."""

    def __init__(self, x, lag):
        self.x, self.lag = x, lag
        self.closed = False

    def apply_async(self, f, args=()):
        if self.closed:
            raise ValueError("Pool not running")
        return Result(self, f, args)

    def close(self):
        self.closed = True

    def join(self):
        pass


def _reader(x, sizes, parallelization, restart=False):
    import multiprocessing.pool

    from ratarmountcore import BlockParallelReaders as B

    bounds, total = [], 0
    for n in sizes:
        bounds.append(total)
        total = total + n
    src = x.source('D')
    state = {'lag': False}
    x.patch(B, 'xz', FakeXz(x, bounds, total, src))
    x.patch(B, '_parallelXzReaderFile', None)
    x.patch(multiprocessing.pool, 'Pool', lambda *a, **k: Pool(x, lambda: state['lag']))
    return B.ParallelXZReader('file.xz', parallelization), total, src, state


def reader(x):
    """Any block layout, any operations, any readiness of the pool's results."""
    n = x.choose('blocks', x.cfg['blocks'] + 1)
    sizes = [x.int(f'size{k}', 0, x.cfg['size_max']) for k in range(n)]
    f, total, src, state = _reader(x, sizes, x.choose('cores', x.cfg['cores'] - 1) + 2)
    state['lag'] = x.flag('lag')
    drive_file(x, f, total, lambda j: x.at(src, j), x.cfg['ops'], x.cfg['size_max'])
    x.reach('end')


def evicting(x):
    """More blocks than the cache holds; offsets and sizes of the reads are symbolic."""
    sizes = x.cfg['layout']
    f, total, src, state = _reader(x, sizes, 2)
    pos = 0
    for k in range(x.cfg['ops']):
        state['lag'] = x.flag(f'lag{k}')
        p = x.int(f'p{k}', 0, total)
        f.seek(p)
        n = x.int(f'n{k}', 0, x.cfg['read_max'])
        want = x.min(n, x.max(0, total - p))
        x.check_bytes(f.read(n), want, lambda j, p=p: x.at(src, p + j), 'read')
        x.check(x.eq(f.tell(), p + want), 'position after a read')
        x.observe(f'pos{k}', f.tell())
    x.reach('end')


def after_join(x):
    """Reading goes on after the worker pool was shut down, as it is before forking to the background."""
    sizes = [x.int(f'size{k}', 0, x.cfg['size_max']) for k in range(2)]
    f, total, src, state = _reader(x, sizes, 2)
    if x.flag('before'):
        f.read(x.int('n0', 0, x.cfg['size_max']))
    f.join_threads()
    p, n = x.int('p', 0, x.cfg['size_max']), x.int('n', 0, x.cfg['size_max'])
    f.seek(p)
    want = x.min(n, x.max(0, total - p))
    x.check_bytes(f.read(n), want, lambda j: x.at(src, p + j), 'read')
    x.reach('end')


def cache(x):
    """The bounded cache is a dictionary limited to its most recently used entries."""
    from ratarmountcore.utils import LRUCache

    size = x.choose('size', x.cfg['cache_max']) + 1
    c = LRUCache(size)
    ref = []  # (key, value), least recently used first
    for k in range(x.cfg['cache_ops']):
        op = x.pick(f'op{k}', ('set', 'get', 'index', 'in', 'del'))
        key = x.int(f'key{k}', 0, x.cfg['keys'] - 1)
        i = next((i for i in range(len(ref)) if ref[i][0] == key), None)
        if op == 'set':
            c[key] = k
            if i is not None:
                ref.pop(i)
            ref.append((key, k))
            if len(ref) > size:
                ref.pop(0)
        elif op == 'get':
            x.check(x.eq(c.get(key, -1), -1 if i is None else ref[i][1]), 'get')
            if i is not None:
                ref.append(ref.pop(i))
        elif op == 'index':
            x.assume(i is not None)
            x.check(x.eq(c[key], ref[i][1]), 'index')
            ref.append(ref.pop(i))
        elif op == 'in':
            x.check(x.eq(key in c, i is not None), 'membership')
        else:
            x.assume(i is not None)
            del c[key]
            ref.pop(i)
        x.check(x.eq(len(c), len(ref)), 'size')
        x.check(len(c) <= size, 'limit')
    for key, value in ref:
        x.check(x.eq(c[key], value), 'contents')
    x.reach('end')


def _h(name, fn, text, quick, thorough):
    h = Harness(name, fn, text, quick, thorough, models=['xz module', 'multiprocessing.pool.Pool'])
    h.must_reach = ['end']
    return h


HARNESSES = [
    _h('reader', reader, 'up to 2 blocks of symbolic size (0 included), 2 operations, 2 cores, results ready late or at once',
       {'blocks': 2, 'ops': 2, 'size_max': 100000, 'cores': 2}, {'blocks': 3, 'ops': 3, 'cores': 3}),
    _h('evicting', evicting, '7 blocks (one empty) of fixed sizes with a cache of 4, symbolic offsets and lengths',
       {'layout': [7, 11, 5, 0, 9, 8, 3], 'ops': 2, 'read_max': 60}, {'ops': 3}),
    _h('after_join', after_join, '2 blocks of symbolic size', {'size_max': 100000}, {}),
    _h('cache', cache, 'cache of up to 2 entries, 4 operations with symbolic keys',
       {'cache_max': 2, 'cache_ops': 4, 'keys': 3}, {'cache_max': 3, 'cache_ops': 5, 'keys': 4}),
]
