"""P22: files inside of archives that are decoded by libarchive read like plain files, however many are open."""
from symx.runner import Harness

from . import bytekit, indexkit, lakit
from .filecheck import drive_file

LEVEL = 'model_checking'
ASSUMPTIONS = ['libarchive delivers the contents of the members in order from the bytes it gets through the callbacks',
               'without the lock, other threads may move the file at any time']
OUTSIDE = ['positions beyond the end of a file', 'damaged archives and sizes that differ from the contents']


def files(x):
    """Opening members of one archive in any order and reading them alternately."""
    sizes = [x.int(f'size{k}', x.cfg['least'], cap) for k, cap in enumerate(x.cfg['caps'])]
    members = [(f'm{k}', n, {}) for k, n in enumerate(sizes)]
    indexkit.fast(x)
    module, library = lakit.install(x, members, x.pick('skipping', x.cfg['skipping']))
    lock = x.lock()
    file = lakit.File(x, 'A', bytekit.join(x, [x.segment(x.source(f'M{k}'), 0, n) for k, n in enumerate(sizes)]))
    file.lock = lock
    lock.files.append(file)
    lakit.locks(x, module, lock)
    source = module.LibarchiveMountSource(file)
    try:
        opened = {}
        for k in range(x.cfg['ops']):
            slot = x.choose(f'file{k}', min(len(opened) + 1, x.cfg['files']))
            if slot not in opened:
                which = x.choose(f'member{k}', len(members))
                opened[slot] = [source.open(source.lookup(f'/m{which}')), which, 0]
            f, which, pos = opened[slot]
            size = sizes[which]
            # Ending with something other than reading shows nothing.
            kind = x.pick(f'op{k}', [c for c in x.cfg['kinds'] if c in ('read', 'all') or
                                     k < x.cfg['ops'] - 1 and (c != 'close' or k)])
            if kind == 'read':
                n = x.int(f'n{k}', x.cfg['least'], x.cfg['reads'])
                x.assume(not x.cfg['least'] or pos + n <= size)
                data = f.read(n)
                x.check_bytes(data, x.min(n, size - pos), lambda j: x.at(x.source(f'M{which}'), pos + j), 'contents')
                pos = pos + x.len(data)
                x.reach('read')
            elif kind == 'all':
                data = f.read()
                x.check_bytes(data, size - pos, lambda j: x.at(x.source(f'M{which}'), pos + j), 'all contents')
                pos = size
            elif kind == 'close':
                f.close()
                opened = dict(enumerate(v for s, v in opened.items() if s != slot))
                continue
            else:
                target = x.int(f'to{k}', 0, x.cfg['reads'])
                x.assume(target <= size)
                base, whence = {'set': (0, 0), 'cur': (pos, 1), 'end': (size, 2)}[kind]
                x.check(x.eq(f.seek(target - base, whence), target), 'new position')
                pos = target
                x.reach('sought')
            x.check(x.eq(f.tell(), pos), 'position')
            opened[slot][2] = pos
        x.reach('end')
    finally:
        opened.clear()
        library.end()


class _Squash:
    """What PySquashfsImage offers: an image with the blocks of one file, its fragment, and the blocks of others."""

    SQUASHFS_INVALID_FRAG = 0xFFFFFFFF

    @staticmethod
    def SQUASHFS_COMPRESSED_SIZE_BLOCK(block):
        return block & ((1 << 24) - 1)


class _Image:
    class _sblk:
        block_size = None

    def __init__(self, x, inode, blocks, stored, fragment):
        self.x, self.inode, self.blocks, self.stored, self.fragment = x, inode, blocks, stored, fragment

    def _read_block_list(self, start, offset, blocks):
        self.x.check((start, offset, blocks) == (71, 17, len(self.blocks)), 'where the block list is read')
        return list(self.blocks)

    def _read_fragment(self, fragment):
        self.x.check(fragment == 5, 'number of the fragment')
        return self.fragment

    def _read_data_block(self, start, block):
        for (at, which), data in self.stored:
            if at == start and which == block:
                return data
        self.x.fail('a block that does not exist is read')


def squashfs(x):
    """Reading and seeking in files in SquashFS images: whole blocks, sparse blocks, the last one alone or in a fragment."""
    import ratarmountcore.mountsource.formats.squashfs as module

    x.patch(module, 'PySquashfsImage', _Squash)
    blockSize, full = x.pick('block size', x.cfg['sizes']), x.choose('full blocks', x.cfg['blocks'] + 1)
    rest = x.int('rest', 0, blockSize - 1)
    size = full * blockSize + rest
    tail = x.pick('tail', ['block', 'fragment']) if rest > 0 else None
    src = x.source('F')
    parts, blocks, stored, address = [], [], [], 96
    for k in range(full + (tail == 'block')):
        n = blockSize if k < full else rest
        if x.flag(f'sparse{k}'):
            blocks.append(0)
            parts.append(b'\0' * n)
            continue
        parts.append(x.segment(src, k * blockSize, n))
        blocks.append([7, 3 | 1 << 24, 11, 5][k])
        stored.append(((address, blocks[-1]), parts[-1]))
        address += blocks[-1] & 0xFFFFFF
    before = x.int('before in the fragment', 0, blockSize) if tail == 'fragment' else 0
    if tail == 'fragment':
        x.assume(before + rest <= blockSize)
        parts.append(x.segment(src, full * blockSize, rest))
        stored.append(((7000, 9), bytekit.join(x, [x.segment(x.source('O'), 0, before), parts[-1], x.segment(x.source('P'), 0, 2)])))

    class Inode:
        data, start, block_start, block_offset, fragment = size, 96, 71, 17, 5
        offset, frag_bytes = before, rest if tail == 'fragment' else 0

    Inode.blocks = len(blocks)
    image = _Image(x, Inode, blocks, stored, (7000, 9))
    image._sblk = type('Superblock', (), {'block_size': blockSize})

    def at(j):
        value = x.at(src, j)
        for k, block in enumerate(blocks):
            if not block:
                value = x.ite(x.and_(j >= k * blockSize, j < (k + 1) * blockSize), 0, value)
        return value

    f = module.SquashFSFile(image, Inode)
    drive_file(x, f, size, at, x.cfg['ops'], x.cfg['reads'], negative='skip', beyond=False,
               kinds=x.cfg['kinds'])
    x.reach('end')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['libarchive (props/lakit.py)', 'SQLite'])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('alone', files, 'an archive with 2 members of up to 0.1 (thorough: 1.2) and 1.5 (thorough: 2.2) MB, 1 open file, 3 (thorough: 4) operations', {
        'caps': [100000, 1500000], 'skipping': ['end'], 'ops': 3, 'files': 1, 'least': 0, 'reads': 2300000,
        'kinds': ['read', 'set', 'cur', 'end', 'all', 'close']},
       {'ops': 4, 'skipping': ['read', 'set', 'cur', 'end'], 'caps': [1200000, 2200000]}, ['read', 'sought', 'end']),
    _h('alternately', files, 'an archive with 2 (thorough: 3) members of up to 1.2 MB, 2 (thorough: 3) open files, 3 (thorough: 4) operations', {
        'caps': [1200000, 1200000], 'skipping': ['read', 'set'], 'ops': 3, 'files': 2, 'least': 1, 'reads': 1200000, 'kinds': ['read', 'close']},
       {'ops': 4, 'files': 3, 'caps': [1200000, 5000, 1200000], 'skipping': ['read', 'set', 'cur', 'end'],
        'kinds': ['read', 'close', 'set']}, ['read', 'end']),
    _h('squashfs', squashfs, 'files with up to 1 (thorough: 3) full blocks of 4 bytes and a rest, 2 (thorough: 3) operations', {
        'sizes': [4], 'blocks': 1, 'ops': 2, 'reads': 10, 'kinds': ['set', 'cur', 'end', 'read', 'all']},
       {'blocks': 3, 'ops': 3, 'reads': 20}, ['read', 'end']),
]
