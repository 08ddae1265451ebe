"""P16: files are recognized by their contents and opened with the first backend that is able to."""
import struct

from symx.runner import Harness

from . import bytekit

LEVEL = 'model_checking'
ASSUMPTIONS = ['backends close or leave alone the file that they are given, and move its position as they like']
OUTSIDE = ['what the backends themselves do to recognize files: TAR, ZIP, RAR, 7z, FAT, EXT4 and raw deflate headers',
           'files that open_mount_source is given at a position other than their start']

# The constant bytes that files of a format start with, by their specifications.
MAGIC = {
    'GZIP': b'\x1f\x8b', 'XZ': b'\xfd7zXZ\x00', 'LZIP': b'LZIP\x01', 'LRZIP': b'LRZI\x00', 'LZMA': b'\x5d\x00\x00',
    'LZOP': b'\x89LZO\x00\r\n\x1a\n', 'RPM': b'\xed\xab\xee\xdb', 'UU': b'begin ', 'Z': b'\x1f\x9d', 'CAB': b'MSCF',
    'AR': b'!<arch>\n', 'AR_THIN': b'!<thin>\n', 'XAR': b'xar!', 'WARC': b'WARC/1.', 'PDF': b'%PDF-', 'OGG': b'OggS\x00',
    'MKV': b'\x1a\x45\xdf\xa3', 'RATARMOUNT_INDEX': b'SQLite format 3\x00', 'GRZIP': b'GRZipII\x00\x02\x04:)',
}


def _le(x, data, at, n):
    value = 0
    for k in range(n):
        value = value + data[at + k] * (1 << (8 * k))
    return value


def _check(x, fid, data, before, want, label, possible=None):
    """Recognizing a file that is open at the position before; possible is necessary if want is only sufficient."""
    import ratarmountcore.formats as formats

    f = bytekit.BytesFile(x, 'file', bytekit.join(x, [x.segment(x.source('before'), 0, before), data]))
    f.seek(before)
    got = formats.might_be_format(f, formats.FileFormatID[fid])
    if possible is None:
        x.check(bool(got) == bool(want), label + ': recognized')
    else:
        x.check(bool(got) if want else True, label + ': recognized')
        x.check(bool(possible) if got else True, label + ': not mistaken')
    x.check(x.eq(f.tell(), before), label + ': position')
    x.reach('yes' if got else 'no')


def magic(x):
    """Formats that are recognized by constant bytes."""
    fid = x.pick('format', sorted(MAGIC))
    want = MAGIC[fid]
    data = x.bytes('data', x.choose('length', x.cfg['length']))
    wrong = x.flag('wrong')
    if wrong:
        same = False
    else:
        x.assume(x.len(data) <= len(want))
        data = bytekit.join(x, [want[:len(want) - x.len(data)], data]) if x.len(data) else want
    same = x.len(data) >= len(want) and x.eq(data[:len(want)], want)
    _check(x, fid, data, x.int('before', 0, 1 << 40), same, fid)


# Block size, compression, logarithm of the block size, major and minor version of SquashFS images.
SQUASHFS = [(1 << 12, 1, 12, 4, 0), (1 << 17, 6, 17, 4, 0), (1 << 20, 4, 20, 4, 0), (1 << 11, 1, 11, 4, 0), (1 << 21, 1, 21, 4, 0),
            (3 << 16, 1, 17, 4, 0), (1 << 17, 7, 17, 4, 0), (1 << 17, 1, 17, 3, 0), (1 << 17, 1, 17, 4, 1), (1 << 16, 1, 17, 4, 0)]


def parsed(x):
    """Formats whose first bytes have to be parsed."""
    fid = x.pick('format', ['BZIP2', 'ZLIB', 'ASAR', 'CPIO', 'AVI', 'SQUASHFS'])
    size = {'BZIP2': 10, 'ZLIB': 2, 'ASAR': 16, 'CPIO': 5, 'AVI': 12, 'SQUASHFS': 32}[fid]
    n = x.choose('missing', 3)
    image = x.pick('image', SQUASHFS) if fid == 'SQUASHFS' else (0,) * 5
    fixed = {'BZIP2': [(4, 0x314159265359.to_bytes(6, 'big')), (0, b'BZh')], 'ZLIB': [], 'ASAR': [],
             'CPIO': [(0, b'070'), (0, b'07070')], 'AVI': [(0, b'RIFF'), (8, b'AVI ')],
             'SQUASHFS': [(0, x.pick('start', [b'hsqs', b'sqsh', b'hsqt', b'Hsqs']) if image[0] else b''), (12, image[0].to_bytes(4, 'little')),
                          (20, struct.pack('<HHHHHH', image[1], image[2], 0, 1, *image[3:]))]}[fid]
    # Image markers inside of the header only take time.
    free = [b'\0\1'] if fid == 'SQUASHFS' else []
    parts, at = [], 0
    for k, (start, value) in sorted(enumerate(fixed), key=lambda e: e[1][0]):
        if start < at or fid != 'SQUASHFS' and not x.flag(f'fixed{k}'):
            continue
        parts += [x.bytes(f'free{k}', start - at, *free), value]
        at = start + len(value)
    data = bytekit.join(x, [p for p in parts if not isinstance(p, bytes) or p] + [x.bytes('rest', size - at, *free)])
    data = data[:size - n]
    possible = None
    if n:
        want = False
        if fid == 'CPIO':
            want = _cpio(x, data)
    elif fid == 'BZIP2':
        possible = x.and_(x.eq(data[:3], b'BZh'), x.eq(data[4:], 0x314159265359.to_bytes(6, 'big')))
        want = x.and_(possible, data[3] >= 0x31, data[3] <= 0x39)
    elif fid == 'ZLIB':
        want = x.and_(data[0] % 16 == 8, data[0] < 128, (data[0] * 256 + data[1]) % 31 == 0, data[1] % 64 < 32)
    elif fid == 'ASAR':
        a, b, c, d = (_le(x, data, 4 * k, 4) for k in range(4))
        want = x.and_(a == 4, b == c + 4, c == (d + 3) - (d + 3) % 4 + 4)
    elif fid == 'CPIO':
        want = _cpio(x, data)
    elif fid == 'AVI':
        want = x.and_(x.eq(data[:4], b'RIFF'), x.eq(data[8:], b'AVI '))
    else:
        log = _le(x, data, 22, 2)
        block = _le(x, data, 12, 4)
        want = x.and_(x.eq(data[:4], b'hsqs'), x.or_(*[x.and_(log == k, block == 1 << k) for k in range(12, 21)]),
                      _le(x, data, 28, 2) == 4, _le(x, data, 30, 2) == 0, _le(x, data, 20, 2) <= 6)
        possible = x.eq(data[:4], b'hsqs')
        want = x.and_(want, _le(x, data, 20, 2) >= 1)
    _check(x, fid, data, x.int('before', 0, 1 << 40), want, fid, possible)


def _cpio(x, data):
    return x.or_(x.eq(data[:5], b'07070'), x.eq(data[:2], b'\x71\xc7'), x.eq(data[:2], b'\xc7\x71'))


def frames(x):
    """Formats with frames to skip before the first frame that counts."""
    fid = x.pick('format', ['ZSTANDARD', 'LZ4'])
    want = {'ZSTANDARD': 0xFD2FB528, 'LZ4': 0x184D2204}[fid].to_bytes(4, 'little')
    parts = []
    for k in range(x.choose('frames', x.cfg['frames'])):
        size = x.bytes(f'size{k}', 4)
        parts += [x.bytes(f'kind{k}', 1, bytes(range(0x50, 0x60))), b'\x2a\x4d\x18', size,
                  x.segment(x.source('frame'), k << 40, _le(x, size, 0, 4))]
    last = want if x.flag('right') else x.bytes('last', 4 - x.choose('missing', 4))
    data = bytekit.join(x, [*parts, last])
    skipped = x.len(last) == 4 and x.and_(last[0] >= 0x50, last[0] < 0x60, x.eq(last[1:], b'\x2a\x4d\x18'))
    x.assume(x.not_(skipped))
    _check(x, fid, data, x.int('before', 0, 1 << 40), x.eq(last, want), fid)


def iso(x):
    """The volume descriptors of ISO 9660 and UDF."""
    at, mark = x.pick('mark', [(32769, b'CD001'), (38913, b'NSR02'), (38913, b'NSR03'), (None, b'')])
    other = x.bytes('other', 5)
    x.assume(x.and_(x.not_(x.eq(other, b'CD001')), x.not_(x.eq(other[:4], b'NSR0'))))
    if x.flag('first'):
        first, second = (mark, other) if at == 32769 else (other, mark or other)
        data = bytekit.join(x, [x.segment(x.source('s'), 0, 32769), first, x.segment(x.source('s'), 1 << 20, 38913 - 32769 - 5), second,
                                x.segment(x.source('s'), 2 << 20, x.int('rest', 0, 1 << 40))])
        want = at is not None
    else:
        # Cut off in or before the first of these.
        data = bytekit.join(x, [x.segment(x.source('s'), 0, x.int('size', 0, 32769)), b'CD00'])
        want = False
    _check(x, 'ISO9660', data, x.int('before', 0, 1 << 40), want, 'ISO9660')


def appimage(x):
    """SquashFS images behind other data."""
    import ratarmountcore.formats as formats

    n = x.choose('bytes', x.cfg['bytes'])
    data = x.bytes('data', n, b'hsq\0')
    header = b'hsqs' + struct.pack('<IIII', 5, 5, 1 << 17, 5) + struct.pack('<HHHHHH', 1, 17, 0, 1, 4, 0)
    decoy = x.pick('decoy', [b'', b'hsqs', b'hsqs' + bytes(40), b'hsq'])
    there = x.flag('there')
    f = bytekit.BytesFile(x, 'file', bytekit.join(x, [data, decoy, header if there else b'', x.bytes('rest', 3)]))
    before = x.pick('before', [0, 1])
    f.seek(before)
    got = formats.find_squashfs_offset(f)
    if before == 0:
        x.check(got == (n + len(decoy) if there else -1), 'found')
        if got > 0:
            x.reach('skipped')
    x.check(f.tell() == before, 'position')


class _Source:
    def __init__(self, name):
        self.name = name

    def __bool__(self):
        return True


def select(x):
    """Opening files with backends that recognize the file or not, and open it or not."""
    import ratarmountcore.mountsource.factory as module
    from ratarmountcore.compressions import CompressionBackendInfo
    from ratarmountcore.formats import FileFormatID as FID
    from ratarmountcore.mountsource.archives import ArchiveBackendInfo
    from ratarmountcore.utils import CompressionError

    fids = {'p': FID.ZIP, 'q': FID.RAR, 'r': FID.TAR}
    names = list(fids)[:x.cfg['backends']]
    opened = []

    def backend(name, outcome):
        def run(file, **options):
            opened.append((name, options.get('given')))
            if not isinstance(file, str):
                x.check(x.eq(file.tell(), 0), 'backends are given the file at its start')
                file.seek(x.int('moved ' + name, 0, 1000) if outcome == 'raises' else 0)
            if outcome == 'raises':
                raise ValueError('not mine')
            return _Source(name) if outcome == 'opens' else None

        return run

    outcomes = {n: x.pick('outcome ' + n, ['raises', 'opens', 'nothing']) for n in names}
    seen = {n: x.flag('recognized ' + n) for n in names}
    x.patch(module, 'ARCHIVE_BACKENDS', {n: ArchiveBackendInfo(backend(n, outcomes[n]), {fids[n]}, []) for n in names})
    x.patch(module, 'COMPRESSION_BACKENDS', {'zz': CompressionBackendInfo(lambda f: None, {FID.GZIP}, [], names[-1])})

    def might_be_format(file, fid):
        x.check(x.eq(file.tell(), 0), 'files are looked at from their start')
        return seen[next(n for n in names if fids[n] == fid)]

    x.patch(module, 'might_be_format', might_be_format)
    extension = x.pick('extension', ['', '.zip', '.RAR', '.tar', '.gz', '.tar.gz', '.cbr'])
    how = x.pick('how', ['path', 'file', 'named file'])
    wanted = x.pick('prioritized', [[], ['q'], ['zz'], ['unknown', 'r'], ['zz', 'p']])
    byname = {'.zip': ['p'], '.RAR': ['q'], '.tar': ['r'], '.gz': [names[-1]], '.tar.gz': ['r', names[-1]], '.cbr': ['q']}
    if how == 'file':
        extension = ''
    options = {'given': 'option'}
    if wanted:
        options['prioritizedBackends'] = wanted
    if how == 'path':
        x.fs.add('archive' + extension, 'f', content=b'0')
        target = x.fs.root + '/archive' + extension
    else:
        target = x.file('given', x.int('size', 0, 1000))
        if how == 'named file':
            options['tarFileName'] = 'archive' + extension
    order = []
    for n in [*wanted, *byname.get(extension, []), *names]:
        n = names[-1] if n == 'zz' else n
        if n in names and n not in order:
            order.append(n)
    tried = []
    want = None
    for n in order:
        if seen[n]:
            tried.append((n, 'option'))
            if outcomes[n] == 'opens':
                want = n
                break
    try:
        got = module.open_mount_source(target, **options).name
    except CompressionError:
        got = None
    x.check(got == want, 'the first backend in order opens the file')
    x.check(opened == tried, 'backends are tried in order')
    x.reach('opened' if got else 'refused')


class _Opened:
    def __init__(self, name, file, fails, x):
        self.name, self.file, self.fails, self.x = name, file, fails, x
        x.check(x.eq(file.tell(), 7), 'decompressors are given the file where it starts')

    def read(self, n=-1):
        self.file.seek(self.x.int('read by ' + self.name + str(self.x.fresh()), 0, 1000))
        if self.fails:
            raise OSError('corrupt')
        return b'a'

    def close(self):
        pass


def compressions(x):
    """Undoing the compression of files with decompressors that are there or not, and able to read them or not."""
    import sys

    import ratarmountcore.compressions as module
    from ratarmountcore.formats import FileFormatID as FID

    counter = [0]

    def fresh():
        counter[0] += 1
        return counter[0]

    x.fresh = fresh
    fids = [FID.BZIP2, FID.XZ, FID.ZSTANDARD]
    infos = {}
    fails, there = {}, {}
    for name, formats in [('a', {FID.XZ}), ('b', {FID.BZIP2, FID.XZ}), ('c', {FID.BZIP2, FID.ZSTANDARD})]:
        fails[name], there[name] = x.flag('fails ' + name), x.flag('installed ' + name)
        infos[name] = module.CompressionBackendInfo(
            lambda f, parallelization=1, name=name: _Opened(name, f, fails[name], x), formats,
            [('sys' if there[name] else 'not there at all', '')], 'tarfile')
    x.patch(module, 'COMPRESSION_BACKENDS', infos)
    seen = {fid: x.flag('recognized ' + fid.name) for fid in fids}
    x.patch(module, 'might_be_format', lambda f, fid: seen.get(fid, False))
    wanted = x.pick('prioritized', [None, ['c'], ['b', 'a'], ['unknown', 'c']])
    f = x.file('compressed', x.int('size', 7, 1000))
    f.seek(7)

    def first(fid):
        order = [n for n in [*(wanted or ()), 'a', 'b', 'c'] if n in infos]
        return next((n for n in order if there[n] and fid in infos[n].formats), None)

    want = None
    for fid in fids:
        if not seen[fid]:
            continue
        name = first(fid)
        if name is None:
            break
        # Reading from Zstandard files is too expensive.
        if fid == FID.ZSTANDARD or not fails[name]:
            want = fid
            break
    got = module.detect_compression(f, prioritizedBackends=wanted)
    x.check(got == want, 'detected')
    x.check(x.eq(f.tell(), 7), 'position')
    x.reach('detected' if got else 'none')
    x.check('sys' in sys.modules, 'sys')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough)
    h.must_reach = reach
    return h


HARNESSES = [
    _h('magic', magic, 'any first bytes', {'length': 3}, {'length': 6}, ['yes', 'no']),
    _h('parsed', parsed, 'any headers', {}, {}, ['yes', 'no']),
    _h('frames', frames, 'frames of any sizes', {'frames': 3}, {'frames': 5}, ['yes', 'no']),
    _h('iso', iso, 'images of any size', {}, {}, ['yes', 'no']),
    _h('appimage', appimage, 'images after a few bytes', {'bytes': 6}, {'bytes': 9}, ['skipped']),
    _h('select', select, '2 or 3 backends', {'backends': 2}, {'backends': 3}, ['opened', 'refused']),
    _h('compressions', compressions, '3 decompressors for 3 formats', {}, {}, ['detected', 'none']),
]
