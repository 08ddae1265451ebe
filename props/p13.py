"""P13: opening one part of a split file opens all parts in order, opening anything else only that file."""
from symx.runner import Harness

LEVEL = 'model_checking'
ASSUMPTIONS = ['file systems behave as modelled in symx/fsmodel.py; replays and sampled paths compare it with the real one']
OUTSIDE = ['suffixes longer than the bound', 'more files next to each other than the bound']

ALPHABETS = ['abcdefghijklmnopqrstuvwxyz', '0123456789', '0123456789abcdef']


def _spell(n, alphabet, width):
    out = ''
    while n or len(out) < width:
        out = alphabet[n % len(alphabet)] + out
        n //= len(alphabet)
    return out


def detect(x):
    """Candidates with any suffixes around the file that is asked for."""
    import ratarmountcore.compressions as module

    width = x.pick('width', x.cfg['widths'])
    suffixes = [x.string(f's{k}', width, x.cfg['letters']) for k in range(x.cfg['files'])]
    for k, s in enumerate(suffixes):
        for t in suffixes[:k]:
            x.assume(x.not_(x.eq(s, t)))
    order = x.choose('order', 2)  # of the names in the folder
    folder = '/verif-none/d.' + suffixes[0] + '/' if order else ''
    names = ['f.' + s for s in suffixes] + ['g.' + suffixes[0], 'f', 'f.tar', 'fx.' + suffixes[-1]]
    got = module.check_for_split_file_in(folder + 'f.' + suffixes[0], names[::-1] if order else names)
    if got is not None:
        x.check(x.and_(*[x.eq(p[:x.len(folder)], folder) for p in got[0]]), 'parts are in the same folder')
        got = [x.text(p[x.len(folder):]) for p in got[0]]
    x.observe('got', got)
    runs = []
    for alphabet in ALPHABETS:
        n = 0
        run = []
        while True:
            t = _spell(n, alphabet, width)
            if x.or_(*[x.eq(s, t) for s in suffixes]):
                run.append(t)
            elif n > 0:
                break
            n += 1
        if len(run) > 1 and x.or_(*[x.eq(suffixes[0], t) for t in run]):
            runs.append(['f.' + t for t in run])
    if not runs:
        x.check(got is None, 'a single file is not joined with others')
        x.reach('single')
        return
    x.check(got is not None, 'parts are found')
    longest = max(len(r) for r in runs)
    x.check(got in [r for r in runs if len(r) == longest], 'all parts in order')
    x.reach('joined')


def overflow(x):
    """Numbers that need more digits than the first part."""
    import ratarmountcore.compressions as module

    start = x.choose('start', 2)
    count = x.pick('count', x.cfg['counts'])
    width = x.pick('width', (1, 2))
    names = [f'f.{n:0{width}}' for n in range(start, start + count)]
    extra = x.choose('gap', 2)
    if extra:
        names.append(f'f.{start + count + 1:0{width}}')
    x.assume(start + count + 2 < 10 ** width)
    asked = x.choose('asked', count + extra)
    got = module.check_for_split_file_in(names[asked], names)
    want = names[:count] if count > 1 and asked < count else None
    x.check((None if got is None else list(got[0])) == want, 'run of numbers')
    x.reach('end')


def opened(x):
    """Mounting a path next to other files, with links on either side, opens that file or all of its parts in order."""
    import ratarmountcore.mountsource.factory as module

    fs = x.fs
    kinds = {}
    for n in ('f.001', 'f.002', 'f.003', 'f.zip'):
        if n == 'f.001' or x.flag('has ' + n):
            kinds[n] = 'f'
    link = x.pick('link', ('', 'l', 'l.001', 'sub/f.001', 'sub/l.002', 'l.zip'))
    target = x.pick('target', ('f.001', 'f.002'))
    fs.add('d', 'd')
    fs.add('d/sub', 'd')
    for n in kinds:
        fs.add('d/' + n, 'f', x.int('size ' + n, 0, 1000))
    if link:
        x.assume(target in kinds)
        fs.add('d/' + link, 'l', target=('../' if '/' in link else '') + target)
    name = x.pick('name', [n for n in ('f.001', 'f.002', 'f.003', 'f.zip') if n in kinds] + ([link] if link else []))
    opened = []

    class Backend:
        formats = ()

        @staticmethod
        def open(file, **options):
            opened.append(file)
            raise ValueError

    x.patch(module, 'ARCHIVE_BACKENDS', {'verif': Backend})
    path = fs.root + '/d/' + name
    is_part = name[-4:] in ('.001', '.002', '.003') and link != name
    files = {n: 'd/' + n for n in kinds}
    if link:
        files[link] = 'd/' + target
    near = [n for n in files if '/' not in n] if '/' not in name else [link]
    base = name.rsplit('.', 1)[0]
    run = []
    for k in ('001', '002', '003', '004'):
        if base + '.' + k in near:
            run.append(base + '.' + k)
        else:
            break
    joined = len(run) > 1 and name in run
    result = None
    try:
        result = module.open_mount_source(path)
    except module.CompressionError:
        pass
    x.check((result is not None) == joined, 'joined files can be shown as a file')
    x.check(len(opened) == 1, 'one file is tried')
    if not joined:
        x.check(opened[0] == path, 'the file itself is opened')
        x.reach('plain')
        return
    parts = [files[n] for n in run]
    sizes = [x.len(fs.data(p)) for p in parts]
    total = sum(sizes[1:], sizes[0])
    info = result.lookup('/f')
    x.check(info is not None and list(result.list('/')) == ['f'], 'name without the number')
    x.check(x.eq(info.size, total), 'size')

    def byte(j):
        end = total - sizes[-1]
        at = x.at(x.source(parts[-1]), j - end)
        for p, s in list(zip(parts, sizes))[-2::-1]:
            at = x.ite(j < end, x.at(x.source(p), j - (end - s)), at)
            end = end - s
        return at

    off, n = x.int('off', 0, 2000), x.int('n', 0, 2000)
    x.check_bytes(result.read(info, n, off), x.min(n, x.max(0, total - off)), lambda j: byte(off + j), 'joined contents')
    x.reach('joined')


def _h(name, fn, text, quick, thorough, reach):
    h = Harness(name, fn, text, quick, thorough, models=['file system'] if name == 'opened' else [])
    h.must_reach = reach
    return h


HARNESSES = [
    _h('detect', detect, '3 (4) files with suffixes of symbolic letters', {'letters': '019abcfz', 'files': 3, 'widths': (1, 2)},
       {'files': 4, 'widths': (1, 2, 3), 'letters': '0123456789abcdefghz'}, ['single', 'joined']),
    _h('overflow', overflow, 'runs of up to 12 parts', {'counts': (1, 2, 9, 10, 12)}, {'counts': tuple(range(1, 40))}, ['end']),
    _h('opened', opened, 'up to 4 files of symbolic sizes and a link next to them', {}, {}, ['plain', 'joined']),
]
