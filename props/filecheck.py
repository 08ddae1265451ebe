"""Reference semantics of a read-only file: position and contents of an immutable byte string."""
import io


def drive_file(x, f, total, at, nops, max_arg, negative='raise', exact=True, kinds=None, tag='op', readall=True, beyond=True):
    """Applies nops symbolic seek/read operations to f and compares with a file of `total` bytes at(j).

    negative: 'raise' (ValueError and unchanged position), 'clamp' (position 0) or 'skip'
    beyond: also seek beyond the end
    exact: read(n) must return min(n, rest) bytes; otherwise at least one unless at the end
    """
    pos = 0
    kinds = kinds or ('set', 'cur', 'end', 'read') + (('all',) if readall else ())
    for k in range(nops):
        kind = x.pick(f'{tag}{k}', kinds)
        if kind in ('set', 'cur', 'end'):
            off = x.int(f'{tag}{k}.off', -max_arg, max_arg)
            base, whence = {'set': (0, io.SEEK_SET), 'cur': (pos, io.SEEK_CUR), 'end': (total, io.SEEK_END)}[kind]
            new = base + off
            if new < 0:
                if negative == 'skip':
                    x.assume(False)
                try:
                    r = f.seek(off, whence)
                except (ValueError, OSError):
                    x.check(negative == 'raise', 'seek before the start failed')
                    x.check(x.eq(f.tell(), pos), 'a failed seek must not move the file')
                else:
                    x.check(negative == 'clamp', 'seek before the start must fail')
                    x.check(x.eq(r, 0), 'clamped seek')
                    pos = 0
            else:
                x.assume(beyond or new <= total)
                r = f.seek(off, whence)
                x.check(x.eq(r, new), 'seek returns the new position')
                pos = new
        else:
            n = x.int(f'{tag}{k}.n', 0, max_arg) if kind == 'read' else -1
            start = pos
            data = f.read(n) if kind == 'read' else f.read()
            rest = x.max(0, total - start)
            want = rest if kind == 'all' else x.min(n, rest)
            got = x.len(data)
            if exact:
                x.check_bytes(data, want, lambda j, s=start: at(s + j), 'read')
                x.reach('read')
            else:
                x.check(got <= want, 'short read length')
                x.check(x.implies(want > 0, got > 0), 'empty read before the end')
                x.check_bytes(data, got, lambda j, s=start: at(s + j), 'read')
                x.reach('read')
            pos = start + got
        x.observe(f'{tag}{k}.pos', f.tell())
        x.check(x.eq(f.tell(), pos), 'tell')
    return pos
