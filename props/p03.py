"""P03: data stored as database blobs is read back unchanged."""
from symx.runner import Harness

from .filecheck import drive_file

LEVEL = 'model_checking'
ASSUMPTIONS = ['SQLite as modelled in symx/sqlmini.py, which setup compares with the real library']
OUTSIDE = ['SQLite itself, its limits on blob sizes and disk errors']


def _written(x, n):
    """n consecutive writes of symbolic sizes; returns the total, at() and the pieces"""
    src = x.source('D')
    total, pieces = 0, []
    for k in range(n):
        size = x.int(f'write{k}', 0, x.cfg['size_max'])
        pieces.append(x.segment(src, total, size))
        total = total + size
    return src, total, pieces


def roundtrip(x):
    """Any sequence of writes is read back in full from the rows they were cut into."""
    from ratarmountcore.SQLiteBlobFile import WriteSQLiteBlobs

    con = x.sqlite.connect(':memory:')
    con.execute('CREATE TABLE "blobs" ( "data" BLOB )')
    src, total, pieces = _written(x, x.cfg['writes'])
    done = 0
    with WriteSQLiteBlobs(con, 'blobs', blob_size=x.int('blob_size', 1, x.cfg['size_max'])) as f:
        for piece in pieces:
            x.check(x.eq(f.write(piece), x.len(piece)), 'everything is written')
            done = done + x.len(piece)
            x.check(x.eq(f.tell(), done), 'tell while writing')
    stored = 0
    for (blob,) in con.execute('SELECT data FROM blobs ORDER BY rowid').fetchall():
        x.check(x.len(blob) > 0, 'no empty rows')
        x.check_bytes(blob, x.len(blob), lambda j, s=stored: x.at(src, s + j), 'stored blob')
        stored = stored + x.len(blob)
    x.check(x.eq(stored, total), 'total size stored')
    x.observe('stored', stored)
    x.reach('end')


def reading(x):
    """Any division into rows reads like the concatenation."""
    from ratarmountcore.SQLiteBlobFile import SQLiteBlobsFile

    con = x.sqlite.connect(':memory:')
    con.execute('CREATE TABLE "blobs" ( "data" BLOB )')
    src, total, pieces = _written(x, x.cfg['rows'])
    for piece in pieces:
        con.execute('INSERT INTO "blobs" VALUES (?)', (piece,))
    f = SQLiteBlobsFile(con, 'blobs', 'data', buffer_size=x.int('buffer', 1, x.cfg['size_max']))
    drive_file(x, f, total, lambda j: x.at(src, j), x.cfg['ops'], x.cfg['size_max'], negative='skip')
    x.reach('end')


def single(x):
    from ratarmountcore.SQLiteBlobFile import SQLiteBlobFile

    con = x.sqlite.connect(':memory:')
    con.execute('CREATE TABLE "blobs" ( "data" BLOB )')
    src, total, pieces = _written(x, 1)
    con.execute('INSERT INTO "blobs" VALUES (?)', (b'other',))
    con.execute('INSERT INTO "blobs" VALUES (?)', (pieces[0],))
    f = SQLiteBlobFile(
        con, 'SELECT {}data{} FROM blobs WHERE ROWID == 2', size=total if x.flag('known_size') else None
    )
    drive_file(x, f, total, lambda j: x.at(src, j), x.cfg['ops'], x.cfg['size_max'])
    x.reach('end')


def both(x):
    """Written through the writer, read through the reader, as done when an index archive is unpacked."""
    from ratarmountcore.SQLiteBlobFile import SQLiteBlobsFile, WriteSQLiteBlobs

    con = x.sqlite.connect(':memory:')
    con.execute('CREATE TABLE "blobs" ( "data" BLOB )')
    src, total, pieces = _written(x, x.cfg['writes'])
    f = WriteSQLiteBlobs(con, 'blobs', blob_size=x.int('blob_size', 1, x.cfg['size_max']))
    for piece in pieces:
        f.write(piece)
    f.close()
    g = SQLiteBlobsFile(con, 'blobs', 'data')
    x.check_bytes(g.read(), total, lambda j: x.at(src, j), 'read back')
    x.reach('end')


def _h(name, fn, text, quick, thorough):
    h = Harness(name, fn, text, quick, thorough, models=['SQLite (symx/sqlmini.py)'])
    h.must_reach = ['end']
    return h


HARNESSES = [
    _h('roundtrip', roundtrip, '3 writes and the blob size symbolic', {'writes': 3, 'size_max': 100000}, {'writes': 5}),
    _h('reading', reading, '2 rows of symbolic sizes, 2 operations', {'rows': 2, 'ops': 2, 'size_max': 100000},
       {'rows': 3, 'ops': 3}),
    _h('single', single, '1 row, 2 operations', {'ops': 2, 'size_max': 100000}, {'ops': 3}),
    _h('both', both, '2 writes and one read of everything', {'writes': 2, 'size_max': 100000}, {'writes': 4}),
]
