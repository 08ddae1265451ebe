"""Differential check of sqlmini against the real sqlite3 on concrete statements (run by setup)."""
import random
import sqlite3
import sys

from . import sqlmini


def main(repo='/repo', n=400):
    schema = open(repo + '/core/ratarmountcore/create-index-tables.sql').read()
    rnd = random.Random(3)
    bad = 0
    for k in range(n):
        real, mini = sqlite3.connect(':memory:'), sqlmini.Module().connect(':memory:')
        conns = (real, mini)
        for c in conns:
            c.executescript(schema)
        names = ['a', 'b', '', 'a*', '[x]', 'B']
        paths = ['', '/', '/a', '/a/b']

        def both(sql, params=()):
            out = []
            for c in conns:
                try:
                    out.append(c.execute(sql, params).fetchall())
                except Exception as e:
                    out.append(type(e).__name__)
            return out

        stmts = []
        for _ in range(rnd.randrange(1, 7)):
            row = (
                rnd.choice(paths), rnd.choice(names), rnd.choice([0, 1, 2, 512, None]), rnd.randrange(5),
                rnd.randrange(9), rnd.choice([0, 1.5, 3]), rnd.choice([0o100644, 0o40755, 0o120777]), rnd.randrange(6),
                rnd.choice(['', 'x']), 1, 2, rnd.choice([True, False]), False, False, 0,
            )
            mode = rnd.choice(['OR REPLACE', 'OR IGNORE', ''])
            stmts.append((f'INSERT {mode} INTO "files" VALUES (' + ','.join('?' * 15) + ');', row))
        for _ in range(3):
            stmts.append(('INSERT OR IGNORE INTO "parentfolders" VALUES (?,?,?,?)',
                          (rnd.choice(paths), rnd.choice(names), rnd.randrange(3), 0)))
            stmts.append(('INSERT INTO "xattrs" VALUES (?,?,?)', (rnd.randrange(2), rnd.choice('kl'), rnd.choice([b'', b'v', b'vw', b'\\0x']))))
        for s, p in stmts:
            a, b = both(s, p)
            if a != b:
                bad += 1
                print('DIFF', s, p, a, b)
        P, N = rnd.choice(paths), rnd.choice(names)
        queries = [
            ('SELECT * FROM "files" WHERE "path" == (?) AND "name" == (?) ORDER BY "offsetheader" ASC', (P, N)),
            (f'SELECT * FROM "files" WHERE "path" == (?) AND "name" == (?) ORDER BY "offsetheader" {rnd.choice(["ASC", "DESC"])} LIMIT 1 OFFSET (?);', (P, N, rnd.randrange(3))),
            ('SELECT name,size FROM "files" WHERE "path" == (?) ORDER BY "offsetheader",name,size', (P,)),
            ('SELECT COUNT(*) FROM "files";', ()),
            ('SELECT path,name FROM "files" WHERE (mode & 0xF000) == 0x8000 AND offsetheader IS NOT NULL ORDER BY offsetheader,path,name,rowid LIMIT 2', ()),
            ("SELECT key FROM xattrs WHERE offsetheader=(?) ORDER BY key;", (rnd.randrange(2),)),
            ("SELECT value FROM xattrs WHERE (offsetheader,key)=(?,?);", (rnd.randrange(2), 'k')),
            ("SELECT name FROM PRAGMA_TABLE_INFO('files');", ()),
            ("SELECT name FROM files WHERE name GLOB (?) ORDER BY name,rowid", (rnd.choice(['a*', '*', '[[]x]', '?', '[ab]', '[^a]*', 'a[*]']),)),
            ("SELECT name FROM files WHERE name LIKE (?) ORDER BY name,rowid", (rnd.choice(['a%', '%', '_', 'b']),)),
            ("SELECT MAX(CASE WHEN linkname == '' THEN offset + size ELSE offset END) FROM files WHERE NOT issparse", ()),
            ("SELECT CASE name WHEN 'a' THEN 1 WHEN 'b' THEN 2 END FROM files ORDER BY rowid", ()),
            ("SELECT substr(name,2), substr(path,1,2), LENGTH(path) FROM files ORDER BY rowid", ()),
            ("SELECT substr(value,1,1), substr(value,2), LENGTH(value), hex(value) FROM xattrs ORDER BY offsetheader,key,value", ()),
            ("SELECT SUM(size), MIN(size), MAX(size), COUNT(offsetheader) FROM files", ()),
            ("SELECT path, COUNT(*) FROM files GROUP BY path HAVING COUNT(*) > 1 ORDER BY path", ()),
            ("SELECT 1 FROM files WHERE hex(type) = hex('3') LIMIT 1", ()),
            ("SELECT f.name, x.value FROM files AS f LEFT JOIN xattrsdata AS x ON f.offsetheader == x.offsetheader ORDER BY f.rowid, x.value", ()),
            ("SELECT name FROM files WHERE (path,name) NOT IN (SELECT path,name FROM parentfolders) ORDER BY rowid", ()),
            ("SELECT name FROM sqlite_master WHERE type='table' OR type='view' ORDER BY name", ()),
            ("SELECT name FROM files WHERE size BETWEEN 2 AND 5 OR NOT istar AND path || '/' || name == '/a/b' ORDER BY rowid", ()),
        ]
        for q, p in queries:
            a, b = both(q, p)
            if a != b and not (q.startswith('SELECT name FROM sqlite_master') and [x for x in a if not x[0].startswith('sqlite_')] == b):
                bad += 1
                print('DIFF', q, p, '\n  real', a, '\n  mini', b)
        script = """
            INSERT OR REPLACE INTO "files" SELECT * FROM "filestmp" ORDER BY "path","name",rowid;
            DROP TABLE "filestmp";
            INSERT OR IGNORE INTO "files" SELECT path,name,offsetheader,offset,0,0,16749,5,'',0,0,0,0,0,0
                FROM "parentfolders" WHERE (path,name) NOT IN ( SELECT path,name FROM "files" WHERE mode & (1 << 14) != 0)
                ORDER BY "path","name";
            DROP TABLE "parentfolders"; VACUUM; PRAGMA optimize;
        """
        for c in conns:
            c.executescript(script)
        a, b = both('SELECT * FROM files ORDER BY path,name,offsetheader,size')
        if a != b:
            bad += 1
            print('DIFF final', a, b)
        if bad > 5:
            break
    bad += transactions()
    print('sqlmini: %d databases compared, %d differences' % (n, bad))
    return 1 if bad else 0


def transactions():
    """What is left after committing, rolling back, and closing, and what read-only connections may do."""
    import os
    import tempfile

    bad = 0
    rnd = random.Random(4)
    with tempfile.TemporaryDirectory() as d:
        for k in range(200):
            mini = sqlmini.Module()
            path = os.path.join(d, str(k))
            level = rnd.choice(['', None])
            conns = [sqlite3.connect(path, isolation_level=level), mini.connect(path, isolation_level=level)]
            for step in range(12):
                what = rnd.choice(['insert', 'delete', 'update', 'commit', 'rollback', 'script', 'close', 'read only',
                                   'BEGIN', 'COMMIT', 'ROLLBACK'])
                out = []
                for i, module in enumerate((sqlite3, mini)):
                    c = conns[i]
                    try:
                        if step == 0:
                            c.executescript('CREATE TABLE t (a INTEGER);')
                        if what == 'insert':
                            c.execute('INSERT INTO t VALUES (?)', (step,))
                        elif what == 'delete':
                            c.execute('DELETE FROM t WHERE a > 3')
                        elif what == 'update':
                            c.execute('UPDATE t SET a = a + 1')
                        elif what == 'commit':
                            c.commit()
                        elif what == 'rollback':
                            c.rollback()
                        elif what.isupper():
                            c.execute(what)
                        elif what == 'script':
                            c.executescript('INSERT INTO t VALUES (100); PRAGMA optimize; VACUUM;')
                        else:
                            c.close()
                            conns[i] = c = module.connect(
                                f'file:{path}?mode=ro' if what == 'read only' else path,
                                uri=what == 'read only', isolation_level=level)
                        out.append(sorted(tuple(r) for r in c.execute('SELECT a FROM t').fetchall()))
                    except sqlite3.Error as e:
                        out.append(type(e).__name__)
                if out[0] != out[1]:
                    bad += 1
                    print('DIFF transaction', k, step, what, out)
                    break
    return bad


if __name__ == '__main__':
    sys.exit(main())
