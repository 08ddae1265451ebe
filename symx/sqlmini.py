"""A small SQL engine over symbolic values: the environment model of the sqlite3 module.

Covers the statements the code under test uses; anything else raises Unsupported.  Conditions on
symbolic values fork the path.  tests/ compares it with the real sqlite3 on concrete statements.
"""
import os
import re
import sqlite3

from .core import Unsupported
from .data import SByteArray, SBytes, SeqBase, SStr, has_sym, seq_len
from .values import SBool, SInt, SReal, as_concrete, mk_int

TOKEN = re.compile(
    r"""\s*(?:(?P<blob>[xX]'[0-9a-fA-F]*')|(?P<num>0[xX][0-9a-fA-F]+|\d+(?:\.\d+)?)|(?P<str>'(?:[^']|'')*')|"""
    r'''"(?P<qid>(?:[^"]|"")*)"|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op><<|>>|==|!=|<>|<=|>=|\|\||[-+*/%&|<>=(),.;?~]))''',
    re.S,
)
COMMENT = re.compile(r'/\*.*?\*/|--[^\n]*', re.S)


def tokenize(sql):
    # comments do not occur inside the string literals of interest
    sql = COMMENT.sub(' ', sql)
    pos, out = 0, []
    sql = sql.rstrip()
    while pos < len(sql):
        m = TOKEN.match(sql, pos)
        if not m:
            raise sqlite3.OperationalError(f'unrecognized token: {sql[pos:pos + 20]!r}')
        pos = m.end()
        if m['blob'] is not None:
            out.append(('lit', bytes.fromhex(m['blob'][2:-1])))
        elif m['num'] is not None:
            n = m['num']
            out.append(('lit', int(n, 16) if n[:2] in ('0x', '0X') else float(n) if '.' in n else int(n)))
        elif m['str'] is not None:
            out.append(('lit', m['str'][1:-1].replace("''", "'")))
        elif m['qid'] is not None:
            out.append(('qid', m['qid']))
        elif m['id'] is not None:
            out.append(('id', m['id']))
        else:
            out.append(('op', m['op']))
    return out


# -- values --------------------------------------------------------------------------------------


def is_num(v):
    return isinstance(v, (int, float, SInt, SBool, SReal))


def is_text(v):
    return isinstance(v, (str, SStr))


def truth(v):
    """WHERE semantics: NULL is false."""
    if v is None:
        return False
    if isinstance(v, (str, SStr)):
        raise Unsupported("text as a condition")
    return bool(v != 0) if not isinstance(v, (bool, SBool)) else bool(v)


def _rank(v):
    return 0 if v is None else 1 if is_num(v) else 2 if is_text(v) else 3


def compare(op, a, b):
    """SQL comparison of two values: None when one is NULL, else bool/SBool."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if op not in ('==', '!='):
            raise Unsupported("row value comparison")
        if len(a) != len(b):
            raise sqlite3.OperationalError("row value misused")
        res = True
        for x, y in zip(a, b):
            r = compare('==', x, y)
            if r is None:
                res = None if res is True else res
            elif not bool(r):
                res = False
                break
        return res if op == '==' or res is None else (not res)
    if a is None or b is None:
        return None
    ra, rb = _rank(a), _rank(b)
    if ra != rb:
        if op in ('==', '!='):
            return op == '!='
        return {'<': ra < rb, '<=': ra < rb, '>': ra > rb, '>=': ra > rb}[op]
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    if ra == 2 and not has_sym(a) and not has_sym(b):
        a, b = a.encode('utf-8', 'surrogatepass'), b.encode('utf-8', 'surrogatepass')
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    return a >= b


def sort_less(a, b):
    ra, rb = _rank(a), _rank(b)
    if ra != rb:
        return ra < rb
    if a is None:
        return False
    return bool(compare('<', a, b))


def sort_rows(rows, keys):
    """Stable insertion sort; keys: list of (function row -> value, descending)."""
    out = []
    for row in rows:
        vals = [(f(row), d) for f, d in keys]
        pos = len(out)
        while pos > 0:
            less = False
            for (v, d), (w, _) in zip(vals, out[pos - 1][0]):
                x, y = (w, v) if d else (v, w)
                if sort_less(x, y):
                    less = True
                    break
                if sort_less(y, x):
                    break
            if not less:
                break
            pos -= 1
        out.insert(pos, (vals, row))
    return [r for _, r in out]


def affinity(decl, v):
    d = (decl or '').upper()
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, SBool):
        v = mk_int(v._i().e) if isinstance(v._i(), SInt) else v._i()
    if isinstance(v, (bytearray, memoryview)):
        v = bytes(v)
    if isinstance(v, SByteArray):
        v = v.v
    if 'INT' in d or 'BOOL' in d or 'REAL' in d:
        if isinstance(v, str):
            try:
                v = int(v)
            except ValueError:
                try:
                    v = float(v)
                except ValueError:
                    pass
        elif isinstance(v, SStr):
            raise Unsupported("symbolic text in a numeric column")
        if 'REAL' in d and isinstance(v, int):
            v = float(v)
        return v
    if 'CHAR' in d or 'TEXT' in d:
        if isinstance(v, (int, float)):
            return str(v)
        if isinstance(v, SInt):
            from .data import DecInt

            return SStr([DecInt(v)])
    return v


class Table:
    def __init__(self, name, cols, pk=(), unique=(), rowid_alias=None, autokey=False):
        self.name = name
        self.cols = cols  # list of (name, decltype)
        self.names = [c for c, _ in cols]
        self.pk = list(pk)
        self.unique = [list(u) for u in unique]
        self.rows = []  # list of [rowid, values]
        self.next_rowid = 1
        self.rowid_alias = rowid_alias
        self.notnull = set()

    def clone(self):
        t = Table(self.name, self.cols, self.pk, self.unique, self.rowid_alias)
        t.rows = [[i, list(v)] for i, v in self.rows]
        t.next_rowid = self.next_rowid
        t.notnull = set(self.notnull)
        return t

    def col(self, name):
        low = name.lower()
        for i, n in enumerate(self.names):
            if n.lower() == low:
                return i
        return None

    def insert(self, values, mode):
        if len(values) != len(self.cols):
            raise sqlite3.OperationalError(
                f'table {self.name} has {len(self.cols)} columns but {len(values)} values were supplied'
            )
        values = [affinity(d, v) for (_, d), v in zip(self.cols, values)]
        for v in values:
            if isinstance(v, str):
                v.encode('utf-8')  # UnicodeEncodeError for lone surrogates, as in sqlite3
        for n in self.notnull:
            if values[self.col(n)] is None:
                if mode == 'ignore':
                    return
                raise sqlite3.IntegrityError(f'NOT NULL constraint failed: {self.name}.{n}')
        if self.rowid_alias is not None and values[self.rowid_alias] is None:
            values[self.rowid_alias] = self.next_rowid
        for key in ([self.pk] if self.pk else []) + self.unique:
            idx = [self.col(k) for k in key]
            mine = [values[i] for i in idx]
            if any(v is None for v in mine):
                continue
            for row in list(self.rows):
                other = [row[1][i] for i in idx]
                if any(v is None for v in other):
                    continue
                if all(truth(compare('==', a, b)) for a, b in zip(mine, other)):
                    if mode == 'ignore':
                        return
                    if mode == 'replace':
                        self.rows.remove(row)
                    else:
                        raise sqlite3.IntegrityError(f'UNIQUE constraint failed: {self.name}')
        rid = self.next_rowid
        if self.rowid_alias is not None:
            rid = values[self.rowid_alias]
            if isinstance(rid, int):
                self.next_rowid = max(self.next_rowid, rid + 1)
        else:
            self.next_rowid += 1
        self.rows.append([rid, values])


class Database:
    def __init__(self):
        self.tables = {}
        self.views = {}
        self.triggers = {}
        self.pragmas = {}

    def clone(self):
        d = Database()
        d.tables = {k: t.clone() for k, t in self.tables.items()}
        d.views = dict(self.views)
        d.triggers = dict(self.triggers)
        return d

    def restore(self, d):
        self.tables, self.views, self.triggers = d.tables, d.views, d.triggers

    def get(self, name):
        for k, t in self.tables.items():
            if k.lower() == name.lower():
                return t
        return None


class Row:
    """sqlite3.Row look-alike."""

    def __init__(self, names, values):
        self._n, self._v = names, values

    def __getitem__(self, k):
        if isinstance(k, (int, slice)):
            return self._v[k]
        for n, v in zip(self._n, self._v):
            if n.lower() == k.lower():
                return v
        raise IndexError("No item with that key")

    def keys(self):
        return list(self._n)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __eq__(self, o):
        return isinstance(o, Row) and self._v == o._v

    def __repr__(self):
        return f'Row({dict(zip(self._n, self._v))})'


# -- parser --------------------------------------------------------------------------------------

KEYWORDS = {
    'select', 'from', 'where', 'order', 'by', 'limit', 'offset', 'group', 'having', 'and', 'or', 'not', 'in', 'as',
    'asc', 'desc', 'inner', 'left', 'join', 'on', 'is', 'null', 'between', 'like', 'glob', 'values', 'union', 'set',
    'exists', 'escape', 'collate', 'intersect', 'except', 'distinct', 'cross', 'outer', 'case', 'when', 'then',
    'else', 'end',
}


# usable as a name where an expression starts
FALLBACK = {'offset', 'asc', 'desc', 'by', 'like', 'glob', 'inner', 'left', 'cross', 'outer', 'end'}


class Parser:
    def __init__(self, tokens):
        self.t = tokens
        self.i = 0
        self.params = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', None)

    def kw(self, *words):
        """True and advance when the next tokens are these keywords."""
        for k, w in enumerate(words):
            typ, v = self.peek(k)
            if typ != 'id' or v.lower() != w:
                return False
        self.i += len(words)
        return True

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, cond, what):
        if not cond:
            near = ' '.join(str(v) for _, v in self.t[self.i:self.i + 6])
            raise SyntaxProblem(f'expected {what} near {near!r}')

    def name(self):
        typ, v = self.peek()
        self.need(typ in ('id', 'qid') or (typ == 'lit' and isinstance(v, str)), 'name')
        self.i += 1
        return v

    # expressions
    def expr(self):
        return self.p_or()

    def p_or(self):
        a = self.p_and()
        while self.kw('or'):
            a = ('or', a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.kw('and'):
            a = ('and', a, self.p_not())
        return a

    def p_not(self):
        if self.peek()[0] == 'id' and self.peek()[1].lower() == 'not':
            self.i += 1
            if self.kw('exists'):
                self.need(self.op('('), '(')
                q = self.select()
                self.need(self.op(')'), ')')
                return ('not', ('exists', q))
            return ('not', self.p_not())
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_rel()
        while True:
            typ, v = self.peek()
            if typ == 'op' and v in ('=', '==', '!=', '<>'):
                self.i += 1
                b = self.p_rel()
                a = ('cmp', '!=' if v in ('!=', '<>') else '==', a, b)
                continue
            if self.kw('is', 'not'):
                a = ('isnot', a, self.p_rel())
                continue
            if self.kw('is'):
                a = ('is', a, self.p_rel())
                continue
            neg = False
            save = self.i
            if self.kw('not'):
                neg = True
            if self.kw('in'):
                self.need(self.op('('), '(')
                if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
                    q = self.select()
                    r = ('inq', a, q)
                else:
                    items = []
                    if self.peek() != ('op', ')'):
                        items.append(self.expr())
                        while self.op(','):
                            items.append(self.expr())
                    r = ('inl', a, items)
                self.need(self.op(')'), ')')
            elif self.kw('like'):
                r = ('like', a, self.p_rel())
                if self.kw('escape'):
                    r = ('like', a, r[2], self.p_rel())
            elif self.kw('glob'):
                r = ('glob', a, self.p_rel())
            elif self.kw('between'):
                lo = self.p_rel()
                self.need(self.kw('and'), 'AND')
                r = ('between', a, lo, self.p_rel())
            else:
                self.i = save
                return a
            a = ('not', r) if neg else r

    def _binary(self, sub, ops):
        a = sub()
        while self.peek()[0] == 'op' and self.peek()[1] in ops:
            o = self.peek()[1]
            self.i += 1
            a = ('bin', o, a, sub())
        return a

    def p_rel(self):
        a = self.p_bit()
        while self.peek()[0] == 'op' and self.peek()[1] in ('<', '<=', '>', '>='):
            o = self.peek()[1]
            self.i += 1
            a = ('cmp', o, a, self.p_bit())
        return a

    def p_bit(self):
        return self._binary(self.p_add, ('&', '|', '<<', '>>'))

    def p_add(self):
        return self._binary(self.p_mul, ('+', '-'))

    def p_mul(self):
        return self._binary(self.p_cat, ('*', '/', '%'))

    def p_cat(self):
        return self._binary(self.p_unary, ('||',))

    def p_unary(self):
        if self.op('-'):
            return ('neg', self.p_unary())
        if self.op('+'):
            return self.p_unary()
        return self.p_primary()

    def p_primary(self):
        typ, v = self.peek()
        if typ == 'lit':
            self.i += 1
            return ('lit', v)
        if typ == 'op' and v == '?':
            self.i += 1
            self.params += 1
            return ('param', self.params - 1)
        if typ == 'op' and v == '(':
            self.i += 1
            if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
                q = self.select()
                self.need(self.op(')'), ')')
                return ('scalar', q)
            e = self.expr()
            if self.peek() == ('op', ','):
                items = [e]
                while self.op(','):
                    items.append(self.expr())
                e = ('row', items)
            self.need(self.op(')'), ')')
            return e
        if typ == 'op' and v == '*':
            self.i += 1
            return ('star', None)
        if typ == 'id' and v.lower() == 'null':
            self.i += 1
            return ('lit', None)
        if typ == 'id' and v.lower() == 'exists':
            self.i += 1
            self.need(self.op('('), '(')
            q = self.select()
            self.need(self.op(')'), ')')
            return ('exists', q)
        if typ == 'id' and v.lower() == 'case':
            self.i += 1
            base = None if self.kw('when') else self.expr()
            if base is not None:
                self.need(self.kw('when'), 'WHEN')
            branches = []
            while True:
                cond = self.expr()
                self.need(self.kw('then'), 'THEN')
                branches.append((cond if base is None else ('cmp', '==', base, cond), self.expr()))
                if not self.kw('when'):
                    break
            other = self.expr() if self.kw('else') else ('lit', None)
            self.need(self.kw('end'), 'END')
            return ('case', branches, other)
        if typ == 'id' and v.lower() == 'cast':
            raise Unsupported("CAST")
        if typ == 'qid' or (typ == 'id' and (v.lower() not in KEYWORDS or v.lower() in FALLBACK)):
            self.i += 1
            if typ == 'id' and self.peek() == ('op', '('):
                self.i += 1
                args = []
                if self.peek() != ('op', ')'):
                    self.kw('distinct')
                    args.append(self.expr())
                    while self.op(','):
                        args.append(self.expr())
                self.need(self.op(')'), ')')
                return ('func', v.lower(), args)
            if self.op('.'):
                if self.op('*'):
                    return ('star', v)
                return ('col', v, self.name())
            return ('col', None, v)
        self.need(False, 'expression')

    # statements
    def select(self):
        self.need(self.kw('select'), 'SELECT')
        distinct = self.kw('distinct')
        cols = []
        while True:
            e = self.expr()
            alias = None
            if self.kw('as'):
                alias = self.name()
            elif self.peek()[0] == 'qid' or (self.peek()[0] == 'id' and self.peek()[1].lower() not in KEYWORDS):
                alias = self.name()
            cols.append((e, alias))
            if not self.op(','):
                break
        src, where, order, limit, offset, group, having = [], None, [], None, None, None, None
        if self.kw('from'):
            src.append(self.source(None))
            while True:
                if self.kw('inner', 'join') or self.kw('join'):
                    s = self.source(None)
                    self.need(self.kw('on'), 'ON')
                    src.append(('inner', s, self.expr()))
                elif self.kw('left', 'join') or self.kw('left', 'outer', 'join'):
                    s = self.source(None)
                    self.need(self.kw('on'), 'ON')
                    src.append(('left', s, self.expr()))
                elif self.op(','):
                    src.append(('inner', self.source(None), None))
                else:
                    break
        if self.kw('where'):
            where = self.expr()
        if self.kw('group', 'by'):
            group = [self.expr()]
            while self.op(','):
                group.append(self.expr())
            if self.kw('having'):
                having = self.expr()
        compound = None
        if self.kw('union', 'all'):
            compound = ('union all', self.select())
        elif self.kw('union'):
            compound = ('union', self.select())
        if self.kw('order', 'by'):
            while True:
                e = self.expr()
                desc = False
                if self.kw('desc'):
                    desc = True
                else:
                    self.kw('asc')
                order.append((e, desc))
                if not self.op(','):
                    break
        if self.kw('limit'):
            limit = self.expr()
            if self.kw('offset'):
                offset = self.expr()
            elif self.op(','):
                offset, limit = limit, self.expr()
        return ('select', cols, src, where, order, limit, offset, group, having, distinct, compound)

    def source(self, _):
        if self.op('('):
            q = self.select()
            self.need(self.op(')'), ')')
            s = ('sub', q)
        else:
            n = self.name()
            if self.op('('):
                arg = self.expr()
                self.need(self.op(')'), ')')
                s = ('tfunc', n.lower(), arg)
            else:
                s = ('table', n)
        alias = None
        if self.kw('as'):
            alias = self.name()
        elif self.peek()[0] == 'qid' or (self.peek()[0] == 'id' and self.peek()[1].lower() not in KEYWORDS):
            alias = self.name()
        return s + (alias,)

    def statement(self):
        if self.peek()[0] == 'id':
            w = self.peek()[1].lower()
            if w == 'select':
                return self.select()
            if w in ('insert', 'replace'):
                return self.insert()
            if w == 'create':
                return self.create()
            if w == 'drop':
                self.i += 1
                kind = self.name().lower()
                ie = self.kw('if', 'exists')
                return ('drop', kind, self.name(), ie)
            if w == 'delete':
                self.i += 1
                self.need(self.kw('from'), 'FROM')
                n = self.name()
                where = self.expr() if self.kw('where') else None
                return ('delete', n, where)
            if w == 'update':
                self.i += 1
                n = self.name()
                self.need(self.kw('set'), 'SET')
                sets = []
                while True:
                    c = self.name()
                    self.need(self.op('='), '=')
                    sets.append((c, self.expr()))
                    if not self.op(','):
                        break
                where = self.expr() if self.kw('where') else None
                return ('update', n, sets, where)
            if w == 'alter':
                self.i += 1
                self.need(self.kw('table'), 'TABLE')
                n = self.name()
                self.need(self.kw('rename', 'to'), 'RENAME TO')
                return ('rename', n, self.name())
            if w == 'pragma':
                rest = []
                while self.peek()[0] != 'eof' and self.peek() != ('op', ';'):
                    rest.append(self.peek()[1])
                    self.i += 1
                return ('pragma', rest)
            if w in ('vacuum', 'begin', 'commit', 'end', 'rollback', 'analyze', 'reindex'):
                while self.peek()[0] != 'eof' and self.peek() != ('op', ';'):
                    self.i += 1
                return ('nop', w)
        self.need(False, 'statement')

    def insert(self):
        mode = 'abort'
        if self.kw('replace'):
            mode = 'replace'
        else:
            self.kw('insert')
            if self.kw('or', 'replace'):
                mode = 'replace'
            elif self.kw('or', 'ignore'):
                mode = 'ignore'
        self.need(self.kw('into'), 'INTO')
        n = self.name()
        cols = None
        if self.peek() == ('op', '('):
            self.i += 1
            cols = [self.name()]
            while self.op(','):
                cols.append(self.name())
            self.need(self.op(')'), ')')
        if self.kw('values'):
            rows = []
            while True:
                self.need(self.op('('), '(')
                vals = [self.expr()]
                while self.op(','):
                    vals.append(self.expr())
                self.need(self.op(')'), ')')
                rows.append(vals)
                if not self.op(','):
                    break
            return ('insert', mode, n, cols, rows, None)
        return ('insert', mode, n, cols, None, self.select())

    def create(self):
        self.i += 1
        if self.kw('temporary') or self.kw('temp') or self.kw('unique'):
            pass
        kind = self.name().lower()
        ine = self.kw('if', 'not', 'exists')
        n = self.name()
        if kind == 'table':
            if self.kw('as'):
                return ('create_as', n, ine, self.select())
            self.need(self.op('('), '(')
            cols, pk, unique, notnull, alias = [], [], [], set(), None
            while True:
                if self.kw('primary', 'key'):
                    self.need(self.op('('), '(')
                    pk = [self.name()]
                    while self.op(','):
                        pk.append(self.name())
                    self.need(self.op(')'), ')')
                elif self.kw('foreign', 'key'):
                    depth = 0
                    while True:
                        if self.peek() == ('op', '('):
                            depth += 1
                        elif self.peek() == ('op', ')'):
                            if depth == 0:
                                break
                            depth -= 1
                        elif self.peek() == ('op', ',') and depth == 0:
                            break
                        self.i += 1
                else:
                    c = self.name()
                    decl = ''
                    while self.peek()[0] == 'id' and self.peek()[1].lower() not in (
                        'primary', 'not', 'unique', 'default', 'references', 'check', 'collate'
                    ):
                        decl += ' ' + self.name()
                        if self.op('('):
                            while not self.op(')'):
                                self.i += 1
                    decl = decl.strip()
                    while self.peek() not in (('op', ','), ('op', ')')):
                        if self.kw('primary', 'key'):
                            pk = [c]
                            if decl.upper() == 'INTEGER':
                                alias = len(cols)
                        elif self.kw('not', 'null'):
                            notnull.add(c)
                        elif self.kw('unique'):
                            unique.append([c])
                        else:
                            raise Unsupported("column constraint near " + str(self.peek()))
                    cols.append((c, decl))
                if not self.op(','):
                    break
            self.need(self.op(')'), ')')
            return ('create', n, ine, cols, pk, unique, notnull, alias)
        if kind == 'view':
            names = None
            if self.op('('):
                names = [self.name()]
                while self.op(','):
                    names.append(self.name())
                self.need(self.op(')'), ')')
            self.need(self.kw('as'), 'AS')
            return ('view', n, ine, names, self.select())
        if kind == 'index':
            while self.peek()[0] != 'eof' and self.peek() != ('op', ';'):
                self.i += 1
            return ('nop', 'index')
        if kind == 'trigger':
            self.need(self.kw('instead', 'of', 'insert', 'on'), 'INSTEAD OF INSERT ON')
            on = self.name()
            self.need(self.kw('begin'), 'BEGIN')
            body = []
            while not self.kw('end'):
                body.append(self.statement())
                self.need(self.op(';'), ';')
            return ('trigger', n, ine, on, body)
        raise Unsupported("CREATE " + kind)


_CACHE = {}


class SyntaxProblem(Exception):
    pass


def parse_script(sql):
    try:
        return _parse_script(sql)
    except SyntaxProblem as e:
        # Either a mistake in the statement or something missing here. The real library knows.
        real = sqlite3.connect(':memory:')
        try:
            real.execute('EXPLAIN ' + sql)
        except sqlite3.OperationalError as problem:
            if 'syntax error' in str(problem) or 'incomplete input' in str(problem):
                raise
        except sqlite3.Error:
            pass
        finally:
            real.close()
        raise Unsupported(f'SQL: {e}') from None


def _parse_script(sql):
    r = _CACHE.get(sql)
    if r is None:
        p = Parser(tokenize(sql))
        r = []
        while p.peek()[0] != 'eof':
            if p.op(';'):
                continue
            start = p.params
            st = p.statement()
            r.append((st, p.params - start))
            p.need(p.peek()[0] == 'eof' or p.op(';'), ';')
        _CACHE[sql] = r
    return r


AGGREGATES = {'count', 'sum', 'total', 'min', 'max'}


class Engine:
    def __init__(self, db):
        self.db = db

    # expressions: env is a list of (alias, names, values) plus special names
    def ev(self, e, env, params):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'param':
            if e[1] >= len(params):
                raise sqlite3.ProgrammingError("Incorrect number of bindings supplied")
            return params[e[1]]
        if k == 'col':
            return self.column(e, env)
        if k == 'row':
            return tuple(self.ev(x, env, params) for x in e[1])
        if k == 'and':
            a = self.ev(e[1], env, params)
            if a is not None and not truth(a):
                return False
            b = self.ev(e[2], env, params)
            if b is not None and not truth(b):
                return False
            return None if a is None or b is None else True
        if k == 'or':
            a = self.ev(e[1], env, params)
            if a is not None and truth(a):
                return True
            b = self.ev(e[2], env, params)
            if b is not None and truth(b):
                return True
            return None if a is None or b is None else False
        if k == 'not':
            a = self.ev(e[1], env, params)
            return None if a is None else not truth(a)
        if k == 'case':
            for cond, value in e[1]:
                a = self.ev(cond, env, params)
                if a is not None and truth(a):
                    return self.ev(value, env, params)
            return self.ev(e[2], env, params)
        if k == 'cmp':
            return compare(e[1], self.ev(e[2], env, params), self.ev(e[3], env, params))
        if k in ('is', 'isnot'):
            a, b = self.ev(e[1], env, params), self.ev(e[2], env, params)
            r = (a is None and b is None) if a is None or b is None else truth(compare('==', a, b))
            return r if k == 'is' else not r
        if k == 'between':
            a = self.ev(e[1], env, params)
            r = compare('>=', a, self.ev(e[2], env, params))
            q = compare('<=', a, self.ev(e[3], env, params))
            if r is None or q is None:
                return None
            return truth(r) and truth(q)
        if k == 'inq':
            a = self.ev(e[1], env, params)
            _, rows = self.select(e[2], params, env)
            null = False
            for r in rows:
                c = compare('==', a, tuple(r) if isinstance(a, tuple) else r[0])
                if c is None:
                    null = True
                elif truth(c):
                    return True
            return None if null else False
        if k == 'inl':
            a = self.ev(e[1], env, params)
            null = False
            for x in e[2]:
                c = compare('==', a, self.ev(x, env, params))
                if c is None:
                    null = True
                elif truth(c):
                    return True
            return None if null else False
        if k == 'exists':
            return len(self.select(e[1], params, env)[1]) > 0
        if k == 'scalar':
            rows = self.select(e[1], params, env)[1]
            return rows[0][0] if rows else None
        if k == 'neg':
            a = self.ev(e[1], env, params)
            return None if a is None else -a
        if k == 'bin':
            a, b = self.ev(e[2], env, params), self.ev(e[3], env, params)
            if a is None or b is None:
                return None
            o = e[1]
            if o == '||':
                return self.text(a) + self.text(b)
            if o == '&':
                return a & b
            if o == '|':
                return a | b
            if o == '<<':
                return a << b
            if o == '>>':
                return a >> b
            if o == '+':
                return a + b
            if o == '-':
                return a - b
            if o == '*':
                return a * b
            raise Unsupported("SQL operator " + o)
        if k == 'func':
            return self.func(e, env, params)
        if k in ('glob', 'like'):
            a, b = self.ev(e[1], env, params), self.ev(e[2], env, params)
            if a is None or b is None:
                return None
            esc = self.ev(e[3], env, params) if len(e) > 3 else None
            return self.glob(a, b) if k == 'glob' else self.like(a, b, esc)
        raise Unsupported("SQL expression " + k)

    @staticmethod
    def text(v):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, SInt):
            from .data import DecInt

            return SStr([DecInt(v)])
        return str(v)

    @staticmethod
    def _codes(v):
        return list(v._codes()) if isinstance(v, SeqBase) else [ord(c) for c in v]

    def glob(self, text, pat):
        from .data import code_eq

        t, p = self._codes(text), self._codes(pat)

        def is_(c, ch):
            return bool(code_eq(c, ord(ch)))

        def m(i, j):
            while j < len(p):
                if is_(p[j], '*'):
                    return any(m(k, j + 1) for k in range(i, len(t) + 1))
                if i >= len(t):
                    return False
                if is_(p[j], '?'):
                    i, j = i + 1, j + 1
                    continue
                if is_(p[j], '['):
                    # SQLite: a '[' without a closing bracket matches nothing
                    q = j + 1
                    neg = q < len(p) and is_(p[q], '^')
                    if neg:
                        q += 1
                    seen, first = False, True
                    while True:
                        if q >= len(p):
                            return False
                        if is_(p[q], ']') and not first:
                            break
                        if q + 2 < len(p) and is_(p[q + 1], '-') and not is_(p[q + 2], ']') and not first:
                            lo, hi = as_concrete(p[q]), as_concrete(p[q + 2])
                            if bool(t[i] >= lo) and bool(t[i] <= hi):
                                seen = True
                            q += 3
                        else:
                            if bool(code_eq(p[q], t[i])):
                                seen = True
                            q += 1
                        first = False
                    if seen == neg:
                        return False
                    i, j = i + 1, q + 1
                    continue
                if not bool(code_eq(t[i], p[j])):
                    return False
                i, j = i + 1, j + 1
            return i == len(t)

        return m(0, 0)

    def like(self, text, pat, esc=None):
        from .data import code_eq

        t, p = self._codes(text), self._codes(pat)
        e = None if esc is None else self._codes(esc)[0]

        def same(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return chr(a).lower() == chr(b).lower() if a < 128 and b < 128 else a == b
            for x in (a, b):
                if isinstance(x, int) and chr(x).isalpha() and x < 128:
                    o = b if x is a else a
                    return bool(code_eq(o, ord(chr(x).lower()))) or bool(code_eq(o, ord(chr(x).upper())))
            return bool(code_eq(a, b))

        def m(i, j):
            while j < len(p):
                if e is not None and bool(code_eq(p[j], e)) and j + 1 < len(p):
                    if i >= len(t) or not same(t[i], p[j + 1]):
                        return False
                    i, j = i + 1, j + 2
                    continue
                if bool(code_eq(p[j], ord('%'))):
                    return any(m(k, j + 1) for k in range(i, len(t) + 1))
                if i >= len(t):
                    return False
                if not bool(code_eq(p[j], ord('_'))) and not same(t[i], p[j]):
                    return False
                i, j = i + 1, j + 1
            return i == len(t)

        return m(0, 0)

    def func(self, e, env, params):
        f = e[1]
        if f in AGGREGATES and env and env[-1][0] == '\0group':
            rows = env[-1][2]
            if f == 'count':
                if not e[2] or e[2][0][0] == 'star':
                    return len(rows)
                return sum(1 for r in rows if self.ev(e[2][0], r, params) is not None)
            vals = [v for v in (self.ev(e[2][0], r, params) for r in rows) if v is not None]
            if f in ('sum', 'total'):
                if not vals:
                    return None if f == 'sum' else 0.0
                s = vals[0]
                for v in vals[1:]:
                    s = s + v
                return s
            if not vals:
                return None
            best = vals[0]
            for v in vals[1:]:
                if sort_less(v, best) == (f == 'min'):
                    best = v
            return best
        args = [self.ev(a, env, params) for a in e[2]]
        if f == 'length':
            v = args[0]
            if v is None:
                return None
            return seq_len(self.text(v) if is_num(v) else v)
        if f in ('substr', 'substring'):
            v, start = args[0], args[1]
            if v is None or start is None:
                return None
            n = args[2] if len(args) > 2 else None
            size = seq_len(v)
            if isinstance(v, (bytes, SBytes)) and size == 0:
                return None  # as the real library does
            if start > 0:
                a = start - 1
            elif start < 0:
                raise Unsupported("substr with a negative start")
            else:
                # position 0: the first "character" is before the text
                if n is not None:
                    n = n - 1
                a = 0
            if n is not None:
                if n < 0:
                    raise Unsupported("substr with a negative length")
                return v[a:a + n]
            return v[a:]
        if f == 'sqlite_version':
            return sqlite3.sqlite_version
        if f == 'hex':
            v = args[0]
            if v is None:
                return ''
            if isinstance(v, (int, float)):
                v = str(v)
            if isinstance(v, (SInt, SStr)):
                v = str(v)
            if isinstance(v, SBytes):
                v = v._concrete()
            return (v if isinstance(v, bytes) else v.encode()).hex().upper()
        if f == 'coalesce' or f == 'ifnull':
            for v in args:
                if v is not None:
                    return v
            return None
        if f == 'random':
            return 0
        if f in ('lower', 'upper'):
            return None if args[0] is None else getattr(args[0], f)()
        if f in ('trim', 'ltrim', 'rtrim'):
            if args[0] is None:
                return None
            m = {'trim': 'strip', 'ltrim': 'lstrip', 'rtrim': 'rstrip'}[f]
            return getattr(args[0], m)(args[1] if len(args) > 1 else ' ')
        if f == 'replace':
            return None if None in args else args[0].replace(args[1], args[2])
        if f == 'instr':
            return None if args[0] is None or args[1] is None else args[0].find(args[1]) + 1
        if f == 'min' and len(args) > 1:
            b = args[0]
            for v in args[1:]:
                if sort_less(v, b):
                    b = v
            return b
        if f == 'max' and len(args) > 1:
            b = args[0]
            for v in args[1:]:
                if sort_less(b, v):
                    b = v
            return b
        raise Unsupported("SQL function " + f)

    def column(self, e, env):
        _, tab, name = e
        low = name.lower()
        for alias, names, values in reversed(env):
            if alias == '\0group':
                if values:
                    return self.column(e, values[0])
                continue
            if tab is not None and (alias or '').lower() != tab.lower():
                continue
            for n, v in zip(names, values):
                if n.lower() == low:
                    return v
        raise sqlite3.OperationalError(f'no such column: {name}')

    def source(self, s, params, outer):
        """-> (alias, names, list of value lists); the hidden rowid comes last under several names"""
        if s[0] == 'sub':
            names, rows = self.select(s[1], params, outer)
            return s[2] or '', names, [list(r) for r in rows]
        if s[0] == 'tfunc':
            if s[1] != 'pragma_table_info':
                raise Unsupported("table function " + s[1])
            t = self.db.get(self.ev(s[2], [], params))
            rows = [[i, c, d, 0, None, 0] for i, (c, d) in enumerate(t.cols)] if t else []
            return s[3] or s[1], ['cid', 'name', 'type', 'notnull', 'dflt_value', 'pk'], rows
        name = s[1]
        if name.lower() in ('sqlite_master', 'sqlite_schema'):
            rows = [['table', n, n, 0, ''] for n in self.db.tables] + [['view', n, n, 0, ''] for n in self.db.views]
            return s[2] or name, ['type', 'name', 'tbl_name', 'rootpage', 'sql'], rows
        t = self.db.get(name)
        if t is not None:
            names = t.names + ['\0rowid']
            return s[2] or name, names, [v + [i] for i, v in t.rows]
        for vn, (cols, q) in self.db.views.items():
            if vn.lower() == name.lower():
                names, rows = self.select(q, (), [])
                return s[2] or name, cols or names, [list(r) for r in rows]
        raise sqlite3.OperationalError(f'no such table: {name}')

    def select(self, q, params, outer=()):
        _, cols, src, where, order, limit, offset, group, having, distinct, compound = q
        outer = list(outer)
        envs = [outer]
        first = True
        shown = []  # (alias, names)
        for s in src:
            kind, s2, on = ('inner', s, None) if first else s
            first = False
            alias, names, rows = self.source(s2, params, outer)
            lookup = [('rowid' if n == '\0rowid' and 'rowid' not in names else n) for n in names]
            shown.append((alias, [n for n in names if n != '\0rowid']))
            nxt = []
            for env in envs:
                hit = False
                for r in rows:
                    e2 = env + [(alias, lookup, r)]
                    if on is None or truth(self.ev(on, e2, params)):
                        nxt.append(e2)
                        hit = True
                if kind == 'left' and not hit:
                    nxt.append(env + [(alias, lookup, [None] * len(names))])
            envs = nxt
        if where is not None:
            envs = [e for e in envs if truth(self.ev(where, e, params))]

        def has_agg(x):
            if isinstance(x, tuple):
                if x and x[0] == 'func' and x[1] in AGGREGATES and len(x[2]) < 2:
                    return True
                if x and x[0] in ('scalar', 'inq', 'exists'):
                    return False
                return any(has_agg(y) for y in x)
            if isinstance(x, list):
                return any(has_agg(y) for y in x)
            return False

        if group is not None:
            groups = []
            for e in envs:
                key = [self.ev(g, e, params) for g in group]
                for gk, members in groups:
                    if all(
                        (a is None and b is None) or truth(compare('==', a, b) or False) for a, b in zip(gk, key)
                    ):
                        members.append(e)
                        break
                else:
                    groups.append((key, [e]))
            envs = [outer + [('\0group', (), m)] for _, m in groups]
            if having is not None:
                envs = [e for e in envs if truth(self.ev(having, e, params))]
        elif any(has_agg(c) for c, _ in cols):
            envs = [outer + [('\0group', (), envs)]]
        names = []
        for c, alias in cols:
            if c[0] == 'star':
                for a, ns in shown:
                    if c[1] is None or a.lower() == c[1].lower():
                        names += ns
            else:
                names.append(alias or (c[2] if c[0] == 'col' else self.title(c)))

        def project(env):
            out = []
            base = env
            if env and env[-1][0] == '\0group':
                base = env[-1][2][0] if env[-1][2] else []
            for c, _ in cols:
                if c[0] == 'star':
                    for a, ns, vs in base[len(outer):]:
                        if c[1] is None or a.lower() == c[1].lower():
                            out += [v for n, v in zip(ns, vs) if n not in ('\0rowid', 'rowid')]
                else:
                    out.append(self.ev(c, env, params))
            return tuple(out)

        aliases = {al.lower(): c for c, al in cols if al}
        if order and compound is None:
            keys = []
            for e, desc in order:
                if e[0] == 'lit' and isinstance(e[1], int):
                    e = cols[e[1] - 1][0]
                if e[0] == 'col' and e[1] is None and e[2].lower() in aliases:
                    e = aliases[e[2].lower()]
                keys.append((lambda env, e=e: self.ev(e, env, params), desc))
            envs = sort_rows(envs, keys)
        off = 0 if offset is None else self.ev(offset, [], params)
        lim = None if limit is None else self.ev(limit, [], params)
        if compound is None and not distinct:
            # apply LIMIT/OFFSET before projecting
            if limit is not None or offset is not None:
                out = []
                k = 0
                if not is_num(off) or lim is not None and not is_num(lim):
                    raise sqlite3.IntegrityError("datatype mismatch")
                for env in envs:
                    if bool(k >= off) and (lim is None or bool(lim < 0) or bool(k < off + lim)):
                        out.append(env)
                    k += 1
                envs = out
            rows = [project(e) for e in envs]
        else:
            rows = [project(e) for e in envs]
            if compound is not None:
                rows += self.select(compound[1], params, outer)[1]
            if distinct or (compound is not None and compound[0] == 'union'):
                uniq = []
                for r in rows:
                    if not any(all((a is None and b is None) or truth(compare('==', a, b) or False) for a, b in zip(r, u)) for u in uniq):
                        uniq.append(r)
                rows = uniq
            if order and compound is not None:
                raise Unsupported("ORDER BY of a compound SELECT")
            if lim is not None:
                rows = rows[as_concrete(off):]
                rows = rows[: as_concrete(lim)]
        return names, rows

    @staticmethod
    def title(c):
        return c[1] if c[0] == 'func' else '?'

    def run(self, st, params, conn=None):
        k = st[0]
        db = self.db
        if k == 'select':
            return self.select(st, params)
        if k == 'insert':
            _, mode, name, cols, values, q = st
            if values is not None:
                rows = [[self.ev(v, [], params) for v in r] for r in values]
            else:
                rows = [list(r) for r in self.select(q, params)[1]]
            self.insert_rows(mode, name, cols, rows, params)
        elif k == 'create':
            _, n, ine, cols, pk, unique, notnull, alias = st
            if db.get(n) is not None:
                if ine:
                    return None
                raise sqlite3.OperationalError(f'table {n} already exists')
            t = Table(n, cols, pk, unique, alias)
            t.notnull = set(notnull)
            db.tables[n] = t
        elif k == 'create_as':
            _, n, ine, q = st
            if db.get(n) is not None:
                if ine:
                    return None
                raise sqlite3.OperationalError(f'table {n} already exists')
            names, rows = self.select(q, params)
            decls = {}
            for s in q[2]:
                if s[0] == 'table' and db.get(s[1]) is not None:
                    decls.update({c.lower(): d for c, d in db.get(s[1]).cols})
            t = Table(n, [(c, decls.get(c.lower(), '')) for c in names])
            db.tables[n] = t
            for r in rows:
                t.insert(list(r), 'abort')
        elif k == 'view':
            _, n, ine, names, q = st
            if n in db.views:
                if ine:
                    return None
                raise sqlite3.OperationalError(f'view {n} already exists')
            db.views[n] = (names, q)
        elif k == 'trigger':
            _, n, ine, on, body = st
            db.triggers[on.lower()] = body
        elif k == 'drop':
            _, kind, n, ie = st
            if kind == 'view':
                for vn in list(db.views):
                    if vn.lower() == n.lower():
                        del db.views[vn]
                return None
            t = db.get(n)
            if t is None:
                if ie:
                    return None
                raise sqlite3.OperationalError(f'no such table: {n}')
            del db.tables[t.name]
        elif k == 'delete':
            _, n, where = st
            t = db.get(n)
            if t is None:
                raise sqlite3.OperationalError(f'no such table: {n}')
            keep = []
            for row in t.rows:
                env = [(t.name, t.names + ['rowid'], row[1] + [row[0]])]
                if where is not None and not truth(self.ev(where, env, params)):
                    keep.append(row)
            t.rows = keep
        elif k == 'update':
            _, n, sets, where = st
            t = db.get(n)
            if t is None:
                raise sqlite3.OperationalError(f'no such table: {n}')
            for row in t.rows:
                env = [(t.name, t.names + ['rowid'], row[1] + [row[0]])]
                if where is None or truth(self.ev(where, env, params)):
                    new = list(row[1])
                    for c, e in sets:
                        i = t.col(c)
                        new[i] = affinity(t.cols[i][1], self.ev(e, env, params))
                    row[1] = new
        elif k == 'rename':
            t = db.get(st[1])
            if t is None:
                raise sqlite3.OperationalError(f'no such table: {st[1]}')
            if db.get(st[2]) is not None:
                raise sqlite3.OperationalError(f'there is already another table with this name: {st[2]}')
            del db.tables[t.name]
            t.name = st[2]
            db.tables[t.name] = t
        elif k in ('pragma', 'nop'):
            return None
        else:
            raise Unsupported("SQL statement " + k)
        return None

    def insert_rows(self, mode, name, cols, rows, params):
        db = self.db
        t = db.get(name)
        if t is None:
            for vn, (names, q) in db.views.items():
                if vn.lower() == name.lower() and vn.lower() in db.triggers:
                    for r in rows:
                        env = [('NEW', names, list(r))]
                        for st in db.triggers[vn.lower()]:
                            self.run_in_trigger(st, env)
                    return
            raise sqlite3.OperationalError(f'no such table: {name}')
        for r in rows:
            if cols is not None:
                full = [None] * len(t.cols)
                for c, v in zip(cols, r):
                    i = t.col(c)
                    if i is None:
                        raise sqlite3.OperationalError(f'table {name} has no column named {c}')
                    full[i] = v
                r = full
            t.insert(list(r), mode)

    def run_in_trigger(self, st, env):
        if st[0] != 'insert' or st[4] is None:
            raise Unsupported("trigger body")
        _, mode, name, cols, values, _ = st
        rows = [[self.ev(v, env, ()) for v in r] for r in values]
        self.insert_rows(mode, name, cols, rows, ())


class Cursor:
    def __init__(self, conn, names=None, rows=None):
        self.connection = conn
        self.row_factory = conn.row_factory
        self.names = names
        self.rows = list(rows or [])
        self.pos = 0
        self.description = None if names is None else tuple((n,) + (None,) * 6 for n in names)
        self.rowcount = -1
        self.lastrowid = None

    def _row(self, r):
        f = self.row_factory
        if f is None:
            return tuple(r)
        if f is sqlite3.Row or f is Row:
            return Row(self.names, tuple(r))
        return f(self, tuple(r))

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.rows):
            raise StopIteration
        self.pos += 1
        return self._row(self.rows[self.pos - 1])

    def fetchone(self):
        return next(self, None)

    def fetchall(self):
        return list(self)

    def fetchmany(self, n=1):
        return [r for _, r in zip(range(n), self)]

    def close(self):
        pass

    def execute(self, sql, params=()):
        c = self.connection.execute(sql, params)
        self.__dict__.update(c.__dict__)
        return self

    def executemany(self, sql, rows):
        self.connection.executemany(sql, rows)
        return self


# Kinds of statements that change nothing.
NOT_COUNTED = ('select', 'pragma', 'nop')


class Connection:
    # Statements that open a transaction, which is lost unless it is committed.
    CHANGES = ('insert', 'delete', 'update')

    def __init__(self, db, path=':memory:', on_statement=None, readonly=False, autocommit=False):
        self.db = db
        self.autocommit = autocommit
        self.readonly = readonly
        self.saved = None
        self.path = path
        self.row_factory = None
        self.text_factory = str
        self.closed = False
        self.on_statement = on_statement
        self.total_changes = 0
        self.log = []

    def _open(self):
        if self.closed:
            raise sqlite3.ProgrammingError("Cannot operate on a closed database.")

    def execute(self, sql, params=()):
        self._open()
        if isinstance(sql, SStr):
            sql = str(sql)
        sts = parse_script(sql)
        if len(sts) > 1:
            raise sqlite3.ProgrammingError("You can only execute one statement at a time.")
        if not sts:
            return Cursor(self)
        st, n = sts[0]
        if n != len(params):
            raise sqlite3.ProgrammingError(
                f"Incorrect number of bindings supplied. The current statement uses {n}, and there are {len(params)} supplied."
            )
        params = [self._bind(p) for p in params]
        if self.saved is None and not self.autocommit and st[0] in self.CHANGES:
            self.saved = self.db.clone()
        self._before(st[0], sql)
        self._transaction(st)
        r = Engine(self.db).run(st, params, self)
        return Cursor(self, *r) if r is not None else Cursor(self)

    def _transaction(self, st):
        """Explicit transaction statements, which work in every mode."""
        if st[0] != 'nop':
            return
        if st[1] == 'begin':
            if self.saved is not None:
                raise sqlite3.OperationalError('cannot start a transaction within a transaction')
            self.saved = self.db.clone()
        elif st[1] in ('commit', 'end', 'rollback'):
            if self.saved is None:
                raise sqlite3.OperationalError(f'cannot {st[1]} - no transaction is active')
            if st[1] == 'rollback':
                self.rollback()
            else:
                self.commit()

    def _before(self, kind, sql):
        if self.on_statement and kind not in NOT_COUNTED:
            self.on_statement(self, sql)
        if self.readonly and kind not in NOT_COUNTED:
            raise sqlite3.OperationalError('attempt to write a readonly database')

    @staticmethod
    def _bind(p):
        if isinstance(p, str):
            p.encode('utf-8')
        if isinstance(p, (bytearray, memoryview)):
            return bytes(p)
        if isinstance(p, SByteArray):
            return p.v
        if hasattr(p, '_val') and hasattr(p, 'tobytes'):
            return p._val()
        if p is None or isinstance(p, (int, float, str, bytes, SInt, SBool, SReal, SStr, SBytes)):
            return p
        raise sqlite3.ProgrammingError(f"Error binding parameter: type '{type(p).__name__}' is not supported")

    def executemany(self, sql, rows):
        for r in rows:
            self.execute(sql, tuple(r))
        return Cursor(self)

    def executescript(self, sql):
        self._open()
        if isinstance(sql, SStr):
            sql = str(sql)
        if self.saved is not None:
            self.commit()
        for st, n in parse_script(sql):
            self._before(st[0], sql)
            self._transaction(st)
            Engine(self.db).run(st, (), self)
        return Cursor(self)

    def commit(self):
        self._open()
        if self.saved is not None:
            if self.on_statement:
                self.on_statement(self, 'commit')
            self.saved = None

    def rollback(self):
        self._open()
        if self.saved is not None:
            self.db.restore(self.saved)
            self.saved = None

    def close(self):
        if not self.closed:
            self.rollback()
        self.closed = True

    def cursor(self):
        self._open()
        return Cursor(self)

    def backup(self, other):
        if other.on_statement:
            other.on_statement(other, 'backup')
        other.db.tables = {k: t.clone() for k, t in self.db.tables.items()}
        other.db.views = dict(self.db.views)
        other.db.triggers = dict(self.db.triggers)

    def setconfig(self, *a):
        pass

    def create_function(self, *a, **k):
        raise Unsupported("create_function")

    def __enter__(self):
        return self

    def __exit__(self, kind, *a):
        if kind is None:
            self.commit()
        else:
            self.rollback()


class Module:
    """The part of the sqlite3 module the code under test uses."""

    def __init__(self):
        self.files = {}
        self.on_statement = None
        self.connections = []

    Row = sqlite3.Row
    Connection = Connection
    Cursor = Cursor
    for _n in ('Error', 'OperationalError', 'ProgrammingError', 'IntegrityError', 'DatabaseError', 'InterfaceError',
               'NotSupportedError', 'SQLITE_DBCONFIG_DQS_DDL', 'SQLITE_DBCONFIG_DQS_DML', 'sqlite_version',
               'sqlite_version_info', 'PARSE_DECLTYPES', 'threadsafety'):
        if hasattr(sqlite3, _n):
            locals()[_n] = getattr(sqlite3, _n)
    del _n

    def crash(self):
        """The process ended without closing anything."""
        for c in self.connections:
            c.close()
        self.connections.clear()

    def _file(self, path, create=True):
        from .fsmodel import model

        fs = model()
        if fs is None or not fs.owns(path):
            db = self.files.get(path)
            if db is None:
                db = self.files[path] = Database()
            return db
        try:
            if not fs.exists(path):
                if not create:
                    raise sqlite3.OperationalError('unable to open database file')
                fs.close(fs.open(path, os.O_RDWR | os.O_CREAT, 0o644))
            node = fs.walk(path)
        except OSError as e:
            raise sqlite3.OperationalError('unable to open database file') from e
        if node.kind != 'f':
            raise sqlite3.OperationalError('unable to open database file')
        if node.db is None:
            if node.data != b'':
                raise sqlite3.DatabaseError('file is not a database')
            node.db = Database()
        return node.db

    def connect(self, path=':memory:', *a, uri=False, **kw):
        if isinstance(path, SStr):
            path = str(path)
        path = str(path)
        readonly = False
        if uri and path.startswith('file:'):
            import urllib.parse

            readonly = 'mode=ro' in path.split('?')[-1].split('&')
            path = urllib.parse.unquote(path[5:].split('?')[0])
        if path == ':memory:':
            db = Database()
        else:
            db = self._file(path, not readonly)
        c = Connection(db, path, self.on_statement, readonly, kw.get('isolation_level', '') is None)
        self.connections.append(c)
        return c
