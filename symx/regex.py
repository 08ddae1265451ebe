"""Backtracking matcher for re patterns over symbolic strings and bytes (follows the parsed pattern)."""
import re
import re._constants as sc
import re._parser as sp

import z3

from . import core
from .core import Unsupported
from .data import SBytes, SeqBase, SStr, code_in, code_eq
from .values import SInt, as_concrete, mk_bool

_PARSED = {}


def parsed(pattern):
    key = (pattern.pattern, pattern.flags)
    r = _PARSED.get(key)
    if r is None:
        r = _PARSED[key] = sp.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
    return r


def _category(cat):
    if cat in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        s = [(48, 57)]
    elif cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        s = [(9, 13), (28, 32)]
    elif cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
        s = [(48, 57), (65, 90), (95, 95), (97, 122)]
    else:
        raise Unsupported(f"regex category {cat}")
    return s, cat in (sc.CATEGORY_NOT_DIGIT, sc.CATEGORY_NOT_SPACE, sc.CATEGORY_NOT_WORD)


def _in_ranges(c, ranges):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ranges)
    d = core.ctx().env.get('domains', {}).get(c.e.get_id())
    if d is not None:
        return code_in(c, [x for x in d if any(a <= x <= b for a, b in ranges)])
    return mk_bool(z3.Or(*[z3.And(c.e >= a, c.e <= b) if a != b else c.e == a for a, b in ranges]))


class Matcher:
    def __init__(self, pattern, subject):
        self.tree = parsed(pattern)
        self.flags = self.tree.state.flags
        self.codes = list(subject._codes())
        self.n = len(self.codes)
        self.groups = {}

    def test(self, c, op, av):
        ic = self.flags & re.IGNORECASE
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            if ic and chr(av).isalpha():
                r = bool(code_in(c, sorted({ord(chr(av).lower()), ord(chr(av).upper())})))
            else:
                r = bool(code_eq(c, av))
            return r if op is sc.LITERAL else not r
        if op is sc.ANY:
            return True if self.flags & re.DOTALL else not bool(code_eq(c, 10))
        if op is sc.IN:
            items = list(av)
            neg = False
            if items and items[0][0] is sc.NEGATE:
                neg = True
                items = items[1:]
            ranges, hit = [], False
            for o, a in items:
                if o is sc.LITERAL:
                    ranges.append((a, a))
                elif o is sc.RANGE:
                    ranges.append(tuple(a))
                elif o is sc.CATEGORY:
                    s, n = _category(a)
                    if n:
                        if not bool(_in_ranges(c, s)):
                            hit = True
                            break
                    else:
                        ranges += s
                else:
                    raise Unsupported(f"regex set item {o}")
            if ic:
                extra = []
                for a, b in ranges:
                    for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                        x, y = max(a, lo), min(b, hi)
                        if x <= y:
                            extra.append((x + d, y + d))
                ranges += extra
            if not hit and ranges:
                hit = bool(_in_ranges(c, ranges))
            return hit != neg
        raise Unsupported(f"regex op {op}")

    def run(self, items, k, i, cont):
        """Matches items[k:] at i, then calls cont(i). Returns the end or None."""
        if k == len(items):
            return cont(i)
        op, av = items[k]
        nxt = lambda j: self.run(items, k + 1, j, cont)  # noqa: E731
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < self.n and self.test(self.codes[i], op, av):
                return nxt(i + 1)
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is sc.AT_END:
                ok = i == self.n or (i == self.n - 1 and bool(code_eq(self.codes[i], 10)))
            elif av is sc.AT_END_STRING:
                ok = i == self.n
            else:
                raise Unsupported(f"regex anchor {av}")
            return nxt(i) if ok else None
        if op is sc.SUBPATTERN:
            group, addf, delf, sub = av
            if addf or delf:
                raise Unsupported("inline regex flags")
            old = self.groups.get(group)

            def after(j):
                prev = self.groups.get(group)
                if group is not None:
                    self.groups[group] = (i, j)
                r = nxt(j)
                if r is None and group is not None:
                    if prev is None:
                        self.groups.pop(group, None)
                    else:
                        self.groups[group] = prev
                return r

            return self.run(list(sub), 0, i, after)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, i, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is sc.MAX_REPEAT

            def rep(count, j):
                def more():
                    if hi is not sc.MAXREPEAT and count >= hi:
                        return None
                    return self.run(sub, 0, j, lambda e: rep(count + 1, e) if (e > j or count < lo) else None)

                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j)
                r = nxt(j)
                return r if r is not None else more()

            return rep(0, i)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("variable look-behind")
                ok = i - lo >= 0 and self.run(list(sub), 0, i - lo, lambda e: e if e == i else None) is not None
            else:
                ok = self.run(list(sub), 0, i, lambda e: e) is not None
            if ok == (op is sc.ASSERT):
                return nxt(i)
            return None
        if op is sc.GROUPREF:
            a, b = self.groups.get(av, (None, None))
            if a is None or i + b - a > self.n:
                return None
            for q in range(b - a):
                if not bool(code_eq(self.codes[a + q], self.codes[i + q])):
                    return None
            return nxt(i + b - a)
        raise Unsupported(f"regex op {op}")

    def match_at(self, i, full=False):
        self.groups = {}
        end = self.run(list(self.tree), 0, i, lambda j: (j if (not full or j == self.n) else None))
        return end


class SMatch:
    def __init__(self, pattern, subject, start, end, groups):
        self.re = pattern
        self.string = subject
        self._span = {0: (start, end)}
        self._span.update(groups)
        self.pos = 0
        self.endpos = len(subject)
        self.lastindex = max(groups) if groups else None

    def _id(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _g(self, g, default=None):
        s = self._span.get(self._id(g))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._g(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, g):
        return self._g(g)

    def groups(self, default=None):
        return tuple(self._g(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._g(i, default) for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self._span.get(self._id(g), (-1, -1))[0]

    def end(self, g=0):
        return self._span.get(self._id(g), (-1, -1))[1]

    def span(self, g=0):
        return self._span.get(self._id(g), (-1, -1))

    def __bool__(self):
        return True


def _expand(template, m):
    from .rt import call

    if callable(template):
        return template(m)
    if '\\' in template if isinstance(template, str) else b'\\' in template:
        parts = re.split(r'\\(\d|g<\w+>)', template)
        out = parts[0]
        for ref, lit in zip(parts[1::2], parts[2::2]):
            g = ref[2:-1] if ref.startswith('g<') else ref
            v = m.group(int(g) if g.isdigit() else g)
            out = out + ('' if v is None else v) + lit
        return out
    return template


def pattern_method(pattern, name, args, kwargs):
    if name == 'sub':
        repl, subject = args[0], args[1]
        count = args[2] if len(args) > 2 else kwargs.get('count', 0)
        rest = ()
    else:
        subject, rest = args[0], args[1:]
    if not isinstance(subject, SeqBase):
        raise Unsupported("regex over " + type(subject).__name__)
    if rest and name != 'split':
        raise Unsupported("regex pos argument")
    if isinstance(pattern.pattern, str) != isinstance(subject, SStr):
        raise TypeError("cannot use a string pattern on a bytes-like object")
    mt = Matcher(pattern, subject)

    def at(i, full=False):
        e = mt.match_at(i, full)
        return None if e is None else SMatch(pattern, subject, i, e, {g: s for g, s in mt.groups.items() if g})

    if name == 'match':
        return at(0)
    if name == 'fullmatch':
        return at(0, True)
    if name == 'search':
        for i in range(mt.n + 1):
            m = at(i)
            if m is not None:
                return m
        return None

    def scan():
        i = 0
        while i <= mt.n:
            m = at(i)
            if m is None:
                i += 1
                continue
            yield m
            i = m.end() + 1 if m.end() == m.start() else m.end()

    if name == 'finditer':
        return scan()
    if name == 'findall':
        out = []
        for m in scan():
            g = m.groups('')
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out
    if name == 'sub':
        out, pos, k = subject[0:0], 0, 0
        for m in scan():
            if count and k >= count:
                break
            out = out + subject[pos:m.start()]
            out = out + _expand(repl, m)
            pos = m.end()
            k += 1
        return out + subject[pos:]
    if name == 'split':
        maxsplit = rest[0] if rest else kwargs.get('maxsplit', 0)
        out, pos, k = [], 0, 0
        for m in scan():
            if maxsplit and k >= maxsplit:
                break
            out.append(subject[pos:m.start()])
            out.extend(m.groups())
            pos = m.end()
            k += 1
        out.append(subject[pos:])
        return out
    raise Unsupported("regex method " + name)
