"""Template strings: concatenations of constants and of unknown pieces that are known not to hold some characters.

policy.excl maps a Sym (an unknown text of any length) to the characters it does not hold.  String operations whose
outcome is decided by the constants alone (where a separator is, what a slice between separators holds) are exact,
whatever the lengths of the pieces are.  Every function returns None when it cannot tell.
"""
from .terms import *

EVERY = object()


class CoSet:
    """every character but these"""
    def __init__(self, but):
        self.but = frozenset(but)

    def __contains__(self, c):
        return c not in self.but

    def __iter__(self):
        return iter(())

    def __ge__(self, other):
        return not (set(other) & self.but)

    def __sub__(self, other):
        return CoSet(self.but | set(other))

    def __or__(self, other):
        return CoSet(self.but - set(other))


def excl(eng, v):
    """characters that the text v cannot hold (a frozenset), or None"""
    o = eng.policy.only.get(v)
    if o is not None:
        return CoSet(o)
    if isinstance(v, Sym):
        r = eng.policy.excl.get(v)
        return None if r is None else frozenset(r)
    if isinstance(v, App) and v.op == 'replace' and len(v.args) == 3 and all(isinstance(a, Const) for a in v.args[1:]):
        e = excl(eng, v.args[0])
        if e is None:
            return None
        a, b = v.args[1].v, v.args[2].v
        out = e - set(chars(b))
        if len(a) == 1 and a not in chars(b):
            out |= {a if isinstance(a, str) else a}
        return out
    if isinstance(v, App) and v.op in ('decode', 'encode') and v.args[1:] and v.args[1] in (Const('latin1'), Const('utf8'), Const('ascii')):
        e = excl(eng, v.args[0])
        if e is None:
            return None
        if v.op == 'decode':
            return frozenset(c.decode('latin1') for c in e if isinstance(c, bytes) and c < b'\x80')
        return frozenset(c.encode('latin1') for c in e if isinstance(c, str) and c < '\x80')
    if isinstance(v, App) and v.op == 'slice':
        return excl(eng, v.args[0])
    return None


def chars(s):
    return [s[i:i + 1] for i in range(len(s))]


def pieces(eng, v):
    """tuple of Const / unknown pieces, at least one of them unknown; or None"""
    if not eng.policy.excl:
        return None
    ps = v.args if isinstance(v, App) and v.op == 'concat' else (v,)
    n = 0
    for p in ps:
        if isinstance(p, Const) and isinstance(p.v, (str, bytes)):
            continue
        if excl(eng, p) is None:
            return None
        n += 1
    return ps if n else None


def plen(p):
    return Const(len(p.v)) if isinstance(p, Const) else len_of(p)


def slen(st, p):
    """length of a piece; a slice within its text has the length of its bounds"""
    if isinstance(p, App) and p.op == 'slice' and p.args[2] != NONE and ge(st, p.args[1], Const(0)) and ge(st, len_of(p.args[0]), p.args[2]):
        return lin_sub(p.args[2], p.args[1])
    return plen(p)


def offsets(ps):
    out, at = [], Const(0)
    for p in ps:
        out.append(at)
        at = lin_add(at, plen(p))
    return out, at


def eq(st, a, b):
    d = lin_sub(a, b)
    if isinstance(d, Const):
        return d.v == 0
    return bool(st.entails(d) and st.entails(lin_scale(d, -1)))


def ge(st, a, b):
    d = lin_sub(a, b)
    if isinstance(d, Const):
        return d.v >= 0
    return bool(st.entails(d))


def locate(st, ps, at):
    """(index of a piece, offset in it) for a position at a piece boundary or inside a constant"""
    offs, end = offsets(ps)
    if eq(st, at, end) or ge(st, at, end):
        return len(ps), 0
    best = None
    for k, (p, o) in enumerate(zip(ps, offs)):
        d = lin_sub(at, o)
        if isinstance(d, Const) and (d.v == 0 or isinstance(p, Const) and 0 <= d.v < len(p.v)):
            best = (k, d.v)
            break
        if eq(st, at, o):
            best = (k, 0)
            break
        if isinstance(p, Const):
            hit = next((j for j in range(1, len(p.v)) if eq(st, at, lin_add(o, Const(j)))), None)
            if hit is not None:
                best = (k, hit)
                break
    if best is None:
        # inside an unknown piece
        for k, (p, o) in enumerate(zip(ps, offs)):
            if not isinstance(p, Const):
                d = lin_sub(at, o)
                if ge(st, d, Const(0)) and ge(st, len_of(p), d):
                    return k, d
    return best


def before(st, a, b):
    """the location a is not after b"""
    if a[0] != b[0]:
        return a[0] < b[0]
    x, y = (Const(z) if isinstance(z, int) else z for z in (a[1], b[1]))
    return ge(st, y, x)


def position(st, ps, at, end):
    """normalise a slice bound"""
    if isinstance(at, Const) and isinstance(at.v, int) and at.v < 0:
        return lin_add(end, at)
    if isinstance(at, Const) and at.v is None:
        return None
    if not ge(st, at, Const(0)):
        return EVERY
    return at


def cut(ps, a, b):
    from .models import concat
    (k, i), (m, j) = a, b
    empty = next((p.v[:0] for p in ps if isinstance(p, Const)), '')
    out = []
    for n in range(k, min(m + 1, len(ps))):
        p = ps[n]
        lo = i if n == k else 0
        if isinstance(p, Const):
            s = p.v[lo:j] if n == m else p.v[lo:]
            if s:
                out.append(Const(s))
        elif n < m or not isinstance(j, int):
            if n == k and not isinstance(lo, int) or n == m:
                out.append(App('slice', p, Const(lo) if isinstance(lo, int) else lo, len_of(p) if n < m else j))
            else:
                out.append(p)
    return concat(out, empty) if out else Const(empty)


def slice_(eng, st, v, lo, hi):
    ps = pieces(eng, v)
    if ps is None:
        return None
    _, end = offsets(ps)
    lo = Const(0) if lo == NONE else position(st, ps, lo, end)
    hi = end if hi == NONE else position(st, ps, hi, end)
    if lo is EVERY or hi is EVERY:
        return None
    a, b = locate(st, ps, lo), locate(st, ps, hi)
    if a is None or b is None:
        return None
    if not before(st, a, b):
        if not before(st, b, a):
            return None
        b = a
    return cut(ps, a, b)


def index(eng, st, v, i):
    ps = pieces(eng, v)
    if ps is None:
        return None
    _, end = offsets(ps)
    i = position(st, ps, i, end)
    if i is None or i is EVERY:
        return None
    a = locate(st, ps, i)
    if a is None or a[0] >= len(ps):
        return None
    p = ps[a[0]]
    if not isinstance(a[1], int):
        return App('item', p, a[1]) if ge(st, lin_sub(len_of(p), a[1]), Const(1)) else None
    if isinstance(p, Const):
        c = p.v[a[1]]
        return Const(c)
    if ge(st, len_of(p), Const(1)):
        return App('item', p, Const(0))
    return None


def no_char(eng, v, c):
    """the character term v cannot be c"""
    if isinstance(v, App) and v.op == 'item':
        e = excl(eng, v.args[0])
        return e is not None and c in e
    return False


def eq_const(eng, v, c, st=None):
    """False when the unknown text v cannot equal the constant c"""
    if not eng.policy.excl or not isinstance(c, (str, bytes)):
        return None
    if isinstance(c, bytes):
        ts = byte_tokens(eng, v)
        if ts is not None:
            return False if toks_same(eng, ts, chars(c)) is False else None
    if isinstance(v, App) and v.op == 'item':
        if len(c) != 1 or no_char(eng, v, c):
            return False if excl(eng, v.args[0]) is not None else None
        return None
    if isinstance(v, App) and v.op == 'slice' and st is not None:
        base = pieces(eng, v.args[0])
        lo = locate(st, base, v.args[1]) if base and ge(st, v.args[1], Const(0)) else None
        if lo is not None and (len(base) > 1):
            rest = cut(base, lo, (len(base), 0))
            i = 0
            for p in (rest.args if isinstance(rest, App) and rest.op == 'concat' else (rest,)):
                if isinstance(p, Const):
                    n = min(len(p.v), len(c) - i)
                    if c[i:i + n] != p.v[:n]:
                        return False
                    i += n
                    if i >= len(c):
                        break
                    continue
                e = excl(eng, p)
                if i < len(c) and e is not None and ge(st, slen(st, p), Const(1)) and c[i:i + 1] in e:
                    return False
                break
            return None
    ps = pieces(eng, v)
    if ps is None:
        return None
    for p in ps:
        if isinstance(p, Const) and any(x not in c for x in chars(p.v)):
            return False
    if len(ps) == 1:
        e = excl(eng, v)
        if any(x in e for x in chars(c)):
            return False
    for right in (False, True):
        i = 0
        for p in (ps[::-1] if right else ps):
            if isinstance(p, Const):
                n = len(p.v)
                if (c[len(c) - i - n:len(c) - i] if right else c[i:i + n]) != p.v or i + n > len(c):
                    return False
                i += n
                continue
            if st is not None and ge(st, slen(st, p), Const(1)):
                if i >= len(c):
                    return False
                ch = c[len(c) - i - 1:len(c) - i] if right else c[i:i + 1]
                if ch in excl(eng, p):
                    return False
            break
    return None


def within(eng, st, x, c):
    """x in c for a template c, or a character of a template in a constant -> bool or None"""
    if not eng.policy.excl:
        return None
    if isinstance(x, App) and x.op == 'item' and isinstance(c, Const) and isinstance(c.v, (str, bytes)):
        e = excl(eng, x.args[0])
        if e is not None and all(k in e for k in chars(c.v)):
            return False
        return None
    if isinstance(x, Const) and isinstance(x.v, (str, bytes)) and x.v:
        ps = pieces(eng, c)
        if ps is None:
            return None
        if any(isinstance(p, Const) and x.v in p.v for p in ps):
            return True
        if len(x.v) == 1 and all(isinstance(p, Const) or x.v in excl(eng, p) for p in ps):
            return False
    return None


def find(eng, st, v, sub, start=None, end=None):
    """position term of the first sub at or after start, Const(-1) when there is none, None when unknown"""
    ps = pieces(eng, v)
    if ps is None or not isinstance(sub, Const) or not isinstance(sub.v, (str, bytes)) or len(sub.v) != 1:
        return None
    offs, total = offsets(ps)
    a = (0, 0)
    if start is not None and start != NONE:
        s = position(st, ps, start, total)
        if s is EVERY or s is None:
            return None
        a = locate(st, ps, s)
        if a is None:
            return None
    if not isinstance(a[1], int):
        return None
    b = (len(ps), 0)
    if end is not None and end != NONE:
        s = position(st, ps, end, total)
        if s is EVERY or s is None:
            return None
        b = locate(st, ps, s)
        if b is None or not isinstance(b[1], int):
            return None
    for k in range(a[0], len(ps)):
        p = ps[k]
        if isinstance(p, Const):
            j = p.v.find(sub.v, a[1] if k == a[0] else 0)
            if j >= 0:
                return lin_add(offs[k], Const(j)) if (k, j) < b else Const(-1)
        elif sub.v not in excl(eng, p):
            return None
    return Const(-1)


def cuts(eng, st, v, sep, maxsplit=-1, right=False):
    """the parts between separators, or None"""
    ps = pieces(eng, v)
    if ps is None or not isinstance(sep, Const) or not isinstance(sep.v, (str, bytes)) or len(sep.v) != 1:
        return None
    for p in ps:
        if not isinstance(p, Const) and sep.v not in excl(eng, p):
            return None
    at = [(k, j) for k, p in enumerate(ps) if isinstance(p, Const) for j, c in enumerate(chars(p.v)) if c == sep.v]
    if maxsplit >= 0:
        at = at[len(at) - maxsplit:] if right and maxsplit else at[:maxsplit]
    out, lo = [], (0, 0)
    for k, j in at:
        out.append(cut(ps, lo, (k, j)))
        lo = (k, j + 1)
    out.append(cut(ps, lo, (len(ps), 0)))
    return out


def unquote(eng, v, plus=False):
    """percent decoding of a template whose unknown pieces hold no '%' (nor '+', for plus)"""
    import urllib.parse
    ps = pieces(eng, v)
    if ps is None:
        return None
    for p in ps:
        if not isinstance(p, Const) and not ({'%'} | ({'+'} if plus else set())) <= excl(eng, p):
            return None
        if isinstance(p, Const) and not isinstance(p.v, str):
            return None
    from .models import concat
    f = urllib.parse.unquote_plus if plus else urllib.parse.unquote
    return concat([Const(f(p.v)) if isinstance(p, Const) else p for p in ps])


def meth(eng, st, v, name, args, kw):
    """value of a string method on a template -> V or a list of V (a list object), or None"""
    ps = pieces(eng, v)
    if ps is None:
        return None
    k = dict(kw)
    if name in ('find', 'index') and 1 <= len(args) <= 3 and not k:
        r = find(eng, st, v, *args)
        return None if r is None or (name == 'index' and r == Const(-1)) else r
    if name in ('partition', 'rpartition') and len(args) == 1:
        r = cuts(eng, st, v, args[0], 1, name[0] == 'r')
        if r is None:
            return None
        e = Const(args[0].v[:0])
        if len(r) == 1:
            return Tup((e, e, r[0]) if name[0] == 'r' else (r[0], e, e))
        return Tup((r[0], args[0], r[1]))
    if name in ('split', 'rsplit') and 1 <= len(args) + len(k) <= 2:
        sep = args[0] if args else k.get('sep')
        m = args[1] if len(args) > 1 else k.get('maxsplit', Const(-1))
        if sep is None or not isinstance(m, Const) or not isinstance(m.v, int):
            return None
        return cuts(eng, st, v, sep, m.v, name[0] == 'r')
    if name in ('strip', 'lstrip', 'rstrip') and len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, (str, bytes)):
        out = list(ps)
        for side in ('l', 'r'):
            if name[0] not in (side, 's'):
                continue
            while out:
                at = 0 if side == 'l' else -1
                p = out[at]
                if isinstance(p, Const):
                    w = p.v.lstrip(args[0].v) if side == 'l' else p.v.rstrip(args[0].v)
                    if w:
                        out[at] = Const(w)
                        break
                    out.pop(at)
                    continue
                if not set(chars(args[0].v)) <= excl(eng, p):
                    return None
                if not ge(st, len_of(p), Const(1)):
                    return None
                break
        from .models import concat
        return concat(out, args[0].v[:0])
    if name == 'count' and len(args) == 1:
        r = cuts(eng, st, v, args[0])
        return None if r is None else Const(len(r) - 1)
    if name == 'replace' and len(args) == 2 and all(isinstance(a, Const) and isinstance(a.v, (str, bytes)) for a in args) and len(args[0].v) == 1:
        from .models import concat
        out = []
        for p in ps:
            if isinstance(p, Const):
                out.append(Const(p.v.replace(args[0].v, args[1].v)))
            elif args[0].v in excl(eng, p):
                out.append(p)
            else:
                out.append(App('replace', p, *args))
        return concat(out, args[0].v[:0])
    if name in ('decode', 'encode') and len(ps) > 1:
        from .models import concat, enc_name
        enc = enc_name(args[0] if args else k.get('encoding', Const('utf8')))
        if enc not in (Const('latin1'), Const('utf8'), Const('ascii')) or any(a != Const('strict') for a in list(args[1:]) + [k.get('errors', Const('strict'))]):
            return None
        if any(isinstance(p, Const) and any(c > ('\x7f' if isinstance(p.v, str) else b'\x7f') for c in chars(p.v)) for p in ps):
            return None
        if name == 'decode' and enc != Const('latin1') or name == 'encode' and enc != Const('utf8'):
            return None
        return concat([Const(getattr(p.v, name)(enc.v)) if isinstance(p, Const) else App(name, p, enc, Const('strict')) for p in ps],
                      '' if name == 'decode' else b'')
    return None


# ------------------------------------------------------------------ regular expressions
class Unknown(Exception):
    pass


def charset(op, av, flags):
    """predicate c -> bool and the negated flag of a single-character node; (kind, set) with kind in 'in', 'notin'"""
    import re._constants as k
    import re
    if op == k.LITERAL:
        return lambda c: ord(c) == av, None
    if op == k.NOT_LITERAL:
        return lambda c: ord(c) != av, {chr(av)}
    if op == k.ANY:
        return (lambda c: True, set()) if flags & re.S else (lambda c: c != '\n', {'\n'})
    if op == k.IN:
        neg = av and av[0][0] == k.NEGATE
        items = av[1:] if neg else av
        plain = True

        def one(c):
            for o, a in items:
                if o == k.LITERAL and ord(c) == a or o == k.RANGE and a[0] <= ord(c) <= a[1]:
                    return True
                if o == k.CATEGORY:
                    x = {k.CATEGORY_DIGIT: r'\d', k.CATEGORY_NOT_DIGIT: r'\D', k.CATEGORY_WORD: r'\w', k.CATEGORY_NOT_WORD: r'\W',
                         k.CATEGORY_SPACE: r'\s', k.CATEGORY_NOT_SPACE: r'\S'}[a]
                    if re.match(x, c):
                        return True
            return False
        listed = None
        if all(o == k.LITERAL or o == k.RANGE and a[1] - a[0] < 300 for o, a in items):
            listed = {chr(x) for o, a in items for x in ([a] if o == k.LITERAL else range(a[0], a[1] + 1))}
        if neg:
            return (lambda c: not one(c)), listed
        return one, None
    return None


def positive(op, av):
    """the finite set of characters a node accepts, or None"""
    import re._constants as k
    if op == k.LITERAL:
        return {chr(av)}
    if op == k.IN and not (av and av[0][0] == k.NEGATE) and all(o == k.LITERAL or o == k.RANGE and a[1] - a[0] < 300 for o, a in av):
        return {chr(x) for o, a in av for x in ([a] if o == k.LITERAL else range(a[0], a[1] + 1))}
    return None


class Matcher:
    def __init__(self, eng, st, rx, ps):
        self.eng, self.st, self.rx, self.ps = eng, st, rx, ps

    def in_piece(self, p, op, av):
        """True: every character of the piece matches, False: none does"""
        pred, neg = charset(op, av, self.rx.flags)
        o = self.eng.policy.only.get(p)
        if o is not None:
            r = {pred(c) for c in o}
            if len(r) == 1:
                return r.pop()
            raise Unknown
        e = excl(self.eng, p)
        if neg is not None and neg <= e:
            return True
        pos = positive(op, av)
        if pos is not None and pos <= e:
            return False
        raise Unknown

    def norm(self, pos):
        k, o = pos
        if o == 'mid':
            return pos
        while k < len(self.ps) and isinstance(self.ps[k], Const) and o >= len(self.ps[k].v):
            k, o = k + 1, 0
        return k, o

    def single(self, nodes):
        import re._constants as k
        return len(nodes) == 1 and nodes[0][0] in (k.LITERAL, k.NOT_LITERAL, k.ANY, k.IN)

    def seq(self, nodes, pos, groups):
        if not nodes:
            yield pos, groups
            return
        for p, g in self.one(nodes[0], pos, groups):
            yield from self.seq(nodes[1:], p, g)

    def one(self, node, pos, groups):
        import re._constants as k
        op, av = node
        pos = self.norm(pos)
        end = pos[0] >= len(self.ps)
        if op in (k.LITERAL, k.NOT_LITERAL, k.ANY, k.IN):
            if end:
                return
            p = self.ps[pos[0]]
            if pos[1] == 'mid':
                if self.in_piece(p, op, av):
                    raise Unknown
                return
            if isinstance(p, Const):
                if charset(op, av, self.rx.flags)[0](p.v[pos[1]]):
                    yield (pos[0], pos[1] + 1), groups
                return
            if self.in_piece(p, op, av):
                raise Unknown       # ends inside the piece
            return
        if op in (k.MAX_REPEAT, k.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            yield from self.repeat(lo, hi, list(sub), pos, groups, 0)
            return
        if op == k.MIN_REPEAT:
            lo, hi, sub = av
            yield from self.lazy(lo, hi, list(sub), pos, groups, 0)
            return
        if op == k.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unknown
            for p, g in self.seq(list(sub), pos, groups):
                yield p, (g if gid is None else dict(g, **{str(gid): (pos, self.norm(p))}))
            return
        if op == k.BRANCH:
            for sub in av[1]:
                yield from self.seq(list(sub), pos, groups)
            return
        if op == k.AT:
            if av in (k.AT_BEGINNING, k.AT_BEGINNING_STRING):
                if pos == self.norm((0, 0)):
                    yield pos, groups
                return
            if av == k.AT_END_STRING:
                if end:
                    yield pos, groups
                return
            if av == k.AT_END:
                if end:
                    yield pos, groups
                    return
                p = self.ps[pos[0]]
                if pos[1] == 'mid':
                    if '\n' in excl(self.eng, p):
                        return
                    raise Unknown
                if self.norm((pos[0], pos[1] + 1))[0] >= len(self.ps) and isinstance(p, Const):
                    if p.v[pos[1]] == '\n':
                        yield pos, groups
                    return
                if not isinstance(p, Const) and '\n' not in excl(self.eng, p):
                    raise Unknown
                return
            raise Unknown
        if op in (k.ASSERT, k.ASSERT_NOT):
            if av[0] != 1:
                raise Unknown
            hit = next(iter(self.seq(list(av[1]), pos, groups)), None)
            if (hit is not None) == (op == k.ASSERT):
                yield pos, groups
            return
        raise Unknown

    def repeat(self, lo, hi, sub, pos, groups, n):
        import re._constants as k
        pos = self.norm(pos)
        if n < hi:
            if self.single(sub) and pos[0] < len(self.ps) and not isinstance(self.ps[pos[0]], Const):
                p = self.ps[pos[0]]
                if pos[1] == 'mid':
                    if self.in_piece(p, *sub[0]):
                        raise Unknown
                elif self.in_piece(p, *sub[0]):
                    if hi != k.MAXREPEAT or lo > n + 1 or not ge(self.st, len_of(p), Const(1)):
                        raise Unknown
                    yield from self.repeat(lo, hi, sub, (pos[0] + 1, 0), groups, n + 1)
                    yield from self.repeat(lo, n + 1, sub, (pos[0], 'mid'), groups, n + 1)       # fewer characters of the piece
            else:
                for p, g in self.seq(sub, pos, groups):
                    if p != pos:
                        yield from self.repeat(lo, hi, sub, p, g, n + 1)
        if n >= lo:
            yield pos, groups


    def lazy(self, lo, hi, sub, pos, groups, n):
        import re._constants as k
        pos = self.norm(pos)
        if n >= lo:
            yield pos, groups
        if n >= hi:
            return
        if self.single(sub) and pos[0] < len(self.ps) and not isinstance(self.ps[pos[0]], Const):
            p = self.ps[pos[0]]
            if pos[1] == 'mid':
                if self.in_piece(p, *sub[0]):
                    raise Unknown
            elif self.in_piece(p, *sub[0]):
                if hi != k.MAXREPEAT or lo > n + 1 or not ge(self.st, len_of(p), Const(1)):
                    raise Unknown
                yield (pos[0], 'mid'), groups
                yield from self.lazy(lo, hi, sub, (pos[0] + 1, 0), groups, n + 1)
            return
        for p, g in self.seq(sub, pos, groups):
            if p != pos:
                yield from self.lazy(lo, hi, sub, p, g, n + 1)


def uniform(rx, allowed):
    """every character class of the pattern treats all the allowed bytes alike"""
    import re._parser as P
    import re._constants as k
    if rx.flags & re_flags:
        return False
    preds = []

    def walk(nodes):
        for op, av in nodes:
            if op in (k.LITERAL, k.NOT_LITERAL, k.ANY, k.IN):
                preds.append(charset(op, av, rx.flags)[0])
            elif op == k.AT:
                if av in (k.AT_BOUNDARY, k.AT_NON_BOUNDARY):
                    return False
            elif op == k.BRANCH:
                if not all(walk(x) for x in av[1]):
                    return False
            elif op == k.SUBPATTERN:
                if not walk(av[3]):
                    return False
            elif op in (k.MAX_REPEAT, k.MIN_REPEAT, k.POSSESSIVE_REPEAT):
                if not walk(av[2]):
                    return False
            elif op in (k.ASSERT, k.ASSERT_NOT):
                if not walk(av[1]):
                    return False
            elif op == k.ATOMIC_GROUP:
                if not walk(av):
                    return False
            else:
                return False
        return True
    if not walk(P.parse(rx.pattern, rx.flags & ~32 if isinstance(rx.pattern, str) else rx.flags)):
        return False
    return all(len({bool(p(chr(c))) for c in allowed}) <= 1 for p in preds)


re_flags = 2        # re.I
UNIFORM = {}


def byte_tokens(eng, v):
    """one term per byte of a text of constants and unknown single bytes, or None"""
    toks = []
    for p in v.args if isinstance(v, App) and v.op == 'concat' else (v,):
        if isinstance(p, Const) and isinstance(p.v, bytes):
            toks += chars(p.v)
        elif isinstance(p, Sym) and p.name.startswith('byte:') and eng.policy.excl.get(p):
            toks.append(p)
        else:
            return None
    return toks


def byte_same(eng, a, b):
    """True, False or None for two of them"""
    if a == b:
        return True
    if isinstance(a, bytes) and isinstance(b, bytes):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and isinstance(y, bytes):
            return False if y in eng.policy.excl[x] else None
    return None


def toks_same(eng, a, b):
    if len(a) != len(b):
        return False
    r = [byte_same(eng, x, y) for x, y in zip(a, b)]
    return False if False in r else None if None in r else True


def byte_meth(eng, v, w, name):
    """v.startswith(w) and the like for texts with unknown bytes"""
    a, b = byte_tokens(eng, v), byte_tokens(eng, w)
    if a is None or b is None:
        return None
    n = len(b)
    if name in ('startswith', 'endswith'):
        r = False if n > len(a) else toks_same(eng, a[:n] if name == 'startswith' else a[len(a) - n:], b)
        return None if r is None else Const(r)
    hits = [toks_same(eng, a[i:i + n], b) for i in range(len(a) - n + 1)]
    if name == 'count':
        return Const(0) if all(h is False for h in hits) else None
    order = range(len(hits)) if name == 'find' else range(len(hits) - 1, -1, -1)
    for i in order:
        if hits[i] is None:
            return None
        if hits[i]:
            return Const(i)
    return Const(-1)


def bytes_match(eng, rx, v, how, extra):
    """rematch for unknown single bytes that the pattern cannot tell apart"""
    if not isinstance(rx.pattern, bytes) or not all(isinstance(a, Const) and isinstance(a.v, int) for a in extra):
        return None
    ps = v.args if isinstance(v, App) and v.op == 'concat' else (v,)
    rep, toks = b'', []
    for p in ps:
        if isinstance(p, Const) and isinstance(p.v, bytes):
            rep += p.v
            toks += [Const(x) for x in chars(p.v)]
        elif isinstance(p, Sym) and p.name.startswith('byte:') and eng.policy.excl.get(p):
            e = frozenset(eng.policy.excl[p])
            key = rx, e
            if key not in UNIFORM:
                allowed = [c for c in range(256) if bytes([c]) not in e]
                UNIFORM[key] = bytes(allowed[-1:]) if uniform(rx, allowed) else None
            if UNIFORM[key] is None:
                return None
            rep += UNIFORM[key]
            toks.append(p)
        else:
            return None
    m = getattr(rx, how)(rep, *[a.v for a in extra])
    if m is None:
        return False
    from .models import concat
    return {g: (Const(m.start(g)), Const(m.end(g)), concat(toks[m.start(g):m.end(g)], b'')) for g in range(rx.groups + 1) if m.start(g) >= 0}


def rematch(eng, st, rx, v, how, extra=()):
    """None (unknown), False (no match) or {group: (start term, end term, text)} for a compiled pattern and a template"""
    hit = bytes_match(eng, rx, v, how, extra)
    if hit is not None or extra:
        return hit
    ps = pieces(eng, v)
    if ps is None or how not in ('match', 'fullmatch') or not isinstance(rx.pattern, str):
        return None
    import re._parser as P
    import re._constants as k
    try:
        tree = list(P.parse(rx.pattern, rx.flags & ~32))
        if how == 'fullmatch':
            tree.append((k.AT, k.AT_END_STRING))
        m = Matcher(eng, st, rx, ps)
        hit = next(iter(m.seq(tree, (0, 0), {})), None)
    except Unknown:
        return None
    except RecursionError:
        return None
    if hit is None:
        return False
    if hit[0][1] == 'mid' or any(x[1] == 'mid' for g in hit[1].values() for x in g):
        return None
    offs, end = offsets(ps)

    def term(pos):
        pos = m.norm(pos)
        return end if pos[0] >= len(ps) else lin_add(offs[pos[0]], Const(pos[1]))
    out = {}
    for g, (a, b) in dict(hit[1], **{'0': ((0, 0), hit[0])}).items():
        a, b = m.norm(a), m.norm(b)
        out[int(g)] = (term(a), term(b), cut(ps, a, b))
    return out
