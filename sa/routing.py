"""Routers built from rule sets, request paths with unknown pieces, and the plain rule-by-rule answer to compare with.

A path is a tuple of tokens: a string stands for itself, a Piece for an unknown text of any length >= 1 that holds
only (or holds none of) some characters.  The router is built and asked by interpreting the repository's functions on
these terms (templ.py); the answer of the plain matcher is computed here, from the rule text alone.
"""
import re
from .rule import *
from .web import *
from . import templ

ROUTER = 'ombott.router.radirouter'


class Piece:
    def __init__(self, name, only=None, excl='/'):
        self.name, self.only, self.excl = name, only, excl
        self.sym = Sym('path:' + name, 'str')

    def __repr__(self):
        return '<%s>' % self.name

    def declare(self, pol, st):
        if self.only is not None:
            pol.only[self.sym] = frozenset(self.only)
            pol.excl[self.sym] = frozenset()
        else:
            pol.excl[self.sym] = frozenset(self.excl)
        st.add_lin(lin_sub(App('len', self.sym), Const(1)))
        st.learn(App('truthy', self.sym), True)


def path_text(path):
    return ''.join(p if isinstance(p, str) else repr(p) for p in path)


# ------------------------------------------------------------------ rules
WILD = re.compile(r'<(?P<n>\w*)(?:[:.](?P<f>\w+)(?:[:(](?P<a>[^>]*?)\)?)?)?>|\{(?P<n2>\w+)\}|:(?P<n3>\w+)')


class Rule:
    """a rule in the forms this module writes: <n>, <n:f>, <n:f:a>, <n.f(a)>, {n}, :n"""
    anon = False

    def __init__(self, text):
        self.text = text
        self.parts = []         # ('lit', text) | ('wild', name, filter, args)
        at = 0
        body = text[1:]
        while at < len(body):
            m = WILD.match(body, at)
            if m:
                n = m.group('n') or m.group('n2') or m.group('n3')
                f = m.group('f')
                if m.group(0)[:2] == '<:':
                    n, f = None, m.group(0)[2:].split('>')[0].split('(')[0].split(':')[0]
                self.parts.append(['wild', n, f, m.group('a')])
                at = m.end()
            else:
                n = WILD.search(body, at)
                e = n.start() if n else len(body)
                self.parts.append(['lit', body[at:e]])
                at = e
        for k, p in enumerate(self.parts):
            if p[0] == 'wild' and p[2] == 'path':
                p[3] = self.parts[k + 1][1] if k + 1 < len(self.parts) and self.parts[k + 1][0] == 'lit' else None

    def tokens(self):
        out = []
        for p in self.parts:
            out += list(p[1]) if p[0] == 'lit' else [('wild', p[2], p[3])]
        return out

    def same(self, other):
        return self.tokens() == other.tokens()

    def clash(self, other):
        """one position holds wildcards with different filters: refused when registered"""
        for a, b in zip(self.tokens(), other.tokens()):
            if a == b:
                continue
            return not isinstance(a, str) and not isinstance(b, str)
        return False

    def lits(self):
        return ''.join(p[1] for p in self.parts if p[0] == 'lit')

    def names(self):
        return [p[1] for p in self.parts if p[0] == 'wild']


def regex(f, a):
    if f == 'int':
        return r'-?\d+'
    if f == 'float':
        return r'-?\d+(\.\d+)?'
    if f == 're':
        return a
    if f == 'path':
        return '.+(?=%s)' % re.escape(a) if a else '.+$'
    return None


def plain_match(eng, st, rule, ps, ends=None):
    """ends collects the length of the path that is read after each token of the rule;
    None (no match), a list of values (terms), or '?' when the pieces do not decide it; ps: pieces without outer slashes"""
    offs, end = templ.offsets(ps)
    pos = (0, 0)

    def mark(pos):
        pos = m.norm(pos)
        if ends is not None:
            ends.append(end if pos[0] >= len(ps) else lin_add(offs[pos[0]], Const(pos[1])))
    m = templ.Matcher(eng, st, re.compile(''), ps)
    out = []
    for p in rule.parts:
        if p[0] == 'lit':
            for ch in p[1]:
                pos = m.norm(pos)
                if pos[0] >= len(ps):
                    return None
                x = ps[pos[0]]
                if isinstance(x, Const):
                    if x.v[pos[1]] != ch:
                        return None
                    pos = (pos[0], pos[1] + 1)
                    mark(pos)
                elif ch in templ.excl(eng, x):
                    return None
                else:
                    return '?'
            continue
        rx = regex(p[2], p[3])
        pos = m.norm(pos)
        if pos[0] >= len(ps):
            return None if rx is not None and not re.match(rx, '') else '?'        # an empty wildcard at the end: not settled
        start = pos
        if rx is None:
            while pos[0] < len(ps):
                x = ps[pos[0]]
                if isinstance(x, Const):
                    if x.v[pos[1]] == '/':
                        break
                    pos = m.norm((pos[0], pos[1] + 1))
                elif '/' in templ.excl(eng, x):
                    pos = (pos[0] + 1, 0)
                else:
                    return '?'
            out.append(templ.cut(ps, start, pos))
            if pos == start:
                out[-1] = Const('')
            mark(pos)
            continue
        if pos[0] < len(ps):
            rest = templ.cut(ps, pos, (len(ps), 0))
        rp = rest.args if isinstance(rest, App) and rest.op == 'concat' else (rest,)
        if all(isinstance(x, Const) for x in rp):
            mt = re.compile(rx).match(rp[0].v)
            if mt is None:
                return None
            n, text = mt.end(), Const(mt.group())
            k = pos
            while n:
                k = m.norm((k[0], k[1] + 1))
                n -= 1
            pos = k
        else:
            hit = templ.rematch(eng, st, re.compile(rx), rest, 'match')
            if hit is None:
                return '?'
            if hit is False:
                return None
            text = hit[0][2]
            goal = templ.locate(st, rp, hit[0][1])
            if goal is None:
                return '?'
            # rp are the pieces from pos on
            k0 = pos[0]
            pos = (k0 + goal[0], goal[1] + (pos[1] if goal[0] == 0 else 0))
        if p[2] in ('int', 'float'):
            if isinstance(text, Const):
                text = Const({'int': int, 'float': float}[p[2]](text.v))
            else:
                text = App(p[2], text)
        out.append(text)
        mark(pos)
    pos = m.norm(pos)
    return out if pos[0] >= len(ps) else None


def better(a, b):
    """the rule that has literal text at the first position where the two differ"""
    for x, y in zip(a.tokens(), b.tokens()):
        if x != y:
            if isinstance(x, str) and not isinstance(y, str):
                return a
            if isinstance(y, str) and not isinstance(x, str):
                return b
            return None
    return None


def plain(eng, st, rules, path):
    """('hit', rule, values) | ('miss',) | ('?',)"""
    ps = pieces_of(path)
    if ps is None:
        return ('?',)
    best = None
    for r in rules:
        v = plain_match(eng, st, r, ps)
        if v == '?':
            return ('?',)
        if v is None:
            continue
        if best is None:
            best = (r, v)
        else:
            w = better(best[0], r)
            if w is None:
                return ('?',)
            if w is r:
                best = (r, v)
    return ('hit',) + best if best else ('miss',)


def pieces_of(path):
    """merged pieces without the slashes at both ends"""
    out = []
    for p in path:
        if isinstance(p, str):
            if out and isinstance(out[-1], Const):
                out[-1] = Const(out[-1].v + p)
            else:
                out.append(Const(p))
        else:
            out.append(p.sym)
    while out and isinstance(out[0], Const):
        t = out[0].v.lstrip('/')
        if t:
            out[0] = Const(t)
            break
        out.pop(0)
    while out and isinstance(out[-1], Const):
        t = out[-1].v.rstrip('/')
        if t:
            out[-1] = Const(t)
            break
        out.pop()
    return tuple(out) if out else None


# ------------------------------------------------------------------ the repository's router
class World:
    def __init__(self, c, eng):
        self.c, self.eng = c, eng
        self.pol = Policy(join_at=10**9, peel=80)
        self.pol.unroll = 80
        self.pol.asserts = True
        self.pol.excl = {Sym('no:piece'): frozenset()}
        self.st = start(eng, self.pol, ROUTER)
        self.router = None
        r = eng.call(self.st, eng.lookup(ROUTER, 'RadiRouter'), [], {}, NODE)
        if len(r) == 1 and not isinstance(r[0][1], Exc):
            self.st, self.router = r[0]

    def handler(self, name):
        return Sym('handler:' + name, 'func')

    def call(self, st, _method, *args, **kw):
        out = []
        for s, m in self.eng.getattr_(st, self.router, _method, NODE):
            if isinstance(m, Exc):
                out.append((s, m))
            else:
                out += self.eng.call(s, m, list(args), list(kw.items()), NODE)
        return out

    def add(self, st, rule, name=None, method='GET', handler=None, **kw):
        k = {n: Const(v) for n, v in kw.items()}
        if name:
            k['name'] = Const(name)
        return self.call(st, 'add', Const(rule), Const(method), self.handler(handler or rule), **k)

    def built(self, rules):
        """the one state after registering the rules in this order, else None"""
        st = self.st
        for r in rules:
            res = self.add(st, r.text if isinstance(r, Rule) else r)
            if len(res) != 1 or isinstance(res[0][1], Exc):
                return None, res
            st = res[0][0]
        return st, None

    def path(self, st, path):
        st = st.fork()
        for p in path:
            if isinstance(p, Piece):
                p.declare(self.pol, st)
        return st, models.concat([Const(p) if isinstance(p, str) else p.sym for p in path], '')

    def resolve(self, st, path, method='GET'):
        """[(state, answer)]: ('hit', handler, {name: value}, hooks) | ('miss', code) | ('raise', exc) | ('?', text)"""
        st, text = self.path(st, path)
        out = []
        for s, v in self.call(st, 'resolve', text, Const(method)):
            out.append((s, self.answer(s, v)))
        return out

    def answer(self, s, v):
        eng = self.eng
        if isinstance(v, Exc):
            return ('raise', v)
        its = v.items if isinstance(v, Tup) else eng.known_items(s, v) if isinstance(v, Ref) else None
        if its is None or len(its) != 2:
            return ('?', str(v))
        end, err = its
        if end == NONE:
            e = eng.known_items(s, err) if isinstance(err, Ref) else err.items if isinstance(err, Tup) else None
            if not e or not isinstance(e[0], Const):
                return ('?', str(err))
            return ('miss', e[0].v, e[2] if len(e) > 2 else None)
        e = eng.known_items(s, end) if isinstance(end, Ref) else end.items if isinstance(end, Tup) else None
        if e is None or len(e) < 3:
            return ('?', str(end))
        hs = eng.getattr_(s, e[0], 'handler', NODE)
        if len(hs) != 1 or isinstance(hs[0][1], Exc):
            return ('?', 'handler of %s' % (e[0],))
        if not isinstance(e[1], Ref) or s.get(e[1]).kind != 'dict' or s.get(e[1]).open is not None:
            return ('?', 'parameters %s' % (e[1],))
        return ('hit', hs[0][1], list(s.get(e[1]).items), e[2])


def understood(v):
    """a value term made of path pieces only"""
    for t in subterms(v):
        if isinstance(t, Sym) and not t.name.startswith('path:') and not t.name.startswith('handler:'):
            return False
        if isinstance(t, App) and t.op not in ('concat', 'slice', 'int', 'float', 'item', 'len', 'replace', 'strip', 'lower', 'upper'):
            return False
    return True


def norm_value(v):
    if isinstance(v, App) and v.op == 'call' and isinstance(v.args[0], Ext) and v.args[0].name in ('builtins.float', 'builtins.int') and len(v.args) == 2:
        return App(v.args[0].name[9:], v.args[1])
    return v


def vague(eng, st):
    for t in st.truth:
        for x in subterms(t):
            if isinstance(x, Sym) and (x.name.startswith(('mu:', 'ret:', 'at'))):
                return 'loop value %s' % x
            if isinstance(x, App) and x.op in ('fmt', 'pct', 'strfmt', 'repr'):
                return 'formatted text'
            if isinstance(x, App) and x.op in ('rematch', 'item', 'slice') and any(isinstance(y, Sym) and y.name.startswith('path:') for y in subterms(x)) \
                    and not (x.op == 'rematch' and decided(eng, st, x)):
                return 'undecided text'
    return None


def decided(eng, st, m):
    rx = models.re_obj(m.args[0])
    return rx is not None and len(m.args) == 3 and templ.rematch(eng, st, rx, m.args[1], m.args[2].v) is not None
