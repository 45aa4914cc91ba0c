"""C18: query strings and urlencoded forms decode to exactly what was sent."""
import itertools
from ..rule import *
from ..web import *

EXPLANATION = (
    'Abstract interpretation of Request.query, Request.forms and Request.params on template strings: unknown pieces of any length '
    'that hold neither "=" nor "&", joined by these separators (every arrangement of up to four separators, with empty pieces).  '
    'Scans for separators and slices between them are exact for all piece lengths; the decoded key and value terms and the resulting '
    'mapping are compared with what was sent.')
RULES = {
    'pairs': 'the parsed mapping holds every key/value pair that was sent and nothing else; repeated keys give a list in submission order',
    'decode': 'keys and values are decoded by replacing "+" by a space, then percent-decoding as UTF-8',
    'total': 'no arrangement of separators raises or keeps the parser from ending',
    'params': 'params combines the query and the form values',
}
REQ = 'ombott.request_pkg.body_mixin:BodyMixin.'
ALTERS = ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'expandtabs')
ASCII = ('latin1', 'utf8', 'ascii')


class Pieces:
    def __init__(self, pol, binary=False):
        self.pol, self.binary, self.n, self.stop = pol, binary, 0, '=&'

    def new(self, name, st):
        s = Sym(name, 'bytes' if self.binary else 'str')
        self.pol.excl[s] = {x.encode() if self.binary else x for x in self.stop}
        st.add_lin(lin_sub(App('len', s), Const(1)))
        st.learn(App('truthy', s), True)
        if self.binary:
            for enc in ASCII:
                t = App('decode', s, Const(enc), Const('strict'))
                st.add_lin(lin_sub(App('len', t), Const(1)))
                st.learn(App('truthy', t), True)
        return s

    def sep(self, c):
        return Const(c.encode() if self.binary else c)


def raw(v):
    """the piece below decodes that keep ASCII"""
    while isinstance(v, App) and v.op in ('decode', 'encode') and len(v.args) > 1 and v.args[1] in [Const(a) for a in ASCII]:
        v = v.args[0]
    return v


def ext_call(v, *names):
    return isinstance(v, App) and v.op == 'call' and isinstance(v.args[0], Ext) and v.args[0].name in names


def decoded(v):
    """what the decoded text v was before: ('ok', piece) | ('bad', why) | ('?', why)"""
    if isinstance(v, Const):
        return 'ok', v
    y = v
    while isinstance(y, App) and y.op in ALTERS and not isinstance(y.args[0], Const):
        y = y.args[0]
    if y != v and decoded(y)[0] == 'ok':
        return 'bad', '%s changes what was sent' % v.op
    x = v
    cut = next((t for t in subterms(v) if isinstance(t, App) and t.op == 'slice' and isinstance(raw(t.args[0]), Sym)), None)
    if cut is not None:
        return ('bad', 'truncated: %s' % cut) if truncated(cut) else ('?', str(v))
    # percent decoding
    if ext_call(x, 'urllib.parse.unquote_plus', 'urllib.parse.unquote'):
        a = x.args[1:]
        plus = x.args[0].name.endswith('plus')
        enc = [y for y in a[1:]]
        flat = []
        for y in enc:
            flat += [y.args[1]] if isinstance(y, App) and y.op == 'kw' else [y]
        for y in flat:
            if isinstance(y, Const) and isinstance(y.v, str):
                w = models.ENC.get(y.v.lower(), y.v.lower())
                if w in ('latin1', 'ascii', 'cp1252'):
                    return 'bad', 'percent escapes are decoded as %s' % w
                if w == 'strict':
                    return 'bad', 'a percent escape that is not UTF-8 raises'
                if w in ('utf8', 'replace', 'encoding', 'errors', 'ignore', 'surrogateescape', 'backslashreplace', 'surrogatepass', 'xmlcharrefreplace', 'namereplace'):
                    continue
            if y == NONE:
                continue
            return '?', str(y)
        x = a[0]
        if plus:
            y = raw(x)
            if isinstance(y, Sym):
                return 'ok', y
            return ('bad', '+ is replaced before') if isinstance(y, App) and y.op == 'replace' and isinstance(raw(y.args[0]), Sym) and y.args[1] != Const('+') else ('?', str(v))
    elif isinstance(x, App) and x.op == 'decode' and ext_call(x.args[0], 'urllib.parse.unquote_to_bytes'):
        if x.args[1] != Const('utf8'):
            return 'bad', 'percent escapes are decoded as %s' % (x.args[1],)
        if x.args[2] == Const('strict'):
            return 'bad', 'a percent escape that is not UTF-8 raises'
        x = x.args[0].args[1]
    elif isinstance(x, App) and x.op == 'replace' and ext_call(x.args[0], 'urllib.parse.unquote') and isinstance(raw(x.args[0].args[1]), Sym) and x.args[1] in (Const('+'), Const(b'+')):
        return 'bad', '+ is replaced after percent decoding, so an escaped + is lost'
    else:
        y = raw(x)
        while isinstance(y, App) and y.op == 'replace':
            y = raw(y.args[0])
        if isinstance(y, Sym):
            return 'bad', 'percent escapes are not decoded'
        return '?', str(v)
    y = raw(x)
    if isinstance(y, Sym):
        return 'bad', '+ is not decoded'
    if isinstance(y, App) and y.op == 'replace' and y.args[1] in (Const('+'), Const(b'+')) and isinstance(raw(y.args[0]), Sym):
        if y.args[2] in (Const(' '), Const(b' '), Const('%20'), Const(b'%20')):
            return 'ok', raw(y.args[0])
        return 'bad', '+ is decoded to %s' % (y.args[2],)
    return '?', str(v)


def truncated(t):
    """a slice that leaves out a part of a piece that is long enough"""
    x, lo, hi = t.args[:3]
    if isinstance(lo, Const) and isinstance(lo.v, int) and lo.v > 0:
        return True
    d = lin_sub(len_of(x), hi) if hi != NONE else None
    return isinstance(d, Const) and d.v > 0


def request(c, eng, fields, body=None):
    """[(state, pol, request)] with an environ that has these fields"""
    pol = Policy(join_at=10**9, peel=7)
    st = start(eng, pol, 'ombott.ombott')
    st, app = default_app(eng, st)
    st = st.fork()
    return pol, st, app, fields, body


def template(P, st, shape, names):
    """shape: tokens; a name stands for a piece"""
    parts, made = [], {}
    for t in shape:
        if t in ('=', '&'):
            parts.append(P.sep(t))
        elif t:
            made.setdefault(t, None)
            if made[t] is None:
                made[t] = P.new(names + t, st)
            parts.append(made[t])
    return models.concat(parts, b'' if P.binary else ''), made


def query(eng, st, app, qs):
    for k in ('QUERY_STRING',):
        st.learn(App('in', Const(k), ENVIRON), True)
        st.sto[(ENVIRON, 'i', Const(k))] = qs
    return read(eng, st, app, 'query')


def forms(eng, st, app, body, pol, ctype='application/x-www-form-urlencoded', what='forms'):
    pol.opaque[REQ + '_get_body_string'] = lambda eng, st, fv, args, kw, node: [(st, body)]
    k = Const('CONTENT_TYPE')
    st.learn(App('in', k, ENVIRON), True)
    st.sto[(ENVIRON, 'i', k)] = Const(ctype)
    return read(eng, st, app, what)


def read(eng, st, app, name):
    req = st.get(app).attrs['request']
    # nothing cached yet
    for k in ('query', 'get', 'post', 'forms', 'files', 'json', 'body', 'content_type', 'ctype', 'params'):
        st.learn(App('in', Const('ombott.request.' + k), ENVIRON), False)
    return eng.getattr_(st, req, name, NODE)


def contents(eng, st, v):
    """[(key term, value term)] of the mapping, or None"""
    if not isinstance(v, Ref):
        return None
    o = st.get(v)
    if o.kind != 'dict' or o.open is not None:
        return None
    return list(o.items)


def values(eng, st, v):
    if isinstance(v, Ref) and st.get(v).kind == 'list':
        return eng.known_items(st, v), True
    return [v], False


def vague(st):
    w = vague_state(st)
    if w:
        return w
    for t in list(st.truth):
        for x in subterms(t):
            if isinstance(x, Sym) and (x.name.startswith('mu:') or x.name.startswith('ret:')):
                return 'loop value %s' % x
            if isinstance(x, App) and x.op in ('item', 'slice', 'find') and isinstance(x.args[0], App) and x.args[0].op == 'concat':
                return 'unknown position'
            if isinstance(x, App) and x.op in ('split', 'rematch', 'finditer', 'partition'):
                return 'unknown split'
    return None


SHAPES = [
    (['k', '=', 'v'], [('k', 'v')]),
    (['k', '=', ''], [('k', '')]),
    (['k', '=', 'v', '&', 'j', '=', 'w'], [('k', 'v'), ('j', 'w')]),
    (['k', '=', 'v', '&', 'k', '=', 'w'], [('k', 'v'), ('k', 'w')]),
    (['k', '=', '', '&', 'k', '=', 'w'], [('k', ''), ('k', 'w')]),
    (['k', '=', 'v', '&', 'k', '=', ''], [('k', 'v'), ('k', '')]),
    (['k', '=', '', '&', 'k', '=', ''], [('k', ''), ('k', '')]),
    (['k', '=', '', '&', 'j', '=', 'w'], [('k', ''), ('j', 'w')]),
    (['k', '=', 'v', '&', 'j', '=', ''], [('k', 'v'), ('j', '')]),
    (['k', '=', 'v', '&', 'k', '=', 'w', '&', 'k', '=', 'x'], [('k', 'v'), ('k', 'w'), ('k', 'x')]),
    (['k', '=', 'v', '&', 'j', '=', 'w', '&', 'k', '=', 'x'], [('k', 'v'), ('j', 'w'), ('k', 'x')]),
    (['k', '=', 'v', '&', 'k', '=', 'v', '&', 'k', '=', 'v', '&', 'k', '=', 'w'], [('k', 'v'), ('k', 'v'), ('k', 'v'), ('k', 'w')]),
    (['k', '=', 'v', '&', 'j', '=', 'w', '&', 'k', '=', 'x', '&', 'j', '=', ''], [('k', 'v'), ('j', 'w'), ('k', 'x'), ('j', '')]),
]


def judge(c, eng, st, v, pairs, made, where, rule='pairs'):
    vg = vague(st)
    if isinstance(v, Exc):
        c.verdict(False, vg, 'total', where, 'raises %s' % (v.val,), st)
        return
    got = contents(eng, st, v)
    if got is None:
        c.und(rule, where, 'the result is %s' % (v,))
        return
    seen = []           # [(piece, [pieces], listified)]
    for k, x in got:
        kk, ks = decoded(k)
        xs, many = values(eng, st, x)
        if kk == '?' or xs is None:
            c.und('decode', where, 'key %s' % (k,))
            return
        c.verdict(kk == 'ok', vg, 'decode', where, 'key: %s' % (ks,), st)
        if kk != 'ok':
            return
        vals = []
        for y in xs:
            yk, ys = decoded(y)
            if yk == '?':
                c.und('decode', where, 'value %s' % (y,))
                return
            c.verdict(yk == 'ok', vg, 'decode', where, 'value: %s' % (ys,), st)
            if yk != 'ok':
                return
            vals.append(ys)
        seen.append((ks, vals, many))
    # the groups the path facts make
    groups = []
    for k, x in pairs:
        p = made[k]
        xv = made[x] if x else None
        for g in groups:
            # keys that the path did not compare may differ
            if g[0] == p or same_key(st, g[0], p):
                g[1].append(xv)
                break
        else:
            groups.append((p, [xv]))
    want = [(g, vs) for g, vs in groups]
    have = {}
    for k, vs, many in seen:
        have.setdefault(k, []).append((vs, many))
    for g, vs in want:
        names = [g] + [made[k] for k, _ in pairs if made[k] != g and same_key(st, made[k], g)]
        hs = [h for n in names for h in have.pop(n, [])]
        if len(hs) != 1:
            c.verdict(False, vg, rule, where, 'the key %s is present %d times' % (g, len(hs)), st)
            return
        got, many = hs[0]
        got = [None if isinstance(y, Const) and y.v in ('', b'') else y for y in got]
        c.verdict(got == vs, vg, rule, where, 'the values of %s are %s, sent %s' % (g, got, vs), st)
        c.verdict(many == (len(vs) > 1), vg, rule, where, 'the key %s sent %d times gives %s' % (g, len(vs), 'a list' if many else 'one value'), st)
    c.verdict(not have, vg, rule, where, 'keys that were not sent: %s' % list(have), st)


def same_key(st, a, b):
    if a == b:
        return True
    for t, val in st.truth.items():
        if t.op == 'eq':
            ds = [decoded(x) for x in t.args]
            if all(d[0] == 'ok' for d in ds) and {d[1] for d in ds} == {a, b}:
                return val
    return None


def run(c):
    eng = c.eng
    for kind in ('query', 'forms', 'forms (no content type)'):
        for shape, pairs in SHAPES:
            with c.section('pairs', 8):
                pol, st, app, _, _ = request(c, eng, {})
                where = '%s: %s' % (kind, ''.join(t or '' for t in shape))
                P = Pieces(pol, binary=kind != 'query')
                text, made = template(P, st, shape, '')
                res = query(eng, st, app, text) if kind == 'query' else forms(eng, st, app, text, pol, 'application/x-www-form-urlencoded' if kind == 'forms' else '')
                for s, v in res:
                    c.paths += 1
                    judge(c, eng, s, v, pairs, made, where)
                c.verdict(bool(res), 'no result' if not res else None, 'total', where, 'no path returns', None)
    escapes(c, eng)
    total(c, eng)
    params(c, eng)


# escapes inside text that holds none of % + = &: (sent, decoded)
ESCAPES = [
    ('%26', '&'), ('%3D', '='), ('%3d', '='), ('+', ' '), ('%2B', '+'), ('%25', '%'), ('%20', ' '), ('%2526', '%26'), ('%2525', '%25'),
    ('%252B', '%2B'), ('%C3%A9', '\xe9'), ('%E2%82%AC', '\u20ac'), ('%F0%9F%98%80', '\U0001f600'), ('%00', '\x00'), ('%0A', '\n'), (';', ';'),
    ('%3B', ';'), ('%2F', '/'), ('++', '  '), ('+%2B+', ' + '), ('%C3%A9+%26%3D', '\xe9 &='),
]


def escapes(c, eng):
    """text with one escape, as key and as value: the decoded text is known exactly"""
    for kind in ('query', 'forms'):
        for sent, want in ESCAPES:
            for place in ('key', 'value', 'last value', 'whole value', 'whole key'):
                where = '%s: %s in a %s' % (kind, sent, place)
                with c.section('decode', 5):
                    pol, st, app, _, _ = request(c, eng, {})
                    P = Pieces(pol, binary=kind != 'query')
                    P.stop = '=&%+;'
                    whole = place.startswith('whole')
                    a, b = (None, None) if whole else (P.new('a', st), P.new('b', st))
                    o = P.new('o', st)
                    esc = [P.sep(sent)] if whole else [a, P.sep(sent), b]
                    plain = [o]
                    k, v = (esc, plain) if place.endswith('key') else (plain, esc)
                    parts = k + [P.sep('=')] + v
                    if not place.startswith('last'):
                        parts += [P.sep('&n=1')]
                    text = models.concat(parts, b'' if P.binary else '')
                    for s, r in (query(eng, st, app, text) if kind == 'query' else forms(eng, st, app, text, pol)):
                        c.paths += 1
                        if isinstance(r, Exc):
                            c.verdict(False, vague(s), 'total', where, 'raises %s' % (r.val,), s)
                            continue
                        got = contents(eng, s, r)
                        if got is None:
                            c.und('decode', where, 'the result is %s' % (r,))
                            continue
                        if whole and place.endswith('value') or place == 'value':
                            if not any(x == Const('n') for x, y in got):
                                continue        # the unknown key is n
                        exp = [(want_text(k, sent, want), want_text(v, sent, want))]
                        have = [(flat(x), flat(y)) for x, y in got if x != Const('n')]
                        if any(t is None for p in have for t in p) and have != exp:
                            c.und('decode', where, 'decoded text %s' % (got,))
                            continue
                        c.verdict(have == exp, vague(s), 'decode', where, 'decoded to %s' % (show(have),), s)


def show(have):
    return ['%s=%s' % tuple(''.join(ascii(x.v)[1:-1] if isinstance(x, Const) else '<%s>' % x.name for x in t) for t in p) for p in have]


def want_text(parts, sent, want):
    return merge(Const(want) if isinstance(p, Const) else p for p in parts)


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, Const) and out and isinstance(out[-1], Const):
            out[-1] = Const(out[-1].v + p.v)
        else:
            out.append(p)
    return tuple(out)


def flat(v):
    """pieces of a decoded text, None when not understood"""
    v = raw(v)
    if ext_call(v, 'urllib.parse.unquote_plus', 'urllib.parse.unquote') and isinstance(raw(v.args[1]), Sym):
        v = raw(v.args[1])          # it holds no escape
    if isinstance(v, (Sym, Const)):
        return (v,) if not isinstance(v, Const) or isinstance(v.v, str) else None
    if isinstance(v, App) and v.op == 'concat':
        ps = [flat(x) for x in v.args]
        return None if None in ps else merge(x for p in ps for x in p)
    return None


def total(c, eng):
    """every arrangement of up to four separators"""
    for n in range(0, 5):
        for seps in itertools.product('=&', repeat=n):
            for full in itertools.product((False, True), repeat=n + 1):
                if n == 4 and sum(full) not in (0, 1, 5):
                    continue
                shape = []
                for i in range(n + 1):
                    shape.append('p%d' % i if full[i] else '')
                    if i < n:
                        shape.append(seps[i])
                where = 'arrangements with %d separators' % n
                with c.section('total', 5):
                    pol, st, app, _, _ = request(c, eng, {})
                    pol.raise_all = True
                    pol.peel = n + 3
                    P = Pieces(pol)
                    text, made = template(P, st, shape, '')
                    res = query(eng, st, app, text)
                    looped = False
                    for s, v in res:
                        c.paths += 1
                        if isinstance(v, Exc):
                            c.verdict(False, vague(s), 'total', where, 'parsing %s raises %s' % (text, v.val), s)
                        else:
                            c.ok('total', where)
                    if not res:
                        c.verdict(False, None, 'total', where, 'parsing %s never ends' % (text,), None)


def params(c, eng):
    with c.section('params', 15):
        pol, st, app, _, _ = request(c, eng, {})
        P, Q = Pieces(pol, binary=True), Pieces(pol)
        qs, m1 = template(Q, st, ['k', '=', 'v'], 'q')
        body, m2 = template(P, st, ['j', '=', 'w'], 'f')
        k = Const('QUERY_STRING')
        st.learn(App('in', k, ENVIRON), True)
        st.sto[(ENVIRON, 'i', k)] = qs
        for s, v in forms(eng, st, app, body, pol, what='params'):
            c.paths += 1
            made = {'k': m1['k'], 'v': m1['v'], 'j': m2['j'], 'w': m2['w']}
            if isinstance(v, Exc) or contents(eng, s, v) is None:
                c.und('params', 'params', str(v))
                continue
            if same_key(s, made['k'], made['j']):
                continue
            judge(c, eng, s, v, [('k', 'v'), ('j', 'w')], made, 'params', 'params')
