"""C14: header values cannot split the response and are wire-safe."""
from ..rule import *
from ..web import *
import re

EXPLANATION = (
    'Abstract interpretation of every single-value header setter (item assignment, append to an absent, a single and a multiple '
    'header, setdefault, every header attribute, the constructors) with an unknown value, followed by headerlist. On each path '
    'where the value is in the list, the path facts must exclude CR, LF and NUL from the stored text; on each path where the '
    'setter raises, the value must not be in the list. The terms in the list give the transcoding, the order and the entity '
    'headers withheld for 204 and 304 (in several spellings).')
RULES = {
    'control characters': 'a value with CR, LF or NUL is rejected by the setter',
    'rejected value kept': 'a setter that raises has not stored the value',
    'wire': 'an emitted header value is the UTF-8 encoding of the text, as a Latin-1 native string',
    'order': 'a multi-valued header is emitted once per value, in order',
    'withheld': 'entity headers are withheld for 204 and 304, whatever the spelling of their name, and no others',
    'cookies': 'every cookie is emitted once, in the same transcoding',
    'carried': 'apply and copy hand over the header values as they are',
}
BAD = '\r\n\0'
FORBIDDEN = {
    204: ['Content-Type'],
    304: ['Allow', 'Content-Encoding', 'Content-Language', 'Content-Length', 'Content-Range', 'Content-Type', 'Content-Md5', 'Last-Modified'],
}
OUT = 'decode(encode(x, utf8), latin1)'


def enc_of(t):
    e = t.args[1] if len(t.args) > 1 else Const('utf8')
    s = str(e.v if isinstance(e, Const) else e).lower().replace('-', '').replace('_', '')
    return {'iso88591': 'latin1', 'l1': 'latin1', '8859': 'latin1'}.get(s, s)


def text_of(w):
    """the text that `w` puts on the wire as UTF-8, or None"""
    if isinstance(w, App) and w.op == 'decode' and enc_of(w) == 'latin1' and isinstance(w.args[0], App) and w.args[0].op == 'encode' and enc_of(w.args[0]) == 'utf8':
        return w.args[0].args[0]
    if isinstance(w, Const) and isinstance(w.v, str) and w.v.isascii():
        return w
    return None


SCALARS = ('int', 'float', 'bool', 'none', 'date')


def plain_type(st, x):
    return st.eng.type_of(st, x) in SCALARS or any(st.truth.get(App('isinst', x, t)) for t in SCALARS) or x == NONE


def unconvert(x):
    while isinstance(x, App) and x.op == 'str' and len(x.args) == 1:
        x = x.args[0]
    return x


def excluded(st, text, ch):
    """True when the facts exclude ch from `text`, None when unsure, False when nothing speaks about it"""
    base = unconvert(text)
    if isinstance(base, Const):
        return ch not in str(base.v)
    if text != base and plain_type(st, base):
        return True
    forms = {text, base} if st.eng.type_of(st, base) == 'str' else {text}
    odd = None
    for x in forms:
        for op in ('find', 'rfind'):
            if st.entails(lin_sub(Const(-1), App(op, x, Const(ch)))):
                return True
        if st.entails(lin_scale(App('count', x, Const(ch)), -1)):
            return True
    refs = [f for f in list(st.truth) + [t for _, ts in st.lins for t in ts] if contains(f, lambda t: isinstance(t, Ref) and st.get(t) is not None and st.get(t).kind in ('set', 'list', 'dict', 'iter', 'gen'))]
    if refs:
        odd = refs[0]
    for f, val in st.truth.items():
        if not any(contains(f, lambda t: t == x) for x in forms):
            continue
        if f.op == 'in' and f.args[1] in forms and isinstance(f.args[0], Const):
            if f.args[0].v == ch:
                return not val
            continue
        if f.op in ('isinst', 'isnone', 'truthy', 'hasattr', 'callable'):
            g = f.args[0]
            if g in forms or f.op != 'isnone' and f.op != 'truthy':
                continue
        r = regex_fact(f, val, forms, ch)
        if r is True:
            return True
        if r is None:
            odd = f
    for _, ts in st.lins:
        for t in ts:
            if any(contains(t, lambda y: y == x) for x in forms) and not (isinstance(t, App) and t.op in ('len', 'find', 'rfind', 'index', 'count')):
                odd = t
            elif isinstance(t, App) and t.op == 'count' and t.args[0] in forms:
                odd = t
    return None if odd is not None else False


def regex_fact(f, val, forms, ch):
    """True: excludes ch; None: not understood"""
    pat = None
    for t in subterms(f):
        if isinstance(t, App) and t.op in ('rx', 'regex', 'search', 'match', 'fullmatch', 'rsearch', 'rmatch') or isinstance(t, App) and t.op == 'call':
            for a in subterms(t):
                if isinstance(a, Const) and isinstance(a.v, (str, re.Pattern)):
                    pat = a.v
    none = f.op == 'isnone' and val or f.op in ('truthy', 'ge0') and not val
    if pat is None or not none:
        return None
    try:
        rx = re.compile(pat)
        if all(rx.search(s) for s in (ch, 'a' + ch, ch + 'a', 'a' + ch + 'a', 'a\n' + ch)) and contains(f, lambda t: isinstance(t, App) and t.op in ('search', 'rsearch') or isinstance(t, App) and t.op == 'call' and 'search' in str(t.args[0])):
            return True
    except re.error:
        pass
    return None


def run(c):
    eng = c.eng
    setters(c, eng)
    order(c, eng)
    withheld(c, eng)
    cookies(c, eng)
    carried(c, eng)


# ------------------------------------------------------------------ set-up
def fresh(eng, pol, cls='HTTPResponse', args=(), kw=()):
    st = start(eng, pol, 'ombott.response')
    cref = eng.lookup('ombott.response', cls)
    return [(s, r) for s, r in eng.call(st, cref, list(args), list(kw), NODE)]


def headers_of(eng, st, resp):
    return [(s, h) for s, h in eng.getattr_(st, resp, 'headers', NODE) if not isinstance(h, Exc)]


def listing(eng, st, resp):
    """[(state, [(name, value)] | Exc | None)]"""
    out = []
    for s, l in eng.getattr_(st, resp, 'headerlist', NODE):
        if isinstance(l, Exc):
            out.append((s, l))
            continue
        items = []
        if isinstance(l, Ref) and s.get(l).kind == 'list':
            src = s.get(l).items
        elif isinstance(l, Tup):
            src = l.items
        else:
            out.append((s, None))
            continue
        ok = s.get(l).open is None if isinstance(l, Ref) else True
        for it in src:
            if isinstance(it, Tup) and len(it.items) == 2:
                items.append(it.items)
            else:
                ok = False
                items.append((None, it))
        out.append((s, items if ok else (items, 'open')))
    return out


def meth(eng, st, obj, name, args, kw=()):
    out = []
    for s, f in eng.getattr_(st, obj, name, NODE):
        out += [(s, f)] if isinstance(f, Exc) else eng.call(s, f, list(args), list(kw), NODE)
    return out


# ------------------------------------------------------------------ setters
def entries(eng, c):
    """(name, function(state, value) -> [(state, resp or Exc, resp object)])"""
    N = Const('X-Name')

    def on_headers(op):
        def f(value):
            out = []
            for s, r in fresh(eng, Policy(join_at=10**9)):
                for s1, h in headers_of(eng, s, r) if not isinstance(r, Exc) else []:
                    out += [(x, v, r) for x, v in op(s1, h, value)]
            return out
        return f

    def setitem(s, h, v):
        return eng.setitem(s, h, N, v, NODE)

    def append(k):
        def f(s, h, v):
            cur = [s]
            for i in range(k):
                cur = [x for y in cur for x, r in meth(eng, y, h, 'append', [N, Const('first%d' % i)]) if not isinstance(r, Exc)]
            return [z for y in cur for z in meth(eng, y, h, 'append', [N, v])]
        return f
    yield 'headers[name] = value', on_headers(setitem)
    yield 'headers.append', on_headers(append(0))
    yield 'headers.append (second value)', on_headers(append(1))
    yield 'headers.append (third value)', on_headers(append(2))
    yield 'headers.setdefault', on_headers(lambda s, h, v: meth(eng, s, h, 'setdefault', [N, v]))

    def ctor(cls, how):
        def f(value):
            pol = Policy(join_at=10**9)
            st = start(eng, pol, 'ombott.response')
            args, kw = [], []
            if how == 'dict':
                st = st.fork()
                h = st.alloc(Obj('dict', items=((N, value),)), 'headers')
                kw = [('headers', h)]
            elif how == 'pairs':
                st = st.fork()
                h = st.alloc(Obj('list', items=(Tup((N, value)),)), 'headers')
                kw = [('headers', h)]
            else:
                kw = [('x_name', value)]
            return [(s, r, r) for s, r in eng.call(st, eng.lookup('ombott.response', cls), args, kw, NODE)]
        return f
    for cls in ('HTTPResponse', 'HTTPError', 'Response'):
        for how in ('dict', 'pairs', 'keywords'):
            yield '%s(%s)' % (cls, how), ctor(cls, how)
    # header attributes: data descriptors of the class
    st = start(eng, Policy(), 'ombott.response')
    cref = eng.lookup('ombott.response', 'HTTPResponse')
    names = []
    for k in eng.mro(st, cref):
        if isinstance(k, Ref):
            for n, v in st.get(k).attrs.items():
                if isinstance(v, Ref) and st.get(v).kind == 'inst' and isinstance(st.get(v).cls, Ref) and eng.class_attr(st, st.get(v).cls, '__set__')[0] is not None:
                    names.append(n)

    def attr(n):
        def f(value):
            out = []
            for s, r in fresh(eng, Policy(join_at=10**9)):
                if not isinstance(r, Exc):
                    out += [(x, v, r) for x, v in eng.setattr_(s, r, n, value, NODE)]
            return out
        return f
    for n in names:
        yield 'response.%s = value' % n, attr(n)
    # properties of the class with a setter that ends in a header are met by the same names in other classes
    for n in ('content_type', 'content_length', 'expires'):
        if n not in names:
            yield 'response.%s = value' % n, attr(n)


def setters(c, eng):
    with c.section('setters'):
        ents = list(entries(eng, c))
    for name, f in ents:
        for ty in ('str', None, 'int', 'bool', 'float'):
            with c.section('control characters'):
                value = Sym('value', ty)
                for s, r, resp in f(value):
                    c.paths += 1
                    if isinstance(r, Exc):
                        if isinstance(resp, Exc):
                            c.ok('control characters', name)
                            continue
                        for x, l in listing(eng, s, resp):
                            hits = [v for _, v in entries_of(l) if contains(v, lambda t: t == value)]
                            if not hits:
                                c.ok('rejected value kept', name)
                                continue
                            # which exception? one about the value (a fact in(ch, value) is true)
                            c.verdict(False, vague_state(x) or (None if any(f2.op == 'in' and val and f2.args[0] in tuple(Const(b) for b in BAD) for f2, val in s.truth.items()) else 'not a rejection'), 'rejected value kept', name, 'the value is stored although the setter raised', x)
                        continue
                    reached(c, eng, s, resp, value, ty, name)
    witnesses(c, eng, ents)


def witnesses(c, eng, ents):
    """constants: a control character at the start, inside, at the end"""
    for name, f in ents:
        for ch in BAD:
            for w in (ch + 'b', 'a' + ch + 'b', 'a' + ch, ch):
                with c.section('control characters'):
                    for s, r, resp in f(Const(w)):
                        c.paths += 1
                        if isinstance(resp, Exc):
                            continue
                        for x, l in listing(eng, s, resp):
                            hit = [v for _, v in entries_of(l) if isinstance(v, Const) and isinstance(v.v, str) and ch in v.v]
                            if hit:
                                c.verdict(False, vague_state(x) or ((s.truth or s.lins) and 'undecided branch'), 'control characters', name, 'the value %r is not rejected' % w, x)


def entries_of(l):
    if l is None or isinstance(l, Exc):
        return []
    if isinstance(l, tuple):
        return l[0]
    return l


def reached(c, eng, s, resp, value, ty, name):
    for x, l in listing(eng, s, resp):
        vg = vague_state(x)
        if isinstance(l, Exc):
            t = eng.type_of(s, value)
            if ty in ('int', 'bool', 'float') or plain_type(s, value):
                if 'UnicodeEncodeError' not in repr(l.val):
                    c.verdict(False, vg, 'wire', name, 'headerlist raises %r for a value of type %s' % (l.val, ty or t), x)
            continue
        if l is None:
            c.und('wire', name, 'header list not understood')
            continue
        for n, w in entries_of(l):
            if not contains(w, lambda t: t == value):
                continue
            why = vg or vague_term(w)
            text = text_of(w)
            if text is None:
                raw = w
                if isinstance(w, App) and w.op in ('decode', 'encode'):
                    c.verdict(False, why, 'wire', name, 'a header value is emitted as %s' % (w,), x)
                    raw = w.args[0].args[0] if isinstance(w.args[0], App) and w.args[0].op in ('encode', 'decode') else w.args[0]
                elif unconvert(w) == value and not (w != value and plain_type(x, value)):
                    c.verdict(False, why, 'wire', name, 'a header value is emitted as %s: not Latin-1 for other text' % (w,), x)
                elif unconvert(w) == value:
                    c.ok('wire', name)
                else:
                    c.und('wire', name, '%s' % (w,))
                text = raw
            else:
                c.ok('wire', name)
                if unconvert(text) == text and eng.type_of(x, text) not in ('str', None) and isinstance(text, (Sym, App)):
                    c.verdict(False, why, 'wire', name, 'a value of type %s is encoded' % eng.type_of(x, text), x)
            if unconvert(text) != value:
                # a conversion of the value: a date, a replaced text
                if isinstance(text, App) and text.op == 'call' or plain_type(x, value):
                    c.ok('control characters', name)
                    continue
                if isinstance(text, App) and text.op in ('lower', 'upper', 'title', 'lstrip', 'format'):
                    pass
                elif isinstance(text, App) and text.op in ('strip', 'rstrip'):
                    pass
                else:
                    c.und('control characters', name, 'stored text %s' % (text,))
                    continue
            for ch in BAD:
                e = excluded(x, text, ch)
                if e is not True and unconvert(text) != value:
                    b = text
                    while isinstance(b, App) and b.op in ('lower', 'upper', 'title', 'lstrip', 'strip', 'rstrip'):
                        b = b.args[0]
                    e2 = excluded(x, b, ch)
                    e = True if e2 is True else None if e is None or e2 is None else False
                if e is True:
                    c.ok('control characters', name)
                else:
                    c.verdict(False, why or (e is None and 'open facts about the value'), 'control characters', name, '%r in a header value is not rejected' % ch, x)


# ------------------------------------------------------------------ order
def order(c, eng):
    a, b, d = (Sym('v%d' % i, 'str') for i in range(3))
    N, M = Const('X-Multi'), Const('X-One')
    for how in ('append', 'set then append', 'list'):
        with c.section('order'):
            for s, r in fresh(eng, Policy(join_at=10**9)):
                if isinstance(r, Exc):
                    continue
                for s1, h in headers_of(eng, s, r):
                    cur = [s1]

                    def step(f):
                        nonlocal cur
                        cur = [x for y in cur for x, v in f(y) if not isinstance(v, Exc)]
                    one = Sym('single', 'str')
                    if how == 'list':
                        cur = [s1.fork()]
                        l = cur[0].alloc(Obj('list', items=(a, b, d)), 'values')
                        step(lambda y: meth(eng, y, h, 'setdefault', [N, l]))
                    elif how == 'append':
                        for v in (a, b, d):
                            step(lambda y: meth(eng, y, h, 'append', [N, v]))
                    else:
                        step(lambda y: eng.setitem(y, h, N, a, NODE))
                        for v in (b, d):
                            step(lambda y: meth(eng, y, h, 'append', [N, v]))
                    step(lambda y: eng.setitem(y, h, M, one, NODE))
                    for y in cur:
                        for x, l in listing(eng, y, r):
                            c.paths += 1
                            if not isinstance(l, list):
                                c.und('order', how, 'header list not understood')
                                continue
                            got = [w for n, w in l if n == N]
                            want = [a, b, d]
                            tx = [text_of(w) for w in got]
                            tx = [unconvert(t if t is not None else w) for t, w in zip(tx, got)]
                            vg = vague_state(x) or next((z for z in (vague_term(w) for w in got) if z), None)
                            if any(n is None for n, _ in l):
                                vg = vg or 'open list'
                            if tx == want:
                                c.ok('order', how)
                            elif all(t in want for t in tx) or len(got) != 3:
                                c.verdict(False, vg, 'order', how, 'the values v0, v1, v2 of one header are emitted as %s' % (got,), x)
                            else:
                                c.und('order', how, '%s' % (got,))
                            singles = [w for n, w in l if n == M]
                            if [unconvert(text_of(w) or w) for w in singles] == [one]:
                                c.ok('order', how + ' single')
                            else:
                                c.verdict(False, vg or (singles and 'form'), 'order', how + ' single', 'a header set once is emitted as %s' % (singles,), x)


# ------------------------------------------------------------------ blacklist
def spellings(n):
    return [n, n.lower(), n.upper()]


def withheld(c, eng):
    allnames = sorted({n for v in FORBIDDEN.values() for n in v})
    for code in (200, 204, 206, 301, 304, 404):
        for sp in range(3):
            with c.section('withheld'):
                for s, r in fresh(eng, Policy(join_at=10**9), kw=[('status', Const(code))]):
                    if isinstance(r, Exc):
                        continue
                    for s1, h in headers_of(eng, s, r):
                        cur = [s1]
                        names = [spellings(n)[sp] for n in allnames] + ['ETag', 'X-Custom']
                        for n in names:
                            cur = [x for y in cur for x, v in eng.setitem(y, h, Const(n), Const('1'), NODE) if not isinstance(v, Exc)]
                        for y in cur:
                            for x, l in listing(eng, y, r):
                                c.paths += 1
                                where = 'status %d%s' % (code, ('', ' (lower case)', ' (upper case)')[sp])
                                if not isinstance(l, list) or any(not isinstance(n, Const) for n, _ in l):
                                    c.und('withheld', where, 'header list not understood')
                                    continue
                                vg = vague_state(x)
                                got = [n.v.lower() for n, _ in l]
                                for n in allnames:
                                    w = '%s %s' % (where, n)
                                    if n in FORBIDDEN.get(code, ()):
                                        c.verdict(n.lower() not in got, vg, 'withheld', w, '%s is emitted with status %d' % (n, code), x)
                                    elif code not in FORBIDDEN:
                                        c.verdict(n.lower() in got, vg, 'withheld', w, '%s is not emitted with status %d' % (n, code), x)
                                for n in ('etag', 'x-custom'):
                                    c.verdict(got.count(n) == 1, vg, 'withheld', '%s %s' % (where, n), '%s is emitted %d times' % (n, got.count(n)), x)
    # nothing set: the default content type
    for code in (200, 204, 304):
        with c.section('withheld'):
            for s, r in fresh(eng, Policy(join_at=10**9), kw=[('status', Const(code))]):
                if isinstance(r, Exc):
                    continue
                for x, l in listing(eng, s, r):
                    if isinstance(l, list):
                        got = [n.v.lower() for n, _ in l if isinstance(n, Const)]
                        c.verdict(('content-type' in got) == (code == 200), vague_state(x), 'withheld', 'status %d default Content-Type' % code,
                                  'the default Content-Type is %s' % ('emitted' if 'content-type' in got else 'missing'), x)
    # a status assigned later counts
    with c.section('withheld'):
        for s, r in fresh(eng, Policy(join_at=10**9)):
            if isinstance(r, Exc):
                continue
            for form in (Const(304), Const('304 Not Modified')):
                for s1, v in eng.setattr_(s, r, 'status', form, NODE):
                    if isinstance(v, Exc):
                        continue
                    for s2, h in headers_of(eng, s1, r):
                        for y, v in eng.setitem(s2, h, Const('Content-Length'), Const('1'), NODE):
                            for x, l in listing(eng, y, r) if not isinstance(v, Exc) else []:
                                if isinstance(l, list):
                                    got = [n.v.lower() for n, _ in l if isinstance(n, Const)]
                                    c.verdict('content-length' not in got, vague_state(x), 'withheld', 'status = %s' % (form,), 'Content-Length is emitted with status 304', x)


# ------------------------------------------------------------------ cookies
def cookies(c, eng):
    with c.section('cookies'):
        for s, r in fresh(eng, Policy(join_at=10**9, peel=2)):
            if isinstance(r, Exc):
                continue
            for y, v in meth(eng, s, r, 'set_cookie', [Sym('cname', 'str'), Sym('cvalue', 'str')]):
                if isinstance(v, Exc):
                    continue
                for x, l in listing(eng, y, r):
                    c.paths += 1
                    got = [w for n, w in entries_of(l) if n is not None and (n == Const('Set-Cookie') or isinstance(n, Const) and str(n.v).lower() == 'set-cookie')]
                    for w in got:
                        t = text_of(w)
                        if t is not None and not isinstance(t, Const):
                            c.ok('cookies', 'headerlist')
                        elif isinstance(w, Sym) and w.name.startswith('ret:.OutputString'):
                            c.verdict(False, vague_state(x), 'cookies', 'headerlist', 'a cookie is emitted as %s' % (w,), x)
                        elif isinstance(w, App) and (w.op in ('call', 'mcall', 'meth') or w.op.startswith('m:') or 'OutputString' in str(w)) and not vague_term(w):
                            c.verdict(False, vague_state(x) or (w.op in ('decode', 'encode', 'slice') and None), 'cookies', 'headerlist', 'a cookie is emitted as %s' % (w,), x)
                        else:
                            c.und('cookies', 'headerlist', '%s' % (w,))


# ------------------------------------------------------------------ apply / copy
def carried(c, eng):
    a, b, one = Sym('v0', 'str'), Sym('v1', 'str'), Sym('single', 'str')
    for how in ('apply', 'copy'):
        with c.section('carried'):
            for s, r in fresh(eng, Policy(join_at=10**9)):
                if isinstance(r, Exc):
                    continue
                for s1, h in headers_of(eng, s, r):
                    cur = [s1]
                    for n, v in (('X-Multi', a), ('X-Multi', b), ('X-One', one)):
                        cur = [x for y in cur for x, z in meth(eng, y, h, 'append', [Const(n), v]) if not isinstance(z, Exc)]
                    for y in cur:
                        if how == 'copy':
                            res = [(z, q) for z, q in meth(eng, y, r, 'copy', [], [('cls', eng.lookup('ombott.response', 'HTTPResponse'))]) if not isinstance(q, Exc)]
                        else:
                            res = []
                            for z, q in eng.call(y, eng.lookup('ombott.response', 'Response'), [], [], NODE):
                                if not isinstance(q, Exc):
                                    res += [(w, q) for w, e in meth(eng, z, r, 'apply', [q]) if not isinstance(e, Exc)]
                        for z, q in res:
                            for x, l in listing(eng, z, q):
                                if not isinstance(l, list):
                                    c.und('carried', how, 'header list not understood')
                                    continue
                                got = [unconvert(text_of(w) or w) for n, w in l if n in (Const('X-Multi'), Const('X-One'))]
                                okv = got == [a, b, one]
                                c.verdict(okv, vague_state(x) or (not all(g in (a, b, one) for g in got) and 'form'), 'carried', how, 'headers v0, v1, single arrive as %s' % (got,), x)
