"""C03: exactly one well-formed WSGI response."""
import re
from ..rule import *
from ..web import *
from .c20 import get_route, GET
from .c02 import feasible

EXPLANATION = (
    'Abstract interpretation of Ombott.wsgi on an unknown environ for each kind of handler outcome (str, bytes, falsy values, '
    'iterables of bytes / str / responses / unsupported items that may stop or fail at any next(), file-likes, HTTPResponse and '
    'HTTPError with framework-relevant statuses, exceptions) with symbolic contents; iterables are a most general iterator, loops are '
    'analysed to a fixpoint after the exact first iterations. On every path: the start_response calls, the header list and the '
    'returned value are compared with the rules. Hook order is decided on Ombott._handle with two hooks of each kind.')
RULES = {
    'once': 'start_response is called exactly once on every path, before the return',
    'no escape': 'no exception leaves Ombott.wsgi for an Exception raised by the handler or while its output is cast',
    'well-formed': 'the status line is "NNN reason" and the header list is a list of (str, str)',
    'bytes': 'what is returned is an iterable of byte strings',
    'length': 'Content-Length set by the framework is the length of the byte string returned',
    'no body': 'HEAD, 1xx, 204 and 304 responses return no body; other responses return theirs',
    'status': 'the status line is the one of the response the handler produced, 500 for a failure',
    'close': 'a handler iterable that produced output is closed exactly once',
    'hooks': 'before hooks in order, then routing and the handler, then after hooks in reverse order, each once',
}
SR = Sym('start_response', 'callable')
OUT = Sym('out', 'iterable')
IT = Sym('iterator', 'iterator')
CLOSE = Sym('close', 'callable')
WRAPPED = Sym('wrapped', 'iterable')
PAGE = Sym('errpage', 'str')
METHOD = App('item', ENVIRON, Const('REQUEST_METHOD'))
FW = App('in', Const('wsgi.file_wrapper'), ENVIRON)
ITEM = {'bytes': 'bytes', 'str': 'str', 'mixed': 'str'}


def mk(cls, *args):
    def f(eng, st, node):
        return eng.call(st, eng.lookup('ombott.response', cls), list(args), [], node)
    return f


def raising(name):
    def f(eng, st, node):
        st = st.fork()
        return [(st, eng.mkexc(st, name, node, Sym('anyexc', 'str')))]
    return f


def nested(outer, inner, inner_args, *args):
    def f(eng, st, node):
        out = []
        for s, r in eng.call(st, eng.lookup('ombott.response', inner), list(inner_args), [], node):
            out += [(s, r)] if isinstance(r, Exc) else eng.call(s, eng.lookup('ombott.response', outer), [r] + list(args), [], node)
        return out
    return f


def const(v):
    return lambda eng, st, node: [(st, v)]


def lst(*items):
    def f(eng, st, node):
        st = st.fork()
        return [(st, st.alloc(Obj('list', items=tuple(items)), 'outlist'))]
    return f


def raise_resp(cls, *args):
    def f(eng, st, node):
        out = []
        for s, r in eng.call(st, eng.lookup('ombott.response', cls), list(args), [], node):
            out.append((s, r if isinstance(r, Exc) else Exc(r)))
        return out
    return f


class Scen:
    """name, what the handler does, expected status code (int), what kind of iterable items"""

    def __init__(self, name, make, status=200, items=None, response_status=None, body=None, file=False):
        self.name, self.make, self.status, self.items, self.response_status, self.body, self.file = name, make, status, items, response_status, body, file


S_ = Sym('text', 'str')
B_ = Sym('blob', 'bytes')
SCENS = [
    Scen('str', const(S_), body=S_),
    Scen('bytes', const(B_), body=B_),
    Scen('None', const(NONE), body=()),
    Scen('empty str', const(Const('')), body=()),
    Scen('empty list', lst(), body=()),
    Scen('False', const(Const(False)), body=()),
    Scen('str with status 204', const(S_), 204, response_status=204, body=S_),
    Scen('str with status 404', const(S_), 404, response_status=404, body=S_),
    Scen('bytes with status 304', const(B_), 304, response_status=304, body=B_),
    Scen('bytes with status 100', const(B_), 100, response_status=100, body=B_),
    Scen('bytes with status 206', const(B_), 206, response_status=206, body=B_),
    Scen('HTTPResponse 200', mk('HTTPResponse', S_, Const(200)), 200, body=S_),
    Scen('HTTPResponse 201 bytes', mk('HTTPResponse', B_, Const(201)), 201, body=B_),
    Scen('HTTPResponse 204', mk('HTTPResponse', S_, Const(204)), 204, body=S_),
    Scen('HTTPResponse 304', mk('HTTPResponse', B_, Const(304)), 304, body=B_),
    Scen('HTTPResponse 101', mk('HTTPResponse', B_, Const(101)), 101, body=B_),
    Scen('HTTPResponse without body', mk('HTTPResponse', Const(''), Const(302)), 302, body=()),
    Scen('HTTPResponse iterable', mk('HTTPResponse', OUT, Const(200)), 200, items='bytes'),
    Scen('raised HTTPResponse', raise_resp('HTTPResponse', S_, Const(202)), 202, body=S_),
    Scen('HTTPResponse in an HTTPResponse', nested('HTTPResponse', 'HTTPResponse', [S_, Const(203)], Const(201)), 203, body=S_),
    Scen('HTTPError in an HTTPResponse', nested('HTTPResponse', 'HTTPError', [Const(410), S_], Const(201)), 410, body=PAGE),
    Scen('HTTPError 404', mk('HTTPError', Const(404), S_), 404, body=PAGE),
    Scen('HTTPError 500', mk('HTTPError', Const(500), S_), 500, body=PAGE),
    Scen('raised HTTPError 403', raise_resp('HTTPError', Const(403), S_), 403, body=PAGE),
    Scen('iterable of bytes', const(OUT), 200, items='bytes'),
    Scen('iterable of str', const(OUT), 200, items='str'),
    Scen('iterable of empty bytes, then str', const(OUT), 200, items='mixed'),
    Scen('iterable of responses', const(OUT), None, items='resp'),
    Scen('iterable of errors', const(OUT), None, items='err'),
    Scen('iterable of other objects', const(OUT), 500, items='other'),
    Scen('iterable with status 204', const(OUT), 204, items='bytes', response_status=204),
    Scen('file', const(OUT), 200, items='bytes', file=True),
    Scen('file with status 304', const(OUT), 304, items='bytes', file=True, response_status=304),
    Scen('ValueError in the handler', raising('ValueError'), 500, body=PAGE),
    Scen('KeyError in the handler', raising('KeyError'), 500, body=PAGE),
]


def closed(st, fv):
    if fv != CLOSE:
        return None
    st = st.fork()
    st.ghost['closed'] = Const(st.ghost.get('closed', Const(0)).v + 1)
    return [(st, NONE)]


def client(eng, sc, pol, page_fails=False):
    """policy hooks that stand for the handler, its iterable and the error page"""
    def call(eng, st, fv, args, kw, node):
        if isinstance(fv, Sym) and fv.name == 'handler':
            return pol.handler(eng, st, node)
        if fv == App('item', ENVIRON, Const('wsgi.file_wrapper')) and args and args[0] == OUT:
            return [(st, WRAPPED)]      # the server's wrapper: closing it closes the file
        return closed(st, fv)
    pol.handler = sc.make

    def page(eng, st, fv, args, kw, node):
        st = st.fork()
        if page_fails:
            return [(st, eng.mkexc(st, 'ValueError', node, Sym('anyexc', 'str')))]
        return [(st, PAGE)]

    def x_iter(eng, st, args, kw, node):
        if len(args) == 1 and args[0] in (OUT, IT):
            return [(st, IT)]
        return None

    def x_next(eng, st, args, kw, node):
        if not args or args[0] not in (OUT, IT):
            return None
        out = []
        s = st.fork()
        n = s.ghost.get('nexts', Const(0))
        kind = sc.items
        vals = []
        if kind in ITEM:
            vals = [(s, Sym(s.fresh('item'), ITEM[kind]))]
            if kind == 'mixed':         # empty byte strings first
                vals.append((s, Const(b'')))
        elif kind == 'resp':
            vals = eng.call(s, eng.lookup('ombott.response', 'HTTPResponse'), [S_, Const(203)], [], node)
        elif kind == 'err':
            vals = eng.call(s, eng.lookup('ombott.response', 'HTTPError'), [Const(409), S_], [], node)
        else:
            vals = [(s, Sym(s.fresh('item'), 'int'))]
        for x, v in vals:
            if isinstance(v, Exc):
                continue
            for b in (v != Const(b''),) if kind == 'mixed' else (True, False) if kind in ('bytes', 'str', 'other') else (True,):
                y = x.fork()
                if kind in ('bytes', 'str', 'other', 'mixed'):
                    for z in eng.assume(y, v, b):
                        z.ghost['last'] = Const('item' if b else 'empty')
                        z.ghost['item'] = v
                        out.append((z, v))
                else:
                    y.ghost['last'] = Const('item')
                    out.append((y, v))
        for exn in ('StopIteration', 'ValueError'):
            y = st.fork()
            y.ghost['last'] = Const(exn)
            out.append((y, args[1] if exn == 'StopIteration' and len(args) > 1 else eng.mkexc(y, exn, node, Sym('anyexc', 'str'))))
        return out

    pol.call = call
    pol.opaque['ombott.ombott:Ombott.default_error_handler'] = page
    pol.ext['builtins.iter'] = x_iter
    pol.ext['builtins.next'] = x_next


def ready(st, sc=None):
    st = st.fork()
    for k in ('PATH_INFO', 'REQUEST_METHOD', 'wsgi.errors'):
        st.learn(App('in', Const(k), ENVIRON), True)
    st.learn(App('truthy', OUT), True)
    st.learn(App('truthy', CLOSE), True)
    st.sto[(OUT, 'a', 'close')] = CLOSE
    st.sto[(WRAPPED, 'a', 'close')] = CLOSE
    for t in (App('truthy', WRAPPED), App('hasattr', WRAPPED, Const('close')), App('hasattr', WRAPPED, Const('__iter__'))):
        st.learn(t, True)
    st.learn(App('hasattr', OUT, Const('read')), bool(sc and sc.file))
    st.learn(App('hasattr', OUT, Const('__iter__')), True)
    return st


def setup(c, eng, sc, page_fails=False, route=True):
    """[(state, app)] with one route whose handler behaves as sc says"""
    pol = Policy(join_at=10**9, peel=4)
    client(eng, sc, pol, page_fails)
    out = []
    st = start(eng, pol, 'ombott.ombott')
    st, app = default_app(eng, st)
    st = ready(st, sc)
    pol.peel = 0
    for s, r in eng.call(st, eng.lookup('ombott.router.radirouter', 'Route'), [Const('/x')], [], NODE):
        if isinstance(r, Exc):
            continue
        for s1, f in eng.getattr_(s, r, 'set_method', NODE):
            m = s1.fork()
            m = m.alloc(Obj('list', items=(Const('GET'), Const('HEAD'))), 'ms')
            s1 = s1.fork()
            l = s1.alloc(Obj('list', items=(Const('ANY'),)), 'ms')
            for s2, v in eng.call(s1, f, [l, Sym('handler', 'callable')], [], NODE):
                if not isinstance(v, Exc):
                    out.append((s2, r))
    pol.peel = 4
    # the registration paths differ only in how the parser got there: one is enough
    for s, r in out[:1]:
        pol.opaque[GET] = get_route(r if route else NONE)
        yield pol, s, app


def serve(eng, st, app):
    for s, f in eng.getattr_(st, app, 'wsgi', NODE):
        if isinstance(f, Exc):
            continue
        yield from eng.call(s, f, [ENVIRON, SR], [], NODE)


def starts(st):
    return [e for e in st.events() if e.kind == 'call' and e.a[0] == SR]


def headers(eng, st, ev):
    """[(name, value)] or None"""
    a = ev.a[1]
    if len(a) < 2:
        return None
    items = eng.known_items(st, a[1])
    if items is None:
        return None
    out = []
    for it in items:
        if not isinstance(it, Tup) or len(it.items) != 2:
            return False
        out.append(it.items)
    return out


def undecodable(st):
    return any(e.kind == 'except' and 'Unicode' in str(e.a) for e in st.events())


def deep_mu(st, *vals):
    for v in vals:
        if isinstance(v, V) and contains(v, lambda x: isinstance(x, Sym) and x.name.startswith('mu:')):
            return 'loop value'
    return None


def is_head(st):
    """True / False / None (both possible) / 'neither' / 'unknown'"""
    h, g, p = (feasible(st, m) for m in ('HEAD', 'GET', 'POST'))
    if None in (h, g, p):
        return 'unknown'
    if h and not g and not p:
        return True
    if not h and (g or p):
        return False
    return None if h else 'neither'


def vague(st):
    return vague_state(st) or vague_facts(st)


def run(c):
    eng = c.eng
    for sc in SCENS:
        with c.section('once', 60):
            for pol, st, app in setup(c, eng, sc):
                if sc.response_status:
                    resp = st.get(app).attrs['response']
                    # the handler sets it, so it must survive from there: done inside the handler below
                    base = sc.make

                    def make(eng, st, node, base=base, resp=resp):
                        out = []
                        for s, v in eng.setattr_(st, resp, 'status', Const(sc.response_status), node):
                            out += [(s, v)] if isinstance(v, Exc) else base(eng, s, node)
                        return out
                    pol.handler = make
                for x, v in serve(eng, st, app):
                    c.paths += 1
                    judge(c, eng, x, v, sc)
    for sc in (Scen('ValueError in the handler', raising('ValueError'), 500), Scen('HTTPError 404', mk('HTTPError', Const(404), S_), 500)):
        with c.section('once', 60):
            sc.name = 'error handler fails (%s)' % sc.name
            for pol, st, app in setup(c, eng, sc, page_fails=True):
                for x, v in serve(eng, st, app):
                    c.paths += 1
                    judge(c, eng, x, v, sc, critical=True)
    status_lines(c, eng)
    handlers(c, eng)
    page(c, eng)
    hooks(c, eng)


def status_lines(c, eng):
    """what `response.status = <int>` accepts and the line it makes"""
    N = Sym('code', 'int')
    for cls in ('Response', 'HTTPResponse'):
        with c.section('well-formed', 20):
            where = cls + '.status = <any int>'
            pol = Policy(join_at=10**9, peel=2)
            st = start(eng, pol, 'ombott.response')
            for s, r in eng.call(st, eng.lookup('ombott.response', cls), [], [], NODE):
                if isinstance(r, Exc):
                    continue
                for x, v in eng.setattr_(s, r, 'status', N, NODE):
                    c.paths += 1
                    if isinstance(v, Exc):
                        continue
                    low, high = x.entails(lin_sub(N, Const(100))), x.entails(lin_sub(Const(999), N))
                    c.verdict(bool(low and high), vague(x), 'well-formed', where, 'a status that does not have three digits is accepted', x)
                    for name in ('_status_line', '_status_code'):
                        for y, w in eng.getattr_(x, r, name, NODE):
                            if isinstance(w, Exc) or w == NONE:
                                c.verdict(False, vague(y), 'well-formed', where, '%s is %s' % (name, w), y)
                            elif name == '_status_code':
                                c.verdict(w == N, vague(y) or vague_term(w), 'status', where, 'the code is %s' % (w,), y)
                            else:
                                c.ok('well-formed', where)
    with c.section('well-formed', 20):
        where = 'headerlist'
        pol = Policy(join_at=10**9, peel=2)
        st = start(eng, pol, 'ombott.response')
        for s, r in eng.call(st, eng.lookup('ombott.response', 'HTTPResponse'), [], [], NODE):
            if isinstance(r, Exc):
                continue
            for s1, f in eng.getattr_(s, r, 'add_header', NODE):
                if isinstance(f, Exc):
                    for s2, h in eng.getattr_(s, r, 'headers', NODE):
                        fs = eng.getattr_(s2, h, 'append', NODE)
                else:
                    fs = [(s1, f)]
                for s2, g in fs:
                    states = [s2]
                    for k, val in (('X-A', Sym('ha', 'str')), ('X-A', Sym('hb', 'str')), ('X-N', Sym('hn', 'int')), ('Content-Length', Sym('cl', 'int'))):
                        states = [y for x in states for y, w in eng.call(x, g, [Const(k), val], [], NODE) if not isinstance(w, Exc)]
                    for x in states:
                        for y, hl in eng.getattr_(x, r, 'headerlist', NODE):
                            c.paths += 1
                            if isinstance(hl, Exc):
                                continue
                            items = eng.known_items(y, hl)
                            if items is None:
                                c.und('well-formed', where, str(hl))
                                continue
                            for it in items:
                                good = isinstance(it, Tup) and len(it.items) == 2
                                tys = [type(z.v).__name__ if isinstance(z, Const) else eng.type_of(y, z) for z in it.items] if good else []
                                c.verdict(good and all(t == 'str' for t in tys), vague(y) or (good and (any(vague_term(z) for z in it.items) or None in tys)), 'well-formed', where, 'the header list holds %s' % (it,), y)


def handlers(c, eng):
    """custom error handlers: what they return is cast like a handler's output"""
    for name, ret, status, body, head in (
            ('str', const(S_), 404, S_, None),
            ('bytes', const(B_), 404, B_, None),
            ('None', const(NONE), 404, (), None),
            ('HTTPResponse', mk('HTTPResponse', S_, Const(207)), 207, S_, None),
            ('HTTPError 500', mk('HTTPError', Const(500), S_), 500, PAGE, None),
            ('ValueError', raising('ValueError'), 500, None, None),
            ('iterable', const(OUT), 404, None, 'bytes')):
        with c.section('once', 60):
            sc = Scen('HTTPError 404 with a custom error handler: ' + name, mk('HTTPError', Const(404), S_), status, items=head, body=body)
            for pol, st, app in setup(c, eng, sc):
                base = pol.call
                pol.call = lambda eng, st, fv, args, kw, node: ret(eng, st, node) if fv == Sym('errhandler', 'callable') else base(eng, st, fv, args, kw, node)
                for s, d in eng.getattr_(st, app, 'error_handlers', NODE):
                    for s1, w in eng.setitem(s, d, Const(404), Sym('errhandler', 'callable'), NODE):
                        for x, v in serve(eng, s1, app):
                            c.paths += 1
                            judge(c, eng, x, v, sc, critical=name == 'ValueError')


def page(c, eng):
    """the default error page is text"""
    sc = Scen('default error page', mk('HTTPError', Const(404), S_), 404)
    with c.section('bytes', 60):
        for pol, st, app in setup(c, eng, sc):
            for key in ('ombott.request_pkg.props_mixin:PropsMixin.url', 'ombott.request_pkg.props_mixin:PropsMixin.urlparts'):
                pol.opaque[key] = lambda eng, st, fv, args, kw, node: [(st, Sym('url', 'str'))]
            pol.opaque.pop('ombott.ombott:Ombott.default_error_handler', None)
            for s, e in eng.call(st, eng.lookup('ombott.response', 'HTTPError'), [Const(404), S_], [], NODE):
                for s1, f in eng.getattr_(s, app, 'default_error_handler', NODE):
                    for x, v in eng.call(s1, f, [e], [], NODE):
                        c.paths += 1
                        if isinstance(v, Exc):
                            continue
                        t = type(v.v).__name__ if isinstance(v, Const) else eng.type_of(x, v)
                        c.verdict(t in ('str', 'bytes'), vague(x) or vague_term(v) or (t is None and 'type'), 'bytes', 'default error page', 'the page is %s' % (v,), x)


def judge(c, eng, st, v, sc, critical=False):
    where = 'handler outcome: ' + sc.name
    if undecodable(st):
        return
    vg = vague(st)
    head = is_head(st)
    if head == 'neither':
        return          # a lower-case method name: not HEAD, GET or POST
    if head == 'unknown':
        vg = vg or 'method facts'
        head = None
    if isinstance(v, Exc):
        kind = eng.exc_name(st, v) if hasattr(eng, 'exc_name') else str(v.val)
        if any(n in str(kind) for n in ('KeyboardInterrupt', 'SystemExit', 'MemoryError')):
            return
        c.verdict(False, vg or any('wsgi.errors' in str(e.a) for e in st.events() if e.kind == 'except') and 'error stream', 'no escape', where, 'the exception %s leaves wsgi()' % (kind,), st)
        return
    c.ok('no escape', where)
    calls = starts(st)
    c.verdict(len(calls) == 1, vg, 'once', where, 'start_response is called %d times' % len(calls), st)
    if len(calls) != 1:
        return
    a = calls[0].a[1]
    line = a[0] if a else NONE
    hs = headers(eng, st, calls[0])
    # ---- well-formed
    if isinstance(line, Const):
        ok = isinstance(line.v, str) and re.match(r'[1-9]\d\d .+$', line.v)
        c.verdict(bool(ok), vg, 'well-formed', where, 'status line %s' % (line,), st)
    else:
        t = eng.type_of(st, line)
        c.verdict(t == 'str', vg or deep_mu(st, line) or vague_term(line) or (t is None and 'type'), 'well-formed', where, 'status line %s' % (line,), st)
    if hs is None:
        c.und('well-formed', where, 'header list %s' % (a[1] if len(a) > 1 else None,))
    elif hs is False:
        c.verdict(False, vg, 'well-formed', where, 'the header list holds something that is not a pair', st)
    else:
        for k, x in hs:
            for y in (k, x):
                t = 'str' if isinstance(y, Const) and isinstance(y.v, str) else eng.type_of(st, y) if not isinstance(y, Const) else type(y.v).__name__
                c.verdict(t == 'str', vg or vague_term(y) or deep_mu(st, y) or (t is None and 'type'), 'well-formed', where, 'header %s: %s is not a string' % (k, y), st)
    # ---- status
    code = int(line.v[:3]) if isinstance(line, Const) and isinstance(line.v, str) and re.match(r'\d\d\d', line.v) else None
    last = st.ghost.get('last', Const(None)).v
    want = expect_status(sc, last, st)
    if critical:
        want = 500
    if want is not None and code is not None:
        c.verdict(code == want, vg, 'status', where, 'the status line is %s, expected %d' % (line, want), st)
    elif want is not None:
        c.und('status', where, 'status %s' % (line,))
    # ---- body
    fixed = code is not None and (code < 200 or code in (204, 304))
    items = eng.known_items(st, v)
    vgb = vg or vague_term(v) or deep_mu(st, v)
    if items is not None:
        for t in items:
            ty = type(t.v).__name__ if isinstance(t, Const) else eng.type_of(st, t)
            c.verdict(ty == 'bytes', vgb or vague_term(t) or deep_mu(st, t) or (ty is None and 'type'), 'bytes', where, 'the returned list holds %s (%s)' % (t, ty), st)
        if items and fixed:
            c.verdict(False, vgb, 'no body', where, 'a %d response returns the body %s' % (code, items[0]), st)
        elif items and head is not False:
            c.verdict(False, vgb, 'no body', where, 'a HEAD request gets the body %s' % (items[0],), st)
        elif items:
            c.ok('no body', where)
        elif not items and head is False and code is not None and not fixed:
            # nothing returned: was there something to return?
            lost = None
            if isinstance(sc.body, V) and not critical and want == code:
                e = st.known(App('truthy', sc.body))
                n = st.entails(lin_sub(App('len', sc.body), Const(1)))
                if e is True or n:
                    lost = sc.body
            if sc.items in ITEM and last == 'item' and want == code:
                lost = OUT
            if lost is not None:
                c.verdict(False, vgb, 'no body', where, 'the body %s of a %d response is dropped' % (lost, code), st)
            else:
                c.ok('no body', where)
        elif not items:
            c.ok('no body', where)
        length(c, eng, st, hs, items, where, vg, fixed or head is True)
    else:
        if fixed or head is True:
            c.verdict(False, vgb, 'no body', where, 'a %s response returns %s' % (code if fixed else 'HEAD', v), st)
        elif head is None:
            c.verdict(False, vgb, 'no body', where, 'a HEAD request gets the body %s' % (v,), st)
        stream(c, eng, st, v, sc, where, vg)
        if hs:
            cl = [x for k, x in hs if isinstance(k, Const) and str(k.v).lower() == 'content-length']
            if cl and not st.ghost.get('haslen'):
                c.verdict(False, vg or vague_term(cl[0]), 'length', where, 'Content-Length %s is set on a stream' % (cl[0],), st)
    closing(c, eng, st, v, sc, where, vg, last)


def expect_status(sc, last, st):
    if sc.items in ITEM:
        if last == 'ValueError':
            return 500
        return sc.status
    if sc.items == 'resp':
        return {'item': 203, 'ValueError': 500, 'StopIteration': 200}.get(last)
    if sc.items == 'err':
        return {'item': 409, 'ValueError': 500, 'StopIteration': 200}.get(last)
    if sc.items == 'other':
        return {'item': 500, 'ValueError': 500, 'StopIteration': 200}.get(last)
    return sc.status


def ascii_text(t):
    """codec round trips do not change the digits of a number"""
    x = t
    while isinstance(x, App) and x.op in ('decode', 'encode') and all(isinstance(a, Const) and str(a.v).lower().replace('-', '') in ('utf8', 'latin1', 'ascii', 'iso88591', 'strict') for a in x.args[1:]):
        x = x.args[0]
    return x if isinstance(x, App) and x.op == 'str' else t


def length(c, eng, st, hs, items, where, vg, nobody):
    if not hs:
        return
    cl = [x for k, x in hs if isinstance(k, Const) and str(k.v).lower() == 'content-length']
    if len(cl) > 1:
        c.verdict(False, vg, 'length', where, 'Content-Length is sent twice', st)
    if not cl or nobody:
        return
    n = Const(0)
    for t in items:
        n = lin_add(n, Const(len(t.v)) if isinstance(t, Const) else App('len', t))
    x = strip_str(ascii_text(cl[0]))
    d = lin_sub(x, n)
    ok = d == Const(0) or st.entails(d) and st.entails(lin_scale(d, -1))
    if not ok and not items:
        ok = False
    c.verdict(bool(ok), vg or vague_term(x) or deep_mu(st, x, *items), 'length', where, 'Content-Length is %s, the bytes returned are %s' % (x, items), st)


def stream(c, eng, st, v, sc, where, vg):
    """an iterable is returned: its items must be bytes"""
    r = elements(eng, st, v, sc)
    first = st.ghost.get('item')
    if sc.items in ITEM and first is not None and not deep_mu(st, first) and st.ghost.get('last') == Const('item'):
        u = inner(eng, st, v)
        if u == IT or isinstance(u, App) and u.op == 'map' and u.args[-1] == IT:
            c.verdict(False, vg, 'no body', where, 'the first chunk of the handler iterable is lost', st)
        elif isinstance(u, App) and u.op == 'chain' and u.args:
            head = eng.known_items(st, u.args[0])
            if head is not None:
                c.verdict(any(contains(t, lambda y: y == first) for t in head), vg, 'no body', where, 'the first chunk of the handler iterable is lost: %s not in %s' % (first, head), st)
    if r is True:
        c.ok('bytes', where)
    elif r is None:
        c.und('bytes', where, 'returned %s' % (v,))
    else:
        c.verdict(False, vg, 'bytes', where, r, st)


def inner(eng, st, v):
    """the iterable that a wrapper object holds"""
    if isinstance(v, Ref) and st.get(v).kind == 'inst':
        its = [a for a in st.get(v).attrs.values() if a in (OUT, IT) or isinstance(a, App) and a.op in ('chain', 'map')]
        return its[0] if len(its) == 1 else v
    return v


def elements(eng, st, v, sc):
    """True: bytes; None: unknown; str: why not"""
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'inst':
            its = [a for n, a in o.attrs.items() if a in (OUT, IT) or isinstance(a, App) and a.op in ('chain', 'map') or isinstance(a, Ref) and st.get(a) is not None and st.get(a).kind in ('iter',)]
            rs = [elements(eng, st, a, sc) for a in its]
            if o.attrs.get('fp') == OUT:
                return True
            return rs[0] if len(rs) == 1 else None
        items = eng.known_items(st, v)
        if items is not None:
            for t in items:
                ty = type(t.v).__name__ if isinstance(t, Const) else eng.type_of(st, t)
                if ty != 'bytes':
                    return None if ty is None else 'items %s' % (t,)
            return True
        return None
    if v in (OUT, IT, WRAPPED):
        if sc.items == 'bytes':
            return True
        return 'the items of the handler iterable (%s) are returned as they are' % sc.items
    if isinstance(v, App) and v.op == 'chain':
        for a in v.args:
            r = elements(eng, st, a, sc)
            if r is not True:
                return r
        return True
    if isinstance(v, App) and v.op == 'map':
        f = v.args[0]
        if len(v.args) == 2 and v.args[1] in (OUT, IT) and sc.items in ITEM:
            for s, x in eng.call(st.fork(), f, [Sym('anyitem', ITEM[sc.items])], [], NODE):
                if isinstance(x, Exc):
                    continue
                t = eng.type_of(s, x)
                if t != 'bytes':
                    return None if t is None else 'map gives %s' % t
            return True
    return None


def closing(c, eng, st, v, sc, where, vg, last):
    if not sc.items:
        return
    has = st.known(App('hasattr', OUT, Const('close')))
    base = st.ghost.get('closed', Const(0)).v
    outs = []
    if isinstance(v, Ref) and st.get(v).kind == 'inst':
        for s, f in eng.getattr_(st.fork(), v, 'close', NODE):
            if isinstance(f, Exc):
                outs.append((s, base))
                continue
            for s1, r in eng.call(s, f, [], [], NODE):
                if not isinstance(r, Exc):
                    outs.append((s1, s1.ghost.get('closed', Const(0)).v))
    elif v in (OUT, WRAPPED):
        outs.append((st, base + 1))
    else:
        outs.append((st, base))
    for s, n in outs:
        h = s.known(App('hasattr', OUT, Const('close')))
        if n > 1:
            c.verdict(False, vague(s), 'close', where, 'the iterable is closed %d times' % n, s)
        elif n == 0 and h is not False and (last == 'item' or sc.file):
            vgc = vague(s) or (h is None and not ever_asked(s) and sc.file and 'no close test')
            c.verdict(False, vgc, 'close', where, 'an iterable with a close method is not closed', s)
        else:
            c.ok('close', where)


def ever_asked(st):
    return any(f.op == 'hasattr' for f in st.truth)


# ------------------------------------------------------------------ hooks
def hooks(c, eng):
    B1, B2, A1, A2, H = (Sym(n, 'callable') for n in ('b1', 'b2', 'a1', 'a2', 'handler'))
    full = ['b1', 'b2', 'route', 'handler', 'a2', 'a1']
    cases = [
        ('handler returns', {}, full),
        ('handler raises ValueError', {'handler': raising('ValueError')}, full),
        ('handler raises HTTPResponse', {'handler': raise_resp('HTTPResponse', S_, Const(202))}, full),
        ('handler raises HTTPError', {'handler': raise_resp('HTTPError', Const(403), S_)}, full),
        ('first before hook raises ValueError', {'b1': raising('ValueError')}, ['b1', 'a2', 'a1']),
        ('second before hook raises ValueError', {'b2': raising('ValueError')}, ['b1', 'b2', 'a2', 'a1']),
        ('first before hook raises HTTPResponse', {'b1': raise_resp('HTTPResponse', S_, Const(202))}, ['b1', 'a2', 'a1']),
        ('second before hook raises HTTPError', {'b2': raise_resp('HTTPError', Const(403), S_)}, ['b1', 'b2', 'a2', 'a1']),
        ('handler returns an HTTPError', {'handler': mk('HTTPError', Const(403), S_)}, full),
        ('handler returns an HTTPResponse', {'handler': mk('HTTPResponse', S_, Const(403))}, full),
        ('no route', {'table': 'none'}, ['b1', 'b2', 'route', 'a2', 'a1']),
        ('method not allowed', {'table': '405'}, ['b1', 'b2', 'route', 'a2', 'a1']),
        ('before hook removes itself', {'b1': 'remove'}, full),
        ('after hook removes itself', {'a2': 'remove'}, full),
    ]
    for name, beh, want in cases:
        with c.section('hooks', 60):
            where = 'hooks: ' + name
            sc = Scen(name, const(S_))
            for pol, st, app in setup(c, eng, sc):
                if beh.get('table') == 'none':
                    pol.opaque[GET] = get_route(NONE)
                inner = pol.opaque[GET]

                def log(st, what):
                    st = st.fork()
                    st.ghost['seq'] = Const(st.ghost.get('seq', Const(())).v + (what,))
                    return st

                def get(eng, st, fv, args, kw, node, inner=inner):
                    return inner(eng, log(st, 'route'), fv, args, kw, node)
                pol.opaque[GET] = get

                def call(eng, st, fv, args, kw, node):
                    if isinstance(fv, Sym) and fv.name in ('b1', 'b2', 'a1', 'a2', 'handler'):
                        st = log(st, fv.name)
                        b = beh.get(fv.name)
                        if b == 'remove':
                            out = []
                            for s, f in eng.getattr_(st, app, 'remove_hook', node):
                                out += eng.call(s, f, [Const('before_request' if fv.name[0] == 'b' else 'after_request'), fv], [], node)
                            return out
                        if b is not None:
                            return b(eng, st, node)
                        return [(st, S_ if fv.name == 'handler' else NONE)]
                    return None
                pol.call = call
                states = [st]
                if beh.get('table') == '405':
                    # the route only answers a method that no request uses
                    for s in states:
                        s = s.fork()
                    states = remove_all(eng, st, app, pol)
                for ev, hs in (('before_request', (B1, B2)), ('after_request', (A1, A2))):
                    for h in hs:
                        nxt = []
                        for s in states:
                            for s1, f in eng.getattr_(s, app, 'add_hook', NODE):
                                nxt += [x for x, v in eng.call(s1, f, [Const(ev), h], [], NODE) if not isinstance(v, Exc)]
                        states = nxt
                states = [s for s in states]
                for s in states[:2]:
                    for s1, f in eng.getattr_(s, app, '_handle', NODE):
                        if isinstance(f, Exc):
                            continue
                        for x, v in eng.call(s1, f, [ENVIRON], [], NODE):
                            c.paths += 1
                            seq = list(x.ghost.get('seq', Const(())).v)
                            if not seq and undecodable(x):
                                continue
                            c.verdict(seq == want, vague(x), 'hooks', where, 'calls are %s, expected %s' % (seq, want), x)


def remove_all(eng, st, app, pol):
    """take the methods away from the route behind RadiDict.get"""
    out = []
    for s, v in pol.opaque[GET](eng, st.fork(), None, [], [], NODE):
        r = v.items[0]
        for s1, f in eng.getattr_(s, r, 'remove_method', NODE):
            l = s1.fork()
            arg = l.alloc(Obj('list', items=(Const('ANY'),)), 'rm')
            for s2, w in eng.call(l, f, [arg], [], NODE):
                if not isinstance(w, Exc):
                    s2 = s2.fork()
                    s2.ghost.pop('seq', None)
                    out.append(s2)
    return out
