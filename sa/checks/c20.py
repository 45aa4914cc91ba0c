"""C20: framework error pages never reflect request data unescaped."""
from ..rule import *
from ..web import *

EXPLANATION = (
    'Abstract interpretation of the code that builds framework error responses: the results of Ombott._handle, the default error '
    'handler applied to each of them (the template file is read as source), the 404/405 body chosen by the router, static_file, and '
    'the critical-error page of Ombott.wsgi. The body term of every path is searched for data that comes from the environ, from '
    'exceptions or tracebacks; each occurrence must lie under an escaping operation, in JSON under json.dumps.')
RULES = {
    'escaped': 'request data is in the HTML body only under html.escape / a complete replacement chain / URL quoting',
    'no internals': 'with debug off, no exception or traceback text is in the body',
    'template': 'no format template contains request data',
    'json': 'when JSON is requested the body is the result of json.dumps and the Content-Type is application/json; otherwise it is not JSON',
    'bodies': 'the body and status of a framework HTTPError are not built from request data',
}
EXC = Sym('errexc')
TB = Sym('errtb', 'str')
BODY = Sym('errbody', 'str')
URL = 'url'


def secret(t):
    return t in (EXC, TB) or isinstance(t, Sym) and t.name.startswith(('ret:traceback.', 'ret:sys.exc_info', 'anyexc'))


def ext_name(t):
    if isinstance(t, App) and t.op == 'call' and isinstance(t.args[0], Ext):
        return t.args[0].name
    return None


ESC = {'html.escape', 'cgi.escape', 'markupsafe.escape', 'xml.sax.saxutils.escape', 'xml.sax.saxutils.quoteattr'}
QUOTE = {'urllib.parse.quote', 'urllib.parse.quote_plus', 'urllib.parse.urlencode', 'urllib.request.pathname2url'}
NEUTRAL = {'len', 'find', 'rfind', 'count', 'hash'}


def chain(t):
    """characters replaced by entities on top of t, and the term below"""
    got = set()
    while isinstance(t, App) and t.op in ('replace', 'translate'):
        if t.op == 'translate':
            m = t.args[1] if len(t.args) > 1 else None
            if isinstance(m, Const) and isinstance(m.v, dict):
                for k, v in m.v.items():
                    if isinstance(v, str) and (v.startswith('&') or v == ''):
                        got.add(chr(k) if isinstance(k, int) else k)
            else:
                break
        else:
            if not (len(t.args) == 3 and isinstance(t.args[1], Const) and isinstance(t.args[2], Const)):
                break
            a, b = t.args[1].v, t.args[2].v
            if isinstance(a, bytes):
                a, b = a.decode('latin1'), b.decode('latin1')
            if len(a) == 1 and (b.startswith('&') or not set(b) & set('<>&"\'')):
                got.add(a)
            elif set(b) & set('<>"\'') or '&' in a:
                break       # undoes or adds markup: not an escaping step
        t = t.args[0]
    return got, t


class Dirt:
    def __init__(self):
        self.hits = []      # (kind, text)
        self.vague = []

    def scan(self, t, st, ctx='text'):
        if isinstance(t, Const):
            return
        if isinstance(t, Tup):
            for x in t.items:
                self.scan(x, st, ctx)
            return
        if isinstance(t, Ref):
            o = st.get(t)
            if o is not None and o.kind in ('list', 'set'):
                for x in o.items:
                    self.scan(x, st, ctx)
            elif o is not None and o.kind == 'dict':
                for k, v in o.items:
                    self.scan(k, st, ctx)
                    self.scan(v, st, ctx)
            elif o is not None and o.kind in ('inst', 'exc'):
                self.hits.append(('internals', 'object %s' % (t,)))
            return
        if isinstance(t, (Ext, Func, Bound, Meth)):
            return
        if secret(t):
            self.hits.append(('internals', '%s' % (t,)))
            return
        if isinstance(t, Sym):
            if t == ENVIRON or t.name in (URL, 'hosttext'):
                self.hits.append(('request', '%s' % (t,)))
            elif t.name.startswith(('ret:', 'mu:', 'unsup', 'undef:')):
                self.vague.append('%s' % (t,))
            return
        if not isinstance(t, App):
            return
        if t.op in NEUTRAL:
            return
        n = ext_name(t)
        if n in ESC:
            kw = [x for x in t.args if isinstance(x, App) and x.op == 'kw']
            q = next((x.args[1] for x in kw if str(x.args[0]).strip("'") == 'quote'), t.args[2] if len(t.args) > 2 and not isinstance(t.args[2], App) else None)
            if q == Const(False) and ctx == 'attr':
                self.under(t.args[1], st, 'request', 'unquoted %s' % (t,))
            self.internals(t, st)
            return
        if n in QUOTE:
            self.internals(t, st)
            return
        if n in ('urllib.parse.unquote', 'urllib.parse.unquote_plus', 'html.unescape'):
            self.under(t, st, 'request', '%s' % (t,))
            self.internals(t, st)
            return
        if n and n.startswith('json.'):
            self.under(t, st, 'request', 'JSON text with %s' % (t,))
            self.internals(t, st)
            return
        got, below = chain(t)
        if got:
            need = {'<', '>', '&'} | ({'"'} if ctx == 'attr' else set())
            if need <= got:
                self.internals(t, st)
                return
            d = Dirt()
            d.scan(below, st, ctx)
            if d.vague:
                self.vague += d.vague
            for k, x in d.hits:
                self.hits.append((k, '%s escaped only for %s' % (x, ''.join(sorted(got)))))
            return
        if t.op == 'concat':
            cur = ctx
            for x in t.args:
                if isinstance(x, Const) and isinstance(x.v, (str, bytes)):
                    s = x.v if isinstance(x.v, str) else x.v.decode('latin1')
                    i, j = s.rfind('<'), s.rfind('>')
                    if i > j:
                        cur = 'attr'
                    elif j >= 0:
                        cur = 'text'
                else:
                    self.scan(x, st, cur)
            return
        if t.op in ('format', 'mod', 'pct') and t.args and not isinstance(t.args[0], Const):
            d = Dirt()
            d.raw(t.args[0], st)
            if d.hits:
                self.hits.append(('template', '%s' % (t.args[0],)))
        if t.op == 'content' or t.op in ('star', 'upd'):
            self.vague.append('%s' % t.op)
        for x in t.args:
            if isinstance(x, V):
                self.scan(x, st, ctx)

    def raw(self, t, st):
        for x in subterms(t):
            if x == ENVIRON or isinstance(x, Sym) and x.name == URL:
                self.hits.append(('request', '%s' % (t,)))
                return

    def under(self, t, st, kind, text):
        for x in subterms(t):
            if x == ENVIRON or isinstance(x, Sym) and x.name == URL:
                self.hits.append((kind, text))
                return

    def internals(self, t, st):
        for x in subterms(t):
            if secret(x):
                self.hits.append(('internals', '%s' % (t,)))
                return
            if isinstance(x, Ref) and st.get(x) is not None:
                o = st.get(x)
                if o.kind == 'dict':
                    for k, v in o.items:
                        self.internals(k, st)
                        self.internals(v, st)


def short(x):
    x = str(x)
    return x if len(x) < 200 else x[:120] + ' ... ' + x[-60:]


def report(c, st, t, where, html=True):
    d = Dirt()
    d.scan(t, st)
    vg = vague_state(st) or (d.vague and 'opaque %s' % d.vague[0])
    for kind, text in d.hits:
        if kind == 'internals':
            c.verdict(False, vg, 'no internals', where, 'debug is off and the body contains %s' % short(text), st)
        elif kind == 'template':
            c.verdict(False, vg, 'template', where, 'request data is used as a format template: %s' % short(text), st)
        else:
            c.verdict(False, vg, 'escaped', where, 'the body contains %s without HTML escaping' % short(text), st)
    if not d.hits and not vg:
        for r in ('escaped', 'no internals', 'template'):
            c.ok(r, where)
    elif not d.hits:
        c.und('escaped', where, vg)


def json_call(t):
    while isinstance(t, App) and t.op in ('encode', 'str', 'bytes', 'decode'):
        t = t.args[0]
    n = ext_name(t)
    return t if n in ('json.dumps', 'simplejson.dumps', 'ujson.dumps') else None


def is_accept(t):
    return contains(t, lambda x: isinstance(x, Const) and isinstance(x.v, str) and x.v.upper().replace('-', '_') in ('HTTP_ACCEPT', 'ACCEPT'))


def asked(st):
    """True / False / None: is JSON requested on this path"""
    res = None
    for f, val in st.truth.items():
        if f.op in ('startswith', 'eq', 'in') and is_accept(f) and contains(f, lambda x: isinstance(x, Const) and isinstance(x.v, str) and 'application/json' in x.v):
            return val
        if f.op == 'truthy' and contains(f, lambda x: isinstance(x, Const) and isinstance(x.v, str) and 'is_json' in x.v):
            res = val
        if f.op in ('truthy', 'isnone', 'ge0') and is_accept(f):
            absent = val if f.op == 'isnone' else not val
            if absent and res is None:
                res = False
        if f.op == 'in' and is_accept(f.args[0]) and not val and res is None and f.args[1] == ENVIRON:
            res = False
    if res is None:
        for _, ts in st.lins:
            for t in ts:
                if isinstance(t, App) and t.op == 'len' and is_accept(t) and st.entails(lin_scale(t, -1)):
                    return False
    return res


def run(c):
    eng = c.eng
    page(c, eng)
    sources(c, eng)
    critical(c, eng)


# ------------------------------------------------------------------ the default error page
def page(c, eng):
    with c.section('escaped'):
        for status in (404, 500):
            pol = package_files(eng, Policy(join_at=10**9))
            st = start(eng, pol, 'ombott.ombott')
            st, app = default_app(eng, st)
            resp = st.get(app).attrs['response']
            cls = eng.lookup('ombott.response', 'HTTPError')
            for s, r in eng.call(st, cls, [Const(status), BODY, EXC, TB], [], NODE):
                if isinstance(r, Exc):
                    continue
                for s1, f in eng.getattr_(s, app, 'default_error_handler', NODE):
                    if isinstance(f, Exc):
                        continue
                    res = eng.call(s1, f, [r], [], NODE)
                    c.paths += len(res)
                    for x, v in res:
                        where = 'default_error_handler %d' % status
                        if isinstance(v, Exc):
                            c.und('escaped', where, 'raises %r' % (v.val,))
                            continue
                        j = json_call(v)
                        want = asked(x)
                        if j is not None:
                            a = j.args[1] if len(j.args) > 1 else NONE
                            d = Dirt()
                            d.internals(a, x)
                            if isinstance(a, Ref):
                                d.internals(App('x', a), x)
                            for _, text in d.hits:
                                c.verdict(False, vague_state(x), 'no internals', where + ' (JSON)', 'debug is off and the JSON body contains exception data', x)
                            if not d.hits:
                                c.ok('no internals', where + ' (JSON)')
                            ctype(c, eng, x, resp, where)
                            if want is False:
                                c.verdict(False, vague_state(x), 'json', where, 'JSON is sent although it was not requested', x)
                            elif want:
                                c.ok('json', where)
                        else:
                            report(c, x, v, where)
                            if want:
                                vg = vague_state(x) or vague_term(v)
                                if isinstance(v, App) and ext_name(v) and ext_name(v).startswith('json'):
                                    vg = 'other JSON writer'
                                c.verdict(False, vg, 'json', where, 'JSON is requested and the body is %s' % short(v), x)
                            elif want is None:
                                c.und('json', where, 'path does not say whether JSON is requested')


def ctype(c, eng, x, resp, where):
    found = None
    for s, l in eng.getattr_(x, resp, 'headerlist', NODE):
        if isinstance(l, Exc) or not isinstance(l, Ref):
            continue
        vals = [it.items[1] for it in s.get(l).items if isinstance(it, Tup) and isinstance(it.items[0], Const) and str(it.items[0].v).lower() == 'content-type']
        if any(isinstance(v, Const) and str(v.v).startswith('application/json') for v in vals) and len(vals) == 1:
            c.ok('json', where + ' Content-Type')
        elif vals and all(isinstance(v, Const) for v in vals):
            c.verdict(False, vague_state(s), 'json', where + ' Content-Type', 'a JSON error body is sent as %s' % (vals,), s)
        else:
            c.und('json', where + ' Content-Type', '%s' % (vals,))


# ------------------------------------------------------------------ bodies of framework errors
def tainted(t):
    return contains(t, lambda x: x == ENVIRON or isinstance(x, Sym) and x.name in ('path', 'filename'))


def arg_check(c, st, info, where):
    """status, body given to an error response"""
    status, body = info
    for what, t in (('status', status), ('body', body)):
        if not isinstance(t, V) or isinstance(t, Const):
            c.ok('bodies', where)
            continue
        d = Dirt()
        d.scan(t, st)
        hits = [h for h in d.hits if h[0] in ('request', 'template', 'internals')]
        if not hits and contains(t, lambda x: isinstance(x, Sym) and x.name in ('path', 'filename')):
            hits = [('request', '%s' % (t,))]
        if hits:
            c.verdict(False, vague_state(st) or vague_term(t), 'bodies', where, 'the %s of the error is %s' % (what, short(t)), st)
        elif d.vague:
            c.und('bodies', where, short(t))
        else:
            c.ok('bodies', where)


def errors_in(c, eng, st, v, where):
    """v: a value or exception: when it is a framework error, check what it says"""
    ref = v.val if isinstance(v, Exc) else v
    if isinstance(ref, Ref) and st.get(ref) is not None and st.get(ref).kind in ('inst', 'exc'):
        o = st.get(ref)
        cls = o.cls
        names = [st.get(k).meta['name'] for k in eng.mro(st, cls) if isinstance(k, Ref)] if isinstance(cls, Ref) else []
        if 'HTTPError' in names:
            arg_check(c, st, (o.attrs.get('_status_line', NONE), o.attrs.get('body', NONE)), where)
            return True
    return False


def get_route(rt):
    def get(eng, st, fv, args, kw, node):
        st = st.fork()
        pv = st.alloc(Obj('list'), 'pv')
        hk = st.alloc(Obj('list'), 'hk')
        ex = st.alloc(Obj('dict', items=((Const('param_keys'), NONE), (Const('param_values'), pv), (Const('hooks'), hk))), 'extra')
        return [(st, Tup((rt, ex)))]
    return get


GET = 'ombott.router.radidict:RadiDict.get'


def tables(c, eng):
    """(name, policy, state, app): empty table, unknown table, one matching route, a lookup that fails"""
    for table in ('empty', 'unknown', 'one route', 'failing'):
        pol = Policy(join_at=10**9)
        st = start(eng, pol, 'ombott.ombott')
        st, app = default_app(eng, st)
        if table == 'one route':
            for s, r in eng.call(st, eng.lookup('ombott.router.radirouter', 'Route'), [Const('/x')], [], NODE):
                if isinstance(r, Exc):
                    continue
                for s1, f in eng.getattr_(s, r, 'set_method', NODE):
                    for s2, v in eng.call(s1, f, [Const('GET'), Sym('handler', 'callable')], [], NODE):
                        if not isinstance(v, Exc):
                            pol.opaque[GET] = get_route(r)
                            yield table, pol, s2, app
            continue
        if table == 'unknown':
            pol.opaque[GET] = lambda eng, st, fv, args, kw, node: [(st.fork(), Tup((NONE, Sym('extra', 'dict'))))]
        elif table == 'failing':
            def fails(eng, st, fv, args, kw, node):
                st = st.fork()
                return [(st, eng.mkexc(st, 'ValueError', node, Sym('anyexc', 'str')))]
            pol.opaque[GET] = fails
        yield table, pol, st, app


def sources(c, eng):
    # the errors Ombott._handle returns: 400, 404, 405, 500
    with c.section('bodies'):
        for table, pol, st, app in tables(c, eng):
            where = 'Ombott._handle (routing table: %s)' % table
            for s, f in eng.getattr_(st, app, '_handle', NODE):
                if isinstance(f, Exc):
                    continue
                res = eng.call(s, f, [ENVIRON], [], NODE)
                c.paths += len(res)
                for x, v in res:
                    errors_in(c, eng, x, v, where)
    # static files
    with c.section('bodies'):
        pol = resp_policy(eng, join_at=10**9)
        for n in ('get_first_range', 'parse_date', '_file_iter_range'):
            pol.opaque['ombott.static_stream:' + n] = lambda eng, st, fv, args, kw, node: [(st.fork(), Sym('aux'))]
        st = start(eng, pol, 'ombott.static_stream')
        st, app = default_app(eng, st)
        for s, v in eng.call(st, eng.lookup('ombott.static_stream', 'static_file'), [Sym('filename', 'str'), Sym('root', 'str')], [], NODE):
            c.paths += 1
            r = resp_view(eng, s, v.val if isinstance(v, Exc) else v)
            if r is not None and r.cls == 'HTTPError':
                arg_check(c, s, (r.status, r.body), 'static_file')


# ------------------------------------------------------------------ the critical page
def critical(c, eng):
    with c.section('escaped'):
        pol = Policy(join_at=10**9)

        def fails(eng, st, fv, args, kw, node):
            st = st.fork()
            return [(st, eng.mkexc(st, 'ValueError', node, Sym('anyexc', 'str')))]
        pol.opaque['ombott.ombott:Ombott._cast'] = fails
        pol.opaque['ombott.ombott:Ombott._handle'] = fails
        st = start(eng, pol, 'ombott.ombott')
        st, app = default_app(eng, st)
        sr = Sym('start_response', 'callable')
        for s, f in eng.getattr_(st, app, 'wsgi', NODE):
            if isinstance(f, Exc):
                continue
            res = eng.call(s, f, [ENVIRON, sr], [], NODE)
            c.paths += len(res)
            bodies, unsure = [], None
            for x, v in res:
                where = 'critical error page'
                if isinstance(v, Exc):
                    continue
                items = eng.known_items(x, v)
                if items is None:
                    c.und('escaped', where, 'body %s' % (v,))
                    continue
                calls = [e for e in x.events() if e.kind == 'call' and e.a[0] == sr]
                head = calls[-1].a[1][1] if calls and len(calls[-1].a[1]) > 1 else None
                hd = {}
                for it in (eng.known_items(x, head) or []) if head is not None else []:
                    if isinstance(it, Tup) and len(it.items) == 2 and isinstance(it.items[0], Const):
                        hd[str(it.items[0].v).lower()] = it.items[1]
                ct = hd.get('content-type')
                want = asked(x)
                for t in items:
                    j = json_call(t)
                    bodies.append(j is not None)
                    if j is None:
                        unsure = unsure or vague_state(x) or vague_term(t)
                    if j is not None:
                        d = Dirt()
                        for y in j.args[1:]:
                            d.internals(App('x', y), x)
                        c.verdict(not d.hits, vague_state(x), 'no internals', where + ' (JSON)', 'debug is off and the JSON body contains exception data', x)
                        c.verdict(isinstance(ct, Const) and str(ct.v).startswith('application/json'), vague_state(x) or (ct is None and 'headers not understood') or (not isinstance(ct, Const) and 'type'), 'json', where + ' Content-Type', 'the JSON critical page is sent as %s' % (ct,), x)
                        if want is False:
                            c.verdict(False, vague_state(x), 'json', where, 'JSON is sent although it was not requested', x)
                        elif want:
                            c.ok('json', where)
                    else:
                        report(c, x, t, where)
                        if want:
                            c.verdict(False, vague_state(x) or vague_term(t), 'json', where, 'JSON is requested and the body is %s' % short(t), x)
            if bodies and not any(bodies):
                c.verdict(False, unsure, 'json', 'critical error page', 'no path answers in JSON, whatever the request asks for')
