"""Scripted request streams: wsgi.input delivers a fixed sequence of constant and unknown bytes in every fragmentation.

`read(n)` has one outcome for every length from one byte to n (or only the longest, when fragmentation is not
asked for); an unknown byte is a Sym "byte:k" of length one.  Spool files keep their content as byte terms.
"""
from .rule import *
from .web import *

REQ = 'ombott.request_pkg.request'
INPUT = Sym('wsgi.input', 'inst')
MEM = ('io.BytesIO',)
FILES = ('tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'tempfile.SpooledTemporaryFile')


def byte(k):
    return Sym('byte:%d' % k, 'bytes')


def unknown(n, base=0):
    return [byte(base + i) for i in range(n)]


def tokens(v):
    """bytes term -> list of one-byte terms, or None"""
    out = []
    for p in v.args if isinstance(v, App) and v.op == 'concat' else (v,):
        if isinstance(p, Const) and isinstance(p.v, bytes):
            out += [Const(p.v[i:i + 1]) for i in range(len(p.v))]
        elif isinstance(p, Sym) and p.name.startswith('byte:'):
            out.append(p)
        else:
            return None
    return out


def text(toks):
    return models.concat(list(toks), b'')


def show(toks):
    return ''.join(t.v.decode('latin1') if isinstance(t, Const) else '?' for t in toks).replace('\r', '\\r').replace('\n', '\\n')


class Stream:
    """set-up: the default application (its configuration), one request over a scripted stream"""
    def __init__(self, c, eng, data, environ, config=None, split=True, other=frozenset()):
        self.c, self.eng, self.data, self.split = c, eng, list(data), split
        self.pol = pol = Policy(join_at=10**9, peel=4000)
        pol.unroll = 4000
        pol.max_states = 200000
        pol.asserts = True
        pol.excl = {Sym('no:piece'): frozenset()}
        for t in self.data:
            if isinstance(t, Sym):
                pol.excl[t] = other
        for m in ('read', 'write', 'seek', 'tell', 'getvalue', 'getbuffer', 'truncate', 'readline', 'flush', 'close', 'rollover', '__enter__', '__exit__', 'readlines'):
            pol.meth[m] = getattr(self, 'm_' + m.strip('_'))
        for n in MEM:
            pol.ext[n] = self.spool('mem')
        for n in FILES:
            pol.ext[n] = self.spool('file')
        pol.ext['builtins.isinstance'] = self.isinstance
        pol.ext['shutil.copyfileobj'] = self.copyfileobj
        st = start(eng, pol, 'ombott.ombott')
        for t in self.data:
            if isinstance(t, Sym):
                st.learn(App('truthy', t), True)
        st.learn(App('truthy', INPUT), True)
        self.ready = False
        m = eng.module('ombott.ombott')
        g = st.get(m.frame).attrs.get('Globals')
        self.app = st.get(g).attrs.get('app') if isinstance(g, Ref) else None
        if not isinstance(self.app, Ref):
            return
        if config:
            cfg = st.alloc(Obj('dict', items=tuple((Const(k), Const(v) if not isinstance(v, (Sym, App, Const)) else v) for k, v in config.items())), 'cfg')
            r = models.each(eng.getattr_(st, self.app, 'setup', NODE), lambda s, f: eng.call(s, f, [cfg], [], NODE))
            if len(r) != 1 or isinstance(r[0][1], Exc):
                return
            st = r[0][0]
        self.env = st.alloc(Obj('dict', items=tuple((Const(k), Const(v) if not isinstance(v, (Sym, App, Const)) else v) for k, v in environ.items()) + ((Const('wsgi.input'), INPUT),)), 'environ')
        self.req = st.get(self.app).attrs.get('request')
        st.ghost['at'] = Const(0)
        st.ghost['reads'] = Tup(())
        st.tr, st.eff = None, 0
        self.st = st
        r = eng.setattr_(st, self.req, 'environ', self.env, NODE)
        if len(r) == 1 and not isinstance(r[0][1], Exc):
            self.st = r[0][0]
            self.ready = True

    # ---- the stream
    def num(self, st, v):
        if isinstance(v, Const) and isinstance(v.v, int):
            return v.v
        return None

    def m_read(self, eng, st, self_, args, kw, node):
        if self_ == INPUT:
            return self.read_stream(eng, st, args, node)
        if not self.is_spool(st, self_):
            return None
        buf, pos = self.content(st, self_), st.ghost[('pos', self_)]
        n = self.size_arg(st, args)
        if n is None or buf is None:
            return None
        p = pos.v
        part = buf[p:] if n < 0 else buf[p:p + n]
        st = st.fork()
        st.ghost[('pos', self_)] = Const(p + len(part))
        st.ghost['loaded'] = Const(max(len(part), st.ghost['loaded'].v if 'loaded' in st.ghost else 0))
        return [(st, text(part))]

    def size_arg(self, st, args):
        if not args or args[0] == NONE:
            return -1
        return self.num(st, args[0])

    def read_stream(self, eng, st, args, node):
        n = self.size_arg(st, args)
        if n is None:
            st = st.fork()
            st.ghost['odd'] = Const('read of %s' % (args[0],))
            return [(st, Sym(st.fresh('read')))]
        at = st.ghost['at'].v
        left = len(self.data) - at
        want = left if n < 0 else min(n, left)
        out = []
        ks = range(1, want + 1) if self.split is True and n >= 0 else [min(want, self.split) if self.split is not False and n >= 0 else want]
        for k in ks if want else [0]:
            a = st.fork()
            a.ghost['reads'] = Tup(a.ghost['reads'].items + (Const((n, at, k)),))
            a.ghost['at'] = Const(at + k)
            out.append((a, text(self.data[at:at + k])))
        return out

    def m_readline(self, eng, st, self_, args, kw, node):
        n = self.size_arg(st, args)
        if self_ == INPUT:
            if n is None:
                return None
            at = st.ghost['at'].v
            k = 0
            while at + k < len(self.data) and (n < 0 or k < n):
                t = self.data[at + k]
                if isinstance(t, Sym):
                    return None
                k += 1
                if t == Const(b'\n'):
                    break
            st = st.fork()
            st.ghost['reads'] = Tup(st.ghost['reads'].items + (Const((k if n >= 0 else n, at, k)),))
            st.ghost['at'] = Const(at + k)
            return [(st, text(self.data[at:at + k]))]
        return None

    def m_readlines(self, eng, st, self_, args, kw, node):
        return None

    # ---- spools
    def spool(self, kind):
        def make(eng, st, args, kw, node):
            st = st.fork()
            s = Sym(st.fresh('spool:' + kind), 'inst')
            buf = []
            if kind == 'mem' and args:
                buf = tokens(args[0])
                if buf is None:
                    return None
            st.ghost[('buf', s)] = Tup(tuple(buf))
            st.ghost[('pos', s)] = Const(0)
            st.learn(App('truthy', s), True)
            return [(st, s)]
        return make

    def isinstance(self, eng, st, args, kw, node):
        if not self.is_spool(st, args[0]):
            return None
        mem = args[0].name.startswith('spool:mem')
        cs = args[1].items if isinstance(args[1], Tup) else (args[1],)
        if not all(isinstance(x, Ext) for x in cs):
            return None
        return [(st, Const(any(x.name in (('io.BytesIO', 'io.BufferedIOBase') if mem else FILES) or x.name == 'io.IOBase' and mem for x in cs)))]

    def is_spool(self, st, v):
        return isinstance(v, Sym) and v.name.startswith('spool:') and ('buf', v) in st.ghost

    def content(self, st, v):
        b = st.ghost.get(('buf', v))
        return list(b.items) if isinstance(b, Tup) else None

    def m_write(self, eng, st, self_, args, kw, node):
        if not self.is_spool(st, self_):
            return None
        buf, toks = self.content(st, self_), tokens(args[0])
        st = st.fork()
        if buf is None or toks is None:
            st.ghost[('buf', self_)] = Sym('buf:unknown')
            return [(st, Sym(st.fresh('written'), 'int'))]
        p = st.ghost[('pos', self_)].v
        if p > len(buf):
            buf += [Const(b'\0')] * (p - len(buf))
        buf[p:p + len(toks)] = toks
        st.ghost[('buf', self_)] = Tup(tuple(buf))
        st.ghost[('pos', self_)] = Const(p + len(toks))
        if self_.name.startswith('spool:mem'):
            st.ghost['most'] = Const(max(len(buf), st.ghost['most'].v if 'most' in st.ghost else 0))
        return [(st, Const(len(toks)))]

    def m_seek(self, eng, st, self_, args, kw, node):
        if not self.is_spool(st, self_):
            return None
        n = self.num(st, args[0])
        wh = args[1] if len(args) > 1 else dict(kw).get('whence', Const(0))
        buf = self.content(st, self_)
        base = 0 if wh in (Const(0), Ext('os.SEEK_SET'), Ext('io.SEEK_SET')) else st.ghost[('pos', self_)].v if wh in (Const(1), Ext('os.SEEK_CUR'), Ext('io.SEEK_CUR')) \
            else len(buf) if buf is not None and wh in (Const(2), Ext('os.SEEK_END'), Ext('io.SEEK_END')) else None
        st = st.fork()
        if n is None or base is None:
            st.ghost['odd'] = Const('seek')
            return [(st, Sym(st.fresh('seek')))]
        if base + n < 0:
            return [(st, eng.mkexc(st, 'ValueError', node))]
        st.ghost[('pos', self_)] = Const(base + n)
        return [(st, Const(base + n))]

    def m_tell(self, eng, st, self_, args, kw, node):
        return [(st, st.ghost[('pos', self_)])] if self.is_spool(st, self_) else None

    def m_getvalue(self, eng, st, self_, args, kw, node):
        if not self.is_spool(st, self_) or self.content(st, self_) is None:
            return None
        if self_.name.startswith('spool:file'):
            return [(st, eng.mkexc(st, 'AttributeError', node))]
        return [(st, text(self.content(st, self_)))]

    m_getbuffer = m_getvalue

    def m_truncate(self, eng, st, self_, args, kw, node):
        if not self.is_spool(st, self_) or self.content(st, self_) is None:
            return None
        n = self.num(st, args[0]) if args else st.ghost[('pos', self_)].v
        if n is None:
            return None
        st = st.fork()
        st.ghost[('buf', self_)] = Tup(tuple(self.content(st, self_)[:n]))
        return [(st, Const(n))]

    def m_none(self, eng, st, self_, args, kw, node):
        return [(st, NONE)] if self.is_spool(st, self_) else None

    m_flush = m_close = m_rollover = m_exit = m_none

    def m_enter(self, eng, st, self_, args, kw, node):
        return [(st, self_)] if self.is_spool(st, self_) else None

    def copyfileobj(self, eng, st, args, kw, node):
        a, b = args[:2]
        if not (self.is_spool(st, a) and self.is_spool(st, b)):
            return None
        r = self.m_read(eng, st, a, [], [], node)
        if not r:
            return None
        s, v = r[0]
        r = self.m_write(eng, s, b, [v], [], node)
        return [(r[0][0], NONE)]

    # ---- queries
    def get(self, st, name):
        return self.eng.getattr_(st, self.req, name, NODE)

    def env_get(self, st, key):
        return dict(st.get(self.env).items).get(Const(key))

    def rest(self, st, f):
        """what the file object delivers from where it stands, or None"""
        if not self.is_spool(st, f) or self.content(st, f) is None:
            return None
        p = st.ghost[('pos', f)]
        return self.content(st, f)[p.v:] if isinstance(p, Const) else None


def vague(st):
    """why a path of the analysis does not correspond to a run, or None"""
    if 'odd' in st.ghost:
        return st.ghost['odd'].v
    for t in st.truth:
        for x in subterms(t):
            if isinstance(x, Sym) and x.name.startswith(('mu:', 'ret:', 'read#', 'unsup', 'buf:', 'read:')):
                return 'term %s' % x
    return vague_state(st)


def status_of(eng, st, v):
    """status code of a raised or returned response object, 'other' exception class name, or None"""
    val = v.val if isinstance(v, Exc) else v
    for name in ('status_code', '_status_code'):
        r = eng.getattr_(st, val, name, NODE)
        if len(r) == 1 and isinstance(r[0][1], Const) and isinstance(r[0][1].v, int):
            return r[0][1].v
    return None


HANDLER = Sym('handler', 'func')
START = Sym('start_response', 'func')
FULL = {'REQUEST_METHOD': 'POST', 'PATH_INFO': '/', 'SCRIPT_NAME': '', 'QUERY_STRING': '', 'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'HTTP_HOST': 'h', 'wsgi.url_scheme': 'http'}


def serve(w, use):
    """app(environ, start_response) with a handler that does use(eng, st, request) -> [(st, value|Exc)]; yields (st, result, status line or None)"""
    eng = w.eng

    def call(eng, st, fv, args, kw, node):
        if fv == HANDLER:
            return use(eng, st, w.req)
        if fv == START:
            st = st.fork()
            st.ghost['status'] = args[0]
            return [(st, Sym('write'))]
        return None
    w.pol.call = call
    w.pol.opaque['ombott.ombott:Ombott.default_error_handler'] = lambda eng, st, fv, args, kw, node: [(st, Const('page'))]
    mine = dict(w.pol.meth)
    package_files(eng, w.pol)
    for n, f in mine.items():
        g = w.pol.meth[n]
        if g is not f:
            w.pol.meth[n] = lambda *a, f=f, g=g: f(*a) or g(*a)
    st = w.st
    st.learn(App('truthy', HANDLER), True)
    st.learn(App('callable', HANDLER), True)
    st.learn(App('truthy', START), True)
    for s, f in eng.getattr_(st, w.app, 'route', NODE):
        for s1, _ in eng.call(s, f, [Const('/')], [('method', Const('POST')), ('callback', HANDLER)], NODE):
            for s2, r in models.each(eng.getattr_(s1, w.app, 'wsgi', NODE), lambda x, g: eng.call(x, g, [w.env, START], [], NODE)):
                yield s2, r, s2.ghost.get('status')
