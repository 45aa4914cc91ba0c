"""Set-up shared by rules: the default application, requests and responses."""
from __future__ import annotations
import ast
from .interp import Policy, Exc
from .terms import *
from .state import Obj
from . import models

NODE = ast.parse('x').body[0]
ENVIRON = Sym('environ', 'dict')


def start(eng, policy, modname):
    eng.policy = policy
    st = eng.new_state()
    st.frame = eng.module(modname).frame
    return st


def default_app(eng, st):
    """Ref of the module level application, its request given an unknown environ."""
    m = eng.module('ombott.ombott')
    g = st.get(m.frame).attrs.get('Globals')
    app = st.get(g).attrs.get('app') if isinstance(g, Ref) else None
    if not isinstance(app, Ref):
        return st, None
    req = st.get(app).attrs.get('request')
    if isinstance(req, Ref):
        r = eng.setattr_(st, req, 'environ', ENVIRON, NODE)
        if len(r) == 1 and not isinstance(r[0][1], Exc):
            st = r[0][0]
    sv = st.get(g).attrs.get('serving')
    if isinstance(sv, Ref):
        st = st.fork()
        st.setattr_raw(sv, 'app', app)
    st.tr, st.eff = None, 0
    return st, app


def resp_ctor(eng, st, cref, args, kw, node):
    """Opaque response construction: App('resp', class name, n, ...) with bound arguments."""
    init, _ = eng.class_attr(st, cref, '__init__')
    st = st.fork()
    obj = Sym(st.fresh('resp:' + st.get(cref).meta['name']), 'inst')
    vars, ex = eng.bind(st, init, [obj] + list(args), kw, node)
    if ex is not None:
        return [(st, ex)]
    info = {}
    a = init.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    headers = {}
    exact = True

    def merge(v):
        nonlocal exact
        if v == NONE:
            return
        if isinstance(v, Ref) and st.get(v).kind == 'dict':
            o = st.get(v)
            for k, x in o.items:
                if isinstance(k, Const):
                    headers[str(k.v).replace('_', '-').title()] = x
                else:
                    exact = False
            if o.open is not None:
                exact = False
        else:
            exact = False
    if 'headers' in vars:
        merge(vars['headers'])
    if a.kwarg is not None:
        merge(vars[a.kwarg.arg])
    info = (st.get(cref).meta['name'], vars.get('status', NONE), vars.get('body', NONE), tuple(sorted(headers.items())), exact)
    st.ghost[('resp', obj)] = Const(info)
    eng.event(st, 'call', node, (cref, tuple(args), tuple(kw)), obj)
    return [(st, obj)]


class RespView:
    def __init__(self, cls, status, body, headers, exact):
        self.cls, self.status, self.body, self.headers, self.exact = cls, status, body, headers, exact

    def __repr__(self):
        return 'Resp(%s %s %s %s)' % (self.cls, self.status, self.body, self.headers)


def resp_view(eng, st, v):
    """What a response built through resp_ctor finally looks like, or None."""
    c = st.ghost.get(('resp', v))
    if c is None:
        return None
    cls, status, body, headers, exact = c.v
    headers = dict(headers)
    for n in ('status', 'body'):
        x = st.sto.get((v, 'a', n))
        if x is not None:
            if n == 'status':
                status = x
            else:
                body = x
    hd = App('attr', v, Const('headers'))
    for (b, kind, k), x in st.sto.items():
        if b == hd and kind == 'i':
            if isinstance(k, Const):
                headers[str(k.v).title()] = x
            else:
                exact = False
        elif b == v and kind == 'a' and k in ('content_length', 'content_type'):
            headers[k.replace('_', '-').title()] = x
    if status == NONE:
        status = Const(200 if cls != 'HTTPError' else 500)
    return RespView(cls, status, body, headers, exact)


RESP_CLASSES = ('ombott.response:HTTPResponse', 'ombott.response:HTTPError')


def resp_policy(eng, **kw):
    p = Policy(**kw)
    for q in RESP_CLASSES:
        p.opaque[q] = resp_ctor
    return p


# ------------------------------------------------------------------ data files of the package
def package_files(eng, pol):
    """Model reading of files that ship with the package (templates): their text is source too."""
    import os
    root = os.path.join(eng.root, eng.package)
    names = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(('.py', '.pyc')):
                names.setdefault(f, os.path.join(d, f))

    def which(t):
        for x in subterms(t):
            if isinstance(x, Const) and isinstance(x.v, str):
                b = x.v.replace(os.sep, '/').split('/')[-1]
                if b in names:
                    return names[b]
        return None

    def text(t):
        p = which(t)
        if p is None:
            return None
        with open(p, encoding='utf8') as f:
            return f.read()

    def handle(eng, st, src, node):
        st = st.fork()
        return [(st, App('pkgfile', src))]

    def m_open(eng, st, self_, args, kw, node):
        return handle(eng, st, self_, node) if which(self_) else None

    def m_read_text(eng, st, self_, args, kw, node):
        t = text(self_)
        return None if t is None else [(st, Const(t))]

    def m_read(eng, st, self_, args, kw, node):
        if isinstance(self_, App) and self_.op == 'pkgfile' and not args:
            return [(st, Const(text(self_)))]
        return None

    def m_readlines(eng, st, self_, args, kw, node):
        if isinstance(self_, App) and self_.op == 'pkgfile':
            st = st.fork()
            return [(st, st.alloc(Obj('list', items=tuple(Const(x) for x in text(self_).splitlines(True))), 'lines'))]
        return None

    def m_enter(eng, st, self_, args, kw, node):
        return [(st, self_)] if isinstance(self_, App) and self_.op == 'pkgfile' else None

    def x_open(eng, st, args, kw, node):
        return handle(eng, st, args[0], node) if args and which(args[0]) else None
    pol.meth['open'] = m_open
    pol.meth['read_text'] = m_read_text
    pol.meth['read'] = m_read
    pol.meth['readlines'] = m_readlines
    pol.meth['__enter__'] = m_enter
    pol.ext['builtins.open'] = x_open
    return pol
