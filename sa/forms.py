"""multipart/form-data bodies and what a request makes of them."""
from .stream import *

LETTERS = b'\r\n-"'


def token_list(data):
    """bytes or a list of bytes and unknown bytes -> tokens"""
    out = []
    for x in [data] if isinstance(data, bytes) else data:
        out += tokens(Const(x)) if isinstance(x, bytes) else [x]
    return out


def form_body(fields, boundary=b'x', last=b'--\r\n', lead=b'', case=('Content-Disposition', 'form-data', 'Content-Type'), extra=b''):
    """fields: (name, text) or (name, filename, content type or None, data)"""
    out = tokens(Const(lead)) if lead else []
    add = lambda b: out.extend(token_list(b))
    add(b'--' + boundary)
    for f in fields:
        head = b'\r\n%s: %s; name="%s"' % (case[0].encode(), case[1].encode(), f[0].encode())
        if len(f) == 2:
            head += extra
            data = f[1].encode() if isinstance(f[1], str) else f[1]
        else:
            head += b'; filename="%s"' % f[1].encode()
            if f[2] is not None:
                head += b'\r\n%s: %s' % (case[2].encode(), f[2].encode())
            head += extra
            data = f[3]
        add(head + b'\r\n\r\n')
        add(data)
        add(b'\r\n--' + boundary)
    add(last)
    return out


def expected(fields):
    """({name: [text]}, {name: [(filename, type, tokens)]}) in order"""
    forms, files = {}, {}
    for f in fields:
        if len(f) == 2:
            forms.setdefault(f[0], []).append(f[1])
        else:
            files.setdefault(f[0], []).append((f[1], f[2], tuple(token_list(f[3]))))
    return forms, files


def request(c, eng, toks, boundary, config=None, split=False, framing='length', other=frozenset(), ctype=None, env=None):
    e = {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': ctype if ctype is not None else 'multipart/form-data; boundary=' + boundary.decode('latin1')}
    if framing == 'length':
        e['CONTENT_LENGTH'] = str(len(toks))
    else:
        e['HTTP_TRANSFER_ENCODING'] = 'chunked'
        out, k = [], 0
        while k < len(toks):
            part = toks[k:k + framing]
            out += tokens(Const(b'%x\r\n' % len(part))) + part + tokens(Const(b'\r\n'))
            k += framing
        toks = out + tokens(Const(b'0\r\n\r\n'))
    e.update(env or {})
    return Stream(c, eng, toks, e, config, split, other)


class Unclear(Exception):
    pass


def only(r):
    if len(r) != 1:
        raise Unclear('%d outcomes' % len(r))
    if isinstance(r[0][1], Exc):
        raise Unclear('raises %s' % r[0][1].val)
    return r[0]


def harvest(w, st, v):
    """(st, [(name, [value])]) of a forms or files object; values are str or (filename, type, tokens)"""
    eng = w.eng
    o = st.get(v) if isinstance(v, Ref) else None
    if o is None or o.kind not in ('dict', 'inst') or o.open is not None:
        raise Unclear('form object %s' % v)
    out = []
    for k, x in o.items:
        if not isinstance(k, Const):
            raise Unclear('name %s' % k)
        ox = st.get(x) if isinstance(x, Ref) else None
        vals = []
        many = list(ox.items) if ox is not None and ox.kind == 'list' else [x]
        for it in many:
            if isinstance(it, Const):
                vals.append(it.v)
                continue
            if not isinstance(it, Ref) or st.get(it) is None or st.get(it).kind != 'inst':
                raise Unclear('value %s' % it)
            st, fn = only(eng.getattr_(st, it, 'raw_filename', NODE))
            st, ct = only(eng.getattr_(st, it, 'content_type', NODE))
            st, f = only(eng.getattr_(st, it, 'file', NODE))
            st, rd = only(eng.getattr_(st, f, 'read', NODE))
            st, data = only(eng.call(st, rd, [], [], NODE))
            ts = tokens(data)
            if ts is None or not isinstance(fn, Const):
                raise Unclear('content %s' % data)
            vals.append((fn.v, ct.v if isinstance(ct, Const) else repr(ct), tuple(ts)))
        out.append((k.v, vals, isinstance(x, Ref) and st.get(x).kind == 'list'))
    return st, out


def say(fields):
    def one(v):
        return '%r' % (v,) if not isinstance(v, tuple) else 'file %r (%s) %s' % (v[0], v[1], show(v[2]))
    return '{%s}' % ', '.join('%r: %s' % (n, '[' + ', '.join(map(one, vs)) + ']' if len(vs) > 1 else ', '.join(map(one, vs))) for n, vs, *_ in fields)
