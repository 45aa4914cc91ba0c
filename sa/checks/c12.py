"""C12: malformed request bodies give client errors, never server faults."""
import os
from ..forms import *

EXPLANATION = (
    'Abstract interpretation of request.forms, files, POST, params, json and body (and of whole requests through the application) over '
    'malformed bodies: truncations at every offset, every single-byte mutation of a form, broken headers, encodings, delimiters and content '
    'types, JSON and urlencoded text of every shape, both framings.  What leaves the accessor must be a value or an HTTP error with a 4xx '
    'status; delivered fields must be the data of a part that the body terminates with a delimiter.')
RULES = {
    'client error': 'reading a body or form succeeds or raises an HTTP error with a 4xx status',
    'complete': 'a delivered field is the data between a header block and a delimiter of the body',
    'refused': 'a truncated or undecodable form is not silently read as something else',
    'answer': 'the application answers with a 2xx or 4xx status',
    'decoder': 'every failure of a decoder (JSON, text) becomes a 4xx error',
}
ATTRS = ('forms', 'files', 'POST')
FORM = [('a', 'v1'), ('f', 'n', 'text/plain', b'data'), ('b', '')]
BASE = b''.join(t.v for t in form_body(FORM))
CD = b'Content-Disposition: form-data; name="a"'


def definite(exc):
    """None when the class of the exception is known, else why the path decides nothing"""
    v = exc.val
    return None if isinstance(v, Ref) or isinstance(v, App) and v.op == 'exc' and isinstance(v.args[0], (Ext, Ref)) else 'exception of unknown class'


def flat(got):
    for name, vals, many in got:
        for v in vals:
            yield name, (b''.join(t.v for t in v[2]) if isinstance(v, tuple) else v.encode('utf8', 'surrogatepass') if isinstance(v, str) else None)


def present(body, boundary, data):
    tail = data + b'\r\n--' + boundary
    return b'\r\n\r\n' + tail in body


def one(c, eng, where, data, ctype='multipart/form-data; boundary=x', attrs=ATTRS, split=False, framing='length', boundary=b'x', refuse=False, avail=None, config=None, raw=False):
    with c.section('client error', 60):
        toks = tokens(Const(data)) if data else []
        env = {}
        if raw:             # data is the encoded stream of a chunked request
            w = Stream(c, eng, toks, {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': ctype, 'HTTP_TRANSFER_ENCODING': 'chunked'}, config, split)
        else:
            if avail is not None:
                env['CONTENT_LENGTH'] = str(avail)
            w = request(c, eng, toks, boundary, config, split, framing, frozenset(), ctype, env)
        if not w.ready:
            c.und('client error', where, 'set-up')
            return
        det = 'Content-Type %s, body %r (%s): ' % (ctype, data if len(data) < 400 else data[:200] + b'...', 'Content-Length %s' % (avail if avail is not None else len(data)) if framing == 'length' and not raw else 'chunked')
        for at in attrs:
            for s, v in w.get(w.st, at):
                c.paths += 1
                vg = vague(s)
                if isinstance(v, Exc):
                    code = status_of(eng, s, v)
                    o = s.get(v.val) if isinstance(v.val, Ref) else None
                    known = vg or definite(v)
                    c.verdict(code is not None and 400 <= code < 500, known, 'client error', where, det + 'request.%s raises %s, status %s' % (at, o.cls if o is not None else v.val, code), s)
                    continue
                c.ok('client error', where)
                if at in ATTRS and ctype.lower().startswith('multipart/'):
                    try:
                        s2, got = harvest(w, s, v)
                    except Unclear as e:
                        c.und('complete', where, det + str(e))
                        continue
                    lost = [(n, x) for n, x in flat(got) if x is None or not present(data, boundary, x)]
                    c.verdict(not lost, vg or vague(s2), 'complete', where, det + 'request.%s delivers %s' % (at, lost), s)
                    if refuse:
                        c.verdict(False, vg, 'refused', where, det + 'request.%s is %s' % (at, say(got)), s)
                elif refuse:
                    c.verdict(False, vg, 'refused', where, det + 'request.%s is accepted' % at, s)
        for rule in ('refused',) if refuse else ():
            c.ok(rule, where)


def failing(c, eng, where, name, excs, data, ctype, attrs):
    """a decoder of the standard library that fails in one of its documented ways"""
    for ex in excs:
        with c.section('decoder', 60):
            w = request(c, eng, tokens(Const(data)), b'x', None, False, 'length', frozenset(), ctype)
            if not w.ready:
                c.und('decoder', where, 'set-up')
                return
            w.pol.ext[name] = lambda eng, st, args, kw, node, ex=ex: [(st, eng.mkexc(st, ex, node))]
            for at in attrs:
                for s, v in w.get(w.st, at):
                    c.paths += 1
                    if isinstance(v, Exc):
                        code = status_of(eng, s, v)
                        c.verdict(code is not None and 400 <= code < 500, vague(s), 'decoder', where, 'request.%s when %s raises %s: raises %s, status %s' % (at, name, ex, v.val, code), s)
                    else:
                        c.ok('decoder', where)


def served(c, eng, where, data, ctype, at, framing='length'):
    with c.section('answer', 60):
        env = dict(FULL, CONTENT_TYPE=ctype)
        w = request(c, eng, tokens(Const(data)) if data else [], b'x', None, False, framing, frozenset(), ctype, env)
        if not w.ready:
            c.und('answer', where, 'set-up')
            return

        def use(e, s, req):
            return models.each(e.getattr_(s, req, at, NODE), lambda x, b: [(x, Const('ok'))])
        for s, r, status in serve(w, use):
            c.paths += 1
            det = 'Content-Type %s, body %r, request.%s in a handler: ' % (ctype, data[:300], at)
            if isinstance(r, Exc):
                c.verdict(False, vague(s) or definite(r), 'answer', where, det + 'raises %s' % r.val, s)
            elif isinstance(status, Const) and isinstance(status.v, str):
                c.verdict(status.v[:1] in '24', vague(s), 'answer', where, det + 'status %s' % status.v, s)
            else:
                c.und('answer', where, det + 'status %s' % status)


HEADERS = (b'', b'Content-Disposition', b'Content-Disposition:', b'Content-Disposition: ', b'Content-Disposition: form-data', b'Content-Disposition: form-data;', b'Content-Disposition: form-data; name', b'Content-Disposition: form-data; name=',
           b'Content-Disposition: form-data; name=""', b'Content-Disposition: form-data; name="', b'Content-Disposition: form-data; name="a', b'Content-Disposition: form-data; name=a"', b'Content-Disposition: form-data; name=a b',
           b'Content-Disposition: form-data; nome="a"', b'Content-Disposition: form-data; filename="n"', b'Content-Disposition: form-data; name="a"; filename', b'Content-Disposition: form-data; name="a"; filename=', b'Content-Disposition: form-data; name="a"; filename="', b'Content-Disposition: name="a"',
           b'Content-Disposition: ;name="a"', b'Content-Disposition: ;;;', b'Content-Disposition: =', b'Content-Disposition: ; =; =', b'Content-Disposition:;', b':', b': form-data; name="a"', b'::', b'; name="a"', b' ', b'\t', b'x', b'x:', b'x: ', b'x:y', b'\xff', b'\xff: a', b'a: \xff', b'Content-Disposition: form-data; name="\xff"',
           b'Content-Disposition: form-data; name="a\xe9"', b'Content-Disposition: form-data; name="a"; filename="\xc3"', b'Content-Disposition: form-data; name="\x00"', CD + b'\r\n', CD + b'\r\nx', CD + b'\r\n:', CD + b'\r\nContent-Type', CD + b'\r\nContent-Type:', CD + b'\r\nContent-Type: ',
           CD + b'\r\nContent-Type: \xff', CD + b'; filename="n"\r\nContent-Type:', CD + b'; filename="n"\r\nContent-Type', CD + b'; filename="n"\r\nContent-Length: x', CD + b'\r\n\t folded', CD + b'\r\n' + CD, CD + b'\r\nContent-Disposition: form-data', b'\nContent-Disposition: form-data; name="a"', CD.replace(b'\r\n', b'\n'),
           CD + b'\n', CD + b'\r', b'\r' + CD, CD + b'\nx: y', b'Content-Disposition form-data name="a"', b'X: y\r\n' + CD, CD.lower(), CD + b'; ' + b'a=b;' * 30, CD + b'; name="b"', CD + b'; filename*=utf-8\'\'x', b'Content-Disposition: form-data; name*=utf-8\'\'a', CD + b';', CD + b' ', CD + b';;')
BODIES = (b'', b'\r\n', b'\r', b'\n', b'-', b'--', b'--x', b'--x-', b'--x--', b'--x--\r\n', b'--x\r', b'--x\r\n', b'--x\r\n\r\n', b'--x\r\n\r\n\r\n--x--', b'--x\r\n--x--', b'--x\r\n--x\r\n--x--', b'x', b'--y--', b'--y\r\n' + CD + b'\r\n\r\nv\r\n--y--\r\n', b'preamble\r\n' + BASE, b'\r\n' + BASE, b'\r\n\r\n' + BASE,
          b'-' + BASE, b'--' + BASE, b'--x' + BASE, BASE + BASE, BASE[:-4] + b'\r\n' + BASE, BASE.replace(b'\r\n', b'\n'), BASE.replace(b'\r\n', b'\r'), BASE.replace(b'--x', b'-x'), BASE.replace(b'--x', b'--x '), BASE.replace(b'--x--', b'--x'), BASE.replace(b'--x--', b'--x-'), BASE.replace(b'--x--', b'--x -'),
          BASE.replace(b'--x--', b''), BASE.replace(b'v1', b'\xff\xfe'), BASE.replace(b'v1', b'\xc3'), BASE.replace(b'v1', b'\xed\xa0\x80'), BASE.replace(b'v1', b'--x'), BASE.replace(b'v1', b'\r\n--x'), BASE.replace(b'v1', b'\r\n--x\r\n'), BASE.replace(b'v1', b'\r\n--x--'), BASE.replace(b'\r\n\r\n', b'\r\n'),
          BASE.replace(b'\r\n\r\n', b'\r\n\r\n\r\n'), b'--x\r\n' + CD + b'\r\n\r\nv', b'--x\r\n' + CD + b'\r\n\r\nv\r\n', b'--x\r\n' + CD + b'\r\n\r\nv\r\n--', b'--x\r\n' + CD + b'\r\n\r\n', b'--x\r\n' + CD, b'a=b&c=d', b'{"a": 1}', b'\0' * 30, b'\xff' * 30, b'-' * 40, b'\r\n' * 20, b'--x\r\n' * 6, b'--x--' * 5, b'\r\n--x' * 5)
CTYPES = ('multipart/form-data', 'multipart/form-data;', 'multipart/form-data; boundary', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=;', 'multipart/form-data; boundary=""', 'multipart/form-data; boundary="', 'multipart/form-data; boundary= ', 'multipart/; boundary=x', 'multipart/', 'multipart', 'multipart/mixed; boundary=x',
          'multipart/form-data; boundary=y', 'multipart/form-data; boundary=\xe9', 'multipart/form-data; boundary=a\rb', 'multipart/form-data; boundary=x\n', 'multipart/form-data boundary=x', 'multipart/form-data; charset=x', 'multipart/form-data; boundary=x; boundary=y', 'MULTIPART/FORM-DATA; BOUNDARY=x',
          'multipart/form-data; boundary==x', 'multipart/form-data; boundary=x=', 'multipart/form-data; boundary=' + 'x' * 300, ';', 'multipart/form-data; boundary=--x', '/', ' multipart/form-data; boundary=x')
JSON = (b'', b' ', b'{', b'}', b'[', b']', b'{}', b'[]', b'null', b'true', b'1', b'-', b'1e999', b'NaN', b'Infinity', b'"x"', b'"', b'"\\', b'"\\u12', b'"\\ud800"', b'{"a"', b'{"a":', b'{"a":1', b'{"a":1}', b'{"a":1}x', b'{"a":1,}', b'{a:1}', b"{'a':1}", b'[1,2', b'[{"a":1}]', b'{"a":{"b":[1,2]}}', b'{"a":1,"a":2}', b'\xff', b'"\xff"', b'{"\xff":1}', b'\xef\xbb\xbf{}',
        b'\xff\xfe{\0}\0', b'\0', b'{"a":"\n"}', b'/**/{}', b'{"":1}', b'{"a":null}', b'[[[[[[[[', b'undefined', b'1 2', b'--1', b'01', b'{"a":"\xc3\xa9"}', b'{"a":"\xc3"}')
URL = (b'', b'&', b'=', b'==', b'a', b'a=', b'=b', b'a&b', b'a=b&', b'&a=b', b'a=b&&c=d', b'a=b=c', b'a;b', b'%', b'%a', b'%zz', b'%ff', b'%C3', b'a=%ff%fe', b'%00=%00', b'+', b'a+b=c+d', b'\xff=\xff', b'\xc3\xa9=\xe9', b'\0', b'a[]=1&a[]=2', b'a=1&a=2&a=3', b'\r\n', b'a=b\r\n', b'--x\r\n', b'{"a":1}', b'%ud800', b'%ED%A0%80=1', b'a=%', b'a=%2', b'&=&=&', b'a=b#c', b'?a=b')


def jobs(quick):
    for k in range(len(BASE)):
        yield one, 'truncated form', BASE[:k], {'refuse': False, 'attrs': ('POST', 'files') if k % 5 == 0 else ('POST',)}
        yield one, 'truncated form, Content-Length of the whole', BASE[:k], {'avail': len(BASE), 'attrs': ('POST',)}
        if k % 4 == 1 or not quick:
            yield one, 'truncated form in small reads', BASE[:k], {'split': 7, 'attrs': ('forms',)}
            yield one, 'truncated form in chunks', BASE[:k], {'framing': 11, 'attrs': ('files',)}
    for k in range(len(BASE)):
        muts = [BASE[:k] + BASE[k + 1:], BASE[:k] + BASE[k:k + 1] + BASE[k:]]
        for r in (b'\r', b'\n', b'-', b'\xff', b'z') + ((b':', b';', b'=', b'"', b' ', b'\0') if not quick or k % 3 == 0 else ()):
            muts.append(BASE[:k] + r + BASE[k + 1:])
            if not quick or k % 3 == 1:
                muts.append(BASE[:k] + r + BASE[k:])
        for m in muts:
            if m != BASE:
                yield one, 'mutated form', m, {'attrs': ('POST',)}
    for h in HEADERS:
        for data in (b'v', b''):
            b = b'--x\r\n' + h + b'\r\n\r\n' + data + b'\r\n--x--\r\n'
            yield one, 'broken part headers', b, {}
            yield one, 'broken part headers in company', BASE[:-4] + b[3:], {'attrs': ('POST',)}
        yield served, 'broken part headers', b, {'ctype': 'multipart/form-data; boundary=x', 'at': 'forms'}
    for b in BODIES:
        yield one, 'broken delimiters', b, {}
        yield one, 'broken delimiters in small reads', b, {'split': 1 if len(b) < 40 else 3, 'attrs': ('POST',)}
        yield one, 'broken delimiters in chunks', b, {'framing': 3, 'attrs': ('POST', 'body')}
        yield served, 'broken delimiters', b, {'ctype': 'multipart/form-data; boundary=x', 'at': 'files'}
    for ct in CTYPES:
        for b in (BASE, b'', b'a=b', b'--\r\n' + CD + b'\r\n\r\nv\r\n----\r\n'):
            bd = ct.split('boundary=')[-1].split(';')[0].strip().strip('"') if 'boundary=' in ct else 'x'
            yield one, 'content types', b, {'ctype': ct, 'attrs': ATTRS + ('json', 'body', 'params'), 'boundary': b'' if not bd else b'x'}
        yield served, 'content types', BASE, {'ctype': ct, 'at': 'POST'}
    for b in JSON:
        for ct in ('application/json', 'application/json; charset=utf-8', 'Application/JSON', 'application/json;', 'application/jsonx'):
            yield one, 'JSON', b, {'ctype': ct, 'attrs': ('json', 'POST', 'forms', 'files', 'params', 'body')}
        yield one, 'JSON in chunks', b, {'ctype': 'application/json', 'attrs': ('json', 'POST', 'forms', 'params'), 'framing': 2}
        yield served, 'JSON', b, {'ctype': 'application/json', 'at': 'json'}
        yield served, 'JSON', b, {'ctype': 'application/json', 'at': 'forms'}
    for b in (b'{', b'[1', b'"', b'\xff', b'{"a"', b'{"a":1}x', b'{a:1}', b'undefined', b'"\xff"'):
        yield one, 'malformed JSON', b, {'ctype': 'application/json', 'attrs': ('json', 'POST', 'forms'), 'refuse': True}
    for b in URL:
        for ct in ('application/x-www-form-urlencoded', '', 'text/plain', 'application/x-www-form-urlencoded; charset=utf-16', '\xe9'):
            yield one, 'urlencoded', b, {'ctype': ct, 'attrs': ('forms', 'files', 'POST', 'params', 'json', 'body')}
        yield one, 'urlencoded in chunks', b, {'ctype': 'application/x-www-form-urlencoded', 'attrs': ('forms', 'params'), 'framing': 2}
        yield served, 'urlencoded', b, {'ctype': 'application/x-www-form-urlencoded', 'at': 'forms'}
    # chunked streams that break off or are malformed
    enc = b'5\r\nab=cd\r\n3;x=y\r\n&e=\r\n0\r\n\r\n'
    for k in range(len(enc)):
        for ct, ats in (('application/x-www-form-urlencoded', ('forms',)), ('multipart/form-data; boundary=x', ('POST',)), ('application/json', ('json',)), ('', ('body',))):
            yield one, 'truncated chunked stream', enc[:k], {'raw': True, 'ctype': ct, 'attrs': ats}
        for r in (b'g', b'-', b'\r', b'\n', b' ', b'\xff', b';', b'_', b''):
            yield one, 'mutated chunked stream', enc[:k] + r + enc[k + 1:], {'raw': True, 'ctype': '', 'attrs': ('body', 'forms') if k % 4 == 0 else ('forms',)}
    for b in (b'-1\r\na\r\n0\r\n\r\n', b'+1\r\na\r\n0\r\n\r\n', b'0x1\r\na\r\n0\r\n\r\n', b'1_0\r\n' + b'a' * 16 + b'\r\n0\r\n\r\n', b'\r\n', b'ffffffffffffffffffff\r\na', b'\xd9\xa1\r\na\r\n0\r\n\r\n', b'1' * 50 + b'\r\n'):
        for ct in ('', 'multipart/form-data; boundary=x', 'application/json'):
            yield one, 'mutated chunked stream', b, {'raw': True, 'ctype': ct, 'attrs': ('body', 'POST')}
    for attrs in (('json',), ('POST',), ('forms',), ('files',), ('params',)):
        yield failing, 'JSON decoder', b'[1]', {'name': 'json.loads', 'excs': ('ValueError', 'RecursionError', 'UnicodeDecodeError'), 'ctype': 'application/json', 'attrs': attrs}
    big = {'config': {'max_memfile_size': 30}}
    for b, ct in ((BASE, 'multipart/form-data; boundary=x'), (b'a=' + b'b' * 100, ''), (b'[' + b' ' * 100 + b']', 'application/json'), (b'x' * 100, 'multipart/form-data; boundary=x')):
        for at in ('forms', 'files', 'json', 'POST', 'params', 'body'):
            yield one, 'oversized', b, {'ctype': ct, 'attrs': (at,), **big}
            yield one, 'oversized', b, {'ctype': ct, 'attrs': (at,), 'config': {'max_body_size': 50}}


def batch(c, eng, work):
    for fn, where, data, kw in work:
        if os.environ.get('SA_FAST') and any(v[0] == 'violation' for v in c.obl.values()):
            return
        kw = dict(kw)
        if fn is failing:
            fn(c, eng, where, kw.pop('name'), kw.pop('excs'), data, **kw)
        else:
            fn(c, eng, where, data, **kw)


def run(c):
    eng = c.engine()
    work = list(jobs(c.tier == 'quick'))
    n = 64
    c.spread([work[k::n] for k in range(n)], lambda j: batch(c, eng, j))
