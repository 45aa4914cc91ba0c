"""C07: forms and uploads sent as multipart/form-data arrive exactly."""
import os
from ..forms import *

EXPLANATION = (
    'Abstract interpretation of Request.forms, files and POST over encoded multipart bodies whose file content holds unknown bytes (any byte '
    'that is not CR, LF, hyphen or a boundary character) between constant delimiter look-alikes; names, file names, values, boundaries, '
    'framing, thresholds and read sizes vary.  The dictionaries and the bytes every upload object delivers are compared term by term with '
    'what was encoded.')
RULES = {
    'text': 'forms holds exactly the text fields: names, values, repeated names as a list in submission order',
    'files': 'files holds exactly the uploads: field name, file name, content type, byte-exact content, repeated names in submission order',
    'post': 'POST holds the text fields and uploads of a name together, in submission order',
    'window': 'reading, seeking and telling on an upload behave as on a file that holds exactly its part',
    'save': 'saving an upload writes exactly its content, whatever the block size, and leaves its position',
}
E = frozenset(bytes([x]) for x in b'\r\n-xXab01')
R = [byte(i) for i in range(12)]
CTYPE = 'multipart/form-data; boundary='


def merged(fields, which):
    out = {}
    for f in fields:
        if which == 'forms' and len(f) != 2 or which == 'files' and len(f) == 2:
            continue
        out.setdefault(f[0], []).append(f[1] if len(f) == 2 else (f[1], f[2] or '', tuple(token_list(f[3]))))
    return [(k, v, len(v) > 1) for k, v in out.items()]


def trip(c, eng, where, fields, boundary=b'x', ctype=None, config=None, split=False, framing='length', first='forms', **kw):
    with c.section('text', 60):
        toks = form_body(fields, boundary, **kw)
        w = request(c, eng, toks, boundary, config, split, framing, E, ctype)
        det = 'body %s, Content-Type %s, %s, %s: ' % (show(toks), ctype or CTYPE + boundary.decode(), 'Content-Length' if framing == 'length' else 'chunks of %d' % framing, config or 'default thresholds')
        if not w.ready:
            c.und('text', where, 'set-up')
            return
        states = [w.st]
        for at in [first] + [a for a in ('forms', 'files', 'POST') if a != first]:
            rule = {'forms': 'text', 'files': 'files', 'POST': 'post'}[at]
            nxt = []
            for st in states:
                for s, v in w.get(st, at):
                    c.paths += 1
                    vg = vague(s)
                    if isinstance(v, Exc):
                        o = s.get(v.val) if isinstance(v.val, Ref) else None
                        c.verdict(False, vg, rule, where, det + 'request.%s raises %s, status %s' % (at, o.cls if o is not None else v.val, status_of(eng, s, v)), s)
                        continue
                    try:
                        s2, got = harvest(w, s, v)
                    except Unclear as e:
                        c.und(rule, where, det + str(e))
                        continue
                    want = merged(fields, at)
                    c.verdict(got == want, vg or vague(s2), rule, where, det + 'request.%s is %s, sent %s' % (at, say(got), say(want)), s)
                    nxt.append(s)
            states = nxt


def window(c, eng, where, fields, script, config=None):
    """script: [(field name, index, operation, args)] run on the uploads of one request"""
    with c.section('window', 60):
        toks = form_body(fields)
        w = request(c, eng, toks, b'x', config, False, 'length', E)
        if not w.ready:
            c.und('window', where, 'set-up')
            return
        content = {}
        for f in fields:
            if len(f) > 2:
                content.setdefault(f[0], []).append(token_list(f[3]))
        for s, v in w.get(w.st, 'files'):
            c.paths += 1
            try:
                if isinstance(v, Exc):
                    raise Unclear('files raises')
                hold = {}
                for k, x in s.get(v).items:
                    o = s.get(x)
                    hold[k.v] = list(o.items) if o.kind == 'list' else [x]
                pos = {}
                done = []
                for name, i, op, args in script:
                    up, data = hold[name][i], content[name][i]
                    p = pos.get((name, i), 0)
                    s, f = only(eng.getattr_(s, up, 'file', NODE))
                    rule = 'window'
                    if op == 'save':
                        rule = 'save'
                        made = w.pol.ext['io.BytesIO'](eng, s, [], [], NODE)
                        s, fp = made[0]
                        s, m = only(eng.getattr_(s, up, 'save', NODE))
                        s, _ = only(eng.call(s, m, [fp], [('chunk_size', Const(args[0]))] if args else [], NODE))
                        got, want = w.content(s, fp), data[p:]
                    else:
                        s, m = only(eng.getattr_(s, f, op, NODE))
                        s, r = only(eng.call(s, m, [Const(a) for a in args], [], NODE))
                        if op == 'read':
                            n = args[0] if args and args[0] is not None and args[0] >= 0 else None
                            want = data[p:] if n is None else data[p:p + n]
                            got = tokens(r)
                            p += len(want)
                        else:
                            if op == 'seek':
                                p = args[0] + (0 if len(args) < 2 or args[1] == 0 else p if args[1] == 1 else len(data))
                            want, got = [Const(p)], [r]
                        pos[(name, i)] = p
                    done.append('%s[%d].%s%s' % (name, i, op, tuple(args)))
                    d = 'uploads %s: after %s: %s, expected %s' % ({k: [show(x) for x in v] for k, v in content.items()}, ', '.join(done), got and (show(got) if op in ('read', 'save') else got), show(want) if op in ('read', 'save') else want)
                    vg = vague(s) or (None if got is not None and all(isinstance(g, (Const, Sym)) for g in got) else 'value')
                    c.verdict(got == want, vg, rule, where, d, s)
                    if got != want:
                        return
            except Unclear as e:
                c.und('window', where, str(e))


NAMES = ('a', '', 'a b', ' a', 'a ', 'a;b', 'a=b', ';', '=', 'a; name=b', 'a; filename=b', 'a;filename', 'na\\me', 'C:\\a\\b.txt', 'é', '日本', "it's", 'a,b', 'name', 'filename', 'a:b', 'a%20b+c', '../x', 'form-data', 'A', '\t', "a'b;c='d", '😀', 'a;;b==c')
TEXTS = ('', 'v', ' v ', '\r\n', '\n', '\r', '--x', '--', '\r\n-', '\r\n--', '\r\n--y', 'é', '日本\r\n', 'a=b&c;d', '"q"', '\0', 'name="z"', 'v\r\n', '\r\nv', 'a\r\n\r\nb', '-' * 9, '\r\n' * 5, '\ufeff', '+%20', 'x')
DATA = ([], [R[0]], [b'\r'], [b'\n'], [b'\r\n'], [b'-'], [b'\r\n-'], [b'\r\n--'], [b'--x'], [b'\r\n--', R[0]], [R[0], b'\r\n', R[1]], [b'\r\r\n', R[0]], [b'\r\n\r\n', R[0]], [R[0], b'\r'], [R[0], b'\r\n-'],
        [b'\r\n-x'], [b'--x--'], [b'\n--x'], R[:5], R[:9] + [b'\r\n'] + R[9:], [b'\r\n--'] * 3, [b'\r\n--\r\n--x'[:7], R[0]], [b'--x\r\nContent-Disposition: form-data; name="z"\r\n\r\n', R[0]], [b'\0\xff\xfe\x80', R[0]], [b'-' * 20, R[0]])
BOUNDS = ((b'x', None), (b'x', CTYPE + '"x"'), (b'x', 'multipart/form-data; charset=utf-8; boundary=x'), (b'x', CTYPE + 'x; charset=utf-8'), (b'x', 'Multipart/Form-Data; Boundary=x'), (b'X', None), (b'aB', None), (b'-', None), (b'--', None), (b'x-', None),
          (b"'()+_,-./:=?", CTYPE + "\"'()+_,-./:=?\""), (b'a b', CTYPE + '"a b"'), (b'----WebKitFormBoundary7MA4YWxkTrZu0gW', None), (b'0' * 70, None), (b'===============123==', CTYPE + '"===============123=="'), (b'x=y', None), (b'xx', None), (b'aab', None))


def jobs(quick):
    for n in NAMES:
        yield trip, 'text names', [(n, 'v')], {}
        yield trip, 'upload names', [(n, 'f', None, [R[0]])], {'first': 'files'}
        yield trip, 'file names', [('f', n, 'text/plain', [R[0]])], {'first': 'files'}
        yield trip, 'names in company', [('p', '1'), (n, 'v'), (n, n, None, [R[0]]), ('q', '2')], {'first': 'POST'}
    for t in TEXTS:
        yield trip, 'text values', [('a', t)], {}
        yield trip, 'text values in company', [('a', t), ('f', 'n', None, [R[0]]), ('b', t), ('a', 'z')], {'first': 'POST'}
    for d in DATA:
        for ct in (None, 'text/plain', 'application/octet-stream; charset=x'):
            yield trip, 'contents', [('f', 'n', ct, d)], {'first': 'files'}
        yield trip, 'contents in company', [('a', 'v'), ('f', 'n', None, d), ('f', 'm', 'image/png', [R[11]]), ('b', 'w')], {'first': 'files'}
        yield trip, 'contents with small reads', [('f', 'n', None, d), ('g', 'm', None, d)], {'split': 5}
        yield trip, 'contents in chunks', [('f', 'n', None, d), ('g', 'm', None, d)], {'framing': 7}
    F = [('a', '1'), ('f', 'n', None, [R[0]]), ('a', '2'), ('f', 'm', 'text/css', [R[1]]), ('b', ''), ('a', '3'), ('f', 'n', None, []), ('a', 'up', None, [R[2]]), ('f', 'txt')]
    for k in range(1, len(F) + 1):
        for first in ('forms', 'files', 'POST'):
            yield trip, 'repeated names', F[:k], {'first': first}
    for k in (2, 3, 4, 5, 7):
        yield trip, 'repeated names', [('a', 'v%d' % i) for i in range(k)], {}
        yield trip, 'repeated names', [('a', 'same')] * k, {'first': 'POST'}
        yield trip, 'repeated names', [('f', 'n%d' % i, None, [R[i]]) for i in range(k)], {'first': 'files'}
        yield trip, 'repeated names', [(n, str(i)) for i in range(k) for n in ('a', 'b')], {}
    yield trip, 'no fields', [], {}
    for bd, ct in BOUNDS:
        yield trip, 'boundaries', [('a', 'v'), ('f', 'n', 'text/plain', [b'\r\n--', R[0]])], {'boundary': bd, 'ctype': ct}
        yield trip, 'boundaries', [('f', 'n', None, [b'\r\n-' + bd[:1], R[0], b'--' + bd])], {'boundary': bd, 'ctype': ct, 'split': 3}
    for last in (b'--\r\n', b'--', b'--\r\nepilogue', b'--\r\n\r\n--x\r\n'):
        for lead in (b'', b'\r\n'):
            yield trip, 'ends', [('a', 'v'), ('f', 'n', None, [R[0]])], {'last': last, 'lead': lead}
    for case in (('content-disposition', 'form-data', 'content-type'), ('CONTENT-DISPOSITION', 'form-data', 'CONTENT-TYPE')):
        yield trip, 'header spelling', [('a', 'v'), ('f', 'n;m', 'text/plain', [R[0]])], {'case': case, 'first': 'POST'}
    for extra in (b'\r\nContent-Transfer-Encoding: binary', b'\r\nX-A: b; name="z"; filename="y"', b'\r\nX-Empty: z\r\nX-Other: a:b'):
        yield trip, 'other headers', [('a', 'v'), ('f', 'n', 'text/plain', [R[0]])], {'extra': extra, 'first': 'POST'}
    big = [('a', 'v'), ('f', 'n', None, [R[0], b'\r\n--' * 40, R[1]]), ('b', 'w')]
    for B in (150, 163, 170, 300):
        for split in (False, 1 if not quick else 2, 7, 64):
            for fr in ('length', 50):
                yield trip, 'spooled to disk', big, {'config': {'max_memfile_size': B}, 'split': split, 'framing': fr, 'first': 'files'}
    up = [('f', 'n', None, [R[0], b'\r\n', R[1], R[2]]), ('t', 'text'), ('f', 'm', None, [R[3], R[4]]), ('g', 'o', None, [b'-', R[5], R[6], R[7], b'--'])]
    A, B, G = ('f', 0), ('f', 1), ('g', 0)
    scripts = [
        [(*A, 'read', ())], [(*A, 'read', (-1,)), (*A, 'read', ())], [(*A, 'read', (1,))] * 7, [(*A, 'read', (2,)), (*A, 'tell', ()), (*A, 'read', (100,)), (*A, 'tell', ()), (*A, 'read', (1,))],
        [(*A, 'read', (2,)), (*B, 'read', (1,)), (*A, 'read', (2,)), (*B, 'read', ()), (*G, 'read', (3,)), (*A, 'read', ()), (*G, 'read', ())],
        [(*A, 'read', ()), (*A, 'seek', (0,)), (*A, 'read', ()), (*A, 'seek', (1,)), (*A, 'read', (2,))],
        [(*G, 'seek', (-2, 2)), (*G, 'read', ()), (*G, 'seek', (0, 2)), (*G, 'tell', ()), (*G, 'read', (5,)), (*G, 'seek', (1, 0)), (*G, 'seek', (1, 1)), (*G, 'read', (1,)), (*G, 'tell', ())],
        [(*B, 'seek', (2,)), (*B, 'read', (9,)), (*B, 'read', (0,)), (*B, 'seek', (0,)), (*B, 'read', (0,)), (*B, 'read', (None,))],
        [(*A, 'seek', (3,)), (*A, 'seek', (-2, 1)), (*A, 'read', (1,)), (*A, 'seek', (-1, 2)), (*A, 'seek', (-1, 1)), (*A, 'read', ())],
        [(*A, 'save', ()), (*A, 'tell', ()), (*A, 'read', ())], [(*A, 'save', (1,)), (*A, 'save', (2,)), (*B, 'save', (100,)), (*G, 'save', (3,)), (*G, 'tell', ())],
        [(*A, 'read', (2,)), (*A, 'save', (2,)), (*A, 'tell', ()), (*B, 'save', (1,)), (*A, 'read', ())],
    ]
    for k, sc in enumerate(scripts):
        for cfg in (None, {'max_memfile_size': 265}):
            yield window, 'uploads script %d' % (k + 1), up, {'script': sc, 'config': cfg}


def batch(c, eng, work):
    for fn, where, fields, kw in work:
        if os.environ.get('SA_FAST') and any(v[0] == 'violation' for v in c.obl.values()):
            return
        fn(c, eng, where, fields, **kw)


def run(c):
    eng = c.engine()
    work = list(jobs(c.tier == 'quick'))
    n = 64
    c.spread([work[k::n] for k in range(n)], lambda j: batch(c, eng, j))
