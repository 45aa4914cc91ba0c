"""C04: Content-Length bodies arrive byte-exact under any read fragmentation."""
from ..stream import *

EXPLANATION = (
    'Abstract interpretation of Request.body over a scripted wsgi.input: every byte is an unknown of its own, read(n) has one outcome per '
    'possible length, and content length, data available and thresholds are enumerated around each other.  On every path the content of the '
    'returned file, its position and all read calls are compared with what the stream owed.  The read loop is also analysed with unknown '
    'content length and buffer size (affine loop invariants).')
RULES = {
    'content': 'the body holds exactly the first Content-Length bytes the stream delivers, in order, and is positioned at its start',
    'bound': 'no read asks the stream for a byte beyond Content-Length',
    'total': 'reading the body raises nothing, however short the stream is',
    'again': 'a second access gives the same content from the start and does not touch the stream; wsgi.input is a copy of the same bytes',
}

MULTI = (b'--x\r\nContent-Disposition: form-data; name="a"\r\n\r\nhello\r\n--x\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\n\r\n-\r\n--x-\r\n--x--\r\n',
         b'--x--', b'--x\r\n', b'', b'no boundary\r\n\r\n--', b'\r\n--x\r\nA\r\n\r\n\r\n--x--\r\ntail')


def get_body(c, w, where):
    res = w.get(w.st, 'body')
    c.paths += len(res)
    return res


def check(c, w, cl, where, det):
    want = w.data[:max(cl, 0)]
    for s, b in get_body(c, w, where):
        vg = vague(s)
        reads = [x.v for x in s.ghost['reads'].items]
        d = '%s, reads %s: ' % (det, [(n, k) for n, at, k in reads][:12])
        if isinstance(b, Exc):
            c.verdict(False, vg, 'total', where, d + 'raises %s' % b.val, s)
            continue
        c.ok('total', where)
        over = [n for n, at, k in reads if n < 0 or at + n > max(cl, 0)]
        c.verdict(not over, vg, 'bound', where, d + 'asks for %s bytes' % over[:1], s)
        have = w.rest(s, b)
        c.verdict(have == want, vg or (None if have is not None else 'content of %s' % b), 'content', where, d + 'body is %s bytes: %s' % (have and len(have), have and show(have)), s)
        yield s, b, d, vg


def one(c, eng, cl, avail, B, split, where, environ=None, data=None):
    with c.section('content', 60):
        env = {'REQUEST_METHOD': 'POST'}
        if cl is not None:
            env['CONTENT_LENGTH'] = str(cl) if isinstance(cl, int) else cl
        env.update(environ or {})
        data = data if data is not None else unknown(avail)
        w = Stream(c, eng, data, env, {'max_memfile_size': B} if B else None, split)
        if not w.ready:
            c.und('content', where, 'set-up')
            return
        n = int(cl or -1)
        det = 'Content-Length %r, %d bytes available, buffer %s' % (cl, len(w.data), B)
        for s, b, d, vg in check(c, w, n, where, det):
            again(c, w, s, b, d, vg, n, where)


def again(c, w, s, b, d, vg, cl, where):
    eng, want = w.eng, w.data[:max(cl, 0)]
    before = s.ghost['reads']
    # the application has read some of it
    part = w.m_read(eng, s, b, [Const(2)], [], NODE)
    if not part:
        return
    s = part[0][0]
    for s2, b2 in w.get(s, 'body'):
        if isinstance(b2, Exc):
            c.verdict(False, vague(s2), 'again', where, d + 'second access raises %s' % b2.val, s2)
            continue
        have = w.rest(s2, b2)
        c.verdict(have == want and s2.ghost['reads'] == before, vague(s2) or (None if have is not None else 'content'), 'again', where, d + 'second access: %s, %d more reads' % (have and show(have), len(s2.ghost['reads'].items) - len(before.items)), s2)
    inp = w.env_get(s, 'wsgi.input')
    if inp == INPUT:
        c.verdict(False, vg, 'again', where, d + 'wsgi.input is still the raw stream', s)
    elif inp is not None and w.is_spool(s, inp):
        c.verdict(w.content(s, inp) == want, vg, 'again', where, d + 'wsgi.input holds %s' % show(w.content(s, inp) or []), s)


def run(c):
    eng = c.engine()
    quick = c.tier == 'quick'
    jobs = []
    top = 6 if quick else 9
    for B in (1, 2, 3, 4, 5, 8):
        for cl in list(range(top + 1)):
            for avail in sorted({0, 1, cl - 1, cl, cl + 1, cl + 4} & set(range(top + 8))):
                jobs.append((cl, avail, B, True, 'all fragmentations'))
    for cl in (None, '', '-3', 0, '0'):
        jobs.append((cl, 4, 3, True, 'nothing owed'))
    for cl, B in ((40, 7), (64, 16), (65, 64), (63, 64), (64, 64), (33, 32), (200, 13)):
        for avail in (cl - 1, cl, cl + 7):
            for cap in (False, 1, 2, 3, 5):
                jobs.append((cl, avail, B, cap, 'long'))
    for cl, avail in ((1000, 1000), (1000, 999), (1000, 1010)):
        jobs.append((cl, avail, None, False, 'default buffer'))
    for data in MULTI:
        toks = [Const(data[i:i + 1]) for i in range(len(data))]
        for cl in sorted({len(data), max(0, len(data) - 3), len(data) // 2}):
            for B in (5, 16, 400):
                for cap in (False, 1, 7):
                    jobs.append((cl, len(data), B, cap, 'multipart', {'CONTENT_TYPE': 'multipart/form-data; boundary=x'}, toks))
    for data in (b'\n\r\n \0a', b'\0\0\0', b' a ', b'5\r\nab', b'\xff\xfe\r\n\r\n', b'0\r\n\r\n', b'a=b&c%20', b'{"a": 1}\n'):
        for B in (1, 3, 100):
            for n in (len(data), len(data) - 1):
                for ct in ('', 'application/json', 'application/x-www-form-urlencoded'):
                    jobs.append((n, len(data), B, 2 if len(data) > 6 else True, 'known bytes', {'CONTENT_TYPE': ct}, [Const(data[i:i + 1]) for i in range(len(data))]))
    for ct in ('application/json', 'application/x-www-form-urlencoded', 'text/plain; charset=utf8', 'multipart/', 'multipart/form-data'):
        jobs.append((5, 7, 3, True, 'content type', {'CONTENT_TYPE': ct}))
    c.spread(jobs, lambda j: one(c, eng, *j))
