"""C13: body size limits and disk spooling bound what a request can consume."""
import itertools, os
from ..stream import *
from .c05 import encode, const

EXPLANATION = (
    'Abstract interpretation of Request.body, forms and json over a scripted wsgi.input (unknown payload bytes, every fragmentation of the '
    'reads), with body sizes around max_body_size and max_memfile_size under both framings.  Outcome, bytes asked for, kind and content of the '
    'resulting file and the status of refusals are compared with the limits.')
RULES = {
    'limit': 'a body larger than max_body_size is rejected with 413',
    'asked': 'at most the limit plus one buffer is asked from the stream before it is rejected',
    'within': 'a body within the limit is accepted with identical content',
    'spill': 'a body larger than max_memfile_size is kept in a temporary file, memory holds at most the threshold and one buffer of it',
    'text': 'form text (urlencoded, JSON, multipart text fields) larger than max_memfile_size is refused with 413',
    'small text': 'form text within max_memfile_size is accepted',
    'status': 'the response to a body over the limit has status 413',
}


def framed(size, framing):
    """(tokens, environ, payload index of each stream position)"""
    if framing == 'length':
        return unknown(size), {'CONTENT_LENGTH': str(size)}, list(range(size + 1))
    sizes = []
    left = size
    for n in itertools.cycle(framing):
        if left <= 0:
            break
        sizes.append(min(n, left))
        left -= n
    e = encode(sizes)
    at, n = [], 0
    for t, r in e:
        at.append(n)
        n += r == 'data'
    return [t for t, r in e], {'HTTP_TRANSFER_ENCODING': 'chunked'}, at + [n]


def reach(reads, at, total):
    """furthest payload byte asked for"""
    m = 0
    for n, pos, k in reads:
        end = len(at) - 1 if n < 0 else pos + n
        m = max(m, at[end] if end < len(at) else at[-1] + end - len(at) + 1)
    return m


def one(c, eng, size, M, B, framing, split, where):
    with c.section('limit', 60):
        toks, env, at = framed(size, framing)
        cfg = {'max_memfile_size': B, 'max_body_size': M}
        w = Stream(c, eng, toks, {'REQUEST_METHOD': 'POST', **env}, cfg, split)
        if not w.ready:
            c.und('limit', where, 'set-up')
            return
        want = [t for t in toks if isinstance(t, Sym)]
        det = 'body of %d bytes (%s), max_body_size %s, max_memfile_size %s' % (size, framing, M, B)
        for s, b in w.get(w.st, 'body'):
            c.paths += 1
            vg = vague(s)
            reads = [x.v for x in s.ghost['reads'].items]
            d = '%s, reads of %s: ' % (det, [(n, k) for n, p, k in reads if n != 1][:10])
            if M is not None and size > M:
                if isinstance(b, Exc):
                    code = status_of(eng, s, b)
                    c.verdict(code == 413, vg, 'limit', where, d + 'raises %s, status %s' % (b.val, code), s)
                else:
                    c.verdict(False, vg, 'limit', where, d + 'accepted', s)
                r = reach(reads, at, size)
                c.verdict(r <= M + B, vg, 'asked', where, d + 'asks for payload up to byte %d' % r, s)
            elif isinstance(b, Exc):
                c.verdict(False, vg, 'within', where, d + 'raises %s, status %s' % (b.val, status_of(eng, s, b)), s)
            else:
                have = w.rest(s, b)
                c.verdict(have == want, vg or (None if have is not None else 'content'), 'within', where, d + 'body is %s' % (have and show(have)), s)
            if not isinstance(b, Exc) and w.is_spool(s, b) and size > B:
                c.verdict(b.name.startswith('spool:file'), vg, 'spill', where, d + 'the body stays in memory', s)
            most = s.ghost.get('most')
            if most is not None:
                c.verdict(most.v <= 2 * B, vg, 'spill', where, d + 'up to %d bytes are held in memory' % most.v, s)


def form_text(kind, n):
    """(body bytes whose text is n bytes long, content type)"""
    if kind == 'urlencoded':
        return b'a=' + b'b' * (n - 2), 'application/x-www-form-urlencoded'
    if kind == 'plain':
        return b'a' * n, ''
    if kind == 'json':
        return b'[' + b' ' * (n - 2) + b']', 'application/json'
    if kind == 'json object':
        return b'{"a":"' + b'x' * (n - 8) + b'"}', 'application/json; charset=utf-8'


HEAD = b'Content-Disposition: form-data; name="%s"'
FHEAD = HEAD + b'; filename="n"'


def multipart(fields):
    out = b''
    for name, n, file in fields:
        out += b'--x\r\n' + (FHEAD if file else HEAD) % name + b'\r\n\r\n' + b't' * n + b'\r\n'
    return out + b'--x--\r\n'


def forms(c, eng, attr, body, ct, B, refuse, accept, framing, where, size, det=''):
    """reading `attr` with form text of `size` bytes and threshold B"""
    with c.section('text', 60):
        env = {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': ct}
        toks = const(body)
        if framing == 'length':
            env['CONTENT_LENGTH'] = str(len(body))
        else:
            env['HTTP_TRANSFER_ENCODING'] = 'chunked'
            toks, k = [], 0
            while k < len(body):
                part = body[k:k + framing]
                toks += const(b'%x\r\n' % len(part) + part + b'\r\n')
                k += framing
            toks += const(b'0\r\n\r\n')
        w = Stream(c, eng, toks, env, {'max_memfile_size': B}, False)
        if not w.ready:
            c.und('text', where, 'set-up')
            return
        d = 'request.%s with %s of %d bytes, max_memfile_size %d, %s %s: ' % (attr, where, size, B, 'Content-Length' if framing == 'length' else 'chunked', det)
        for s, v in w.get(w.st, attr):
            c.paths += 1
            vg = vague(s)
            most = s.ghost.get('loaded')
            if refuse and most is not None:
                c.verdict(most.v <= 2 * B, vg, 'text', where, d + '%d bytes are loaded before it is refused' % most.v, s)
            if isinstance(v, Exc):
                code = status_of(eng, s, v)
                if refuse:
                    c.verdict(code == 413, vg, 'text', where, d + 'raises %s, status %s' % (v.val, code), s)
                elif accept:
                    c.verdict(False, vg, 'small text', where, d + 'raises %s, status %s' % (v.val, code), s)
            elif refuse:
                c.verdict(False, vg, 'text', where, d + 'accepted', s)
            else:
                c.ok('small text', where)


def statuses(c, eng):
    def use(e, s, req):
        return models.each(e.getattr_(s, req, 'body', NODE), lambda x, b: [(x, Const('ok'))])

    def use_forms(e, s, req):
        return models.each(e.getattr_(s, req, 'forms', NODE), lambda x, b: [(x, Const('ok'))])
    for name, size, framing, cfg, want in (('over', 5, 'length', {'max_body_size': 4}, '413'), ('over chunked', 5, (2,), {'max_body_size': 4}, '413'), ('at the limit', 4, 'length', {'max_body_size': 4}, '200'),
                                           ('at the limit chunked', 4, (3,), {'max_body_size': 4}, '200'), ('spilled', 9, 'length', {'max_memfile_size': 4}, '200')):
        with c.section('status', 60):
            toks, env, at = framed(size, framing)
            w = Stream(c, eng, toks, {**FULL, **env}, cfg, False)
            answer(c, w, use, name, want)
    for name, body, ct, B, want in (('form text', b'a=bcdef', '', 6, '413'), ('form text within', b'a=bcde', '', 6, '200'), ('json', b'{"a": 1}', 'application/json', 7, '413')):
        with c.section('status', 60):
            w = Stream(c, eng, const(body), {**FULL, 'CONTENT_LENGTH': str(len(body)), 'CONTENT_TYPE': ct}, {'max_memfile_size': B}, False)
            answer(c, w, use_forms, name, want)


def answer(c, w, use, name, want):
    if not w.ready:
        c.und('status', name, 'set-up')
        return
    for s, r, status in serve(w, use):
        c.paths += 1
        if isinstance(r, Exc) or not (isinstance(status, Const) and isinstance(status.v, str)):
            c.und('status', name, 'answer %s %s' % (r, status))
            continue
        c.verdict(status.v.startswith(want), vague(s), 'status', name, 'the response has status %s, expected %s' % (status.v, want), s)


def run(c):
    eng = c.engine()
    quick = c.tier == 'quick'
    work = []
    for M in (1, 2, 4, 6):
        for B in (1, 2, 3, 4, 5, 8, 16):
            for size in sorted({0, 1, M - 1, M, M + 1, M + 2, M + B, M + B + 1, 3 * M + B + 2}):
                split = True if size <= (5 if quick else 7) else 3
                work.append((one, size, M, B, 'length', split, 'Content-Length'))
                if B >= 5:
                    for ch in ((1,), (2, 1), (100,), (M,), (M + 1,)):
                        work.append((one, size, M, B, ch, split, 'chunked'))
    for B in (1, 2, 3, 4, 7):
        for size in sorted({B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B + 2}):
            split = True if size <= 6 else 2
            work.append((one, size, None, B, 'length', split, 'Content-Length'))
            if B >= 4:
                for ch in ((1,), (B,), (B + 1, 1), (100,)):
                    work.append((one, size, None, B, ch, split, 'chunked'))
    for size, M, B in ((200, 99, 16), (99, 99, 16), (100, 99, 16), (300, 100, 64), (100, 100, 200), (101, 100, 200), (1000, 10, 16), (33, 32, 32), (32, 32, 32), (64, 100, 32), (0, 0, 8), (1, 0, 8), (2, 0, 1)):
        for fr in ('length', (7,), (16,), (1000,), (1,)):
            if fr == 'length' or B >= 5:
                for split in (False, 5):
                    work.append((one, size, M, B, fr, split, 'large'))
    for kind, attrs in (('urlencoded', ('forms', 'POST', 'params')), ('plain', ('forms', 'POST')), ('json', ('json',)), ('json object', ('json', 'POST', 'forms'))):
        for B in (9, 10, 16, 40):
            for n in sorted({B - 1, B, B + 1, B + 2, 2 * B, 3 * B + 1, 10 * B}):
                body, ct = form_text(kind, n)
                for attr in attrs:
                    for fr in ('length', 5, B, 1000):
                        work.append((forms, attr, body, ct, B, len(body) > B, len(body) <= B, fr, kind, len(body)))
    h = len(HEAD % b'a')
    fh = len(FHEAD % b'a')
    for B in (120, 150, 200):
        sets = []
        for n in (B + 1, B + 2, 2 * B, 5 * B):
            sets += [([(b'a', n, False)], True), ([(b'f', 5, True), (b'a', n, False)], True), ([(b'a', 1, False), (b'b', n, False)], True)]
        for n in (1, B - h - 3, B - h):
            sets += [([(b'a', n, False)], False)]
        for n in (B // 2 - h,):
            sets += [([(b'a', n, False), (b'b', n, False)], False)]
        # fields that are small one by one
        sets += [([(b'a', B // 2 + 1, False), (b'b', B // 2 + 1, False)], True), ([(b'a', B // 3 + 1, False)] * 4, True), ([(b'a', B // 5, False)] * 9, True)]
        # files are not text
        sets += [([(b'f', 3 * B, True)], False), ([(b'f', 2 * B, True), (b'a', 5, False)], h + fh + 5 > B and None or False)]
        for fields, refuse in sets:
            size = sum(n for _, n, f in fields if not f)
            for attr in ('forms', 'POST', 'files'):
                for fr in ('length', 64):
                    work.append((forms, attr, multipart(fields), 'multipart/form-data; boundary=x', B, refuse is True, refuse is False, fr, 'multipart', size, str([(n, 'file' if f else 'text') for _, n, f in fields])))
    n = 64
    jobs = [(batch, work[k::n]) for k in range(n)] + [(statuses, None)]
    c.spread(jobs, lambda j: j[0](c, eng, j[1]) if j[1] is not None else j[0](c, eng))


def batch(c, eng, jobs):
    for j in jobs:
        if os.environ.get('SA_FAST') and any(v[0] == 'violation' for v in c.obl.values()):
            return
        j[0](c, eng, *j[1:])
