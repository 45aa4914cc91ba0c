"""C05: chunked transfer decoding is exact and rejects every truncation."""
import os, re
from ..stream import *

EXPLANATION = (
    'Abstract interpretation of Request.body over a scripted wsgi.input that delivers chunked encodings: payload bytes are unknown, the framing '
    'is enumerated (partitions, spellings of sizes, extensions, trailers), each encoding is also cut at every byte and altered at every framing '
    'byte; reads return every possible length.  Outcomes are compared with the grammar of the encoding.')
RULES = {
    'exact': 'for a legal encoding the body is exactly the concatenation of the chunk payloads',
    'cut': 'an encoding cut short before its terminating zero-size chunk is rejected as a client error',
    'separator': 'chunk data not followed by CRLF is rejected as a client error',
    'garbage': 'other framing garbage is accepted or rejected as a client error, nothing else is raised',
    'status': 'the response to a request whose body is rejected has a 4xx status',
}
ENV = {'REQUEST_METHOD': 'POST', 'HTTP_TRANSFER_ENCODING': 'chunked'}
FIXED = (b'xy0', b'\r\n0', b'5;\r')
CRLF = [Const(b'\r'), Const(b'\n')]
ODD = [b'%c' % x for x in b'059afAFgGxX;:,.+-_ \t\r\n\0\x0b\x0c\x7f\x80\xff"=']


def const(b):
    return [Const(b[i:i + 1]) for i in range(len(b))]


def encode(sizes, spell=lambda n: b'%x' % n, ext=b'', last=b'0', tail=b'\r\n'):
    """[(token, role)]: role is 'data', 'sep', 'line' or 'end'"""
    out, k = [], 0
    for n in sizes:
        out += [(t, 'line') for t in const(spell(n) + ext)] + [(t, 'line') for t in CRLF]
        out += [(t, 'data') for t in unknown(n, k)]
        out += [(t, 'sep') for t in CRLF]
        k += n
    out += [(t, 'end') for t in const(last + ext) + CRLF]
    out += [(t, 'tail') for t in const(tail)]
    return out


def grammar(toks, B):
    """('exact', payload) | ('reject',) | ('free',) for a byte sequence, by the grammar of chunked encoding"""
    i, out = 0, []
    vals = [t.v if isinstance(t, Const) else None for t in toks]
    fits = True
    while True:
        j = i
        while not (vals[j:j + 2] == [b'\r', b'\n']):
            if j >= len(vals):
                return ('free',)
            j += 1
        if None in vals[i:j]:
            return ('free',)
        line = b''.join(vals[i:j])
        m = re.fullmatch(rb'([0-9a-fA-F]+)[ \t]*(;.*)?', line, re.S)
        if not m or b'\r' in line or b'\n' in line:
            return ('free',)
        if len(line) + 2 > B:
            fits = False
        n = int(m.group(1), 16)
        i = j + 2
        if n == 0:
            return ('exact' if fits else 'fits', out)
        if len(toks) < i + n:
            return ('reject', 'cut')
        out = out + toks[i:i + n]
        i += n
        if i + 2 > len(toks):
            return ('reject', 'cut')
        if vals[i:i + 2] != [b'\r', b'\n']:
            return ('reject', 'separator')
        i += 2


def client_error(eng, s, v):
    code = status_of(eng, s, v)
    return (code is not None and 400 <= code < 500), code


def judge(c, w, toks, B, where, det, expect=None):
    eng = w.eng
    want = expect or grammar(toks, B)
    for s, b in w.get(w.st, 'body'):
        c.paths += 1
        vg = vague(s)
        d = '%s, buffer %s, reads of %s: ' % (det, B, [k for n, at, k in (x.v for x in s.ghost['reads'].items) if n > 1][:8])
        if isinstance(b, Exc):
            good, code = client_error(eng, s, b)
            rule = 'exact' if want[0] == 'exact' else 'cut' if want == ('reject', 'cut') else 'separator' if want[0] == 'reject' else 'garbage'
            if not good:
                c.verdict(False, vg, rule, where, d + 'raises %s (status %s)' % (b.val, code), s)
            else:
                c.verdict(want[0] != 'exact', vg, rule, where, d + 'rejected', s)
            continue
        have = w.rest(s, b)
        if have is None:
            c.und('exact', where, d + 'content of %s' % b)
        elif want[0] in ('exact', 'fits'):
            c.verdict(have == want[1], vg, 'exact', where, d + 'body %s, sent %s' % (show(have), show(want[1])), s)
        elif want[0] == 'reject':
            c.verdict(False, vg, want[1], where, d + 'accepted as %s' % show(have), s)
        else:
            c.ok('garbage', where)


def one(c, eng, toks, B, split, where, det, expect=None, te='chunked'):
    with c.section('exact', 60):
        w = Stream(c, eng, toks, {**ENV, 'HTTP_TRANSFER_ENCODING': te}, {'max_memfile_size': B} if B else None, split)
        if not w.ready:
            c.und('exact', where, 'set-up')
            return
        judge(c, w, toks, B or 102400, where, det, expect)


def batch(c, eng, jobs):
    for j in jobs:
        if os.environ.get('SA_FAST') and any(v[0] == 'violation' for v in c.obl.values()):
            return
        one(c, eng, *j)


def legal():
    """encodings: (name, [(token, role)], longest line)"""
    UP = lambda n: b'%X' % n
    for sizes in ([], [1], [2], [3], [1, 1], [2, 1], [1, 3], [4], [1, 1, 1], [2, 2, 1], [5], [3, 3]):
        yield 'plain %s' % sizes, encode(sizes)
    for name, sp in (('upper', UP), ('zeros', lambda n: b'00%x' % n), ('zeros upper', lambda n: b'0%X' % n), ('mixed', lambda n: (b'%02x' % n).title())):
        for sizes in ([10], [11, 1], [15], [16], [26], [1, 31], [2], [10, 10], [171]):
            yield '%s %s' % (name, sizes), encode(sizes, sp)
    for ext in (b';x', b';x=y', b' ;x', b';', b';a="b;c"', b';a=\t1', b';5', b';x=y;z=0', b' ', b'; a = ff', b';10', b';\xc3\xa9'):
        for sizes in ([1], [2, 3], [10]):
            yield 'extension %s' % ext.decode('latin1'), encode(sizes, ext=ext)
    for tail in (b'', b'A: b\r\n\r\n', b'A: b\r\nC: d\r\n\r\n', b'\r\nmore', b'5\r\nabcde\r\n0\r\n\r\n'):
        for sizes in ([2], [1, 1]):
            yield 'trailer', encode(sizes, tail=tail)
    for last in (b'00', b'000'):
        yield 'last chunk', encode([2, 1], last=last)
    for sizes in ([33], [64], [65, 1], [32, 32], [300, 5], [256], [255], [4096]):
        yield 'long', encode(sizes)


def run(c):
    eng = c.engine()
    quick = c.tier == 'quick'
    work = []
    encs = list(legal())
    for name, e in encs:
        toks = [t for t, r in e]
        n = sum(r == 'data' for t, r in e)
        det = show(toks[:60])
        for B in (3, 4, 5, 8, 16, 33, 64, None):
            if n <= 6:
                work.append((toks, B, True, name, det))
            else:
                for cap in (False, 1, 2, 3, 7):
                    if n < 100 or cap in (False, 7):
                        work.append((toks, B, cap, name, det))
    def fixed(toks, data):
        return [Const(data[int(t.name[5:]) % len(data):][:1]) if isinstance(t, Sym) else t for t in toks]
    small = [encode([2]), encode([1, 3]), encode([2], ext=b';x=y'), encode([10]), encode([1], spell=lambda n: b'0%x' % n), encode([1, 1], tail=b'A: b\r\n\r\n'), encode([3, 2, 1]), encode([])] \
        + ([encode([17, 2]), encode([1, 2, 1], ext=b'; a')])
    for e in small:
        toks = [t for t, r in e]
        roles = [r for t, r in e]
        det = show(toks)
        n = roles.count('data')
        for B in (6, 16, 100):
            for k in range(len(toks)):
                # cut
                end = roles.index('end')
                exp = ('reject', 'cut') if k <= end else None
                work.append((toks[:k], B, True if n < 5 else 4, 'cut', '%s cut after %d bytes' % (det, k), exp))
        for B in (16,) if quick else (6, 16, 100):
            for k in range(len(toks)):
                if roles[k] == 'data':
                    continue
                for o in ODD if quick else [b'%c' % x for x in range(256)]:
                    if toks[k] == Const(o):
                        continue
                    t2 = toks[:k] + [Const(o)] + toks[k + 1:]
                    if roles[k] == 'sep':
                        work.append((t2, B, 3, 'altered sep', '%s byte %d changed to %r' % (det, k, o)))
                        continue
                    for data in FIXED:
                        work.append((fixed(t2, data), B, 3, 'altered %s' % roles[k], '%s byte %d changed to %r' % (show(fixed(toks, data)), k, o)))
                # one byte dropped, one byte added
                for data in FIXED:
                    work.append((fixed(toks[:k] + toks[k + 1:], data), B, 3, 'dropped %s' % roles[k], '%s without byte %d' % (show(fixed(toks, data)), k)))
                for o in (b'\r', b'\n', b' ', b'0', b';', b'-'):
                    t2 = toks[:k] + [Const(o)] + toks[k:]
                    for data in FIXED[:1] if quick else FIXED:
                        work.append((fixed(t2, data), B, 3, 'inserted %s' % roles[k], '%s with %r at %d' % (show(fixed(toks, data)), o, k)))
    for raw in (b'', b'\r\n', b'\n', b'-1\r\n\r\n', b'0x5\r\nabcde\r\n0\r\n\r\n', b'1_0\r\n' + b'a' * 16 + b'\r\n0\r\n\r\n', b';\r\n\r\n', b' 5 \r\nabcde\r\n0\r\n\r\n', b'5\nabcde\n0\n\n', b'zz\r\n', b'f' * 40 + b'\r\n', b'5;' + b'x' * 50,
                b'\xd9\xa5\r\nabcde\r\n0\r\n\r\n', b'+2\r\nab\r\n0\r\n\r\n', b'\0' * 30, b'5\r\nab', b'5\r\nabcdeXX0\r\n\r\n', b'5\r\nabcde\n\n0\r\n\r\n', b'5\r\nabcde0\r\n\r\n', b'1\r\na\r\r\n0\r\n\r\n', b'1\r\na\n\r0\r\n\r\n'):
        for B in (8, 64):
            work.append((const(raw), B, 5, 'raw', repr(raw[:40])))
    for te in ('Chunked', 'CHUNKED', ' chunked', 'gzip, chunked'):
        work.append(([t for t, r in encode([2, 1])], 16, True, 'header', 'Transfer-Encoding: ' + te, None, te))
    n = 64
    jobs = [(batch, work[k::n]) for k in range(n)]
    jobs += [(statuses, None)]
    c.spread(jobs, lambda j: j[0](c, eng, j[1]) if j[1] is not None else j[0](c, eng))


def statuses(c, eng):
    """the response to requests whose handler reads the body"""
    def use(e, s, req):
        return models.each(e.getattr_(s, req, 'body', NODE), lambda x, b: [(x, Const('ok'))])
    for name, raw, want in (('legal', b'2\r\nab\r\n0\r\n\r\n', '200'), ('cut', b'2\r\na', '4'), ('cut after a chunk', b'2\r\nab\r\n', '4'), ('no separator', b'2\r\nabc\r\n0\r\n\r\n', '4'), ('size', b'xyz\r\nab\r\n0\r\n\r\n', '4'), ('empty', b'', '4')):
        with c.section('status', 60):
            w = Stream(c, eng, const(raw), {**FULL, 'HTTP_TRANSFER_ENCODING': 'chunked'}, None, False)
            if not w.ready:
                c.und('status', name, 'set-up')
                continue
            for s, r, status in serve(w, use):
                c.paths += 1
                if isinstance(r, Exc) or not (isinstance(status, Const) and isinstance(status.v, str)):
                    c.und('status', name, 'answer %s %s' % (r, status))
                    continue
                c.verdict(status.v.startswith(want), vague(s), 'status', name, 'the response to %r has status %s' % (raw, status.v), s)
