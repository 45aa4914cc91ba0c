"""C06: multipart parsing does not depend on how the body is split."""
import itertools, os
from ..markup import *
from ..stream import vague, status_of
from ..forms import form_body, request, harvest, Unclear, say

EXPLANATION = (
    'The multipart parser is analysed as a transition system: a state is the object graph MultipartMarkup holds, a step is parse(chunk), '
    'interpreted abstractly with data bytes that are unknown apart from not being CR, LF, hyphen or a boundary character.  For a body every '
    'state reachable by any division into chunks is computed (a collecting semantics over the positions: from each state at i a step for '
    'every j > i); the sections and the error reported at every position must be the same for all of them.')
RULES = {
    'division': 'sections and error at every position are the same for every division of the bytes before it',
    'request': 'forms, files and errors of a request do not depend on the lengths of the reads from wsgi.input nor on the framing',
}
Z = byte(0)


def word(spec, boundary):
    """list of tokens: bytes constants, Z for an unknown byte"""
    out, k = [], 0
    for x in spec:
        if x is Z:
            out.append(byte(k))
            k += 1
        else:
            out += tokens(Const(x))
    return out


def well_formed(data, boundary):
    """the first delimiter after the data is the intended one"""
    d = b''.join(b'\0' if x is Z else x for x in data)
    token = b'\r\n--' + boundary
    return (d + token).find(token) == len(d)


def body(parts, boundary, lead=b'', last=b'--\r\n'):
    """parts: [(header block, data tokens)]"""
    out = [lead + b'--' + boundary]
    for head, data in parts:
        out += [b'\r\n' + head + b'\r\n\r\n', *data, b'\r\n--' + boundary]
    return word(out + [last], boundary)


class Space:
    def __init__(self, c, eng, boundary):
        self.c, self.boundary = c, boundary
        self.p = Parser(c, eng, boundary.decode('latin1'), [byte(k) for k in range(60)])
        self.memo = {}
        self.labels = {}

    def step(self, key, st, chunk):
        k = key, chunk
        r = self.memo.get(k)
        if r is None:
            self.c.paths += 1
            r = self.p.feed(st, chunk)
            self.memo[k] = r = [(None, 'raises %s' % x[1].val) if k2 is None else (k2, x) for k2, x in r]
        return r

    def explore(self, toks, where, longest, late=0):
        """all divisions of the body into chunks of at most `longest` bytes or reaching its end (chunks from before the position `late` do not pass it, unless they start or end the body)"""
        c, p = self.c, self.p
        n = len(toks)
        at = [dict() for _ in range(n + 1)]
        at[0][p.start[0]] = p.start[1], ()
        for i in range(n + 1):
            seen = {}
            for key, (st, how) in at[i].items():
                r = p.result(st)
                if r is None or vague(st):
                    c.und('division', where, 'result after %s' % show(toks[:i]))
                    return
                seen.setdefault(r, how)
            if len(seen) > 1:
                (a, h1), (b, h2) = list(seen.items())[:2]
                c.bad('division', where, 'boundary %r, body %s: read in pieces of %s it gives %s, in pieces of %s it gives %s' % (
                    self.boundary, show(toks[:i]), list(h1), brief(a), list(h2), brief(b)))
                return
            if len(at[i]) > 1:
                for k in list(at[i])[40:]:
                    del at[i][k]
            for key, (st, how) in at[i].items():
                for j in range(i + 1, n + 1):
                    if j - i > longest and j != n or late and i and i < late - 2 and j > late + 2 and j != n:
                        continue
                    r = self.step(key, st, text(toks[i:j]))
                    if len(r) != 1:
                        c.und('division', where, 'a step has %d outcomes' % len(r))
                        return
                    k2, x = r[0]
                    if k2 is None:
                        c.bad('division', where, 'boundary %r, body %s read in pieces of %s: parse %s' % (self.boundary, show(toks[:j]), list(how) + [j - i], x))
                        return
                    at[j].setdefault(k2, (x, how + (j - i,)))
        c.ok('division', where)


def brief(r):
    g, err = r
    secs = []
    for o in g[1][1:] if g[1] else ():
        it = [x for x in o[2]]
        if len(it) == 2 and isinstance(it[1], tuple):
            secs.append('%s%s' % (it[0].v if isinstance(it[0], Const) else it[0], [x for x in it[1][1:]]))
    return ' '.join(secs) + ('' if err == 'None' else ' error ' + err)


HEADS = (b'h:v', b'a:-x--x\r\nb:--', b'--x:y')
ENDS = (b'--', b'--\r\n', b'--\r\n\r\n', b'--epilogue', b'--\r\n--x\r\n')


def bodies(quick):
    """(family, boundary, tokens, longest chunk)"""
    A = [b'\r', b'\n', b'-', b'x', Z]
    full = 10 ** 6
    # data: every word over the letters the parser can tell apart
    for n in range(0, 4 if quick else 5):
        for w in itertools.product(A, repeat=n):
            if well_formed(w, b'x'):
                yield 'data words', b'x', body([(b'h:v', w)], b'x'), full if n < 3 else 6 if quick else 12
    # look-alikes: beginnings of the delimiter, one after another
    for bd in (b'x', b'xy', b'-', b'--', b'x-x', b'aab'):
        token = b'\r\n--' + bd
        for i in range(len(token) + 1):
            for j in range(len(token)):
                for mid in ((), (Z,)) if bd in (b'x', b'-', b'aab') else ((),):
                    w = (token[:i],) + mid + (token[:j],) if i < len(token) else None
                    if w and well_formed(w, bd):
                        yield 'look-alikes %s' % bd.decode(), bd, body([(b'h:v', w)], bd), 2 * len(token) + 3
    for bd in (b'x', b'-', b'--', b'---', b'x--', b"a'()+_,-./:=? b", b'----WebKitFormBoundaryAbC0', b'0' * 70):
        for head in HEADS:
            for end in ENDS:
                for lead in (b'', b'\r\n'):
                    if len(bd) > 20 and (head != HEADS[0] or end not in ENDS[:2] or lead):
                        continue
                    yield 'frames %s' % bd.decode()[:6], bd, body([(head, (Z, b'\r\n-', Z))], bd, lead, end), full if len(bd) < 4 and head == HEADS[0] and end in ENDS[::2] and not lead or not quick else 7
    # several parts
    for parts in ([], [(b'h:v', ())], [(b'h:v', ()), (b'g:w', ())], [(b'h:v', (b'\r\n',)), (b'g:w', (b'--x',)), (b'i:', (Z,))], [(b'h:v', (b'\r\n--',)), (b'g:w', (b'\r\n\r\n',))]):
        for end in ENDS:
            yield 'parts', b'x', body(parts, b'x', b'', end), full if len(parts) < 3 else 12
    # a delimiter torn apart
    for bd in (b'x', b'ab'):
        token = b'\r\n--' + bd
        t = len(token)
        for i in range(1, t):
            for k in (1, 2, t - i, t - 1, t, t + 1, 2 * t - i, 2 * t):
                yield 'torn delimiter %s' % bd.decode(), bd, body([(b'h:v', (token[:i],) + (Z,) * k + (token[i:],))], bd), 2 * t + 2
    # long data: blocks of the delimiter's length at every phase
    for bd in (b'x', b'abc'):
        t = len(bd) + 4
        for k in range(0, 3 * t + 1):
            yield 'phases %s' % bd.decode(), bd, body([(b'h:v', (Z,) * k)], bd), full if k in (0, t, t + 1) else t + 3
        for k in range(t + 1):
            for cut in range(1, t):
                yield 'phases look-alike %s' % bd.decode(), bd, body([(b'h:v', (Z,) * k + ((b'\r\n--' + bd)[:cut],) + (Z,) * 2)], bd), t + 3


SPACES = {}


def explore(c, eng, jobs):
    quick = c.tier == 'quick'
    spaces = SPACES
    for fam, bd, toks, longest in jobs:
        if os.environ.get('SA_FAST') and any(v[0] == 'violation' for v in c.obl.values()):
            return
        with c.section('division', 60):
            sp = spaces.get(bd)
            if sp is None:
                sp = spaces[bd] = Space(c, eng, bd)
            eng.policy = sp.p.pol
            if not sp.p.ready:
                c.und('division', fam, 'set-up')
                continue
            if len(sp.memo) > 4000:
                sp.memo.clear()
            sp.explore(toks, fam, longest, len(bd) + 9 if longest < 10 ** 6 and fam.startswith(('data', 'look', 'phases', 'torn')) and quick else 0)


E = frozenset(bytes([x]) for x in b'\r\n-x')
FORMS = (
    [('a', 'v'), ('f', 'n', None, [byte(0), b'\r\n-', byte(1)])],
    [('f', 'n', 'text/plain', [b'\r\n--', byte(0), b'\r', byte(1), b'-' * 7]), ('a', '')],
    [('a', '\r\n'), ('a', '--x'), ('f', 'n', None, [b'\r', b'\n'])],
    [('f', 'n', None, [b'\r\n-', byte(0), b'-' * 150, byte(1), b'\r'])],
    [],
)


def outcome(w, at):
    """what the request attribute gives, in every analysed path"""
    out = []
    for s, v in w.get(w.st, at):
        w.c.paths += 1
        if vague(s):
            raise Unclear(vague(s))
        if isinstance(v, Exc):
            o = s.get(v.val) if isinstance(v.val, Ref) else None
            code = status_of(w.eng, s, v)
            out.append('status %s' % code if code is not None else 'raises %s' % (o.cls if o is not None else v.val))
            continue
        out.append(say(harvest(w, s, v)[1]))
    return out


def requests(c, eng, form, cut, end, how):
    with c.section('request', 60):
        toks = form_body(form, b'x', end)
        toks = toks[:len(toks) - cut]
        where = '%d fields%s' % (len(form), ', cut' if cut else '')
        try:
            ref = {}
            for at in ('POST', 'files'):
                w = request(c, eng, toks, b'x', None, False, 'length', E)
                if not w.ready:
                    c.und('request', where, 'set-up')
                    return
                ref[at] = outcome(w, at)
            for kind, n, mem in how:
                cfg = {'max_memfile_size': mem} if mem else None
                for at in ('POST', 'files') if n % 2 else ('POST',):
                    w = request(c, eng, toks, b'x', cfg, n if kind == 'reads' else False, 'length' if kind == 'reads' else n, E)
                    got = outcome(w, at)
                    c.verdict(got == ref[at], None, 'request', where, 'request.%s for %s with %s of %d bytes (max_memfile_size %s): %s, in one piece %s' % (
                        at, show(toks), kind, n, mem, got, ref[at]))
        except Unclear as e:
            c.und('request', where, str(e))


def request_jobs(quick):
    for form in FORMS:
        for cut, end in ((0, b'--\r\n'), (0, b'--'), (5, b'--\r\n'), (20, b'--\r\n')):
            size = len(form_body(form, b'x', end))
            if cut >= size - 4:
                continue
            ks = sorted({1, 3, 4, 7, 16, size // 2, size - 2, size - 5} if not cut else {2, 7, size - 1} & set(range(1, size))) if quick or cut else range(1, size)
            yield form, cut, end, [(kind, k, None) for k in ks for kind in (('reads', 'chunks') if k in (3, 7, size - 2) else ('reads',))] + [('reads', size - 3, 150), ('reads', 3, 150), ('chunks', size - 2, 150)]


def run(c):
    eng = c.engine()
    quick = c.tier == 'quick'
    work = list(bodies(quick))
    n = 96
    work.sort(key=lambda j: (j[1], [repr(t) for t in j[2]]))
    m = -(-len(work) // n)
    jobs = [(explore, (work[k * m:k * m + m],)) for k in range(n)]
    for form, cut, end, how in request_jobs(quick):
        jobs += [(requests, (form, cut, end, how[k::4])) for k in range(4)]
    c.spread(jobs, lambda j: j[0](c, eng, *j[1]))
