"""C17: range and conditional requests describe exactly the bytes delivered."""
from ..rule import *
from ..web import *

EXPLANATION = (
    'Abstract interpretation of static_file from symbolic arguments and environ. Each returned response is taken apart: '
    'Content-Range, Content-Length, body and the path facts are linear terms over the file size and the integers parsed from '
    'the Range header, and are compared with the first requested range clipped as RFC 7233 defines by linear entailment. The '
    'body generator is then interpreted with counters for the file position and the delivered bytes; loop invariants '
    '(affine equalities and difference bounds) must show that exactly the announced slice is delivered.')
RULES = {
    'range': 'a 206 response announces exactly the first requested range clipped to the file, with 0 <= start < end <= size',
    'unsatisfiable': '416 is answered only when no byte of the first range exists or the header is malformed',
    'length': 'Content-Length equals the number of bytes of the announced slice, or the file size without a Range header',
    'selected': 'a Range header leads to 206 or 416 and its absence to neither',
    'slice': 'the body generator seeks to the start and yields exactly the announced bytes, each read bounded by what is left',
    'chunk': 'no read asks for more than the streaming buffer',
    'whole': 'without a Range header the body is the opened file from its beginning, in binary mode',
    'notmodified': '304 is answered exactly when the If-Modified-Since date is not older than the file (whole seconds), without body',
    'head': 'HEAD gets the same status and headers as GET, without opening a body',
    'date': 'HTTP dates are converted with their own zone offset, independent of the local time zone',
}
HR = App('item', ENVIRON, Const('HTTP_RANGE'))
MODI = App('item', ENVIRON, Const('HTTP_IF_MODIFIED_SINCE'))
OPEN = ('builtins.open', 'io.open')


def ext_call(t):
    if isinstance(t, App) and t.op == 'call' and isinstance(t.args[0], Ext):
        return t.args[0].name, t.args[1:]
    return None, ()


def is_size(t):
    if isinstance(t, App) and t.op == 'attr' and t.args[1] == Const('st_size'):
        return ext_call(t.args[0])[0] in ('os.stat', 'os.fstat', 'os.lstat')
    if isinstance(t, App) and t.op in ('item',) and t.args[1] in (Const(6),):
        return ext_call(t.args[0])[0] in ('os.stat', 'os.fstat', 'os.lstat')
    return ext_call(t)[0] == 'os.path.getsize'


def is_mtime(t):
    if isinstance(t, App) and t.op == 'attr' and t.args[1] == Const('st_mtime'):
        return ext_call(t.args[0])[0] in ('os.stat', 'os.fstat', 'os.lstat')
    return ext_call(t)[0] == 'os.path.getmtime'


def unstrip(t):
    while isinstance(t, App) and t.op in ('strip', 'lstrip', 'rstrip') and len(t.args) == 1:
        t = t.args[0]
    return t


def role(t):
    """('A'|'B', spec) of a piece of a byte range spec"""
    t = unstrip(t)
    if isinstance(t, App) and t.op == 'item' and isinstance(t.args[0], App) and isinstance(t.args[1], Const):
        s, k = t.args[0], t.args[1].v
        if s.op in ('split', 'rsplit') and len(s.args) > 1 and s.args[1] == Const('-'):
            return ({0: 'A', 1: 'B', -1: 'B', -2: 'A'}.get(k), s.args[0])
        if s.op in ('partition', 'rpartition') and s.args[1] == Const('-'):
            return ({0: 'A', 2: 'B', -1: 'B'}.get(k), s.args[0])
    return None, None


def first_spec(x):
    """is x the first element of the comma separated list: True/False/None"""
    x = unstrip(x)
    if isinstance(x, App) and x.op == 'item' and isinstance(x.args[0], App) and isinstance(x.args[1], Const):
        s, k = x.args[0], x.args[1].v
        if s.op in ('split', 'partition') and len(s.args) > 1 and s.args[1] == Const(','):
            return k == 0
        if s.op in ('rsplit', 'rpartition') and len(s.args) > 1 and s.args[1] == Const(','):
            return False if (s.op == 'rpartition' or len(s.args) > 2) else k == 0
    return None


def content_range(v):
    """(start, last, total) of 'bytes s-l/t'"""
    p = pieces(v)
    if ''.join(x for x in p[:6] if isinstance(x, str)) != 'bytes ':
        return None
    p = p[6:]
    out, cur = [], []
    for x in p + ['\0']:
        if isinstance(x, str) and not x.isdigit():
            if len(cur) == 1 and not isinstance(cur[0], str):
                out.append(strip_str(cur[0]))
            elif cur and all(isinstance(y, str) for y in cur):
                out.append(Const(int(''.join(cur))))
            else:
                return None
            out.append(x)
            cur = []
        else:
            cur.append(x)
    if len(out) != 6 or out[1::2] != ['-', '/', '\0']:
        return None
    return out[0], out[2], out[4]


def run(c):
    eng = c.eng
    mod = 'ombott.static_stream'
    fn = eng.lookup(mod, 'static_file')
    if not isinstance(fn, Func):
        c.und('range', 'static_file', 'function not found')
        return
    paths = []
    with c.section('static_file', 240):
        pol = resp_policy(eng, join_at=10**9, max_states=20000)
        ims = Sym('ims', 'int')

        def parse(eng, st, fv, args, kw, node):
            a, b = st.fork(), st.fork()
            eng.event(a, 'call', node, (fv, tuple(args), tuple(kw)), NONE)
            eng.event(b, 'call', node, (fv, tuple(args), tuple(kw)), ims)
            return [(a, NONE), (b, ims)]
        pol.opaque['ombott.common_helpers:parse_date'] = parse
        st = start(eng, pol, mod)
        st, app = default_app(eng, st)
        res = eng.call(st, fn, [Sym('filename', 'str'), Sym('root', 'str'), NONE, FALSE, Sym('charset', 'str')], [], NODE)
        c.paths += len(res)
        for s, v in res:
            if isinstance(v, Exc):
                continue
            w = resp_view(eng, s, v)
            if w is None:
                c.und('selected', 'static_file', 'result %s' % (v,))
                continue
            paths.append((s, w, site(s)))
    headers_rules(c, eng, paths)
    seen = {}
    for s, w, where in paths:
        if w.status in (Const(206), Const(200)) and not is_head(s):
            k = (w.status, w.headers.get('Content-Range'), w.headers.get('Content-Length'), shape(s, w.body))
            if k not in seen:
                seen[k] = (s, w, where)
    with c.section('slice', 400):
        for s, w, where in seen.values():
            deliver(c, eng, s, w, where)
    with c.section('date', 60):
        dates(c, eng)


def shape(st, body):
    if isinstance(body, Ref):
        o = st.get(body)
        if o.kind == 'gen':
            return (o.kind, repr(o.meta[0]), tuple(sorted((k, repr(v)) for k, v in st.get(o.meta[1]).attrs.items())))
        return (o.kind, repr(o.items))
    return body


def site(st):
    ev = [e for e in st.events() if e.kind == 'call']
    return ev[-1].where() if ev else 'static_file'


def is_head(st):
    for f, val in st.truth.items():
        if f.op == 'eq' and Const('HEAD') in f.args and contains(f, lambda t: t == Const('REQUEST_METHOD')):
            return val
        if f.op == 'in' and contains(f.args[0], lambda t: t == Const('REQUEST_METHOD')) and contains(f.args[1], lambda t: t == Const('HEAD')):
            return val if isinstance(f.args[1], Tup) and len(f.args[1].items) == 1 else None
    return None


def has_range(st):
    k = st.known(App('truthy', HR))
    if k is None:
        k2 = st.known(App('isnone', HR))
        if k2:
            return False
        if st.truth.get(App('in', Const('HTTP_RANGE'), ENVIRON)) is False:
            return False
    if k is None and st.entails(lin_sub(App('len', HR), Const(1))):
        return True
    return k


def strings(paths):
    """the two halves of the range spec, as the code spells them"""
    out = {}
    for s, w, where in paths:
        pool = list(s.truth)
        for const, terms in s.lins:
            pool += list(terms)
        pool += list(w.headers.values())
        for f in pool:
            for t in subterms(f):
                r, x = role(t)
                if r and contains(x, lambda y: y == HR) and unstrip(t) == t:
                    out.setdefault(r, set()).add((t, x))
    return out


def empty_of(st, t):
    """is the text t empty on this path"""
    L = App('len', t)
    if st.truth.get(App('eq', EMPTY, t)) or st.truth.get(App('eq', t, EMPTY)):
        return True
    if st.entails(lin_sub(L, Const(1))) or st.truth.get(App('truthy', t)):
        return False
    if st.entails(lin_scale(L, -1)) or st.truth.get(App('truthy', t)) is False:
        return True
    if st.truth.get(App('eq', EMPTY, t)) is False or st.truth.get(App('eq', t, EMPTY)) is False:
        return False
    if st.truth.get(App('isnum', t)):
        return False
    return None


def headers_rules(c, eng, paths):
    S = strings(paths)
    A = sorted((t for t, x in S.get('A', ())), key=repr)
    B = sorted((t for t, x in S.get('B', ())), key=repr)
    specs = {x for v in S.values() for t, x in v}
    for x in specs:
        f = first_spec(x)
        if f is False:
            c.bad('range', 'range spec', 'the range taken from the header is not the first one: %s' % (x,))
        elif f is None:
            c.und('range', 'range spec', 'spelled %s' % (x,))
        else:
            c.ok('range', 'range spec')
    single = len(A) == 1 and len(B) == 1
    if not single:
        c.und('range', 'static_file', 'range halves not recognised: %s %s' % (A, B))
    heads, gets = {}, {}
    for s, w, where in paths:
        vg = vague_state(s)
        st = w.status.v if isinstance(w.status, Const) else None
        if st is None:
            c.und('selected', where, 'status %s' % (w.status,))
            continue
        hr = has_range(s)
        if st in (200, 206, 416):
            if hr is True:
                c.verdict(st in (206, 416), vg, 'selected', where, 'a Range header is answered with %s' % st, s)
            elif hr is False:
                c.verdict(st == 200, vg, 'selected', where, '%s without a Range header' % st, s)
            else:
                c.verdict(False, vg or (None if st == 206 else None), 'selected', where, '%s without looking at the Range header' % st, s)
        if st == 200:
            cl = strip_str(w.headers.get('Content-Length', NONE))
            if is_size(cl):
                c.ok('length', where)
            elif w.exact and (cl == NONE or not vague_term(cl)) and not vg:
                c.bad('length', where, 'Content-Length of the whole file is %s' % (cl,), s)
            else:
                c.und('length', where, '%s' % (cl,))
        if st == 206:
            partial(c, s, w, where, A, B, single)
        if st == 416 and single:
            unsat(c, s, w, where, A[0], B[0])
        modified(c, s, w, where, st)
        h = is_head(s)
        key = (st, frozenset((k, v) for k, v in w.headers.items() if k not in ('Date',))) if st in (200, 206) else None
        if key is not None:
            if h is True:
                heads.setdefault(key, (s, where))
                body = w.body
                if body in (EMPTY, NONE, Const(b''), FALSE) or isinstance(body, Ref) and s.get(body).kind == 'list' and not s.get(body).items:
                    c.ok('head', where)
                elif isinstance(body, App) and ext_call(body)[0] in OPEN or isinstance(body, Ref) and s.get(body).kind == 'gen':
                    c.verdict(False, vg, 'head', where, 'a HEAD response carries the body %s' % (body,), s)
                else:
                    c.und('head', where, 'body %s' % (body,))
            elif h is False:
                gets.setdefault(key, (s, where))
    if heads and gets:
        for k, (s, where) in gets.items():
            c.verdict(k in heads, vague_state(s), 'head', 'headers of GET ' + where, 'no HEAD response has status %s and headers %s' % (k[0], sorted(k[1], key=repr)), s)
        for k, (s, where) in heads.items():
            c.verdict(k in gets, vague_state(s), 'head', 'headers of HEAD ' + where, 'no GET response has status %s and headers %s' % (k[0], sorted(k[1], key=repr)), s)
    else:
        c.und('head', 'static_file', 'HEAD paths not told apart')


def partial(c, s, w, where, A, B, single):
    vg = vague_state(s)
    cr = w.headers.get('Content-Range')
    if cr is None:
        c.verdict(False, vg or not w.exact, 'range', where, '206 without Content-Range', s)
        return
    t = content_range(cr)
    if t is None:
        c.und('range', where, 'Content-Range %s' % (cr,))
        return
    first, last, total = t
    bad = vague_term(first) or vague_term(last) or vague_term(total)
    if bad or vg:
        c.und('range', where, bad or vg)
        return
    if not is_size(total):
        if single:
            c.bad('range', where, 'the complete length in Content-Range is %s' % (total,), s)
        return
    n = total
    end = lin_add(last, Const(1))
    cl = strip_str(w.headers.get('Content-Length', NONE))
    size = lin_sub(end, first)
    if cl == NONE:
        c.verdict(False, None if w.exact else 'headers open', 'length', where, '206 without Content-Length', s)
    else:
        c.verdict(s.entails_eq(cl, size), vague_term(cl), 'length', where,
                  'Content-Length is %s but Content-Range describes %s bytes' % (cl, size), s)
    if not single:
        return
    a, b = App('int', A[0]), App('int', B[0])
    s2 = s.fork()
    for t in (a, b, n):
        s2.add_lin(t)
    known = {a, b, n}
    if any(not set(lin_parts(x)[1]) <= known for x in (first, end)):
        c.und('range', where, 'range %s..%s is not made of the header integers and the size' % (first, end))
        return
    ea, eb = empty_of(s, A[0]), empty_of(s, B[0])
    if contains(Tup((first, end)), lambda t: t == a) or s.truth.get(App('isnum', A[0])):
        ea = False
    if contains(Tup((first, end)), lambda t: t == b) or s.truth.get(App('isnum', B[0])):
        eb = False
    if ea is None or eb is None:
        c.und('range', where, 'cannot tell which form of range this path handles')
        return

    def check(exp_s, exp_e, text, need):
        """exp_*: lists of (guard rows, value)"""
        for what, got, alts in (('start', first, exp_s), ('end', end, exp_e)):
            for guard, val in alts:
                x = s2.fork()
                if not all(x.add_lin(mk_lin(k, t)) for k, t in guard + need):
                    continue
                if x.entails_eq(got, val):
                    c.ok('range', '%s %s of %s' % (where, what, text))
                    continue
                d = lin_sub(got, val)
                m = None
                for k in (1, -1):
                    rows = list(x.lins) + [lin_parts(lin_sub(lin_scale(d, k), Const(1)))]
                    rows = [r for r in rows if set(r[1]) <= known or set(r[1]) & known]
                    m = m or model(rows, known)
                if m is not None:
                    c.bad('range', '%s %s of %s' % (where, what, text), '%s of the announced slice is %s, expected %s, e.g. for %s' % (what, got, val, m), s)
                else:
                    c.und('range', '%s %s of %s' % (where, what, text), '%s vs %s' % (got, val))
    if ea and eb:
        c.bad('range', where, 'the range "-" is accepted', s)
        return
    Z = Const(0)
    if ea:
        need = [ge(b, Const(1)), ge(n, Const(1))]
        sat = need
        check([([ge(n, b)], lin_sub(n, b)), ([ge(b, lin_add(n, Const(1)))], Z)], [([], n)], 'suffix', need)
    elif eb:
        sat = [ge(n, lin_add(a, Const(1)))]
        check([([], a)], [([], n)], 'open range', sat)
    else:
        sat = [ge(n, lin_add(a, Const(1))), ge(b, a)]
        b1 = lin_add(b, Const(1))
        check([([], a)], [([ge(n, b1)], b1), ([ge(b1, n)], n)], 'closed range', sat)
    for k, t in sat:
        e = mk_lin(k, t)
        if s2.entails(e):
            c.ok('range', where + ' satisfiable')
            continue
        rows = [r for r in list(s2.lins) + [lin_parts(lin_sub(lin_scale(e, -1), Const(1)))] if set(r[1]) <= known or set(r[1]) & known]
        m = model(rows, known)
        if m is not None:
            c.bad('range', where + ' satisfiable', 'an unsatisfiable range is answered with 206, e.g. %s' % m, s)
        else:
            c.und('range', where + ' satisfiable', '%s >= 0' % (e,))


def unsat(c, s, w, where, A, B):
    vg = vague_state(s)
    for f, val in s.truth.items():
        if f.op == 'isnum' and not val and f.args[0] in (A, B):
            c.ok('unsatisfiable', where)
            return
        if f.op == 'eq' and not val and isinstance(f.args[0], App) and f.args[0].op == 'len' and f.args[1] == Const(2) \
                and contains(f.args[0], lambda t: t == Const('-')):
            c.ok('unsatisfiable', where)
            return
    n = next((t for f in list(s.truth) + [x for _, ts in s.lins for x in ts] for t in subterms(f) if is_size(t)), None)
    a, b = App('int', A), App('int', B)
    used = [t for _, ts in s.lins for t in ts if t in (a, b)]
    if not used and n is None or not used and not any(n in ts for _, ts in s.lins):
        # the size was never compared: only a malformed header may end here
        if any(contains(f, lambda t: t == HR) for f in s.truth):
            c.und('unsatisfiable', where, 'reason not recognised')
        else:
            # split('bytes=')[1] missing and similar leave no fact
            c.und('unsatisfiable', where, 'no fact about the header')
        return
    if n is None:
        c.und('unsatisfiable', where, 'size not found')
        return
    known = {a, b, n}
    ea, eb = empty_of(s, A), empty_of(s, B)
    if s.truth.get(App('isnum', A)) or a in used:
        ea = False
    if s.truth.get(App('isnum', B)) or b in used:
        eb = False
    cases = []
    if ea is not False and eb is not True:
        cases.append(('suffix', [ge(b, Const(1)), ge(n, Const(1))]))
    if eb is not False and ea is not True:
        cases.append(('open range', [ge(n, lin_add(a, Const(1)))]))
    if ea is not True and eb is not True:
        cases.append(('closed range', [ge(n, lin_add(a, Const(1))), ge(b, a)]))
    rel = [r for r in s.lins if set(r[1]) & known]
    for name, sat in cases:
        x = s.fork()
        if not all(x.add_lin(mk_lin(k, t)) for k, t in sat + [ge(a, Const(0)), ge(b, Const(0)), ge(n, Const(0))]):
            c.ok('unsatisfiable', '%s %s' % (where, name))
            continue
        m = model(rel + sat, known)
        if m is not None and not vg and (ea is not None or eb is not None or True):
            exact = {'suffix': (True, False), 'open range': (False, True), 'closed range': (False, False)}[name]
            if (ea, eb) == exact:
                c.bad('unsatisfiable', '%s %s' % (where, name), 'a satisfiable range is answered with 416, e.g. %s' % m, s)
                continue
        c.und('unsatisfiable', '%s %s' % (where, name), 'not refuted')


def modified(c, s, w, where, st):
    vg = vague_state(s)
    called = [e for e in s.events() if e.kind == 'call' and isinstance(e.a[0], Func) and e.a[0].qual.endswith(':parse_date')]
    ims = called[-1].res if called else None
    if st == 304:
        if w.body not in (EMPTY, NONE, Const(b'')):
            c.verdict(False, vg or vague_term(w.body), 'notmodified', where, '304 with body %s' % (w.body,), s)
        if ims is None or ims == NONE:
            c.verdict(False, vg or (not called and 'date parser not found'), 'notmodified', where, '304 without a valid If-Modified-Since date', s)
            return
    elif st not in (200, 206, 416) or ims is None or ims == NONE:
        return
    mt = {t for const, ts in s.lins for t in ts if contains(t, is_mtime)}
    rel = [r for r in s.lins if ims in r[1]]
    if any(is_mtime(t) for t in mt):
        c.verdict(False, vg, 'notmodified', where, 'the date is compared with the sub-second file time', s)
        return
    M = [t for t in mt if isinstance(t, App) and t.op == 'int' and is_mtime(t.args[0])]
    wrong = [t for const, ts in rel for a in ts for t in subterms(a) if isinstance(t, App) and t.op == 'attr'
             and t.args[1] in (Const('st_ctime'), Const('st_atime'), Const('st_birthtime')) and ext_call(t.args[0])[0] in ('os.stat', 'os.fstat')]
    if not M and wrong:
        c.verdict(False, vg, 'notmodified', where, 'the date is compared with %s, not with the modification time' % (wrong[0],), s)
        return
    if not M:
        if rel or vg or any(contains(f, lambda t: t == ims or is_mtime(t)) for f in s.truth if f.op not in ('isnone',)):
            c.und('notmodified', where, 'comparison not understood')
        else:
            c.bad('notmodified', where, '%s although the date is not compared with the file time' % st, s)
        return
    M = M[0]
    want = lin_sub(ims, M) if st == 304 else lin_sub(lin_sub(M, ims), Const(1))
    if s.entails(want):
        c.ok('notmodified', where)
        return
    m = model(rel + [lin_parts(lin_sub(lin_scale(want, -1), Const(1)))], {ims, M})
    if m is not None and not vg:
        c.bad('notmodified', where, '%s for date/file time %s' % (st, {str(k)[:20]: v for k, v in m.items()}), s)
    else:
        c.und('notmodified', where, 'not entailed')


# ------------------------------------------------------------------ the body
def deliver(c, eng, s, w, where):
    st = w.status.v
    body = w.body
    opened = [e for e in s.events() if e.kind == 'call' and isinstance(e.a[0], Ext) and e.a[0].name in OPEN]
    if len(opened) != 1:
        c.und('whole' if st == 200 else 'slice', where, '%d files opened' % len(opened))
        return
    fp = opened[0].res
    oargs, okw = opened[0].a[1], dict(opened[0].a[2])
    mode = oargs[1] if len(oargs) > 1 else okw.get('mode', Const('r'))
    stat = [t for t in subterms(strip_str(w.headers.get('Content-Length', NONE))) if is_size(t)]
    if isinstance(mode, Const):
        c.verdict('b' in str(mode.v), None, 'whole', where + ' mode', 'the file is opened in mode %r' % (mode.v,), s)
    if stat:
        t = stat[0].args[0] if stat[0].op != 'call' else stat[0]
        p = ext_call(t)[1]
        same = bool(p) and oargs and p[0] == oargs[0] or not p or contains(p[0], lambda y: y == fp)
        if same and ext_call(t)[0] == 'os.lstat':
            c.verdict(False, vague_state(s), 'whole', where + ' path', 'the size is that of a symbolic link, not of the file opened', s)
        else:
            c.verdict(same, vague_state(s) or vague_term(p[0] if p else NONE) or (oargs and contains(oargs[0], lambda y: y == p[0]) and 'related path'), 'whole', where + ' path',
                      'size and content come from different files: %s and %s' % (p[0] if p else '', oargs[0] if oargs else ''), s)
    moved = [e for e in s.events() if e.kind == 'call' and isinstance(e.a[0], Meth) and e.a[0].self_ == fp and e.a[0].name in ('seek', 'read', 'readline')]
    if st == 200:
        if body == fp:
            c.verdict(not moved, vague_state(s), 'whole', where, 'the file is not at its beginning', s)
            return
        if body in (EMPTY, NONE):
            c.verdict(False, vague_state(s), 'whole', where, 'GET without body', s)
            return
        n = stat[0] if stat else None
        if n is None:
            c.und('whole', where, 'body %s' % (body,))
            return
        drive(c, eng, s, body, fp, Const(0), n, 'whole', where, moved)
        return
    t = content_range(w.headers.get('Content-Range', NONE))
    if t is None:
        return
    first, end = t[0], lin_add(t[1], Const(1))
    if body == fp or body in (EMPTY, NONE):
        if body == fp and len(moved) and moved[-1].a[0].name == 'seek' and s.entails_eq(end, t[2]):
            c.und('slice', where, 'file handed out from an offset')
        else:
            c.verdict(False, vague_state(s), 'slice', where, 'the body of the 206 response is %s' % (body,), s)
        return
    drive(c, eng, s, body, fp, first, end, 'slice', where, moved)


def drive(c, eng, s0, body, fp, first, end, rule, where, moved):
    rules = (rule, 'chunk')
    before = {k: v[0] for k, v in c.obl.items()}
    drive_(c, eng, s0, body, fp, first, end, rule, where, moved, 0)
    if any(v[0] == 'unresolved' and k[0] in rules and before.get(k) != 'unresolved' for k, v in c.obl.items()):
        # not provable over all iterations: look at the first ones exactly
        drive_(c, eng, s0, body, fp, first, end, rule, where, moved, 3)


def drive_(c, eng, s0, body, fp, first, end, rule, where, moved, peel):
    pol = resp_policy(eng, join_at=10**9, houdini=not peel, peel=peel)
    pos0 = Const(0)
    s = s0.fork()
    s.tr, s.eff = None, 0
    n = lin_sub(end, first)
    G = {'pos': pos0, 'got': Const(0), 'dl': Const(0)}
    for k, v in G.items():
        s.ghost[k] = v
    s.ghost['eof'] = FALSE
    odd = []

    def seek(eng, st, self_, args, kw, node):
        if self_ != fp:
            return None
        st = st.fork()
        wh = args[1] if len(args) > 1 else dict(kw).get('whence', Const(0))
        if wh in (Const(0), Ext('os.SEEK_SET'), Ext('io.SEEK_SET')):
            st.ghost['pos'] = args[0]
        elif wh in (Const(1), Ext('os.SEEK_CUR')):
            st.ghost['pos'] = lin_add(st.ghost['pos'], args[0])
        else:
            odd.append('seek from the end')
        st.ghost['got'] = Const(0)
        eng.event(st, 'call', node, (Meth(self_, 'seek'), tuple(args), tuple(kw)), st.ghost['pos'])
        return [(st, st.ghost['pos'])]

    def read(eng, st, self_, args, kw, node):
        if self_ != fp:
            return None
        st = st.fork()
        part = Sym(st.fresh('part'), 'bytes')
        L = App('len', part)
        if args and args[0] not in (NONE, Const(-1)):
            st.add_lin(lin_sub(args[0], L))
        eng.event(st, 'call', node, (Meth(self_, 'read'), tuple(args), tuple(kw)), part)
        a, b = st.fork(), st
        out = []
        if a.add_lin(lin_sub(L, Const(1))):
            a.ghost['got'] = lin_add(a.ghost['got'], L)
            a.ghost['pos'] = lin_add(a.ghost['pos'], L)
            out.append((a, part))
        if b.add_lin(lin_scale(L, -1)):
            # nothing read: end of file, unless nothing was asked for
            if args and b.entails(lin_sub(args[0], Const(1))) or not args:
                b.ghost['eof'] = TRUE
            elif args and not b.entails(lin_scale(args[0], -1)):
                b2 = b.fork()
                if b2.add_lin(lin_sub(args[0], Const(1))):
                    b2.ghost['eof'] = TRUE
                    out.append((b2, Const(b'')))
                b.add_lin(lin_scale(args[0], -1))
            out.append((b, Const(b'')))
        return out
    pol.meth = {'seek': seek, 'read': read}
    pol.snap = lambda ev: ev.kind in ('deliver',) or ev.kind == 'call' and isinstance(ev.a[0], Meth) and ev.a[0].name in ('read', 'seek')
    eng.policy = pol
    cell = {}

    def bind(st, v):
        cell['v'] = v
        return [(st, None)]

    def take(st):
        v = cell['v']
        st = st.fork()
        eng.event(st, 'deliver', NODE, (v,))
        L = App('len', v) if not isinstance(v, Const) else Const(len(v.v))
        st.ghost['dl'] = lin_add(st.ghost['dl'], L)
        return [(st, None)]
    if isinstance(body, Ref) and s.get(body).kind == 'inst':
        c.und(rule, where, 'body is an object')
        return
    res = eng.for_over(NODE, s, body, bind, take)
    if odd:
        c.und(rule, where, odd[0])
        return
    c.paths += len(res)
    nread = 0
    for st, f in res:
        if isinstance(f, tuple) and f[0] == 'raise':
            c.und(rule, where, 'body raises')
            continue
        vg = vague_state(st)
        for ev in walk(st):
            x = ev.st
            if x is None:
                continue
            if ev.kind == 'call' and ev.a[0].name == 'seek':
                c.verdict(x.entails_eq(ev.res, first), vg or vague_term(ev.res), rule, ev.where() + ' seek', 'seeks to %s, the slice starts at %s' % (ev.res, first), st)
            elif ev.kind == 'call':
                nread += 1
                if not ev.a[1]:
                    c.verdict(False, vg, 'chunk', ev, 'reads without a bound', st)
                    continue
                q = ev.a[1][0]
                if x.entails(lin_sub(Const(1 << 20), q)):
                    c.ok('chunk', ev)
                elif isinstance(q, Const) or unbounded(x, q):
                    c.verdict(False, vg or vague_term(q), 'chunk', ev, 'the read of %s bytes is not bounded by the streaming buffer (1 MiB)' % (q,), st)
                else:
                    c.und('chunk', ev, 'bound of %s not shown' % (q,))
            elif ev.kind == 'deliver':
                v = ev.a[0]
                dl = lin_add(x.ghost['dl'], App('len', v)) if not isinstance(v, Const) else x.ghost['dl']
                y = ev.where()
                if x.entails(lin_sub(n, dl)):
                    c.ok(rule, where + ' within')
                elif over(x, dl, n) and not vg:
                    c.bad(rule, where + ' within', 'the delivered bytes (%s) can exceed the announced %s' % (dl, n), st)
                else:
                    c.und(rule, where + ' within', '%s <= %s not shown' % (dl, n))
                d = lin_sub(lin_add(first, dl), x.ghost['pos'])
                if x.entails_eq(d, Const(0)):
                    c.ok(rule, where + ' order')
                elif atoms_ok(d) and not vg and (x.fork().add_lin(lin_sub(d, Const(1))) or x.fork().add_lin(lin_sub(lin_scale(d, -1), Const(1)))):
                    c.bad(rule, where + ' order', 'the bytes delivered are not those at the announced place: %s delivered up to position %s, the slice starts at %s' % (dl, x.ghost['pos'], first), st)
                else:
                    c.und(rule, where + ' order', 'delivered %s, position %s' % (dl, x.ghost['pos']))
        dl = st.ghost['dl']
        if st.ghost.get('eof') == TRUE or st.entails(lin_sub(dl, n)):
            c.ok(rule, where + ' complete')
        else:
            q = short(st, dl, n)
            if q and not vg:
                c.bad(rule, where + ' complete', 'the body may end after %s of %s bytes' % (dl, n), st)
            else:
                c.und(rule, where + ' complete', '%s >= %s not shown' % (dl, n))
    if not nread:
        c.und(rule, where, 'no read of the file seen')


def unbounded(st, q):
    """the facts allow q beyond the buffer"""
    x = st.fork()
    return x.add_lin(lin_sub(q, Const((1 << 20) + 1))) and atoms_ok(q)


def atoms_ok(*ts):
    for t in ts:
        for a in lin_parts(t)[1]:
            if vague_term(a) or contains(a, lambda y: isinstance(y, Sym) and y.name.startswith('mu:')):
                return False
    return True


def over(st, dl, n):
    """dl > n is satisfiable in a state without loop unknowns"""
    return atoms_ok(dl, n) and st.fork().add_lin(lin_sub(lin_sub(dl, n), Const(1)))


def short(st, dl, n):
    return atoms_ok(dl, n) and st.fork().add_lin(lin_sub(lin_sub(n, dl), Const(1)))


# ------------------------------------------------------------------ dates
def dates(c, eng):
    fn = eng.lookup('ombott.common_helpers', 'parse_date')
    if not isinstance(fn, Func):
        c.und('date', 'parse_date', 'function not found')
        return
    st = start(eng, Policy(), 'ombott.common_helpers')
    res = eng.call(st, fn, [Sym('datetext', 'str')], [], NODE)
    for s, v in res:
        if isinstance(v, Exc) or v == NONE:
            continue
        where = 'parse_date'
        names = {ext_call(t)[0] for t in subterms(v)} - {None}
        text = [t for t in subterms(v) if isinstance(t, Sym) and t.name == 'datetext']
        vg = vague_state(s) or vague_term(v)
        if names & {'time.mktime', 'time.localtime'}:
            c.verdict(False, vg, 'date', where, 'the local time zone is used: %s' % (v,), s)
            continue
        if 'email.utils.mktime_tz' in names:
            c.ok('date', where)
            continue
        if 'calendar.timegm' in names and ('email.utils.parsedate_tz' in names or 'email.utils._parsedate_tz' in names):
            tz = [t for f in [v] + list(s.truth) for t in subterms(f) if isinstance(t, App) and t.op == 'item' and t.args[1] in (Const(9), Const(-1))
                  and ext_call(t.args[0])[0] == 'email.utils.parsedate_tz']
            k = None
            const, terms = lin_parts(v)
            main = [t for t in terms if ext_call(t)[0] == 'calendar.timegm']
            off = [t for t in terms if t in tz]
            if len(main) == 1 and terms[main[0]] == 1 and const == 0:
                rest = set(terms) - set(main)
                if not rest:
                    z = any(s.known(App('truthy', t)) is False or s.known(App('isnone', t)) or s.entails_eq(t, Const(0)) for t in tz)
                    c.verdict(z, vg or (None if not tz or any(s.known(App('truthy', t)) for t in tz) else 'offset test not understood'),
                              'date', where, 'the zone offset of the date is ignored', s)
                    continue
                if rest == set(off):
                    c.verdict(all(terms[t] == -1 for t in off), vg, 'date', where, 'the zone offset enters with the wrong sign: %s' % (v,), s)
                    continue
        if 'calendar.timegm' in names and 'email.utils.parsedate' in names:
            c.verdict(False, vg, 'date', where, 'parsedate drops the zone offset', s)
            continue
        c.und('date', where, '%s' % (v,))
