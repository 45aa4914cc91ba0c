"""C15: cookies round-trip; forged signed cookies are never deserialised."""
from ..rule import *
from ..web import *
import ast
from .. import models

EXPLANATION = (
    'Abstract interpretation of Request.get_cookie and BaseResponse.set_cookie with symbolic name, value, secret and Cookie header. '
    'Every call of a deserialiser is a sink: the path facts there must contain an equality (==, compare_digest or a repository '
    'comparison function that is itself proved to imply equality) between a piece of the cookie and the full MAC of exactly the '
    'bytes that are decoded, keyed with the whole secret. The layout written by set_cookie is substituted into the reader to '
    'decide that the reader accepts it and returns the same term.')
RULES = {
    'guard': 'a deserialiser is reached only when the MAC over exactly the bytes it decodes, keyed with the secret, equals the signature in the cookie',
    'compare': 'the function that compares signature and MAC returns true only for equal strings (same length, every element equal)',
    'absent': 'with a secret, get_cookie returns the default or a value that came out of the verified payload; it does not raise for a tampered cookie',
    'signed round trip': 'the reader accepts the layout the writer emits, with the same MAC construction, and returns the value that was signed',
    'plain round trip': 'the transcoding applied when a plain cookie is stored is undone when it is read, under the same name',
    'name': 'the value of a signed cookie is returned only for the name that was signed with it',
    'parse': 'the Cookie header is parsed into (key, decoded value) pairs',
}

LOADERS = ['pickle.loads', 'pickle.load', 'pickle.Unpickler', '_pickle.loads', 'marshal.loads', 'dill.loads', 'cloudpickle.loads', 'shelve.open',
           'builtins.eval', 'builtins.exec', 'yaml.load', 'jsonpickle.decode']
B64E = {'base64.b64encode': 'b64', 'base64.standard_b64encode': 'b64', 'base64.urlsafe_b64encode': 'u64', 'binascii.hexlify': 'hex', 'base64.b16encode': 'hex', 'base64.b32encode': 'b32', 'base64.b85encode': 'b85'}
B64D = {'base64.b64decode': 'b64', 'base64.standard_b64decode': 'b64', 'base64.urlsafe_b64decode': 'u64', 'binascii.a2b_base64': 'b64', 'base64.decodebytes': 'b64', 'binascii.unhexlify': 'hex', 'base64.b32decode': 'b32', 'base64.b85decode': 'b85'}
ALPHA = {'b64': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=', 'u64': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=',
         'hex': '0123456789abcdef', 'b32': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567='}
CMP = ('hmac.compare_digest', 'secrets.compare_digest', 'hashlib.compare_digest', '_operator._compare_digest')


def ext_call(t):
    if isinstance(t, App) and t.op == 'call' and isinstance(t.args[0], Ext):
        return t.args[0].name, t.args[1:]
    return None, ()


def text(c):
    return c.v.decode('latin1') if isinstance(c.v, bytes) else c.v if isinstance(c.v, str) else None


def is_mac(t):
    return isinstance(t, App) and (t.op in ('digest', 'hexdigest') or ext_call(t)[0] == 'hmac.digest')


def has_mac(t):
    return isinstance(t, V) and contains(t, is_mac)


def mac_parts(t):
    """(key, msg, digest) of a MAC term"""
    n, a = ext_call(t)
    if n == 'hmac.digest':
        a = list(a)
        return (a[0], a[1], a[2] if len(a) > 2 else NONE)
    n, a = ext_call(t.args[0])
    if n not in ('hmac.new', 'hmac.HMAC'):
        return None
    pos = [x for x in a if not (isinstance(x, App) and x.op == 'kw')]
    kw = {x.args[0]: x.args[1] for x in a if isinstance(x, App) and x.op == 'kw'}
    kw = {(k.v if isinstance(k, Const) else k): v for k, v in kw.items()}
    get = lambda i, n: pos[i] if len(pos) > i else kw.get(n, NONE)
    return get(0, 'key'), get(1, 'msg'), get(2, 'digestmod')


# ------------------------------------------------------------------ layouts
class Layout:
    """Rewrites terms over `data` as if data were the writer's output."""

    def __init__(self, data, pieces):
        self.data, self.pieces = data, pieces
        self.memo = {}

    def flat(self, t):
        """tuple of Const text and ('b64', X) pieces, or None"""
        if t == self.data:
            return self.pieces
        if isinstance(t, Const):
            s = text(t)
            return None if s is None else (s,) if s else ()
        if isinstance(t, Tup):
            return None
        if not isinstance(t, App):
            return None
        n, a = ext_call(t)
        if n in B64E:
            return ((B64E[n], self.norm(a[0])),)
        if t.op == 'hexdigest':
            return (('hex', self.norm(App('digest', t.args[0]))),)
        if t.op in ('encode', 'decode', 'str', 'bytes', 'tob'):
            return self.flat(t.args[0])
        if t.op == 'concat':
            out = []
            for x in t.args:
                f = self.flat(x)
                if f is None:
                    return None
                out += f
            return join(out)
        if t.op == 'item':
            b, i = t.args
            if isinstance(b, App) and b.op in ('split', 'rsplit', 'partition', 'rpartition') and isinstance(i, Const):
                parts = self.parts(b)
                if parts is None:
                    return None
                try:
                    return parts[i.v]
                except IndexError:
                    return None
            return None
        if t.op == 'slice':
            return self.cut(self.flat(t.args[0]), t.args[1], t.args[2])
        if t.op in ('lstrip', 'removeprefix') and len(t.args) == 2 and isinstance(t.args[1], Const):
            f = self.flat(t.args[0])
            p = text(t.args[1])
            if f and isinstance(f[0], str) and p:
                if t.op == 'removeprefix':
                    return join([f[0][len(p):] if f[0].startswith(p) else f[0]] + list(f[1:]))
                r = f[0].lstrip(p)
                if r or len(f) == 1 or f[1][0] in ALPHA and not set(ALPHA[f[1][0]]) & set(p):
                    return join([r] + list(f[1:]))
            return None
        return None

    def parts(self, b):
        f = self.flat(b.args[0])
        if f is None or len(b.args) < 2 or not isinstance(b.args[1], Const):
            return None
        sep = text(b.args[1])
        lim = b.args[2] if len(b.args) > 2 else None
        if not sep or lim is not None and not (isinstance(lim, Const) and isinstance(lim.v, int)):
            return None
        if any(not isinstance(x, str) and (x[0] not in ALPHA or set(ALPHA[x[0]]) & set(sep)) for x in f):
            return None
        words = [[]]
        for x in f:
            if not isinstance(x, str):
                words[-1].append(x)
                continue
            bits = x.split(sep)
            words[-1].append(bits[0])
            for y in bits[1:]:
                words.append([y])
        words = [join(w) for w in words]
        s = (sep,)

        def glue(ws):
            out = []
            for i, w in enumerate(ws):
                out += (list(s) if i else []) + list(w)
            return join(out)
        if b.op == 'partition':
            return [words[0], s if len(words) > 1 else (), glue(words[1:])]
        if b.op == 'rpartition':
            return [glue(words[:-1]), s if len(words) > 1 else (), words[-1]]
        n = lim.v if lim is not None else -1
        if n >= 0 and len(words) > n + 1:
            if b.op == 'split':
                words = words[:n] + [glue(words[n:])]
            else:
                words = [glue(words[:-n])] + words[-n:] if n else [glue(words)]
        return words

    def cut(self, f, lo, hi):
        if f is None:
            return None
        f = list(f)
        if lo not in (NONE, Const(0)):
            if not (isinstance(lo, Const) and lo.v > 0 and f and isinstance(f[0], str) and len(f[0]) >= lo.v):
                return None
            f[0] = f[0][lo.v:]
        if hi != NONE:
            if isinstance(hi, Const) and isinstance(hi.v, int) and hi.v < 0 and f and isinstance(f[-1], str) and len(f[-1]) >= -hi.v:
                f[-1] = f[-1][:hi.v]
            elif isinstance(hi, App) and hi.op == 'find':
                g = self.flat(hi.args[0])
                sep = text(hi.args[1]) if isinstance(hi.args[1], Const) else None
                if g is None or sep is None or list(g)[-len(f):] != f and lo == NONE:
                    return None
                return None
            else:
                return None
        return join(f)

    def norm(self, t):
        if not isinstance(t, V):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._norm(t)
        return r

    def _norm(self, t):
        if isinstance(t, App) and t.op in ('encode', 'decode'):
            f = self.flat(t.args[0])
            if f is not None and all(not isinstance(x, str) or x.isascii() for x in f):
                return App('text', *[Const(x) if isinstance(x, str) else App('enc', Const(x[0]), x[1]) for x in f])
            return App(t.op, self.norm(t.args[0]), Const(encname(t)))
        n, a = ext_call(t)
        if n in B64D:
            f = self.flat(a[0])
            if f is not None and len(f) == 1 and not isinstance(f[0], str) and f[0][0] == B64D[n]:
                return f[0][1]
        f = self.flat(t)
        if f is not None and not isinstance(t, Const):
            return App('text', *[Const(x) if isinstance(x, str) else App('enc', Const(x[0]), x[1]) for x in f])
        if is_mac(t):
            m = mac_parts(t)
            if m is not None:
                k, msg, d = m
                return App('mac', self.norm(k), self.norm(msg), Const('md5') if d in (NONE, Ext('hashlib.md5')) else Const(d.name.split('.')[-1]) if isinstance(d, Ext) else d)
        if isinstance(t, App):
            return App(t.op, *[self.norm(x) for x in t.args])
        if isinstance(t, Tup):
            return Tup([self.norm(x) for x in t.items])
        return t

    def truth(self, f):
        """truth of a fact under the layout, or None"""
        if f.op in ('startswith', 'endswith') and isinstance(f.args[1], Const):
            x = self.flat(f.args[0])
            p = text(f.args[1])
            if x is None or p is None:
                return None
            e = (x[0] if f.op == 'startswith' else x[-1]) if x else ''
            if isinstance(e, str):
                if len(e) >= len(p):
                    return e.startswith(p) if f.op == 'startswith' else e.endswith(p)
                if not (p.startswith(e) if f.op == 'startswith' else p.endswith(e)):
                    return False
                return None
            if p and e[0] in ALPHA and p[0 if f.op == 'startswith' else -1] not in ALPHA[e[0]]:
                return False
            return None
        if f.op == 'in' and isinstance(f.args[0], Const):
            x = self.flat(f.args[1])
            p = text(f.args[0])
            if x is None or not p:
                return None
            if any(isinstance(e, str) and p in e for e in x):
                return True
            if all(isinstance(e, str) or e[0] in ALPHA and not set(ALPHA[e[0]]) & set(p) for e in x):
                return False
            return None
        if f.op == 'eq':
            for u, v in (f.args, f.args[::-1]):
                if isinstance(u, App) and u.op == 'len' and isinstance(v, Const) and isinstance(u.args[0], App) and u.args[0].op in ('split', 'rsplit'):
                    p = self.parts(u.args[0])
                    if p is not None:
                        return len(p) == v.v
                if isinstance(v, Const) and text(v) is not None:
                    x = self.flat(u)
                    if x is not None:
                        s = text(v)
                        if all(isinstance(e, str) for e in x):
                            return ''.join(x) == s
                        if x and isinstance(x[0], str) and not s.startswith(x[0]):
                            return False
                        if not s:
                            return False
        return None


def join(parts):
    out = []
    for x in parts:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return tuple(out)


def encname(t):
    e = t.args[1] if len(t.args) > 1 else Const('utf8')
    s = str(e.v if isinstance(e, Const) else e).lower().replace('-', '').replace('_', '')
    return {'iso88591': 'latin1', 'l1': 'latin1', '8859': 'latin1'}.get(s, s)


# ------------------------------------------------------------------ the check
def run(c):
    eng = c.eng
    cmps = {}
    reads = []
    read_signed(c, eng, cmps, reads)
    for fn, st in list(cmps.values()):
        comparator(c, eng, fn, st)
    written = write(c, eng)
    plain(c, eng, written)
    signed(c, eng, written, reads)
    parse(c, eng)


def policy(c, cmps, secret, sinks):
    pol = Policy(join_at=10**9)

    def intercept(eng, st, fv, args, kw, node):
        ar = list(args) + [v for _, v in kw]
        if len(ar) == 2 and sum(1 for a in ar if has_mac(a)) == 1 and not eng.is_gen(fv.node):
            cmps.setdefault(fv.qual, (fv, st.fork()))
            return [(st, App('cmp', fv, *ar))]
        return None
    pol.intercept = intercept

    def loader(name):
        def hook(eng, st, args, kw, node):
            st = st.fork()
            res = Sym(st.fresh('loaded'))
            P = args[0] if args else NONE
            eng.event(st, 'call', node, (Ext(name), tuple(args), tuple(kw)), res)
            sinks.append((st.fork(), P, res, node, eng.ctx(st)))
            return [(st, res)]
        return hook
    for n in LOADERS:
        pol.ext[n] = loader(n)
    return pol


def cookie_bits(t):
    return contains(t, lambda x: x == ENVIRON or isinstance(x, App) and x.op == 'item' and x.args[1] == Sym('key', 'str'))


def request_of(eng, st, cookies=None):
    st, app = default_app(eng, st)
    req = st.get(app).attrs['request']
    return st, req


RAW = Sym('cookietext', 'str')


def jar(eng, st, req):
    """give the request an opaque, already parsed cookie dict holding RAW under `key`"""
    return st


def read_signed(c, eng, cmps, reads):
    with c.section('get_cookie'):
        secret, key, default = Sym('secret', 'str'), Sym('key', 'str'), Sym('default')
        sinks = []
        pol = policy(c, cmps, secret, sinks)
        st = start(eng, pol, 'ombott.ombott')
        st, req = request_of(eng, st)
        st = st.fork()
        st.add_lin(lin_sub(App('len', secret), Const(1)))
        for s, f in eng.getattr_(st, req, 'get_cookie', NODE):
            if isinstance(f, Exc):
                continue
            res = eng.call(s, f, [key, default], [('secret', secret)], NODE)
            c.paths += len(res)
            for x, v in res:
                where = 'get_cookie'
                if isinstance(v, Exc):
                    if v.node is not None:
                        where = 'get_cookie exception'
                    c.und('absent', where, 'raises %r' % (v.val,))
                    continue
                if v == default or v == NONE:
                    c.ok('absent', where)
                elif contains(v, lambda t: isinstance(t, Sym) and t.name.startswith('loaded')):
                    reads.append((x, v))
                    c.ok('absent', where)
                    named = [f for f, val in x.truth.items() if val and f.op == 'eq' and key in f.args and contains(f, lambda t: isinstance(t, Sym) and t.name.startswith('loaded'))]
                    open_ = [f for f, val in x.truth.items() if f.op not in ('truthy', 'isinst', 'isnone', 'ge0', 'hasattr') and contains(f, lambda t: t == key) and contains(f, lambda t: isinstance(t, Sym) and t.name.startswith('loaded'))]
                    c.verdict(bool(named), vague_state(x) or vague_term(v) or (open_ and 'fact %s' % open_[0]), 'name', where, 'the signed name is not compared with the name asked for', x)
                else:
                    c.verdict(False, vague_state(x) or vague_term(v) or (None if cookie_bits(v) else 'not from the cookie'), 'absent', where,
                              'with a secret, the unverified text %s is returned' % (v,), x)
        for s, P, resv, node, (mod, fn) in sinks:
            guard(c, eng, s, P, secret, '%s:%s (%s)' % (mod.path, node.lineno, fn))
        if not sinks:
            c.und('guard', 'get_cookie', 'no deserialiser reached')


def facts(st):
    for f, val in st.truth.items():
        if not val:
            continue
        if f.op == 'eq':
            yield f.args[0], f.args[1], f
        elif f.op == 'cmp':
            yield f.args[1], f.args[2], f
        elif f.op == 'truthy':
            n, a = ext_call(f.args[0])
            if n in CMP and len(a) == 2:
                yield a[0], a[1], f
    for f, val in st.truth.items():
        n, a = ext_call(f)
        if val and n in CMP and len(a) == 2:
            yield a[0], a[1], f


def guard(c, eng, st, P, secret, where):
    vg = vague_state(st)
    if not cookie_bits(P):
        c.und('guard', where, 'decodes %s' % (P,))
        return
    found = []
    for a, b, f in facts(st):
        for X, Y in ((a, b), (b, a)):
            if has_mac(Y) and not has_mac(X):
                found.append((X, Y, f))
    if not found:
        other = [f for f, v in st.truth.items() if has_mac(f)] or [t for _, ts in st.lins for t in ts if has_mac(t)]
        # a length relation alone, or a fact with the wrong truth value, is no check
        neg = [f for f, v in st.truth.items() if has_mac(f) and (f.op in ('eq', 'cmp') or f.op == 'truthy' and ext_call(f.args[0])[0] in CMP)]
        odd = [f for f, v in st.truth.items() if has_mac(f) and f not in neg] or [t for _, ts in st.lins for t in ts if has_mac(t) and not (isinstance(t, App) and t.op == 'len' and not contains(t, lambda y: isinstance(y, App) and y.op in ('sum', 'zip')))]
        mus = any(isinstance(x, Sym) and x.name.startswith('mu:') for f in st.truth for x in subterms(f))
        c.verdict(False, vg or (odd and 'comparison not understood: %s' % (odd[0],)) or (mus and 'loop over the signature') or vague_term(P), 'guard', where,
                  '%s is deserialised and no signature has been compared' % (P,), st)
        return
    errs = []
    for X, Y, f in found:
        e = weak(st, X, Y, f, P, secret)
        if e is None:
            c.ok('guard', where, str(f)[:200])
            return
        errs.append(e)
    sure = all(e[0] for e in errs)
    if sure and not vg:
        c.bad('guard', where, errs[0][1], st)
    else:
        c.und('guard', where, '; '.join(e[1] for e in errs))


def weak(st, X, Y, f, P, secret):
    """None when X == Y proves the payload P genuine, else (definite, why)"""
    # the MAC side
    y = Y
    while True:
        n, a = ext_call(y)
        if is_mac(y):
            break
        if isinstance(y, App) and y.op in ('encode', 'decode', 'bytes', 'str'):
            y = y.args[0]
        elif n in B64E:
            y = a[0]
        elif isinstance(y, App) and y.op == 'slice':
            return True, 'only the part %s of the MAC is compared' % (y,)
        elif isinstance(y, App) and y.op in ('lower', 'upper', 'casefold', 'swapcase', 'title') and not isinstance(unwrap(y.args[0]), App):
            return True, 'the MAC is compared without regard to case'
        elif isinstance(y, App) and y.op in ('lower', 'upper', 'casefold', 'swapcase', 'title'):
            n2, _ = ext_call(unwrap(y.args[0]))
            if n2 in B64E and B64E[n2] in ('b64', 'u64'):
                return True, 'the base64 MAC is compared without regard to case'
            return False, 'case folded MAC'
        elif isinstance(y, App) and y.op in ('rstrip', 'strip'):
            y = y.args[0]
        else:
            return False, 'MAC side %s not understood' % (y,)
    m = mac_parts(y)
    if m is None:
        n, a = ext_call(y.args[0]) if isinstance(y.args[0], App) else (None, ())
        if n and n.startswith('hashlib.') and not contains(y, lambda t: t == secret):
            return True, 'the compared digest %s does not depend on the secret' % (y,)
        return False, 'digest %s is no HMAC' % (y,)
    key, msg, _ = m
    k = key
    while isinstance(k, App) and k.op in ('encode', 'bytes', 'tob', 'decode'):
        k = k.args[0]
    if k != secret:
        if not contains(key, lambda t: t == secret):
            return True, 'the MAC key %s is not the secret' % (key,)
        if isinstance(k, App) and k.op in ('slice', 'lower', 'upper', 'strip', 'casefold'):
            return True, 'the MAC key %s is not the whole secret' % (key,)
        if not (ext_call(k)[0] or '').startswith('hashlib.'):
            return False, 'MAC key %s' % (key,)
    # the message
    M = P
    chain = [P]
    while True:
        n, a = ext_call(M)
        if n in B64D:
            M = a[0]
        elif isinstance(M, App) and M.op in ('encode', 'decode', 'bytes'):
            M = M.args[0]
        else:
            break
        chain.append(M)
    mm = msg
    while isinstance(mm, App) and mm.op in ('encode', 'decode', 'bytes') and mm not in chain:
        mm = mm.args[0]
    if msg not in chain and mm not in chain:
        if not cookie_bits(msg):
            return True, 'the MAC %s does not cover the cookie' % (msg,)
        if isinstance(mm, App) and mm.op in ('slice', 'strip', 'rstrip', 'lstrip', 'lower', 'upper') and mm.args[0] in chain:
            return True, 'the MAC covers only %s of the decoded bytes' % (mm,)
        if isinstance(mm, App) and mm.op == 'item' and isinstance(M, App) and M.op == 'item' and mm.args[0] == M.args[0] and mm.args[1] != M.args[1]:
            return True, 'the MAC covers %s but %s is decoded' % (mm, M)
        return False, 'the MAC covers %s, decoded is %s' % (msg, P)
    # the signature side
    if not cookie_bits(X):
        return True, 'the MAC is compared with %s' % (X,)
    for t in subterms(X):
        n, a = ext_call(t)
        if n in B64D and B64D[n] in ('b64', 'u64'):
            return True, 'the signature is decoded from base64 before it is compared: other spellings of it are accepted'
        if isinstance(t, App) and t.op in ('lower', 'upper', 'casefold', 'swapcase'):
            return True, 'the signature is compared without regard to case'
    if f.op != 'eq' and f.op != 'cmp':
        ty = st.eng.type_of(st, X)
        if ty == 'str' and 'str' == st.eng.type_of(st, Y):
            return True, 'compare_digest raises TypeError for text that is not ASCII'
    return None


def unwrap(t):
    while isinstance(t, App) and t.op in ('encode', 'decode', 'bytes', 'str'):
        t = t.args[0]
    return t


# ------------------------------------------------------------------ comparison functions
WIDTH = 24


def comparator(c, eng, fn, base):
    """fn(a, b) is true only for equal strings: a and b are strings of WIDTH unknown
    bytes that differ in exactly one place, or of which one continues the other."""
    with c.section('compare'):
        A = [Sym('sig%d' % i) for i in range(WIDTH)]
        other = Sym('other')
        cases = [('bytes equal', A, A, True)]
        for p in range(WIDTH):
            cases.append(('byte %d differs' % p, A, A[:p] + [other] + A[p + 1:], False))
        cases += [('longer signature', A + [other], A, False), ('signature cut short', A[:-1], A, False), ('empty signature', [], A, False)]
        sig = b'aGVsbG8gd29ybGQhIHRlc3Q='
        for name, x in (('case', b'A' + sig[1:]), ('swapped', sig[1:2] + sig[:1] + sig[2:]), ('padding', sig[:-1]), ('space', b' ' + sig), ('newline', sig + b'\n'), ('empty', b'')):
            cases.append(('%s changed' % name, Const(x), Const(sig), False))
        yes = 0
        for name, a, b, want in cases:
            a, b = (Tup(t) if isinstance(t, list) else t for t in (a, b))
            eng.policy = Policy(join_at=10**9, unroll=WIDTH + 4)
            for n in CMP:
                eng.policy.ext[n] = lambda eng, st, args, kw, node: models.compare(eng, st, ast.Eq(), args[0], args[1], node)
            st = base.fork()
            st.tr, st.eff, st.truth, st.lins = None, 0, {}, ()
            for x in A:
                st.learn(App('eq', x, other), False)
                st.learn(App('eq', other, x), False)
            known = set(st.truth)
            res = eng.call(st, fn, [a, b], [], NODE)
            c.paths += len(res)
            where = '%s %s' % (fn.qual, name.split()[0] if want else 'different')
            for s, v in res:
                if isinstance(v, Exc):
                    if not want:
                        c.ok('compare', where)
                    continue
                for x in eng.assume(s, v, True):
                    if want:
                        yes += 1
                        continue
                    odd = [f for f in x.truth if f not in known] + ([v] if not isinstance(v, Const) else []) + [t for _, ts in x.lins for t in ts]
                    odd = [f for f in odd if isinstance(a, Const) or contains(f, lambda t: t == other or t in A) or not isinstance(f, Const) and vague_term(f)]
                    c.verdict(False, vague_state(x) or (odd and 'open fact %s' % (odd[0],)), 'compare', where, '%s: still reported as equal' % name, x)
                else:
                    if not want:
                        c.ok('compare', where)
        if yes:
            c.ok('compare', fn.qual + ' equal')
        else:
            c.und('compare', fn.qual + ' equal', 'equal strings are not seen to be accepted')


# ------------------------------------------------------------------ writing
def write(c, eng):
    """[(secret given, state, name term, stored term)]"""
    out = []
    for sec in (None, Sym('secret', 'str')):
        with c.section('set_cookie'):
            pol = Policy(join_at=10**9)
            st = start(eng, pol, 'ombott.response')
            cls = eng.lookup('ombott.response', 'BaseResponse') if sec is None else eng.lookup('ombott.response', 'HTTPResponse')
            cls = eng.lookup('ombott.response', 'HTTPResponse')
            for s, resp in eng.call(st, cls, [], [], NODE):
                if isinstance(resp, Exc):
                    continue
                s = s.fork()
                if sec is not None:
                    s.add_lin(lin_sub(App('len', sec), Const(1)))
                name, value = Sym('name', 'str'), Sym('value', 'str' if sec is None else None)
                for s1, f in eng.getattr_(s, resp, 'set_cookie', NODE):
                    base = dict(s1.sto)
                    for x, v in eng.call(s1, f, [name, value], [('secret', sec)] if sec is not None else [], NODE):
                        if isinstance(v, Exc):
                            continue
                        new = [(k, t) for k, t in x.sto.items() if base.get(k) != t and k[1] == 'i']
                        jars = [(k, t) for k, t in new if contains_jar(eng, x, k[0])]
                        if len(jars) == 1:
                            out.append((sec, x, jars[0][0][2], jars[0][1]))
                        else:
                            # a dict object of the analysis
                            o = found_jar(eng, x, resp)
                            if o is not None and len(o) == 1:
                                out.append((sec, x, o[0][0], o[0][1]))
                            else:
                                c.und('plain round trip' if sec is None else 'signed round trip', 'set_cookie', 'stored value not found (%d stores)' % len(new))
    return out


def contains_jar(eng, x, base):
    if isinstance(base, Ref):
        o = x.get(base)
        return o is not None and o.kind == 'inst' and 'SimpleCookie' in str(o.cls)
    return 'SimpleCookie' in str(base)


def found_jar(eng, x, resp):
    v = x.get(resp).attrs.get('_cookies')
    if isinstance(v, Ref) and x.get(v).kind == 'dict':
        return list(x.get(v).items)
    if isinstance(v, Ref):
        return [(k[2], t) for k, t in x.sto.items() if k[0] == v and k[1] == 'i'] or None
    return None


# ------------------------------------------------------------------ plain
def simp(t):
    """cancel encode/decode pairs"""
    if isinstance(t, App) and t.op in ('encode', 'decode') and t.args:
        x = simp(t.args[0])
        inv = 'decode' if t.op == 'encode' else 'encode'
        if isinstance(x, App) and x.op == inv and encname(x) == encname(t) and (t.op == 'decode' or encname(t) == 'latin1'):
            # decode(encode(s, E), E) = s;  encode(decode(b, latin1), latin1) = b
            return x.args[0]
        return App(t.op, x, Const(encname(t)))
    if isinstance(t, App) and t.op == 'str' and len(t.args) == 1:
        return simp(t.args[0])
    return t


def plain(c, eng, written):
    ws = [w for w in written if w[0] is None]
    with c.section('plain'):
        pol = Policy(join_at=10**9)
        st = start(eng, pol, 'ombott.ombott')
        st, req = request_of(eng, st)
        key, default = Sym('key', 'str'), Sym('default')
        reads = []
        for s, f in eng.getattr_(st, req, 'get_cookie', NODE):
            if isinstance(f, Exc):
                continue
            for x, v in eng.call(s, f, [key, default], [], NODE):
                reads.append((x, v))
        c.paths += len(reads)
        item = None
        for x, v in reads:
            if isinstance(v, Exc):
                continue
            for t in subterms(v):
                if isinstance(t, App) and t.op == 'item' and t.args[1] == key:
                    item = t
        if item is None:
            c.und('plain round trip', 'get_cookie', 'the value read is not found')
            return
        items = {t for x, v in reads for f in list(x.truth) + ([] if isinstance(v, Exc) else [v]) for t in subterms(f) if isinstance(t, App) and t.op == 'item' and t.args[1] == key}
        for x, v in reads:
            if isinstance(v, Exc):
                c.und('plain round trip', 'get_cookie exception', repr(v.val))
                continue
            if any(e.kind == 'except' for e in x.events()):
                continue        # only text that was never written this way
            it = next((t for t in items if contains(v, lambda y: y == t)), None)
            here = [t for t in items if x.truth.get(App('in', key, t.args[0])) and x.truth.get(App('isnone', t)) is not True]
            vg = vague_state(x)
            if it is None:
                # the cookie is there and is a string, still something else is returned
                for t in here:
                    isstr = x.truth.get(App('isinst', t, 'str'))
                    if v == default and isstr is not False:
                        y = x.fork()
                        if x.known(App('isnone', t)) is False and not vg:
                            c.bad('plain round trip', 'get_cookie present', 'a cookie that is present reads as the default', x)
                        elif x.truth.get(App('truthy', t)) is False or x.entails(lin_scale(App('len', t), -1)):
                            c.verdict(False, vg, 'plain round trip', 'get_cookie empty', 'an empty cookie reads as the default', x)
                continue
            if x.truth.get(App('isinst', it, 'str')) is False:
                continue
            for sec, w, name, stored in ws:
                if name != Sym('name', 'str'):
                    c.verdict(False, vague_term(name) or not (isinstance(name, App) and name.op in ('lower', 'upper', 'title', 'strip', 'encode')) and 'name form', 'plain round trip', 'set_cookie name', 'the cookie is stored under %s' % (name,), w)
                back = simp(subst(v, {it: stored}))
                val = Sym('value', 'str')
                if back == val:
                    if stored_ok(stored):
                        c.ok('plain round trip', 'value')
                    else:
                        c.verdict(False, vague_state(w) or vague_term(stored), 'plain round trip', 'value', 'the stored text %s is not restricted to Latin-1, which SimpleCookie and the header need' % (stored,), w)
                else:
                    why = vg or vague_state(w) or vague_term(back)
                    if any(isinstance(t, App) and t.op not in ('encode', 'decode', 'strip', 'lower', 'slice', 'replace', 'lstrip', 'rstrip') for t in subterms(back)) and not why:
                        why = 'transformation %s' % (back,)
                    c.verdict(False, why, 'plain round trip', 'value', 'a plain cookie is stored as %s and read back as %s' % (stored, back), x)
        if not ws:
            c.und('plain round trip', 'set_cookie', 'no store found')


def stored_ok(t):
    return isinstance(t, App) and t.op == 'decode' and encname(t) == 'latin1'


# ------------------------------------------------------------------ signed
def signed(c, eng, written, reads):
    ws = [w for w in written if w[0] is not None]
    if not ws or not reads:
        c.und('signed round trip', 'set_cookie/get_cookie', 'writer or reader not found')
        return
    name, value = Sym('name', 'str'), Sym('value')
    for sec, w, nm, stored in ws:
        lay0 = Layout(None, ())
        pieces = lay0.flat(stored)
        if pieces is None:
            c.und('signed round trip', 'set_cookie', 'layout of %s' % (stored,))
            continue
        if any(isinstance(x, str) and set(x) & set(' ,;"\\') for x in pieces):
            pass        # SimpleCookie quotes these
        good, bads, und = 0, [], []
        for x, v in reads:
            items = {t for f in list(x.truth) for t in subterms(f) if isinstance(t, App) and t.op == 'item' and t.args[1] == Sym('key', 'str')}
            ok = None
            for it in items:
                lay = Layout(it, pieces)
                falses = [f for f, val in x.truth.items() if contains(f, lambda t: t == it) and lay.truth(f) is (not val)]
                if falses:
                    if any(f.op in ('isinst', 'hasattr') for f in falses):
                        continue
                    bads.append(('the reader requires %s, which the writer never produces' % (falses[0],), x))
                    continue
                if x.truth.get(App('isinst', it, 'str')) is False or x.truth.get(App('hasattr', it, Const('encode'))) is False or any(f.op == 'hasattr' and not val for f, val in x.truth.items()):
                    continue
                for a, b, f in facts(x):
                    if not has_mac(a) and not has_mac(b):
                        continue
                    na, nb = lay.norm(a), lay.norm(b)
                    if na == nb:
                        loads = [e for e in x.events() if e.kind == 'call' and isinstance(e.a[0], Ext) and e.a[0].name in LOADERS]
                        P = lay.norm(loads[-1].a[1][0]) if loads else NONE
                        n, ar = ext_call(P)
                        if n is not None and n.endswith('.dumps') and n.split('.')[0] == loads[-1].a[0].name.split('.')[0]:
                            back = resolve(subst(v, {loads[-1].res: ar[0]}))
                            if back == value:
                                good += 1
                            elif vague_term(back) or not isinstance(back, (Sym, Tup)):
                                und.append('reads back %s' % (back,))
                            else:
                                bads.append(('a signed cookie reads back as %s' % (back,), x))
                        elif n in B64D and isinstance(ar[0], App) and ar[0].op == 'text' and len(ar[0].args) == 1 and ar[0].args[0].op == 'enc' and {ar[0].args[0].args[0].v, B64D[n]} == {'b64', 'u64'}:
                            bads.append(('the payload is written in the %s alphabet and read in the %s alphabet' % (ar[0].args[0].args[0].v, B64D[n]), x))
                        else:
                            und.append('decoded payload is %s' % (P,))
                    elif past_enc(na) or past_enc(nb):
                        bads.append(('the reader compares %s, which has lost part of the signature' % (na if past_enc(na) else nb,), x))
                    elif under(na) and under(nb):
                        bads.append(('the signature written %s is not the one expected %s' % (na if not contains(a, lambda t: t == it) or not has_mac(a) else nb, nb), x))
                    else:
                        und.append('signatures %s / %s' % (na, nb))
        if good:
            c.ok('signed round trip', 'value')
        elif bads and not und and not any(vague_state(x) for _, x in bads):
            c.bad('signed round trip', 'value', bads[0][0], bads[0][1])
        else:
            c.und('signed round trip', 'value', '; '.join(und + [b[0] for b in bads])[:400])


def past_enc(t):
    """a constant cut that reaches into an encoded piece"""
    if isinstance(t, App) and t.op == 'slice' and isinstance(t.args[0], App) and t.args[0].op == 'text' and t.args[2] == NONE and isinstance(t.args[1], Const) and isinstance(t.args[1].v, int):
        p = t.args[0].args
        n = len(p[0].v) if p and isinstance(p[0], Const) else 0
        return t.args[1].v > n and len(p) > bool(n)
    return False


def under(t):
    """fully normalised: made of text, enc, mac, the inputs"""
    for x in subterms(t):
        if isinstance(x, App) and x.op not in ('text', 'enc', 'mac', 'encode', 'call', 'kw'):
            return False
        if isinstance(x, Sym) and x.name not in ('name', 'value', 'secret'):
            return False
    return True


def resolve(t):
    if isinstance(t, App) and t.op == 'item' and isinstance(t.args[1], Const):
        b = resolve(t.args[0])
        if isinstance(b, Tup):
            try:
                return b.items[t.args[1].v]
            except (IndexError, TypeError):
                pass
    return t


# ------------------------------------------------------------------ parsing
def parse(c, eng):
    with c.section('cookies'):
        pol = Policy(join_at=10**9, peel=2)
        seen = []

        def factory(eng, st, cref, args, kw, node):
            cell = {}

            def bind(s, v):
                cell['v'] = v
                return [(s, None)]

            def take(s):
                seen.append((s, cell['v']))
                return [(s, None)]
            if args and isinstance(args[0], Ref) and st.get(args[0]).kind == 'dict':
                seen.extend((st, Tup((k, v))) for k, v in st.get(args[0]).items if not eng.is_star(v))
            elif args and isinstance(args[0], Ref) and st.get(args[0]).kind == 'list':
                seen.extend((st, v) for v in st.get(args[0]).items if not eng.is_star(v))
            elif args:
                eng.for_over(NODE, st, args[0], bind, take)
            st = st.fork()
            return [(st, Sym(st.fresh('cookies'), 'dict'))]
        pol.opaque['ombott.request_pkg.helpers:CookieDict'] = factory
        st = start(eng, pol, 'ombott.ombott')
        st, req = request_of(eng, st)
        eng.getattr_(st, req, 'cookies', NODE)
        for s, v in seen:
            where = 'cookies'
            if isinstance(v, Tup) and len(v.items) == 2:
                k, x = v.items
                if isinstance(x, App) and x.op == 'attr' and x.args[1] == Const('value') and (isinstance(k, App) and k.op == 'attr' and k.args[1] == Const('key') and k.args[0] == x.args[0] or contains(x.args[0], lambda t: t == k) or isinstance(k, App) and k.op == 'item'):
                    c.ok('parse', where)
                elif isinstance(x, App) and x.op == 'attr' and x.args[1] in (Const('coded_value'), Const('key')):
                    c.verdict(False, vague_state(s), 'parse', where, 'the cookie value is taken from %s' % (x.args[1],), s)
                else:
                    c.und('parse', where, '%s' % (v,))
            else:
                c.und('parse', where, '%s' % (v,))
        if not seen:
            c.und('parse', 'cookies', 'no pair seen')
