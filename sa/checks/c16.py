"""C16: static_file never serves a file outside its root."""
from ..rule import *
from ..web import *

EXPLANATION = (
    'Abstract interpretation of static_file from symbolic filename, root, mimetype, download, charset and environ. '
    'Every call that opens a file is a sink; at each sink the path facts must contain a proof that the opened path is a '
    'normalised location below normalised root + separator and that it is a regular file; every path on which containment '
    'is known to fail must answer 403 or 404. A second call is analysed from every state in which the first one changed '
    'module-level data.')
RULES = {
    'contained': 'a path handed to an opener is proved to be inside the root of this call by facts that hold when it is opened: '
                 'startswith(P, root + sep) / commonpath / slice comparison with P normalised and P the very path opened',
    'regular': 'a path handed to an opener is known to be a regular file',
    'refused': 'a path on which the name is not proved to be inside the root, or not a file, answers 403 or 404 and opens nothing',
}

NORM = {'os.path.abspath', 'os.path.realpath', 'os.path.normpath'}
OPENERS = {'builtins.open', 'io.open', 'os.open', 'codecs.open', 'io.FileIO', '_io.open', 'gzip.open', 'mmap.mmap',
           'io.open_code', 'shutil.copyfileobj', 'shutil.copyfile', 'linecache.getlines'}
OPEN_METHODS = {'open', 'read_bytes', 'read_text'}
FILETEST = {'os.path.isfile', 'stat.S_ISREG'}
INERT = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.access', 'os.stat', 'os.path.getmtime', 'os.path.getsize',
         'os.path.basename', 'os.path.splitext', 'mimetypes.guess_type', 'builtins.open', 'os.path.islink', 'os.fstat',
         'email.utils.formatdate', 'os.lstat', 'stat.S_ISREG', 'os.path.lexists'}


def ext_call(t):
    if isinstance(t, App) and t.op == 'call' and isinstance(t.args[0], Ext):
        return t.args[0].name, t.args[1:]
    return None, ()


def is_sep(t):
    return t in (Ext('os.sep'), Ext('os.path.sep'), Const('/'))


def normalised(t):
    return ext_call(t)[0] in NORM


def is_root(t, root):
    """t is the normalised root itself, without trailing separator"""
    n, a = ext_call(t)
    if n not in NORM:
        return False
    x = a[0]
    while True:
        if x == root:
            return True
        n, a = ext_call(x)
        if n in NORM or n in ('os.path.expanduser', 'os.fspath', 'builtins.str'):
            x = a[0]
        elif n == 'os.path.join' and len(a) == 2 and a[1] == EMPTY:
            x = a[0]
        elif isinstance(x, App) and x.op == 'concat' and len(x.args) == 2 and is_sep(x.args[1]):
            x = x.args[0]
        elif isinstance(x, App) and x.op in ('rstrip',):
            x = x.args[0]
        else:
            return False


def root_sep(t, root):
    """t is the normalised root followed by a separator"""
    if isinstance(t, App) and t.op == 'concat' and len(t.args) == 2 and is_sep(t.args[1]):
        x = t.args[0]
        if isinstance(x, App) and x.op == 'rstrip' and is_sep(x.args[1]):
            x = x.args[0]
        return is_root(x, root)
    n, a = ext_call(t)
    return n == 'os.path.join' and len(a) == 2 and a[1] == EMPTY and is_root(a[0], root)


def no_sep(t, root):
    """t is the normalised root and definitely ends without a separator"""
    if is_root(t, root):
        return True
    return isinstance(t, App) and t.op == 'rstrip' and (len(t.args) == 1 or is_sep(t.args[1])) and (
        is_root(t.args[0], root) or root_sep(t.args[0], root))


FOLD = {'lower', 'upper', 'casefold', 'title', 'swapcase'}


def derived(P, st, root):
    """P is computed from a path that was proved, by something that can move it elsewhere"""
    t = P
    while True:
        n, a = ext_call(t)
        if isinstance(t, App) and t.op in FOLD | {'replace', 'strip', 'lstrip', 'rstrip', 'unquote'}:
            if t.op == 'replace' and not (isinstance(t.args[2], Const) and isinstance(t.args[2].v, str) and set(t.args[2].v) & set('./')):
                return None
            t = t.args[0]
        elif n in ('urllib.parse.unquote', 'os.path.expanduser', 'os.path.expandvars', 'urllib.parse.unquote_plus'):
            t = a[0]
        else:
            break
    if t is not P and t != P and proof(st, t, root)[0]:
        return 'the checked path is changed afterwards'
    return None


def proof(st, P, root):
    """(True, text) contained; (False, text) definitely unproved; (None, text) facts not understood."""
    odd = None
    bases = [P]
    if isinstance(P, App) and P.op == 'concat' and all(isinstance(a, Const) and '/' not in str(a.v) and '..' not in str(a.v) for a in P.args[1:]):
        bases.append(P.args[0])
    weak = None
    for Q in bases:
        if is_root(Q, root):
            return True, 'root itself'
        for f, val in st.truth.items():
            if f.op == 'startswith' and f.args[0] == Q:
                if not val:
                    if root_sep(f.args[1], root) or is_root(f.args[1], root):
                        return False, 'the path is known to be outside the root'
                    continue
                if not normalised(Q):
                    weak = 'the compared path %s is not normalised' % (Q,)
                elif root_sep(f.args[1], root):
                    return True, str(f)
                elif no_sep(f.args[1], root):
                    weak = 'the prefix %s has no trailing separator, so sibling directories pass' % (f.args[1],)
                elif contains(f.args[1], lambda x: x == root):
                    x = f.args[1]
                    if x == root or isinstance(x, App) and x.op == 'concat' and x.args[0] == root:
                        odd = odd or 'prefix %s' % (x,)
                    else:
                        odd = odd or 'prefix %s' % (x,)
                elif isinstance(f.args[1], Const) and len(str(f.args[1].v)) <= 2:
                    continue
                else:
                    weak = 'the prefix %s is not the root of this call' % (f.args[1],)
                continue
            if f.op == 'in' and val and f.args[1] == Q and (root_sep(f.args[0], root) or no_sep(f.args[0], root)):
                weak = 'the root is only looked for anywhere in the path'
            if f.op == 'startswith' and val and isinstance(f.args[0], App) and f.args[0].op in FOLD and f.args[0].args[0] == Q:
                weak = 'a case-folded path is compared'
            if f.op == 'eq' and val:
                for x, y in (f.args, f.args[::-1]):
                    n, a = ext_call(x)
                    if n == 'os.path.commonpath' and is_root(y, root) and normalised(Q) and contains(x, lambda t: t == Q):
                        return True, str(f)
                    if n == 'os.path.commonprefix' and root_sep(y, root) and normalised(Q) and contains(x, lambda t: t == Q):
                        return True, str(f)
                    if n == 'os.path.commonprefix' and no_sep(y, root) and contains(x, lambda t: t == Q):
                        weak = 'common prefix compared with the root without separator'
                    if isinstance(x, App) and x.op == 'slice' and x.args[0] == Q and root_sep(y, root) and normalised(Q):
                        if x.args[1] in (NONE, Const(0)) and lin_sub(x.args[2], App('len', y)) == Const(0):
                            return True, str(f)
                if is_root(f.args[0], root) and f.args[1] == Q or is_root(f.args[1], root) and f.args[0] == Q:
                    return True, 'equal to the root'
    # facts that might restrict the name in a way this rule does not know
    atoms = {x for x in subterms(P) if isinstance(x, Sym)} - {root}
    for f, val in st.truth.items():
        if f.op in ('startswith', 'in') and (f.args[0] in bases or f.args[1] in bases):
            continue
        if f.op == 'startswith' and isinstance(f.args[0], App) and f.args[0].op in FOLD and f.args[0].args[0] in bases:
            continue
        if inert(f, atoms):
            continue
        if f.op == 'in' and isinstance(f.args[0], Const):
            if '..' == f.args[0].v and not val:
                return None, 'names with .. are excluded: %s' % (f,)
            if f.args[0].v in ('\0', '\\', 'charset') or val:
                continue
        if f.op in ('truthy', 'isnone') and isinstance(f.args[0], Sym):
            continue
        if f.op == 'eq' and any(isinstance(a, Const) for a in f.args) and any(isinstance(a, Sym) for a in f.args):
            continue
        if f.op in ('in', 'startswith', 'endswith') and isinstance(f.args[0], Sym) and val is True:
            continue
        odd = odd or 'fact %s is %s' % (f, val)
    for const, terms in st.lins:
        for t in terms:
            if not inert(t, atoms):
                odd = odd or 'fact on %s' % (t,)
    d = derived(P, st, root)
    if d:
        weak, odd = d, None
    v = vague_term(P) or vague_state(st)
    if v:
        odd = odd or v
    if weak and not v:
        return False, weak
    if odd:
        return None, odd
    if not contains(P, lambda t: isinstance(t, Sym)):
        return None, 'constant path'
    return False, 'no fact relates %s to the root' % (P,)


def inert(t, atoms):
    """t mentions the name only below functions that do not restrict it"""
    if isinstance(t, Sym):
        return t not in atoms
    n, a = ext_call(t)
    if n in INERT:
        return True
    if isinstance(t, (App, Tup)):
        return all(inert(x, atoms) for x in (t.args if isinstance(t, App) else t.items) if isinstance(x, V))
    if isinstance(t, Lin):
        return all(inert(x, atoms) for x, _ in t.terms)
    if isinstance(t, (Meth, Bound)):
        return inert(t.self_, atoms)
    return True


def regular(st, P):
    for f, val in st.truth.items():
        n, a = ext_call(f.args[0] if f.op == 'truthy' else f)
        if n == 'os.path.isfile' and a and a[0] == P:
            return val
        if n == 'stat.S_ISREG' and contains(f, lambda x: x == P):
            return val
    return None


def run(c):
    eng = c.eng
    mod = 'ombott.static_stream'
    fn = eng.lookup(mod, 'static_file')
    if not isinstance(fn, Func):
        c.und('contained', 'static_file', 'function not found')
        return
    variants = [('defaults', [Const('auto'), FALSE]), ('plain', [NONE, FALSE]), ('mimetype', [Sym('mimetype'), FALSE]), ('download', [NONE, Sym('download')])]
    for name, extra in variants:
        with c.section('static_file(%s)' % name):
            root, fname = Sym('root', 'str'), Sym('filename', 'str')
            pol = policy(c, eng, root)
            st = start(eng, pol, mod)
            st, app = default_app(eng, st)
            base = persist(eng, st)
            args = [fname, root] + extra + [Sym('charset', 'str')]
            res = eng.call(st, fn, args, [], NODE)
            results(c, eng, res, root)
            # a second call, when the first one changed shared data
            if name == 'plain':
                again = {}
                for s, v in res:
                    if not isinstance(v, Exc) and persist(eng, s) != base:
                        again.setdefault(persist(eng, s), s)
                for s in list(again.values())[:12]:
                    s = s.fork()
                    s.tr, s.eff = None, 0
                    s.frame = eng.module(mod).frame
                    root2, fname2 = Sym('root2', 'str'), Sym('filename2', 'str')
                    eng.policy = policy(c, eng, root2)
                    results(c, eng, eng.call(s, fn, [fname2, root2] + extra + [Sym('charset', 'str')], [], NODE), root2)


def persist(eng, st):
    """digest of everything that existed before the call"""
    out = []
    for k in eng.base_heap:
        o = st.heap.get(k)
        if o is not None:
            d = o.digest()
            if d != eng.base_heap[k].digest():
                out.append((k, d))
    return hash(frozenset(out))


def policy(c, eng, root):
    pol = resp_policy(eng)

    def sink(name, raising):
        def hook(eng, st, args, kw, node):
            P = args[0] if args else dict(kw).get('file', NONE)
            site = where(eng, st, node)
            ok, why = proof(st, P, root)
            if ok:
                c.ok('contained', site, why[:300])
            elif ok is None:
                c.und('contained', site, why[:300])
            else:
                c.bad('contained', site, '%s is called on %s: %s' % (name, P, why), st)
            r = regular(st, P)
            if r:
                c.ok('regular', site)
            elif r is None and (ok is not True or eng.handlers or any(not (inert_known(f) or inert(f, {x for x in subterms(P) if isinstance(x, Sym)} - {root})) for f in st.truth if contains(f, lambda x: x == P))):
                c.und('regular', site, 'no understood test of the file type')
            else:
                c.bad('regular', site, '%s is called on %s which is not known to be a regular file' % (name, P), st)
            st = st.fork()
            res = App('call', Ext(name), *args)
            eng.event(st, 'call', node, (Ext(name), tuple(args), tuple(kw)), res)
            return [(st, res)]
        return hook
    for n in OPENERS:
        pol.ext[n] = sink(n, True)
    return pol


def inert_known(f):
    if f.op == 'startswith':
        return True
    n, a = ext_call(f.args[0] if f.op == 'truthy' else f)
    return n in ('os.path.exists', 'os.access', 'os.path.isfile')


def where(eng, st, node):
    mod, fn = eng.ctx(st)
    return '%s:%s (%s)' % (mod.path if mod else '?', getattr(node, 'lineno', 0), fn)


def results(c, eng, res, root):
    c.paths += len(res)
    for st, v in res:
        opened = [ev for ev in st.events() if ev.kind == 'call' and isinstance(ev.a[0], Ext) and ev.a[0].name in OPENERS]
        outside = None
        notfile = None
        for f, val in st.truth.items():
            if f.op == 'startswith' and not val and root_sep(f.args[1], root):
                outside = f
            n, a = ext_call(f.args[0] if f.op == 'truthy' else f)
            if n in ('os.path.isfile', 'os.path.exists') and not val:
                notfile = f
        last = [ev for ev in st.events() if ev.kind in ('call', 'branch')][-1:]
        if outside is None and notfile is None:
            continue
        site = last[0].where() if last else 'static_file'
        if isinstance(v, Exc):
            c.und('refused', site, 'raises %r' % (v.val,))
            continue
        view = resp_view(eng, st, v)
        if view is None:
            c.und('refused', site, 'result %s' % (v,))
        elif view.status in (Const(403), Const(404)) and not opened:
            c.ok('refused', site)
        elif isinstance(view.status, Const) and not vague_state(st):
            c.bad('refused', site, 'answers %s although %s is false%s' % (view.status, outside or notfile, ' and a file was opened' if opened else ''), st)
        else:
            c.und('refused', site, 'status %s' % (view.status,))
