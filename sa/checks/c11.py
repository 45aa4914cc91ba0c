"""C11: after any edit history the router answers as one freshly built from the survivors."""
import itertools
import random
from ..routing import *
from . import c01

EXPLANATION = (
    'Histories of router edits (add, overwrite, rejected add, removal by rule, name, object and prefix, hook installation and removal) over '
    'rule universes with shared prefixes, wildcard siblings and hook-only prefixes.  The edits are carried out by abstract interpretation '
    'of the router code; every edit order is followed to a depth, and states with the same tree and the same survivors are merged.  In each state '
    'the answers on path templates (unknown pieces between constants) and the lookups by name, rule and index are compared with what the '
    'surviving routes and hooks give: the plain rule-by-rule matcher for routes and hooks, a freshly built router for unmatched paths.')
RULES = {
    'routes': 'a path is answered by the surviving route that matches it, with its handler and parameters; 404 or 405 as a fresh router gives',
    'hooks': 'the hooks given with a match are those whose rule the matched rule extends, outermost first, with the length of the matched prefix',
    'unmatched': 'an unmatched path meets the same hooks as in a freshly built router',
    'edit': 'an edit is accepted or refused as the survivors require, and never corrupts the tree',
    'name index': 'lookup by name gives the surviving route of that name, nothing for a removed one',
    'rule index': 'lookup by rule agrees with the survivors',
    'route list': 'router.routes holds exactly the surviving patterns',
    'hook index': 'get_hook gives the surviving hooks, nothing for a removed one',
    'fired': 'the application calls exactly these hooks, in this order, with the matched prefix of the path, before the handler',
}


class Model:
    def __init__(self):
        self.routes, self.names, self.hooks = {}, {}, {}

    def copy(self):
        m = Model()
        m.routes = {k: (t, dict(ms)) for k, (t, ms) in self.routes.items()}
        m.names = dict(self.names)
        m.hooks = {k: (t, list(p)) for k, (t, p) in self.hooks.items()}
        return m

    def key(self):
        return (tuple(sorted((pat(k), t, tuple(sorted(ms.items()))) for k, (t, ms) in self.routes.items())),
                tuple(sorted((n, pat(k)) for n, k in self.names.items())),
                tuple(sorted((pat(k), tuple(map(str, p))) for k, (t, p) in self.hooks.items())))

    def rules(self):
        return [RULE(t) for t, _ in self.routes.values()]


_rules = {}


def RULE(text):
    if text not in _rules:
        _rules[text] = c01.RuleF(text)
    return _rules[text]


def toks(text):
    return tuple(RULE(text).tokens())


def pat(tokens):
    return ''.join(t if isinstance(t, str) else '\r' for t in tokens)


def clash(a, b):
    for x, y in zip(a, b):
        if x != y:
            return not isinstance(x, str) and not isinstance(y, str)
    return False


UNSURE = 'unsure'


def apply(m, op):
    """(expected 'ok' | 'refused' | '?', the model after it)"""
    kind = op[0]
    n = m.copy()
    if kind == 'add':
        _, text, method, name, over = op
        k = toks(text)
        if any(clash(k, o) for o in m.routes):
            return 'refused', m
        for o, (_, p) in m.hooks.items():
            if clash(k, o):
                return ('?' if UNSURE in p else 'refused'), m
        if name and not over and name in m.names and m.names[name] != k:
            return 'refused', m
        if k in m.routes:
            if method in m.routes[k][1] and not over:
                return 'refused', m
            n.routes[k][1][method] = text
        else:
            n.routes[k] = (text, {method: text})
        if name:
            n.names[name] = k
        return 'ok', n
    if kind in ('remove', 'rmobj'):
        # removal does not look at the filters of the rule
        k = next((o for o in m.routes if pat(o) == pat(toks(op[1]))), None)
        n.routes.pop(k, None)
        for x in [x for x, o in m.names.items() if o == k]:
            n.names.pop(x)
        return 'ok', n
    if kind == 'rmname':
        if op[1] not in m.names:
            return 'refused', m
        k = m.names[op[1]]
        n.routes.pop(k)
        for x in [x for x, o in m.names.items() if o == k]:
            n.names.pop(x)
        return 'ok', n
    if kind == 'rmprefix':
        p = pat(toks(op[1]))
        gone = [k for k in m.routes if pat(k).startswith(p)]
        for k in gone:
            n.routes.pop(k)
        for x in [x for x, o in m.names.items() if o in gone]:
            n.names.pop(x)
        for k in m.hooks:
            if pat(k).startswith(p):
                n.hooks[k] = (m.hooks[k][0], [UNSURE if v is not None else None for v in m.hooks[k][1]])
        return 'ok', n
    if kind == 'hook':
        _, text, label, slot = op
        k = toks(text)
        if any(clash(k, o) for o in m.routes):
            return '?', m
        for o, (_, p) in m.hooks.items():
            if clash(k, o):
                return '?', m
        n.hooks.setdefault(k, (text, [None, None]))[1][slot] = label
        return 'ok', n
    if kind == 'bad':
        return 'refused', m
    if kind == 'unhook':
        n.hooks.pop(toks(op[1]), None)
        return 'ok', n
    raise ValueError(op)


def perform(w, st, op):
    kind = op[0]
    if kind == 'add':
        _, text, method, name, over = op
        return w.add(st, text, name=name, method=method, handler=method + text, **({'overwrite': True} if over else {}))
    if kind == 'bad':
        return w.add(st, op[1], name=op[2], handler='bad')
    if kind == 'remove':
        return w.call(st, 'remove', Const(op[1]))
    if kind == 'rmprefix':
        return w.call(st, 'remove', Const(op[1] + '*'))
    if kind == 'rmname':
        return w.call(st, 'remove', name=Const(op[1]))
    if kind == 'rmobj':
        return models.each(look(w, st, op[1]), lambda s, r: w.call(s, 'remove', r) if isinstance(r, Ref) else [(s, NONE)])
    if kind == 'hook':
        return w.call(st, 'add_hook', Const(op[1]), w.handler('hook:' + op[2]), Const(op[3]))
    if kind == 'unhook':
        return w.call(st, 'remove_hook', Const(op[1]))


def look(w, st, text):
    st = st.fork()
    d = st.alloc(Obj('dict', items=((Const('rule'), Const(text)),)), 'key')
    return w.eng.getitem(st, w.router, d, NODE)


def show(hist):
    out = []
    for op in hist:
        a = [repr(x) for x in op[1:] if x is not None and x is not False]
        out.append('%s(%s)' % (op[0], ', '.join(a)))
    return '; '.join(out)


# ------------------------------------------------------------------ shape of the state
class Odd(Exception):
    pass


def render(eng, st, v, seen):
    if isinstance(v, Ref):
        o = st.get(v)
        if v in seen:
            return ('seen', seen[v])
        seen[v] = len(seen)
        if o.kind in ('list', 'dict', 'set'):
            if o.open is not None:
                raise Odd
            return (o.kind,) + tuple(render(eng, st, x, seen) for x in o.items)
        if o.kind == 'inst':
            return ('inst', str(o.cls)) + tuple((k, render(eng, st, x, seen)) for k, x in sorted(o.attrs.items()))
        return repr(v)
    if isinstance(v, (tuple, list)):
        return tuple(render(eng, st, x, seen) for x in v)
    if isinstance(v, Tup):
        return ('tup',) + tuple(render(eng, st, x, seen) for x in v.items)
    if isinstance(v, Func):
        return ('func', v.qual, str(v.frame))
    return repr(v)


def shape(w, st):
    try:
        return render(w.eng, st, w.router, {})
    except Odd:
        return None


# ------------------------------------------------------------------ what is checked in a state
def pos_eq(st, a, b):
    return templ.eq(st, a, b)


def hook_list(w, s, v):
    """[(position, simple, partial)] or None"""
    eng = w.eng
    its = eng.known_items(s, v) if isinstance(v, Ref) else v.items if isinstance(v, Tup) else None
    if its is None:
        return None
    out = []
    for x in its:
        e = eng.known_items(s, x) if isinstance(x, Ref) else x.items if isinstance(x, Tup) else None
        if e is None or len(e) != 2:
            return None
        p = eng.known_items(s, e[1]) if isinstance(e[1], Ref) else e[1].items if isinstance(e[1], Tup) else None
        if p is None or len(p) != 2:
            return None
        out.append((e[0], p[0], p[1]))
    return out


def label(v):
    return v.name[len('handler:hook:'):] if isinstance(v, Sym) and v.name.startswith('handler:hook:') else None if v == NONE else str(v)


def expected_hooks(eng, st, m, k, path):
    """[(length, simple)] for the matched route k, unsure labels left out; None when it cannot be said"""
    ends = [Const(0)]
    ps = pieces_of(path)
    if ps is None:
        return None
    v = plain_match(eng, st, RULE(m.routes[k][0]), ps, ends)
    if v is None or v == '?' or len(ends) != len(k) + 1:
        return None
    out = []
    for h in sorted(m.hooks, key=len):
        if k[:len(h)] == h:
            s = m.hooks[h][1][0]
            if s == UNSURE:
                return None
            if s is not None:
                out.append((ends[len(h)], s))
    return out


def verify(c, w, st, m, uni, hist, fresh):
    eng = w.eng
    where = uni['name']
    tail = 'after %s: ' % show(hist)
    rules = m.rules()
    methods = uni.get('methods', ['GET'])
    for path in uni['paths']:
        st0, _ = w.path(st, path)
        if rules:
            want = plain(eng, st0, rules, path)
        else:
            want = ('miss',)
        if want[0] == '?':
            continue
        for method in methods:
            det = tail + '%s %s ' % (method, path_text(path))
            c.paths += 1
            got = w.resolve(st, path, method)
            for s, a in got:
                vg = vague(eng, s)
                if a[0] == '?':
                    c.und('routes', where, det + a[1])
                    continue
                if a[0] == 'raise':
                    c.verdict(False, vg, 'routes', where, det + 'raises %s' % (a[1].val,), s)
                    continue
                if want[0] == 'miss':
                    c.verdict(a[0] == 'miss' and a[1] == 404, vg, 'routes', where, det + 'no surviving route matches, answered %s' % (a[:2],), s)
                    continue
                r, vals = want[1], want[2]
                k = tuple(r.tokens())
                reg = m.routes[k][1].get(method)
                if reg is None:
                    al = ','.join(sorted(m.routes[k][1]))
                    c.verdict(a[0] == 'miss' and a[1] == 405 and a[2] == Const(al), vg, 'routes', where, det + 'expected 405 (%s), answered %s' % (al, a[:3]), s)
                    continue
                if a[0] == 'miss':
                    c.verdict(False, vg, 'routes', where, det + '%s matches, answered %s' % (r.text, a[1]), s)
                    continue
                h = w.handler(method + reg)
                exp = {Const(n): v for n, v in zip(RULE(reg).names(), vals) if n}
                have = {x: norm_value(v) for x, v in a[2]}
                bad = None if all(understood(v) for v in have.values()) else 'values'
                c.verdict(a[1] == h and exp == have, vg or bad, 'routes', where, det + 'expected %s %s, got %s %s' % (h, exp, a[1], have), s)
                eh = expected_hooks(eng, st0, m, k, path)
                hl = hook_list(w, s, a[3])
                if hl is None or eh is None:
                    if m.hooks and hl is None:
                        c.und('hooks', where, det + 'hooks %s' % (a[3],))
                    continue
                hl = [(p, label(x)) for p, x, _ in hl if x != NONE]
                good = len(hl) == len(eh) and all(l == e and pos_eq(s, p, q) for (p, l), (q, e) in zip(hl, eh))
                c.verdict(good, vg, 'hooks', where, det + 'expected hooks %s, got %s' % (eh, hl), s)
            if want[0] == 'miss' and m.hooks and len(got) == 1 and got[0][1][0] == 'miss' and not any(UNSURE in p for _, p in m.hooks.values()):
                unmatched(c, w, got[0], fresh(m), path, method, where, det)
    lookups(c, w, st, m, uni, where, tail)


def miss_extra(w, s, a):
    """(hooks, values) an unmatched path is answered with"""
    if a[0] != 'miss' or a[1] != 404 or not isinstance(a[2], Ref):
        return None
    o = s.get(a[2])
    if o.kind != 'dict' or o.open is not None:
        return None
    d = dict(o.items)
    hs = hook_list(w, s, d.get(Const('hooks')))
    if hs is None:
        return None
    vals = d.get(Const('param_values'))
    vs = w.eng.known_items(s, vals) if isinstance(vals, Ref) else None
    return [(p, label(x), label(y)) for p, x, y in hs[-1:]], None if vs is None or not hs or hs[-1][2] == NONE else [norm_value(v) for v in vs]


def unmatched(c, w, got, base, path, method, where, det):
    if base is None:
        return
    ref = w.resolve(base, path, method)
    if len(ref) != 1:
        return
    (s, a), (t, b) = got, ref[0]
    x, y = miss_extra(w, s, a), miss_extra(w, t, b)
    if x is None or y is None:
        c.und('unmatched', where, det + 'extra')
        return
    vg = vague(w.eng, s) or vague(w.eng, t)
    same = len(x[0]) == len(y[0]) and all(p[1:] == q[1:] and pos_eq(s, p[0], q[0]) for p, q in zip(x[0], y[0])) and x[1] == y[1]
    c.verdict(same, vg, 'unmatched', where, det + 'a fresh router gives %s, this one %s' % (y, x), s)


def one(res):
    return res[0] if len(res) == 1 else (None, None)


def pattern_of(w, s, v):
    if not isinstance(v, Ref):
        return None
    r = one(w.eng.getattr_(s, v, 'pattern', NODE))
    return r[1].v if isinstance(r[1], Const) else '?'


def lookups(c, w, st, m, uni, where, tail):
    eng = w.eng
    byrule = {}
    for text in uni['rules']:
        s, v = one(look(w, st, text))
        if s is None:
            c.und('rule index', where, tail + text)
            continue
        k = toks(text)
        if isinstance(v, Exc):
            c.bad('rule index', where, tail + 'lookup of %s raises' % text, s)
            continue
        p = pattern_of(w, s, v)
        byrule[k] = v
        if p == '?' or v != NONE and not isinstance(v, Ref):
            c.und('rule index', where, tail + '%s: %s' % (text, v))
            continue
        if k in m.routes:
            c.verdict(p == pat(k), None, 'rule index', where, tail + 'lookup of %s gives %s' % (text, v), s)
        elif not any(pat(o) == pat(k) for o in m.routes):
            c.verdict(v == NONE, None, 'rule index', where, tail + 'removed %s is found: %s' % (text, v), s)
    for name in uni.get('names', ()):
        s, v = one(eng.getitem(st, w.router, Const(name), NODE))
        if s is None or isinstance(v, Exc):
            c.und('name index', where, tail + name)
            continue
        p = pattern_of(w, s, v)
        if p == '?':
            c.und('name index', where, tail + '%s: %s' % (name, v))
            continue
        if name in m.names:
            k = m.names[name]
            c.verdict(p == pat(k) and (k not in byrule or byrule[k] == v), None, 'name index', where, tail + 'name %s gives %s' % (name, p), s)
        else:
            c.verdict(v == NONE, None, 'name index', where, tail + 'name %s gives %s' % (name, p), s)
    s, v = one(eng.getattr_(st, w.router, 'routes', NODE))
    o = s.get(v) if s is not None and isinstance(v, Ref) else None
    if o is not None and o.kind == 'dict' and o.open is None:
        have = sorted(str(x[0].v) for x in o.items if isinstance(x[0], Const))
        c.verdict(have == sorted(pat(k) for k in m.routes), None, 'route list', where, tail + 'routes are %s' % have, s)
    else:
        c.und('route list', where, tail + str(v))
    for text in uni.get('hooked', ()):
        k = toks(text)
        for s, v in w.call(st, 'get_hook', Const(text)):
            if k in m.hooks and UNSURE in m.hooks[k][1]:
                continue
            e = eng.known_items(s, v) if isinstance(v, Ref) else None
            if k not in m.hooks:
                c.verdict(isinstance(v, Exc) or v == NONE, None, 'hook index', where, tail + 'removed hook of %s is found: %s' % (text, v), s)
            elif isinstance(v, Exc) or e is None:
                c.verdict(False, None if isinstance(v, Exc) or v == NONE else 'term', 'hook index', where, tail + 'hook of %s is not found' % text, s)
            else:
                c.verdict([label(x) for x in e] == m.hooks[k][1], None, 'hook index', where, tail + 'hooks of %s are %s' % (text, [label(x) for x in e]), s)


# ------------------------------------------------------------------ exploration
def prepare(uni):
    texts = uni['rules']
    uni['paths'] = []
    rules = [RULE(t) for t in texts if not t == '/']
    plainest = [r for r in rules if r.text.count('/')]
    own = []
    for r in plainest:
        own += c01.paths([r], 2)[:3]
    mixed = c01.paths(plainest, uni.get('limit', 8))
    out = [('/',)] if '/' in texts else []
    seen = set()
    for p in own + mixed[::max(1, len(mixed) // uni.get('limit', 8))]:
        if path_text(p) not in seen:
            seen.add(path_text(p))
            out.append(p)
    uni['paths'] = [tuple(p) for p in uni.get('extra', [])] + out


def fresh_of(w, cache):
    def fresh(m):
        k = m.key()
        if k not in cache:
            st = w.st
            for key, (text, ms) in m.routes.items():
                for meth, t in ms.items():
                    s, v = one(w.add(st, t, method=meth, handler=meth + t))
                    if s is None or isinstance(v, Exc):
                        st = None
                        break
                    st = s
                if st is None:
                    break
            for key, (text, pair) in m.hooks.items() if st is not None else ():
                for slot, lab in enumerate(pair):
                    if lab is None or st is None:
                        continue
                    s, v = one(w.call(st, 'add_hook', Const(text), w.handler('hook:' + lab), Const(slot)))
                    st = None if s is None or isinstance(v, Exc) else s
            cache[k] = st
        return cache[k]
    return fresh


def step(c, w, st, m, op, uni, hist):
    """[(state, model)] after the edit"""
    want, n = apply(m, op)
    out = []
    res = perform(w, st, op)
    where = uni['name']
    tail = show(hist + (op,))
    if len(res) != 1:
        c.und('edit', where, tail + ' has %d outcomes' % len(res))
        return out
    for s, v in res:
        if isinstance(v, Exc):
            if want == 'ok' and op[0] not in ('rmobj',):
                c.verdict(False, None, 'edit', where, tail + ' raises %s' % (v.val,), s)
                continue
            if want == 'ok' or want == '?':
                out.append((s, m))
                continue
            c.ok('edit', where)
            out.append((s, m))
        elif want == 'ok':
            c.ok('edit', where)
            out.append((s, n))
        # accepted although the survivors clash: what a fresh router would do is not settled here
    return out


def explore(c, eng, uni, cap, paths=True):
    with c.section('routes', 400):
        w = World(c, eng)
        if not uni.get('paths'):
            prepare(uni)
        fresh = fresh_of(w, {})
        level = [(w.st, Model(), ())]
        seen = set()
        count = 0
        for op in uni.get('start', ()):
            level = [(s2, m2, h + (op,)) for s, m, h in level for s2, m2 in step(c, w, s, m, op, uni, h)]
        rnd = random.Random(7)
        for depth in range(uni.get('depth', 4)):
            nxt = []
            for st, m, hist in level:
                for op in uni['ops']:
                    for s, n in step(c, w, st, m, op, uni, hist):
                        sh = shape(w, s)
                        if sh is not None:
                            k = (n.key(), sh)
                            if k in seen:
                                continue
                            seen.add(k)
                        s = clean(s, w.st)
                        nxt.append((s, n, hist + (op,)))
            if len(nxt) > uni.get('width', 400):
                rnd.shuffle(nxt)
                nxt = nxt[:uni.get('width', 400)]
            for s, n, hist in nxt:
                if count >= cap:
                    break
                count += 1
                verify(c, w, s, n, uni, hist, fresh)
            level = nxt
            if count >= cap or not level:
                break
        c.notes.append('%s: %d states verified, depth %d' % (uni['name'], count, depth + 1))


def clean(s, base):
    return s


def ops(routes=(), hooks=(), names=(), prefixes=(), over=(), post=(), objs=()):
    out = []
    for t in routes:
        name = dict(names).get(t) if not isinstance(names, dict) else names.get(t)
        out.append(('add', t, 'GET', name, False))
        out.append(('remove', t))
    for t in hooks:
        out += [('hook', t, 'h' + t, 0), ('unhook', t)]
    for t in prefixes:
        out.append(('rmprefix', t))
    for t in over:
        out.append(('add', t, 'GET', None, True))
    for t in post:
        out.append(('add', t, 'POST', None, False))
    for t in objs:
        out.append(('rmobj', t))
    return out


def U(name, rules, ops, **kw):
    return dict(name=name, rules=rules, ops=ops, **kw)


UNIVERSES = [
    U('shared prefixes', ['/a', '/ab', '/abc', '/abd'], ops(['/a', '/ab', '/abc', '/abd'])),
    U('siblings', ['/a/b', '/a/<x>', '/a/<x>/c'], ops(['/a/b', '/a/<x>', '/a/<x>/c'])),
    U('wildcard tree', ['/<x>', '/<x>/b', '/<x>/<y>', '/a'], ops(['/<x>', '/<x>/b', '/<x>/<y>', '/a'])),
    U('hooks on routes', ['/a', '/a/b', '/a/<x>'], ops(['/a/b', '/a/<x>'], ['/a', '/a/b']), hooked=['/a', '/a/b']),
    U('hook-only prefixes', ['/a/b/c', '/a/d', '/a/b/d'], ops(['/a/b/c', '/a/d'], ['/a', '/a/b', '/a/b/d']), hooked=['/a', '/a/b', '/a/b/d']),
    U('hooks under wildcards', ['/<x>/b', '/<x>/<y>', '/<x>'], ops(['/<x>/b', '/<x>/<y>'], ['/<x>', '/<x>/b']), hooked=['/<x>', '/<x>/b']),
    U('hook inside a key', ['/abc', '/abd', '/a/<x>'], ops(['/abc', '/abd', '/a/<x>'], ['/ab', '/a']), hooked=['/ab', '/a']),
    U('names', ['/a', '/ab', '/a/<x>'], [('add', '/a', 'GET', 'n', False), ('add', '/ab', 'GET', 'n', False), ('add', '/a/<x>', 'GET', 'm', False), ('add', '/ab', 'GET', 'n', True), ('rmname', 'n'), ('rmname', 'm'), ('remove', '/a'), ('remove', '/ab'), ('add', '/a', 'POST', 'm', False), ('add', '/a', 'PUT', 'n', False)],
      names=['n', 'm'], methods=['GET', 'POST']),
    U('methods', ['/a', '/a/<x>'], [('add', '/a', 'GET', None, False), ('add', '/a', 'POST', 'n', False), ('add', '/a/<x>', 'GET', None, False), ('add', '/a/<y>', 'POST', None, False), ('add', '/a/<y>', 'GET', None, True), ('remove', '/a'), ('remove', '/a/<z>')],
      names=['n'], methods=['GET', 'POST']),
    U('prefix removal', ['/a', '/ab', '/a/b', '/a/<x>', '/b'], [('add', '/a', 'GET', 'n', False), ('add', '/ab', 'GET', None, False), ('add', '/a/b', 'GET', 'm', False), ('add', '/a/<x>', 'GET', None, False), ('add', '/b', 'GET', None, False), ('rmprefix', '/a/'), ('rmprefix', '/a'), ('rmprefix', '/'), ('rmprefix', '/a/b'), ('rmprefix', '/b')], names=['n', 'm']),
    U('prefix removal below hooks', ['/a/b/c', '/a/d'], ops(['/a/b/c', '/a/d'], ['/a', '/a/b/c'], prefixes=['/a/b', '/a/b/', '/a/']), hooked=['/a']),
    U('prefix over wildcards', ['/a/<x>/c', '/a/<x>/d', '/a/<x>'], ops(['/a/<x>/c', '/a/<x>/d', '/a/<x>'], prefixes=['/a/<x>/', '/a/<x>', '/a']), ),
    U('filters', ['/n/<i:int>', '/n/<i>', '/n/<i:int>/e'], ops(['/n/<i:int>', '/n/<i>', '/n/<i:int>/e'])),
    U('filters and hooks', ['/n/<i:int>/e', '/n/<i>'], ops(['/n/<i:int>/e', '/n/<i>'], ['/n/<i:int>', '/n']), hooked=['/n/<i:int>', '/n']),
    U('rejected', ['/a/<x>', '/a/<i:int>', '/a/<i:int>/b'], [('add', '/a/<x>', 'GET', 'n', False), ('add', '/a/<i:int>', 'GET', 'n', False), ('add', '/a/<i:int>/b', 'GET', 'm', False), ('remove', '/a/<x>'), ('rmname', 'n'), ('rmname', 'm'),
                   ('bad', '/a/<x>/<x>', 'n'), ('bad', '/a/<x.nosuch()>', 'm')], names=['n', 'm']),
    U('root', ['/', '/a', '/<x>'], ops(['/', '/a', '/<x>'], ['/', '/a']), hooked=['/', '/a']),
    U('objects', ['/a/b', '/a/bc', '/a/b*'], ops(['/a/b', '/a/bc', '/a/b*'][:2], objs=['/a/b', '/a/bc']) + [('add', '/a/b*', 'GET', None, False), ('rmobj', '/a/b*')]),
    U('partial hooks', ['/a/b', '/a/<x>/c'], ops(['/a/b', '/a/<x>/c'], ['/a']) + [('hook', '/a', 'p', 1), ('hook', '/a/<x>', 'q', 1), ('unhook', '/a/<x>')], hooked=['/a', '/a/<x>']),
    U('merge then split', ['/abcd', '/abce', '/abf', '/ag'], ops(['/abcd', '/abce', '/abf', '/ag'])),
    U('three children', ['/ab', '/ac', '/ad', '/a<x>'], ops(['/ab', '/ac', '/ad', '/a<x>']), start=[('add', '/ac', 'GET', None, False), ('add', '/ad', 'GET', None, False)]),
    U('after a token', ['/a/<x>/c', '/a/<x>.d', '/a/<x>-e', '/a/<x>'], ops(['/a/<x>/c', '/a/<x>.d', '/a/<x>-e', '/a/<x>']), start=[('add', '/a/<x>/c', 'GET', None, False)]),
    U('merge under a token', ['/a/<x>/cd', '/a/<x>/ce', '/a/<x>'], ops(['/a/<x>/cd', '/a/<x>/ce', '/a/<x>'])),
]


# edits through the application, a request, the calls it makes: (label, prefix) of each hook, then the handler
A, B, C3 = '/a', '/a/b', '/a/b/c'
FIRED = [
    ([('hook', A), ('route', C3), ('hook', B)], C3, [(A, '/a'), (B, '/a/b'), C3]),
    ([('route', C3), ('hook', B), ('hook', '/'), ('hook', A)], C3, [('/', '/'), (A, '/a'), (B, '/a/b'), C3]),
    ([('route', C3), ('hook', C3)], C3, [(C3, C3), C3]),
    ([('route', C3), ('route', '/a/x'), ('hook', B)], '/a/x', ['/a/x']),
    ([('route', C3), ('hook', '/a/b/c/d')], C3, [C3]),
    ([('hook', '/a/<x>'), ('route', '/a/<y>/c'), ('hook', A)], '/a/zz/c', [(A, '/a'), ('/a/<x>', '/a/zz'), '/a/<y>/c']),
    ([('hook', '/a/<x>'), ('route', '/a/<y>/c'), ('route', C3)], C3, [C3]),
    ([('hook', '/a/<x>/d'), ('hook', B), ('route', '/a/<y>/d'), ('route', C3)], '/a/b/d', [('/a/<x>/d', '/a/b/d'), '/a/<y>/d']),
    ([('hook', '/<x>'), ('hook', '/<x>/<y>'), ('route', '/<u>/<v>/<w>')], '/é/f/g', [('/<x>', '/é'), ('/<x>/<y>', '/é/f'), '/<u>/<v>/<w>']),
    ([('hook', '/<x>'), ('route', '/<u>/b')], '//q/b/', [('/<x>', '/q'), '/<u>/b']),
    ([('hook', '/n/<i:int>'), ('route', '/n/<j:int>/e')], '/n/-12/e', [('/n/<i:int>', '/n/-12'), '/n/<j:int>/e']),
    ([('hook', '/p/<p:path>/e'), ('route', '/p/<p:path>/e')], '/p/a/b/e', [('/p/<p:path>/e', '/p/a/b/e'), '/p/<p:path>/e']),
    ([('hook', A), ('hook', B), ('route', C3), ('unhook', A)], C3, [(B, '/a/b'), C3]),
    ([('hook', A), ('hook', B), ('route', C3), ('unhook', B)], C3, [(A, '/a'), C3]),
    ([('route', C3), ('hook', B), ('unroute', C3), ('route', C3)], C3, [(B, '/a/b'), C3]),
    ([('route', C3), ('hook', C3), ('unroute', C3)], C3, []),
    ([('route', C3), ('hook', C3), ('unroute', C3), ('route', '/a/b/<z>')], C3, ['/a/b/<z>']),
    ([('route', C3), ('partial', B), ('hook', A)], C3, [(A, '/a'), C3]),
    ([('route', C3), ('partial', A), ('hook', B)], C3, [(B, '/a/b'), C3]),
    ([('route', C3), ('partial', A), ('hook', A), ('hook', B)], C3, [(A, '/a'), (B, '/a/b'), C3]),
    ([('hook', '/a/<x.rex((foo)|(bar))[1]>'), ('hook', A), ('route', '/a/<x.rex((foo)|(bar))[1]>/z')], '/a/foo/z',
     [(A, '/a'), ('/a/<x.rex((foo)|(bar))[1]>', '/a/foo'), '/a/<x.rex((foo)|(bar))[1]>/z']),
    ([('hook', '/a/<x.rex((foo)|(bar))[2]>/z'), ('route', '/a/<x.rex((foo)|(bar))[2]>/z/<i:int>')], '/a/bar/z/15',
     [('/a/<x.rex((foo)|(bar))[2]>/z', '/a/bar/z'), '/a/<x.rex((foo)|(bar))[2]>/z/<i:int>']),
    ([('route', '/a/<x.rex((foo)|(bar))[1]>/z'), ('hook', '/<u>/<v>'), ('route', '/<u>/<v>/<w>')], '/a/foo/y', [('/<u>/<v>', '/a/foo'), '/<u>/<v>/<w>']),
]


def fired(c, eng, edits, path, want):
    with c.section('fired', 30):
        pol = Policy(join_at=10**9, peel=80)
        pol.unroll = 80
        pol.excl = {Sym('no:piece'): frozenset()}
        st = start(eng, pol, 'ombott.ombott')
        st, app = default_app(eng, st)

        def call(eng, st, fv, args, kw, node):
            if isinstance(fv, Sym) and fv.name.startswith('handler:'):
                st = st.fork()
                st.ghost['calls'] = Tup(tuple(st.ghost['calls'].items) + (Tup((fv, Tup(args))),))
                return [(st, Sym('answer', 'str'))]
            return None
        pol.call = call
        st = st.fork()
        st.ghost['calls'] = Tup(())
        tail = 'after %s, %s: ' % (show(edits), path)
        for kind, text in edits:
            for lab in ('handler:' + text, 'handler:hook:' + text, 'handler:partial:' + text):
                st.learn(App('truthy', Sym(lab, 'func')), True)
            name, args = {'route': ('add_route', [Const(text), Const('GET'), Sym('handler:' + text, 'func')]), 'unroute': ('remove_route', [Const(text)]),
                          'hook': ('on_route', [Const(text), Sym('handler:hook:' + text, 'func')]), 'unhook': ('remove_route_hook', [Const(text)]),
                          'partial': ('error', [Const(404), Const(text)])}[kind]
            res = models.each(eng.getattr_(st, app, name, NODE), lambda s, f: eng.call(s, f, args, [], NODE))
            if kind == 'partial':
                res = models.each(res, lambda s, f: eng.call(s, f, [Sym('handler:partial:' + text, 'func')], [], NODE))
            st, v = one(res)
            if st is None or isinstance(v, Exc):
                c.und('fired', 'application', tail + '%s is not carried out: %s' % (kind, [str(v) for _, v in res]))
                return
        raw = path.encode('utf8').decode('latin1')
        st = st.fork()
        for key, v in (('PATH_INFO', raw), ('REQUEST_METHOD', 'GET')):
            st.learn(App('in', Const(key), ENVIRON), True)
            st.sto[(ENVIRON, 'i', Const(key))] = Const(v)
        for s, v in models.each(eng.getattr_(st, app, '_handle', NODE), lambda s, f: eng.call(s, f, [ENVIRON], [], NODE)):
            c.paths += 1
            if any(isinstance(t, Sym) and t.name.startswith('mu:') for x in s.truth for t in subterms(x)):
                continue
            have = []
            for e in s.ghost['calls'].items:
                h, args = e.items[0].name[len('handler:'):], e.items[1].items
                have.append((h[5:], args[0].v if len(args) == 1 and isinstance(args[0], Const) else str(args)) if h.startswith('hook:') else h)
            c.verdict(have == want, None, 'fired', 'application', tail + 'expected calls %s, made %s' % (want, have), s)


def run(c):
    eng = c.engine()
    cap = 120 if c.tier == 'quick' else 1500
    jobs = [(explore, (c, eng, dict(u), cap)) for u in UNIVERSES] + [(fired, (c, eng, *x)) for x in FIRED]
    c.spread(jobs, lambda j: j[0](*j[1]))
