"""C02: method dispatch."""
from ..rule import *
from ..web import *

EXPLANATION = (
    'Abstract interpretation of registration (RadiRouter.add, Route.set_method/add_method/remove_method) followed by '
    'Ombott._handle on an unknown environ, for a set of method tables; only the path lookup of RadiDict is replaced by '
    '"the route" or "no route". The request method stays symbolic: every path carries the facts it tested about it, and the '
    'outcome of the path (handler called, or error status and Allow header) is compared with the specification for every '
    'representative method name consistent with these facts.')
RULES = {
    'dispatch': 'the handler called is the one of the verb, else GET for HEAD, else ANY (case-insensitive)',
    '405': '405 exactly when the route has none of the candidates, with Allow listing exactly the methods of the route',
    '404': 'no route gives 404 and only that',
    'resolve': 'RadiRouter.resolve(path, methods) takes the first candidate that is registered',
    'register': 'overwrite=True replaces the handler of that method only; a duplicate without it raises and changes nothing',
}
GET = 'ombott.router.radidict:RadiDict.get'
ADD = 'ombott.router.radidict:RadiDict.add'
MATCH = 'ombott.router.radirouter:RadiRouter._match'
REP = ['GET', 'get', 'Get', 'HEAD', 'head', 'POST', 'post', 'Post', 'PUT', 'put', 'OPTIONS', 'ANY', 'any', 'FOO']

# scenario: registration steps and the method table they must produce
SCEN = [
    ('one', [('add', 'GET', 'h1')], {'GET': 'h1'}),
    ('lower', [('add', 'get', 'h1')], {'GET': 'h1'}),
    ('two', [('add', 'GET', 'h1'), ('add', 'POST', 'h2')], {'GET': 'h1', 'POST': 'h2'}),
    ('lower list', [('addl', ('post', 'Put'), 'h1')], {'POST': 'h1', 'PUT': 'h1'}),
    ('any', [('add', 'ANY', 'h1')], {'ANY': 'h1'}),
    ('any lower', [('add', 'any', 'h1'), ('add', 'GET', 'h2')], {'ANY': 'h1', 'GET': 'h2'}),
    ('get any', [('add', 'GET', 'h1'), ('add', 'ANY', 'h2')], {'GET': 'h1', 'ANY': 'h2'}),
    ('head', [('add', 'GET', 'h1'), ('add', 'HEAD', 'h2'), ('add', 'ANY', 'h3')], {'GET': 'h1', 'HEAD': 'h2', 'ANY': 'h3'}),
    ('post any', [('add', 'POST', 'h1'), ('add', 'ANY', 'h2')], {'POST': 'h1', 'ANY': 'h2'}),
    ('post', [('add', 'POST', 'h1')], {'POST': 'h1'}),
    ('overwrite', [('add', 'GET', 'h1'), ('add', 'POST', 'h2'), ('over', 'get', 'h3')], {'GET': 'h3', 'POST': 'h2'}),
    ('remove', [('add', 'GET', 'h1'), ('add', 'POST', 'h2'), ('del', 'GET')], {'POST': 'h2'}),
    ('remove lower', [('add', 'GET', 'h1'), ('add', 'ANY', 'h2'), ('del', 'get')], {'ANY': 'h2'}),
    ('remove any', [('add', 'GET', 'h1'), ('add', 'ANY', 'h2'), ('del', 'any')], {'GET': 'h1'}),
    ('duplicate', [('add', 'GET', 'h1'), ('add', 'POST', 'h2'), ('dup', 'get', 'h3')], {'GET': 'h1', 'POST': 'h2'}),
    ('partial duplicate', [('add', 'GET', 'h1'), ('dupl', ('PUT', 'GET'), 'h3')], {'GET': 'h1'}),
]
RT = 'c02route'


def expected(table, m):
    m = m.upper()
    for c in ([m, 'GET', 'ANY'] if m == 'HEAD' else [m, 'ANY']):
        if c in table:
            return table[c]
    return None


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, App):
        args = [subst(a, old, new) if isinstance(a, V) else a for a in t.args]
        if args != list(t.args):
            return App(t.op, *args)
    if isinstance(t, Tup):
        return Tup(tuple(subst(a, old, new) for a in t.items))
    return t


def fold(t):
    """Value of a closed term built from string operations, or None."""
    if isinstance(t, Const):
        return t
    if isinstance(t, Tup):
        xs = [fold(x) for x in t.items]
        return None if any(x is None for x in xs) else Const(tuple(x.v for x in xs))
    if not isinstance(t, App):
        return None
    xs = [fold(a) if isinstance(a, V) else Const(a) for a in t.args]
    if any(x is None for x in xs):
        return None
    v = [x.v for x in xs]
    try:
        if t.op in ('upper', 'lower', 'strip', 'title', 'capitalize', 'lstrip', 'rstrip', 'swapcase', 'casefold'):
            return Const(getattr(v[0], t.op)(*v[1:]))
        if t.op == 'eq':
            return Const(v[0] == v[1])
        if t.op == 'ne':
            return Const(v[0] != v[1])
        if t.op == 'in':
            return Const(v[0] in v[1])
        if t.op == 'truthy':
            return Const(bool(v[0]))
        if t.op == 'not':
            return Const(not v[0])
        if t.op == 'isnone':
            return Const(v[0] is None)
        if t.op == 'len':
            return Const(len(v[0]))
        if t.op in ('startswith', 'endswith'):
            return Const(getattr(v[0], t.op)(v[1]))
        if t.op == 'concat':
            return Const(''.join(v))
        if t.op == 'str':
            return Const(str(v[0]))
    except Exception:
        return None
    return None


RAW = App('item', ENVIRON, Const('REQUEST_METHOD'))


def feasible(st, m):
    """True / False / None: can REQUEST_METHOD be m on this path"""
    for f, val in st.truth.items():
        if not contains(f, lambda x: x == RAW):
            continue
        if f.op == 'istype':
            continue
        r = fold(subst(f, RAW, Const(m)))
        if r is None:
            return None
        if bool(r.v) != val:
            return False
    for const, ts in st.lins:
        if any(contains(t, lambda x: x == RAW) for t in ts):
            tot = const
            for t, k in ts.items():
                r = fold(subst(t, RAW, Const(m)))
                if r is None:
                    return None
                tot += k * int(r.v)
            if tot < 0:
                return False
    return True


def with_environ(st):
    """REQUEST_METHOD is present (WSGI requires it)"""
    st = st.fork()
    st.learn(App('in', Const('REQUEST_METHOD'), ENVIRON), True)
    return st


def policy(kind):
    pol = Policy(join_at=10**9)

    def add(eng, st, fv, args, kw, node):
        st = st.fork()
        st.ghost[RT] = args[2] if len(args) > 2 else dict(kw).get('data', NONE)
        return [(st, NONE)]

    def match(eng, st, fv, args, kw, node):
        k = {n: v for n, v in kw} if not isinstance(kw, dict) else kw
        if 'get_hooks' in k:
            return [(st, NONE)]
        return [(st, st.ghost.get(RT, NONE))]

    def get(eng, st, fv, args, kw, node):
        st = st.fork()
        pv = st.alloc(Obj('list'), 'pv')
        h = st.alloc(Obj('list', items=(Sym('simplehook', 'callable'), Sym('h9', 'callable'))), 'h')
        hk = st.alloc(Obj('list', items=((st.alloc(Obj('list', items=(Const(0), h)), 'h2'),) if kind == 'route' else ())), 'hk')
        ex = st.alloc(Obj('dict', items=((Const('param_keys'), NONE), (Const('param_values'), pv), (Const('hooks'), hk))), 'extra')
        return [(st, Tup((st.ghost.get(RT, NONE), ex)))]
    pol.opaque[ADD], pol.opaque[MATCH], pol.opaque[GET] = add, match, get
    return pol


def step(c, eng, st, app, s, where):
    """[(state, value)] of a registration step"""
    out = []
    kind = s[0]
    if kind == 'del':
        rt = st.ghost.get(RT, NONE)
        for x, f in eng.getattr_(st, rt, 'remove_method', NODE):
            out += eng.call(x, f, [Const(s[1])], [], NODE)
        return out
    m = Const(s[1]) if isinstance(s[1], str) else None
    if m is None:
        st = st.fork()
        m = st.alloc(Obj('list', items=tuple(Const(x) for x in s[1])), 'methods')
    kw = [('overwrite', Const(True))] if kind == 'over' else []
    for x, f in eng.getattr_(st, app, 'add_route', NODE):
        out += eng.call(x, f, [Const('/x'), m, Sym(s[2], 'callable')], kw, NODE)
    return out


def build(c, eng, st, app, steps, where):
    states = [st]
    for s in steps:
        nxt = []
        for x in states:
            for y, v in step(c, eng, x, app, s, where):
                if s[0] in ('dup', 'dupl'):
                    if isinstance(v, Exc):
                        c.ok('register', where)
                        nxt.append(y)
                    else:
                        c.verdict(False, vague(y), 'register', where, 'registering %s twice does not raise' % (s[1],), y)
                elif not isinstance(v, Exc):
                    nxt.append(y)
        seen, states = set(), []
        for y in nxt:
            states.append(y)
        states = states[:4]
    return states


def status_of(eng, st, ref):
    for s, v in eng.getattr_(st, ref, 'status_code', NODE):
        if isinstance(v, Const):
            return v.v
    return None


def allow_of(eng, st, ref):
    """the Allow header as a set of names, None when not understood"""
    for s, l in eng.getattr_(st, ref, 'headerlist', NODE):
        if isinstance(l, Exc) or not isinstance(l, Ref) or s.get(l).kind != 'list':
            return None
        vals = []
        for it in s.get(l).items:
            if not isinstance(it, Tup) or not isinstance(it.items[0], Const):
                return None
            if str(it.items[0].v).lower() == 'allow':
                v = it.items[1]
                if not isinstance(v, Const):
                    return None
                vals.append(v.v)
        if not vals:
            return 'missing'
        out = [y.strip() for x in vals for y in str(x).split(',') if y.strip()]
        return out
    return None


def outcome(eng, st, v):
    """('call', name) | ('error', status, ref) | None"""
    calls = [e.a[0].name for e in st.events() if e.kind == 'call' and isinstance(e.a[0], Sym) and e.a[0].name in ('h1', 'h2', 'h3', 'h9')]
    if len(calls) > 1:
        return ('calls', tuple(calls))
    if calls:
        return ('call', calls[0])
    ref = v.val if isinstance(v, Exc) else v
    if isinstance(ref, Ref) and st.get(ref) is not None:
        n = status_of(eng, st, ref)
        if n is not None:
            return ('error', n, ref)
    return None


def vague(st):
    return vague_state(st) or vague_facts(st)


def run(c):
    eng = c.eng
    tables(c, eng)
    noroute(c, eng)
    resolve(c, eng)


def tables(c, eng):
    for name, steps, table in SCEN:
        with c.section('dispatch', 60):
            pol = policy('route')
            st = start(eng, pol, 'ombott.ombott')
            st, app = default_app(eng, st)
            st = with_environ(st)
            where = 'table %s (%s)' % (name, ', '.join('%s %s' % (s[0], s[1]) for s in steps))
            for x in build(c, eng, st, app, steps, where):
                if x.ghost.get(RT, NONE) == NONE:
                    c.und('dispatch', where, 'the route is not stored through RadiDict.add')
                    continue
                for s, f in eng.getattr_(x, app, '_handle', NODE):
                    if isinstance(f, Exc):
                        continue
                    for y, v in eng.call(s, f, [ENVIRON], [], NODE):
                        c.paths += 1
                        judge(c, eng, y, v, table, where)


def judge(c, eng, y, v, table, where):
    o = outcome(eng, y, v)
    if o is not None and o[0] == 'error' and o[1] == 400:
        return          # the path is not valid UTF-8
    ms = [(m, feasible(y, m)) for m in REP]
    if any(f is None for _, f in ms):
        c.und('dispatch', where, 'facts about the method not understood')
        return
    for m, f in ms:
        if not f:
            continue
        want = expected(table, m)
        vg = vague(y)
        if o is None:
            c.und('dispatch', where, 'outcome %s' % (v,))
            continue
        if o[0] == 'calls':
            c.verdict(False, vg, 'dispatch', where, '%s calls the handlers %s' % (m, o[1]), y)
        elif o[0] == 'call':
            c.verdict(o[1] == want, vg, 'dispatch', where, 'method %s runs %s, expected %s' % (m, o[1], want or '405'), y)
        elif o[1] in (404, 405):
            if want is not None:
                c.verdict(False, vg, 'dispatch', where, 'method %s gives %s, expected handler %s' % (m, o[1], want), y)
                continue
            c.verdict(o[1] == 405, vg, '405', where, 'method %s gives %s on a route that matches, expected 405' % (m, o[1]), y)
            al = allow_of(eng, y, o[2])
            if o[1] != 405:
                continue
            if al is None:
                c.und('405', where, 'Allow not understood')
            else:
                c.verdict(al != 'missing' and sorted(al) == sorted(table), vg, '405', where + ' Allow', 'Allow is %s, the route has %s' % (al, sorted(table)), y)
        elif o[1] == 500:
            c.verdict(False, vg or 'error path', 'dispatch', where, 'method %s ends in 500' % m, y)
        else:
            c.verdict(False, vg, '405' if want is None else 'dispatch', where, 'method %s gives %s' % (m, o[1]), y)


def noroute(c, eng):
    for hooks in ('no hooks', 'hooks without a partial handler', 'unknown table'):
        with c.section('404', 60):
            pol = policy('none')

            def get(eng, st, fv, args, kw, node):
                st = st.fork()
                pv = st.alloc(Obj('list'), 'pv')
                hs = ()
                if hooks.startswith('hooks'):
                    h = st.alloc(Obj('list', items=(Sym('simplehook', 'callable'), NONE)), 'h')
                    hs = (st.alloc(Obj('list', items=(Const(0), h)), 'h2'),)
                hk = st.alloc(Obj('list', items=hs), 'hk')
                ex = st.alloc(Obj('dict', items=((Const('param_keys'), NONE), (Const('param_values'), pv), (Const('hooks'), hk))), 'extra')
                return [(st, Tup((NONE, ex)))]
            pol.opaque[GET] = get
            st = start(eng, pol, 'ombott.ombott')
            st, app = default_app(eng, st)
            st = with_environ(st)
            where = 'no route (%s)' % hooks
            states = [st]
            if hooks == 'unknown table':
                states = build(c, eng, st, app, [('add', 'GET', 'h1'), ('add', 'ANY', 'h2')], where)
            for x in states:
                for s, f in eng.getattr_(x, app, '_handle', NODE):
                    if isinstance(f, Exc):
                        continue
                    for y, v in eng.call(s, f, [ENVIRON], [], NODE):
                        c.paths += 1
                        o = outcome(eng, y, v)
                        if o is None:
                            c.und('404', where, 'outcome %s' % (v,))
                        elif o[0] == 'error' and o[1] in (400, 404):
                            c.ok('404', where)
                        elif o[0] == 'error' and o[1] == 500:
                            c.und('404', where, 'ends in 500')
                        else:
                            c.verdict(False, vague(y), '404', where, 'outcome %s, expected 404' % (o[:2],), y)


def resolve(c, eng):
    """RadiRouter.resolve called directly"""
    cands = [(('GET', 'ANY'), {'GET': 'h1', 'ANY': 'h2'}, 'h1'), (('ANY', 'GET'), {'GET': 'h1', 'ANY': 'h2'}, 'h2'),
             (('PUT', 'GET'), {'GET': 'h1'}, 'h1'), (('put', 'get'), {'GET': 'h1'}, 'h1'), (('PUT',), {'GET': 'h1', 'POST': 'h2'}, None),
             (('HEAD', 'GET', 'ANY'), {'ANY': 'h1', 'GET': 'h2'}, 'h2')]
    for ms, table, want in cands:
        with c.section('resolve', 60):
            pol = policy('route')
            st = start(eng, pol, 'ombott.ombott')
            st, app = default_app(eng, st)
            where = 'resolve(path, %s) with %s' % (list(ms), table)
            for x in build(c, eng, st, app, [('add', k, h) for k, h in table.items()], where):
                for s, r in eng.getattr_(x, app, 'router', NODE):
                    for s1, f in eng.getattr_(s, r, 'resolve', NODE):
                        s1 = s1.fork()
                        l = s1.alloc(Obj('list', items=tuple(Const(m) for m in ms)), 'ms')
                        for y, v in eng.call(s1, f, [Sym('path', 'str'), l], [], NODE):
                            c.paths += 1
                            items = eng.known_items(y, v) if not isinstance(v, Exc) else None
                            if items is None or len(items) != 2:
                                c.und('resolve', where, 'result %s' % (v,))
                                continue
                            ep, err = items
                            if want is None:
                                e = eng.known_items(y, err) if err != NONE else None
                                ok = ep == NONE and e is not None and e[0] == Const(405)
                                c.verdict(ok, vague(y), 'resolve', where, 'result %s, expected a 405 error' % (items,), y)
                                if ok and len(e) > 2 and isinstance(e[2], Const) and isinstance(e[2].v, str):
                                    c.verdict(sorted(z.strip() for z in e[2].v.split(',')) == sorted(table), vague(y), 'resolve', where + ' Allow', 'Allow is %s' % (e[2],), y)
                                continue
                            e = eng.known_items(y, ep) if ep != NONE else None
                            if not e:
                                c.verdict(ep != NONE, vague(y), 'resolve', where, 'result %s, expected handler %s' % (items, want), y)
                                continue
                            for z, h in eng.getattr_(y, e[0], 'handler', NODE):
                                c.verdict(isinstance(h, Sym) and h.name == want, vague(z) or vague_term(h) or (not isinstance(h, Sym) and 'handler'), 'resolve', where, 'handler %s, expected %s' % (h, want), z)
