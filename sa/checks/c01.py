"""C01: route resolution equals the plain rule-by-rule semantics."""
import itertools
import time
from ..routing import *

EXPLANATION = (
    'Abstract interpretation of rule parsing, registration and RadiRouter.resolve.  The rule sets are enumerated (pairs, triples and '
    'larger sets from pools of literal, plain and filtered wildcard rules in every registration order and every rule syntax); the request '
    'path is a template: unknown pieces of any length and content (but for separators, or limited to the characters a filter reads) '
    'between constants.  For every such path the handler, the parameter names and the parameter terms computed by the code are compared '
    'with those of a plain matcher that is evaluated on the rule text.')
RULES = {
    'choice': 'the rule that has literal text at the first position where the matching rules differ answers; 404 only when no rule matches',
    'values': 'the parameters are the named wildcards of the rule, each with the text its filter accepts, converted by the filter',
    'filter': 'a path whose segment a filter rejects does not reach the handler',
    'names': 'a handler gets the wildcard names of the rule it was registered under, also when rules share a pattern',
    'syntax': 'every spelling of a rule resolves as the rule it spells',
    'total': 'no path makes the lookup raise',
    'end to end': 'the handler found is called with these parameters by the application',
}


def letters(rules):
    return set(''.join(r.lits() for r in rules)) | set(''.join(p[3] or '' for r in rules for p in r.parts if p[0] == 'wild'))


class Names:
    """fresh pieces for one rule set"""
    def __init__(self, rules):
        lit = letters(rules) | set('/\n')
        filt = {p[2] for r in rules for p in r.parts if p[0] == 'wild'}
        # characters no filter here accepts
        self.kw = dict(only=[ch for ch in 'uvz~\u00e9 \r' if ch not in lit]) if filt - {None, 'path'} else dict(excl=lit)
        self.made = {}

    def get(self, depth, k, kind='P'):
        key = '%s%d%s' % (kind, depth, 'abcdefgh'[k])
        if key not in self.made:
            self.made[key] = Piece(key, only=DIGITS) if kind in 'DE' else Piece(key, only='qs') if kind == 'R' else Piece(key, **self.kw)
        return self.made[key]


DIGITS = '0123456789'
# constants around what a filter accepts
NEAR = {'int': ['0', '-5', 'u5', '5u', '-', '--5', '5.5', '+5', ' 5', '007', '12345678901234567890'],
        'float': ['0', '-5.50', 'u5', '5.', '.5', '1.2.3', '5u', '-', '1e5', 'nan', '-.5', '0.0'],
        're': ['q', 'uq', 'qu', 'qsq'], 'path': ['a', 'a/a', 'u']}


def segment(names, depth, parts):
    """ways to fill one segment of a rule"""
    main, alt = [], []
    near = []
    for k, p in enumerate(parts):
        if p[0] == 'lit':
            main.append(p[1])
            alt.append(p[1])
        elif p[2] in ('int', 'float'):
            D, E = names.get(depth, k, 'D'), names.get(depth, k, 'E')
            main.append(D)
            alt += ['-', D] + (['.', E] if p[2] == 'float' else [])
        elif p[2] == 're':
            main.append(names.get(depth, k, 'R'))
            alt.append('q')
        elif p[2] == 'path':
            main.append(names.get(depth, k))
            alt += [names.get(depth, k), '/', names.get(depth, k + 1), *([p[3], names.get(depth, k + 2)] if p[3] else [])]
        else:
            main.append(names.get(depth, k))
            alt += ['\r', names.get(depth, k)]
    out = [tuple(main), tuple(alt)]
    for k, p in enumerate(parts):
        if p[0] == 'wild' and p[2] in NEAR:
            for t in NEAR[p[2]]:
                seg = []
                for j, q in enumerate(parts):
                    seg += [q[1]] if q[0] == 'lit' else [t] if j == k else [main[j]] if len(main) == len(parts) else []
                near.append(tuple(seg))
        if p[0] == 'wild' and p[2] is None:
            near.append(tuple(main[:k] + ['\r'] + main[k + 1:]))
        if p[0] == 'wild' and p[2] == 'path' and p[3]:
            near.append(tuple(['a' + p[3] + 'a'] + main[k + 1:]))
            near.append(tuple(main[:k + 1] + [p[3].replace('.', 'u')] + main[k + 1:]))
        if p[0] == 'lit' and '.' in p[1]:
            near.append(tuple(main[:k] + [p[1].replace('.', 'u')] + main[k + 1:]))
    if len(parts) > 1:
        near.append(tuple(x for x in main if isinstance(x, str)))
    return out, near


def paths(rules, limit):
    names = Names(rules)
    depth = max(r.text.count('/') for r in rules)
    whole, segs = [], [[] for _ in range(depth)]
    for r in rules:
        mains, alts, nears, parsed = [], [], [], []
        parts = r.text.split('/')[1:]
        for d, t in enumerate(parts):
            ps = Rule('/' + t).parts if not r.anon else RuleF('/' + t).parts
            for p in ps:
                if p[0] == 'wild' and p[2] == 'path' and p[3] is None and d + 1 < len(parts):
                    p[3] = '/' + re.match(r'[^<]*', parts[d + 1]).group()
            (m, a), near = segment(names, d, ps)
            mains.append(m)
            alts.append(a)
            nears.append(near)
            parsed.append(ps)
            segs[d] += [m, a] + near[:2]
            if all(p[0] == 'lit' for p in ps):
                L = ps[0][1] if ps else ''
                segs[d] += [(L, names.get(d, 1)), (names.get(d, 2), L)]
        def join(xs):
            return tuple(y for x in xs for y in ('/', *x))
        whole += [join(mains), join(alts)]
        for d, near in enumerate(nears):
            for n in near:
                whole.append(join(mains[:d] + [n] + mains[d + 1:]))
        confs = [p[3] for ps in parsed for p in ps if p[0] == 'wild' and p[2] == 'path' and p[3]]
        for t in confs:
            whole += [join(mains) + (t.replace('.', 'u'),), join(mains) + (t,), join(mains[:-1]) + ('/a', t.replace('.', 'u'))]
        whole += [join(mains) + ('/', names.get(depth, 0)), join(mains[:-1]), join(mains) + (names.get(depth, 1),)]
    for d in range(depth):
        segs[d].append((names.get(d, 3),))
        segs[d] = list(dict.fromkeys(segs[d]))
    got = []
    for n in range(1, depth + 1):
        for combo in itertools.product(*segs[:n]):
            got.append(tuple(y for x in combo for y in ('/', *x)))
    P = names.get(depth, 3)
    for p in got[:6]:
        got += [p + ('/', P), p + ('/',), ('/',) + p, p + ('/', '/', 'e'), p[:1] + ('\r',) + p[1:], p + ('\r',)]
    whole = [p for p in dict.fromkeys(whole) if p]
    got = [p for p in dict.fromkeys(got) if p not in whole]
    if len(got) > limit:
        step = len(got) / limit
        got = [got[int(k * step)] for k in range(limit)]
    return whole + got


def compare(c, w, st, rules, path, where, rule=None, method='GET', owner=None):
    """owner: rule -> (handler symbol, names)"""
    eng = c.eng
    st0, _ = w.path(st, path)
    want = plain(eng, st0, rules, path)
    if want[0] == '?':
        return
    c.paths += 1
    for s, a in w.resolve(st, path, method):
        vg = vague(eng, s)
        at = '%s %s' % (where, path_text(path)) if False else where
        det = 'path %s on {%s}: ' % (path_text(path), ', '.join(r.text for r in rules))
        if a[0] == '?':
            c.und(rule or 'choice', at, det + a[1])
            continue
        if a[0] == 'raise':
            c.verdict(False, vg, 'total', at, det + 'raises %s' % (a[1].val,), s)
            continue
        if want[0] == 'miss':
            c.verdict(a[0] == 'miss' and a[1] == 404, vg, rule or ('filter' if filtered(rules) else 'choice'), at, det + 'no rule matches, answered %s' % (a[:3],), s)
            continue
        r, vals = want[1], want[2]
        h, names = owner(r) if owner else (w.handler(r.text), r.names())
        if a[0] == 'miss':
            c.verdict(False, vg, rule or 'choice', at, det + '%s matches, answered %s' % (r.text, a[1]), s)
            continue
        c.verdict(a[1] == h, vg, rule or 'choice', at, det + 'expected %s, got %s' % (h, a[1]), s)
        if a[1] != h:
            continue
        exp = [(Const(n), v) for n, v in zip(names, vals) if n]
        have = [(k, norm_value(v)) for k, v in a[2]]
        bad = None if all(understood(v) for k, v in have) else 'values %s' % have
        c.verdict(dict(exp) == dict(have) and len(exp) == len(have), vg or bad, rule or 'values', at, det + 'expected %s, got %s' % (exp, have), s)


def filtered(rules):
    return any(p[0] == 'wild' and p[2] for r in rules for p in r.parts)


PLAIN = ['/a', '/ab', '/abc', '/a/b', '/a/bc', '/a/b/c', '/<x>', '/a/<x>', '/<x>/b', '/a/<x>/c', '/a/<x>/<y>', '/<x>/<y>', '/ab<x>', '/a/b<x>', '/a/<x>.d', '/<x>-<y>']
TRIPLES = [
    ['/a/b', '/a/<x>', '/a/<x>/c'], ['/a/b/c', '/a/<x>/d', '/<y>/b/e'], ['/a/b/c', '/<x>/b/d', '/<x>/<y>/e'], ['/abc', '/abd', '/ab<x>'],
    ['/a', '/ab', '/abc'], ['/<x>', '/a<x>', '/ab<x>'], ['/a/<x>', '/a/b', '/a/b<y>'], ['/a/<x>/c', '/a/b/d', '/a/<x>/d'],
    ['/<x>/<y>/<z>', '/a/<y>/c', '/a/b/<z>'], ['/<x>/c', '/a/<y>/d', '/a/b/e'], ['/a/<x>/b/<y>', '/a/<x>/c', '/a/b/b/c'],
    ['/<x>.a', '/<x>.b', '/<x>/c'], ['/a/<x>.d', '/a/<x>.e', '/a/<x>'], ['/a-<x>', '/a-b-<y>', '/a-b-c'],
]
QUADS = [
    ['/', '/a', '/<x>', '/a/<y>'], ['/a/b', '/a/<x>', '/<y>/b', '/<y>/<z>'], ['/a/b/c', '/a/b/<x>', '/a/<y>/c', '/<z>/b/c'],
    ['/ab/c', '/ab/d', '/ac/c', '/<x>/d'], ['/a/<x>/b', '/a/<x>/c', '/a/<x>', '/a'],
]
FILTERED = [
    ['/n/<i:int>', '/n/5'], ['/n/<i:int>', '/n/<i:int>x'], ['/n/<i:int>', '/<y>/e'], ['/<i:int>', '/a'], ['/<i:int>/b', '/<i:int>', '/a/b'],
    ['/n<i:int>', '/ne'], ['/f/<v:float>', '/f/a'], ['/f/<v:float>/e'], ['/r/<w:re:[qs]+>', '/r/a', '/r/<w:re:[qs]+>/e'],
    ['/r/<w:re:[qs]+>t', '/<y>/t'], ['/p/<p:path>/e', '/p/a'], ['/p/<p:path>'], ['/p/<p:path>.e', '/p/a/b'], ['/p/<p:path>.e<x>'], ['/p/<p:path>.e/<x>'], ['/n/<i:int>-<j:int>', '/n/<i:int>'],
    ['/n/<i:int>/<j:int>', '/n/<i:int>/a'], ['/<x>/<i:int>', '/a/5', '/a/<y>/e'], ['/a/<i:int>/b', '/a/<i:int>/c', '/<x>/7/d'],
    ['/r/<w:re:[qs]+>', '/t/<w:re:[tu]+>'], ['/r/<i:int>/<w:re:[qs]+>', '/t/<v:float>/<w:re:[u]+>'], ['/<i:int>/a', '/<i:int>/<v:float>'],
    ['/n/<i:int>.<w:re:[qs]+>', '/n/<i:int>.e'], ['/<x>/<i:int>', '/a/b'], ['/f/<v:float>', '/f/<v:float>-<u:float>'],
]
# text as registered -> the same rule in the form Rule reads
SYNTAX = [
    ('/a/:x', '/a/<x>'), ('/a/{x}', '/a/<x>'), ('/:x/b', '/<x>/b'), ('/a/{x}b', '/a/<x>b'), ('/a/<x>b', '/a/<x>b'), ('/{x}/{y}', '/<x>/<y>'), ('/:x/:y', '/<x>/<y>'),
    ('/n/<i.int()>', '/n/<i:int>'), ('/n/<i:int>', '/n/<i:int>'), ('/n/{i:int}', '/n/<i:int>'), ('/n/{i.int()}', '/n/<i:int>'),
    ('/n/<:int>', '/n/<:int>'), ('/n/<int()>', '/n/<:int>'), ('/n/<i.int>', '/n/<i:int>'), ('/f/<v.float()>e', '/f/<v:float>e'),
    ('/r/<w.re([qs]+)>', '/r/<w:re:[qs]+>'), ('/r/<w:re:[qs]+>', '/r/<w:re:[qs]+>'), ('/r/{w:re:[qs]+}e', '/r/<w:re:[qs]+>e'), ('/r/<w.re((q|s)+)>', '/r/<w:re:[qs]+>'),
    ('/r/<:re:[qs]+>', '/r/<:re:[qs]+>'), ('/p/<p.path()>', '/p/<p:path>'), ('/p/<p.path()>/e', '/p/<p:path>/e'), ('/p/{p:path}', '/p/<p:path>'), ('/p/<p.path()>e<x>', '/p/<p:path>e<x>'),
    ('/<:int>/<:re:[qs]+>/<y>', '/<:int>/<:re:[qs]+>/<y>'), ('/<:float>/<x>/<:int>', '/<:float>/<x>/<:int>'),
    ('/a/<x>/<:int>/<y>', '/a/<x>/<:int>/<y>'), ('/<:int>/<y>', '/<:int>/<y>'), ('/:x/<i.int()>', '/<x>/<i:int>'),
]
# rules over one pattern: (method, rule)
SHARED = [
    [('GET', '/a/<x>'), ('POST', '/a/<y>')], [('GET', '/a/<x>/<y>'), ('POST', '/a/<y>/<x>')], [('GET', '/n/<i:int>'), ('PUT', '/n/<k:int>')],
    [('GET', '/a/<x>'), ('POST', '/a/:z'), ('PUT', '/a/{w}')], [('GET', '/<:int>/<y>'), ('POST', '/<i:int>/<y>')],
]


# rules registered in turn -> what constant paths are answered: (index of the rule, values) or None
CONCRETE = [
    (['/r/<w.rex((q)s)>', '/t/<v.re((q)s)>'], {'/r/qs': (0, {'w': 'q'}), '/t/qs': (1, {'v': 'qs'}), '/r/q': None, '/t/q': None}),
    (['/t/<v.re((q)s)>', '/r/<w.rex((q)s)>'], {'/r/qs': (1, {'w': 'q'}), '/t/qs': (0, {'v': 'qs'})}),
    (['/a/<x.rex((foo)|(bar)|(baz))[1]>/z', '/a/<x.rex((foo)|(bar)|(baz))[2]>/z', '/a/<x.rex((foo)|(bar)|(baz))[3]>y'],
     {'/a/foo/z': (0, {'x': 'foo'}), '/a/bar/z': (1, {'x': 'bar'}), '/a/bazy': (2, {'x': 'baz'}), '/a/baz/z': None, '/a/foo/zz': None, '/a/fo/z': None, '/a/foo': None}),
    (['/a/<x.rex((foo)|(bar))[1]>', '/a/<x.rex((foo)|(bar))[2]>/<y>', '/a/foo/<y>', '/<u>/<v>/<w>'],
     {'/a/foo': (0, {'x': 'foo'}), '/a/bar/k': (1, {'x': 'bar', 'y': 'k'}), '/a/foo/k': (2, {'y': 'k'}), '/a/fo/k': (3, {'u': 'a', 'v': 'fo', 'w': 'k'}), '/a/bar': None}),
    (['/a/<x.rex((foo)|(bar))[1]>/q', '/<u>/<v>/<w>'], {'/a/foo/q': (0, {'x': 'foo'}), '/a/foo/kk': (1, {'u': 'a', 'v': 'foo', 'w': 'kk'})}),
    (['/p/<p.path()>.e<x>'], {'/p/a.ebue': (0, {'p': 'a', 'x': 'bue'}), '/p/a.eb.ec': (0, {'p': 'a.eb', 'x': 'c'}), '/p/a.e/b/c': None}),
    (['/p/<p:path>+e'], {'/p/a+e': (0, {'p': 'a'}), '/p/aae': None}),
    (['/<y>', '/é/<x>'], {'/é': (0, {'y': 'é'}), '/é/é': (1, {'x': 'é'}), '/e/é': None}),
    (['/a/<x>/c', '/a/<i:int>/d'], {'/a/5/c': (0, {'x': '5'})}),
    (['/a/<i:int>/d', '/a/b/<v:float>'], {'/a/5/d': (0, {'i': 5}), '/a/b/5': (1, {'v': 5.0}), '/a/b/d': None, '/a/b/5x': None}),
]
# one pattern, other filters: the second registration is refused, or keeps its filter
CLASH = [('/n/<i:int>', '/n/<i:float>'), ('/n/<i:int>', '/n/<i>'), ('/n/<i>', '/n/<i:int>'), ('/n/<i:re:[qs]+>', '/n/<i:re:[u]+>'), ('/n/<i:int>/e', '/n/<i>/e'), ('/n/<i>/e', '/n/<i:int>/e')]


class RuleF(Rule):
    """<:f> is anonymous"""
    anon = True

    def __init__(self, canon):
        canon = re.sub(r'<:', '<_:', canon)
        super().__init__(canon)
        for p in self.parts:
            if p[0] == 'wild' and p[1] == '_':
                p[1] = None
        self.text = canon


def run(c):
    eng = c.eng
    quick = c.tier == 'quick'
    sets = []
    for a, b in itertools.permutations(PLAIN, 2):
        sets.append(([a, b], 14 if quick else 60))
    for t in TRIPLES:
        for o in itertools.permutations(t):
            sets.append((list(o), 22 if quick else 200))
    for t in QUADS:
        for k, o in enumerate(itertools.permutations(t)):
            if not quick or k % 4 == 0:
                sets.append((list(o), 18 if quick else 120))
    for t in FILTERED:
        for o in itertools.permutations(t):
            sets.append((list(o), 30 if quick else 200))
    jobs = [(scenario, (c, eng, [Rule(t) for t in texts], texts, limit)) for texts, limit in sets]
    jobs += [(syntax, (c, eng, [x])) for x in SYNTAX]
    jobs += [(shared, (c, eng, [x])) for x in SHARED]
    jobs += [(concrete, (c, eng, [x])) for x in CONCRETE]
    jobs += [(clash, (c, eng, [x])) for x in CLASH]
    jobs += [(end_to_end, (c, eng, [x])) for x in REQUESTS]
    c.spread(jobs, lambda j: j[0](*j[1]))


def concrete(c, eng, todo):
    for texts, asked in todo:
        with c.section('choice', 20):
            w = World(c, eng)
            st = w.st
            for t in texts:
                res = w.add(st, t)
                if len(res) != 1:
                    c.und('choice', 'selectors', 'registration of %s' % t)
                    st = None
                    break
                if isinstance(res[0][1], Exc):
                    st = None           # refused
                    break
                st = res[0][0]
            if st is None:
                continue
            for path, want in asked.items():
                c.paths += 1
                for s, a in w.resolve(st, (path,)):
                    det = 'path %s on {%s}: ' % (path, ', '.join(texts))
                    if a[0] == '?':
                        c.und('choice', 'selectors', det + a[1])
                        continue
                    if want is None:
                        c.verdict(a[0] == 'miss', None, 'choice', 'selectors', det + 'no rule matches, answered %s' % (a[:3],), s)
                        continue
                    c.verdict(a[0] == 'hit' and a[1] == w.handler(texts[want[0]]) and {k.v: v for k, v in map(lambda kv: (kv[0], norm_value(kv[1])), a[2])} == {k: Const(v) for k, v in want[1].items()},
                              None, 'choice', 'selectors', det + 'expected %s %s, answered %s' % (texts[want[0]], want[1], a[:3]), s)


def clash(c, eng, todo):
    for first, second in todo:
        with c.section('filter', 20):
            w = World(c, eng)
            a, b = Rule(first), Rule(second)
            st = w.st
            for r, m in ((a, 'GET'), (b, 'POST')):
                res = w.add(st, r.text, method=m, handler=m)
                if len(res) != 1:
                    break
                st = res[0][0]
                refused = isinstance(res[0][1], Exc)
            if len(res) != 1:
                c.und('filter', 'one pattern, two filters', 'registration')
                continue
            for r, m in ((a, 'GET'),) if refused else ((a, 'GET'), (b, 'POST')):
                for p in paths([r], 6) + paths([a if r is b else b], 6):
                    compare(c, w, st, [r], p, 'one pattern, two filters', 'filter', method=m, owner=lambda q, m=m: (w.handler(m), q.names()))


def where_of(rules):
    return '%d rules%s' % (len(rules), ', filtered' if filtered(rules) else '')


def scenario(c, eng, rules, texts, limit, rule=None, owner=None):
    if any(a.same(b) or a.clash(b) for a, b in itertools.combinations(rules, 2)):
        return
    where = where_of(rules)
    with c.section(rule or 'choice', 20):
        w = World(c, eng)
        st = w.st
        for t in texts:
            res = w.add(st, t)
            live = [(s, v) for s, v in res if not isinstance(v, Exc)]
            if len(res) != 1 or not live:
                vg = 'registration has %d outcomes' % len(res) if len(res) != 1 else None
                c.verdict(False, vg, rule or 'choice', where, 'rule %s of {%s} is not registered: %s' % (t, ', '.join(texts), res[0][1] if res else None), res[0][0] if res else None)
                return
            st = live[0][0]
        for p in paths(rules, limit):
            compare(c, w, st, rules, p, where, rule, owner=owner)


def syntax(c, eng, todo):
    for text, canon in todo:
        r = RuleF(canon)
        scenario(c, eng, [r], [text], 20, 'syntax', owner=lambda q, text=text: (Sym('handler:' + text, 'func'), q.names()))


def shared(c, eng, todo):
    for regs in todo:
        with c.section('names', 20):
            w = World(c, eng)
            st = w.st
            bad = False
            for m, t in regs:
                res = w.add(st, t, method=m, handler=m + t)
                if len(res) != 1 or isinstance(res[0][1], Exc):
                    c.verdict(False, None if len(res) == 1 else 'outcomes', 'names', 'shared pattern', '%s %s is not registered' % (m, t), None)
                    bad = True
                    break
                st = res[0][0]
            if bad:
                continue
            for m, t in regs:
                r = RuleF(re.sub(r'\{(\w+)\}|(?<=/):(\w+)', r'<\1\2>', t))
                for p in paths([r], 6):
                    compare(c, w, st, [r], p, 'shared pattern', 'names', method=m, owner=lambda q, m=m, t=t: (Sym('handler:' + m + t, 'func'), q.names()))


ROUTES = [('GET', '/a/<x>/<i:int>'), ('GET', '/a/b'), ('POST', '/a/<y>'), ('GET', '/<x>/c'), ('GET', '/p/<p:path>'), ('ANY', '/q/<:int>/<z>')]
REQUESTS = [
    ('GET', '/a/b', 1, {}), ('GET', '/a/z/5', 0, {'x': 'z', 'i': 5}), ('GET', '/a/z/0', 0, {'x': 'z', 'i': 0}), ('GET', '/a/z/5z', None, 404), ('POST', '/a/b', None, 405), ('POST', '/a/z', 2, {'y': 'z'}),
    ('GET', '/z/c', 3, {'x': 'z'}), ('GET', '/p/a/b', 4, {'p': 'a/b'}), ('PUT', '/q/7/u', 5, {'z': 'u'}), ('GET', '/q/u/7', None, 404), ('GET', '/', None, 404),
    ('HEAD', '/a/b', 1, {}), ('GET', '/b/c/', 3, {'x': 'b'}), ('get', '/a/b', 1, {}),
]


def end_to_end(c, eng, todo):
    """the handler that is found gets its parameters from the application"""
    for method, path, k, want in todo:
        with c.section('end to end', 20):
            pol = Policy(join_at=10**9, peel=80)
            pol.excl = {Sym('no:piece'): frozenset()}
            st = start(eng, pol, 'ombott.ombott')
            st, app = default_app(eng, st)
            calls = []

            def call(eng, st, fv, args, kw, node):
                if isinstance(fv, Sym) and fv.name.startswith('handler:'):
                    st = st.fork()
                    st.ghost['calls'] = Tup(tuple(st.ghost['calls'].items) + (Tup((fv, Tup(args), Tup(Tup((Const(a), b)) for a, b in kw))),))
                    return [(st, Sym('answer', 'str'))]
                return None
            pol.call = call
            st = st.fork()
            st.ghost['calls'] = Tup(())
            ok = True
            for n, (m, t) in enumerate(ROUTES):
                res = models.each(eng.getattr_(st, app, 'add_route', NODE), lambda s, f: eng.call(s, f, [Const(t), Const(m), Sym('handler:%d' % n, 'func')], [], NODE))
                if len(res) != 1 or isinstance(res[0][1], Exc):
                    c.und('end to end', '_handle', 'registration of %s' % t)
                    ok = False
                    break
                st = res[0][0]
            if not ok:
                continue
            for key, v in (('PATH_INFO', path), ('REQUEST_METHOD', method)):
                st.learn(App('in', Const(key), ENVIRON), True)
                st.sto[(ENVIRON, 'i', Const(key))] = Const(v)
            res = models.each(eng.getattr_(st, app, '_handle', NODE), lambda s, f: eng.call(s, f, [ENVIRON], [], NODE))
            for s, v in res:
                c.paths += 1
                made = s.ghost['calls'].items
                where = '%s %s' % (method, path)
                if any(isinstance(t, Sym) and t.name.startswith('mu:') for x in s.truth for t in subterms(x)):
                    continue
                if isinstance(v, Exc):
                    c.und('end to end', where, 'raises %s' % (v.val,))
                    continue
                if k is None:
                    c.verdict(not made, None, 'end to end', where, 'a handler is called: %s' % (made,), s)
                    continue
                good = len(made) == 1 and made[0].items[0] == Sym('handler:%d' % k, 'func') and not made[0].items[1].items and \
                    {p.items[0].v: p.items[1] for p in made[0].items[2].items} == {a: Const(b) for a, b in want.items()}
                c.verdict(good, None, 'end to end', where, 'expected handler %d with %s, called: %s' % (k, want, made), s)
