"""C19: the URL built from matched parameters leads back to the same match."""
import itertools
from ..routing import *
from . import c01

EXPLANATION = (
    'Abstract interpretation of rule parsing, Route.url and the router.  Rules are enumerated (literals and wildcards with every filter in '
    'every neighbourhood, anonymous wildcards).  The parameter assignments are those a plain matcher gives for path templates (unknown pieces '
    'between constants); Route.url is interpreted on them, its result is compared with the literals and values in their order and is given back '
    'to resolve of a router that holds only this rule.')
RULES = {
    'built': 'building the URL from parameters the rule has matched does not fail',
    'literals': 'the literal parts of the rule stand in the built URL verbatim, in order, around the values',
    'same rule': 'the rule matches the URL it has built',
    'same values': 'the URL matches with the parameter values it was built from',
}

UNITS = ['/a', '/<x>', '/a/<x>', '/<x>/a', '/<x>/<y>', '/a<x>', '/a/b<x>', '/a/<x>/b', '/a/<x>/bc/<y>', '/a/<x>/bc/<y>/def', '/<x>/<y>/<z>', '/a-<x>/b.c/<y>', '/abc/d<x>/<y>/e',
         '/<x>/a/<y>/b/<z>/c', '/a/b/c', '/', '/é/<x>', '/a b/<x>', '/%41+b/<x>/.d-/<y>/%', '/x.*/[y]/<z>', '/a/<x>/']
INT = ['/n/<i:int>', '/<i:int>', '/n<i:int>', '/n/<i:int>e', '/n/<i:int>/e', '/<i:int>/<j:int>', '/<i:int>-<j:int>', '/<i:int>.<x>', '/<x>/<i:int>', '/n/<i:int>/<x>/e', '/a/<i:int>b<j:int>c', '/<i:int>u<x>/<j:int>']
FLOAT = ['/f/<v:float>', '/f/<v:float>e', '/<v:float>/<u:float>', '/<v:float>/a/<x>', '/<x>/<v:float>', '/f<v:float>/e/<i:int>', '/<i:int>/<v:float>']
RE = ['/r/<w:re:[qs]+>', '/r/<w:re:[qs]+>t', '/<w:re:[qs]+>/<x>', '/<w:re:[qs]+><x>', '/r/<w:re:q|s>/e', '/a/<w:re:[qs]+>b<v:re:[tu]+>', '/<w:re:[qs]+><v:re:[tu]+>', '/r/<w:re:[qs]{2}><v:re:[qs]+>', '/<i:int><w:re:[qs]+>', '/<w:re:[qs]+><i:int>/e',
      '/r/<w.re((q|s)+)>e']
PATH = ['/p/<p:path>', '/p/<p:path>/e', '/p/<p:path>.e', '/p/<p:path>.e<x>', '/<x>/<p:path>', '/<p:path>/e/<x>', '/p/<i:int>/<p:path>-e', '/p/<p:path>e/<w:re:[qs]+>']
ANON = ['/<:int>', '/a/<:int>/b', '/<:int>/<x>', '/<x>/<:int>', '/<:int>/<x>/<:int>', '/<:re:[qs]+>/<x>', '/<:re:[qs]+><:int>', '/<x>/<:re:[qs]+>/<y>/<:int>/<z>', '/<:float>/a/<:int>', '/p/<:path>/e', '/<:int>/<:re:[qs]+>/<:float>e']
SYNTAX = [('/a/:x', '/a/<x>'), ('/:x/b/:y', '/<x>/b/<y>'), ('/a/{x}b', '/a/<x>b'), ('/n/<i.int()>e', '/n/<i:int>e'), ('/p/<p.path()>e<x>', '/p/<p:path>e<x>')]
CONSTS = {'int': ['0', '-0', '5', '-5', '007', '-012', '90071992547409931234'],
          'float': ['0', '-0', '5', '5.5', '-5.50', '007.10', '0.0000001', '-0.00001', '123456789012345678901234567890', '1234567.1234567', '1' + '0' * 400, '-1' + '0' * 400, '0.' + '0' * 330 + '1', '0.1'],
          're': ['q', 's', 'qq', 'qsq', 'sss'], 'path': ['a', 'a/a', 'a.e', 'a/e/a', '.', 'u'], None: ['u', '\r', '7', 'é', '-', '.', '%2F', 'u v', '<u>', ':u', '{u}', '\n', '*', 'anon-0', '5.5', 'q']}


def filled(rule):
    """constant paths: one wildcard varies at a time, the others hold a plain value; all at once too"""
    wild = [k for k, p in enumerate(rule.parts) if p[0] == 'wild']
    base = {k: CONSTS[rule.parts[k][2]][-1 if rule.parts[k][2] not in ('int', 'float') else 2] for k in wild}
    picks = [base]
    for k in wild:
        for t in CONSTS[rule.parts[k][2]]:
            picks.append({**base, k: t})
    for n in range(4):
        picks.append({k: CONSTS[rule.parts[k][2]][(n + i) % len(CONSTS[rule.parts[k][2]])] for i, k in enumerate(wild)})
    seen = set()
    for pick in picks:
        t = '/' + ''.join(p[1] if p[0] == 'lit' else pick[k] for k, p in enumerate(rule.parts))
        if t not in seen:
            seen.add(t)
            yield (t,)


def canon(v):
    """int(str(int(x))) is int(x)"""
    v = norm_value(v)
    if isinstance(v, App) and v.op in ('int', 'float') and len(v.args) == 1:
        x = v.args[0]
        if isinstance(x, App) and x.op == 'str' and isinstance(x.args[0], App) and x.args[0].op == v.op:
            return canon(x.args[0])
    return v


def same(a, b):
    a, b = canon(a), canon(b)
    if isinstance(a, Const) and isinstance(b, Const):
        return type(a.v) is type(b.v) and repr(a.v).replace('-0.0', '0.0') == repr(b.v).replace('-0.0', '0.0') if isinstance(a.v, float) else type(a.v) is type(b.v) and a.v == b.v
    return a == b


def texts(rule, vals):
    """the pieces of the built URL that are known: constants for literals, terms for text values, None for converted ones"""
    out, k = [], 0
    for p in rule.parts:
        if p[0] == 'lit':
            out.append(Const(p[1]))
        else:
            out.append(vals[k] if p[2] not in ('int', 'float') else None)
            k += 1
    return out


def in_order(rule, vals, text):
    """a constant URL: literals and text values around converted values"""
    at = 0
    rx = ''
    for t in texts(rule, vals):
        rx += '(?s:.+)' if t is None else re.escape(t.v)
    return re.fullmatch(rx, text) is not None


def one_rule(c, eng, text, canonical, group, limit):
    rule = c01.RuleF(canonical)
    with c.section('built', 60):
        w = World(c, eng)
        res = w.add(w.st, text)
        if len(res) != 1 or isinstance(res[0][1], Exc):
            c.und('built', group, 'registration of %s' % text)
            return
        st, route = res[0]
        paths = list(filled(rule)) + (c01.paths([rule], limit) if rule.parts else [])
        for p in paths:
            trip(c, w, st, route, rule, text, p, group)


def declare(w, st, v):
    """str(int(digits)) is a text of digits"""
    if isinstance(v, App) and v.op == 'int':
        x = v.args[0]
        if w.pol.only.get(x) is not None and set(w.pol.only[x]) <= set('0123456789'):
            t = App('str', v)
            w.pol.only[t] = frozenset('0123456789')
            w.pol.excl[t] = frozenset()
            st.add_lin(lin_sub(App('len', t), Const(1)))
            st.learn(App('truthy', t), True)
            return True
    return False


def trip(c, w, st, route, rule, text, path, group):
    eng = w.eng
    st, _ = w.path(st, path)
    ps = pieces_of(path)
    if ps is None:
        vals = [] if not rule.parts else None
    else:
        vals = plain_match(eng, st, rule, ps)
    if vals is None or vals == '?':
        return
    for v in vals:
        declare(w, st, v)
        if isinstance(v, App) and v.op in ('int', 'float') and App('str', v) not in w.pol.only:
            return      # converted texts are followed for constants and for unknown digits
    args = [v for n, v in zip(rule.names(), vals) if n is None]
    kw = [(Const(n), v) for n, v in zip(rule.names(), vals) if n]
    c.paths += 1
    det = '%s, path %s, values %s: ' % (text, path_text(path)[:80], [str(v)[:40] for v in vals])
    for s, u in models.each(eng.getattr_(st, route, 'url', NODE), lambda x, f: eng.call(x, f, args, [(k.v, v) for k, v in kw], NODE)):
        vg = vague(eng, s)
        if isinstance(u, Exc):
            c.verdict(False, vg or ('converted value' if not all(isinstance(v, Const) or understood(v) and not isinstance(v, App) for v in vals) else None), 'built', group, det + 'url() raises %s' % (u.val,), s)
            continue
        c.ok('built', group)
        if isinstance(u, Const) and isinstance(u.v, str) and all(isinstance(v, Const) for v in vals):
            c.verdict(in_order(rule, vals, u.v), vg, 'literals', group, det + 'built %r' % u.v, s)
            back = u
        else:
            want = []
            for t, v in zip(texts(rule, vals), fill(rule, vals)):
                want.append(t if t is not None else Const(str(v.v)) if isinstance(v, Const) and 'e' not in str(v.v) else App('str', v))
            exp = models.concat(want, '') if want else Const('')
            known = all(isinstance(v, Const) and not (isinstance(v.v, float) and 'e' in str(v.v)) or understood(v) and not (isinstance(v, App) and v.op == 'float') for v in vals)
            c.verdict(u == exp, vg or (None if known and readable(u) else 'converted value'), 'literals', group, det + 'built %s, expected %s' % (u, exp), s)
            back = u
        if isinstance(back, Const) and not isinstance(back.v, str):
            c.bad('built', group, det + 'built %r' % (back.v,), s)
            continue
        resolve_back(c, w, s, back, rule, vals, text, det, group)


def readable(u):
    for t in subterms(u):
        if isinstance(t, Sym) and not t.name.startswith('path:'):
            return False
        if isinstance(t, App) and t.op not in ('concat', 'str', 'int', 'slice', 'len', 'item'):
            return False
    return True


def fill(rule, vals):
    k = 0
    for p in rule.parts:
        if p[0] == 'lit':
            yield None
        else:
            yield vals[k]
            k += 1


def resolve_back(c, w, s, url, rule, vals, text, det, group):
    eng = w.eng
    det += 'built %s, ' % (str(url)[:100],)
    for s2, v in w.call(s, 'resolve', url, Const('GET')):
        a = w.answer(s2, v)
        vg = vague(eng, s2)
        if a[0] == '?':
            c.und('same rule', group, det + a[1])
            continue
        if a[0] == 'raise':
            c.verdict(False, vg, 'same rule', group, det + 'resolve raises %s' % (a[1].val,), s2)
            continue
        c.verdict(a[0] == 'hit' and a[1] == w.handler(text), vg or (None if readable(url) else 'converted value'), 'same rule', group, det + 'answered %s' % (a[:2],), s2)
        if a[0] != 'hit':
            continue
        have = dict(a[2])
        named = {Const(n): v for n, v in zip(rule.names(), vals) if n}
        bad = None if all(understood(norm_value(v)) or readable(v) for v in have.values()) and readable(url) else 'values'
        c.verdict(set(have) == set(named) and all(same(have[k], named[k]) for k in have), vg or bad, 'same values', group, det + 'matched again as %s' % (have,), s2)
        for e in anonymous(w, s2, url, rule, vals):
            c.verdict(e is True, vg or bad or (None if e is False else e), 'same values', group, det + 'an anonymous value differs', s2)


def anonymous(w, s, url, rule, vals):
    """values of anonymous wildcards, read from the tree lookup"""
    if all(rule.names()):
        return
    eng = w.eng
    path = models.call_method(eng, s, url, 'strip', [Const('/')], [], NODE) if hasattr(models, 'call_method') else [(s, url)]
    for s1, p in path:
        for s2, g in models.each(eng.getattr_(s1, w.router, 'radidict', NODE), lambda x, rd: models.each(eng.getattr_(x, rd, 'get', NODE), lambda y, f: eng.call(y, f, [p], [], NODE))):
            its = g.items if isinstance(g, Tup) else None
            if its is None or len(its) != 2 or not isinstance(its[1], Ref) or s2.get(its[1]).kind != 'dict':
                yield 'lookup'
                continue
            vs = dict(s2.get(its[1]).items).get(Const('param_values'))
            have = eng.known_items(s2, vs) if isinstance(vs, Ref) else None
            if have is None:
                yield 'lookup'
                continue
            yield len(have) == len(vals) and all(same(a, b) for a, b in zip(have, vals))


def run(c):
    eng = c.engine()
    limit = 12 if c.tier == 'quick' else 60
    jobs = []
    for name, texts_ in (('plain', UNITS), ('int', INT), ('float', FLOAT), ('re', RE), ('path', PATH), ('anonymous', ANON)):
        for t in texts_:
            jobs.append((one_rule, (c, eng, t, t.replace('.re((q|s)+)', ':re:[qs]+'), name, limit)))
    for t, k in SYNTAX:
        jobs.append((one_rule, (c, eng, t, k, 'syntax', limit)))
    c.spread(jobs, lambda j: j[0](*j[1]))
