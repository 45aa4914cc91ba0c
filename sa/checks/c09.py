"""C09: a response depends on its own request only, retained state is bounded."""
from ..serving import *

EXPLANATION = (
    'Abstract interpretation of whole requests: an application with handlers of every kind (echoing what they see, setting status, headers, cookies, '
    'forms, raw and JSON bodies, abort, raised responses, crash, no content) is built by an interpreted scene and serves every kind of request after '
    'every other kind, on one thread; status, headers, cookies and body (error pages included) are compared with those of an application that serves '
    'the request first.  For retention the objects reachable from modules and application are compared after equal requests, and no object that outlives '
    'a request may be raised as an exception (it would collect tracebacks with the frames of each request).')
RULES = {
    'own request': 'the response after other requests equals the response of a fresh application',
    'bounded': 'serving one more request leaves no more objects reachable',
    'fresh exception': 'an exception raised while serving was created by that request',
}
KINDS = ('echo', 'put', 'missing', 'wild', 'form', 'js', 'rich', 'richecho', 'stop', 'raised', 'crash', 'none', 'bad', 'big', 'broken', 'json404', 'head', 'keep', 'raw', 'method')


def history(c, w, first, ref):
    for kind in KINDS:
        with c.section('own request', 60):
            if kind not in ref:
                ref[kind] = w.answers(w.run('alone', kind, 'new'))
            w.same('own request', '%s after %s' % (kind, first), 'a %s request served after a %s request: ' % (kind, first), w.run('after', first, kind, 'new'), ref[kind])


def retained(c, w, kind):
    with c.section('bounded', 120):
        eng = w.eng
        sizes = []
        for s, app in w.run('setup', 'T'):
            st = s
            old = set()
            for n in range(5):
                known = set(st.heap) | set(eng.base_heap)
                raised = []
                plain = eng.exc

                def exc(x, val, node, *a):
                    if isinstance(val, Ref) and val.id in known:
                        raised.append((val, x, node))
                    return plain(x, val, node, *a)
                eng.exc = exc
                try:
                    r = w.run('ask', app, kind, 'q', st=st)
                finally:
                    eng.exc = plain
                c.paths += len(r)
                if len(r) != 1 or isinstance(r[0][1], Exc):
                    c.und('bounded', kind, '%d outcomes' % len(r))
                    return
                st = r[0][0]
                for val, x, node in raised:
                    o = x.get(val)
                    if o.kind == 'inst':
                        c.verdict(False, vague(x), 'fresh exception', kind, 'a %s request raises %s %s, which was there before the request' % (kind, getattr(o.cls, 'id', o.cls), val), x)
                c.ok('fresh exception', kind)
                sizes.append(len(w.reach(st, app)))
            c.verdict(sizes[-1] <= sizes[-2] or sizes[-2] <= sizes[-3], vague(st), 'bounded', kind, 'objects reachable after 1..5 %s requests: %s' % (kind, sizes), st)
            c.verdict(sizes[-1] <= sizes[1], vague(st), 'bounded', kind, 'objects reachable after 1..5 %s requests: %s' % (kind, sizes), st)


def run(c):
    eng = c.engine()
    ref = {}
    w = World(c, eng)
    c.spread([('h', k) for k in KINDS] + [('r', k) for k in KINDS], lambda j: history(c, w, j[1], ref) if j[0] == 'h' else retained(c, w, j[1]))
