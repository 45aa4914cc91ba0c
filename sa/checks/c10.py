"""C10: application objects in one process are independent of each other."""
from ..serving import *
from .c09 import KINDS

EXPLANATION = (
    'Abstract interpretation of whole requests to two applications and the module level one, built by an interpreted scene: every kind of request to one served from '
    'inside a handler of another (same thread and another thread), requests in turn, and applications, requests, responses and copies made inside a handler.  '
    'Everything the outer handler sees before and after, both responses, and the application the module level names point to are compared with undisturbed runs.  '
    'threading.local objects have attributes per thread.')
RULES = {
    'nested': 'a request served inside the handler of another application changes neither of them',
    'made': 'objects created, copied or configured inside a handler do not change what it sees',
    'turns': 'requests to several applications in turn are answered as by one application alone',
    'serving': 'the serving application is restored after a nested request',
}
MADE = ('app', 'filled', 'copy', 'copyset', 'copied', 'request', 'response', 'default', 'servedefault', 'error', 'setup', 'route')


def one(c, w, job):
    rule, a, b = job
    with c.section(rule, 60):
        if rule == 'nested':
            where = '%s%s' % (a, ' on another thread' if b else '')
            res = w.run('nested', a, b)
            want = w.answers(w.run('undisturbed')), w.answers(w.run('inside', a))
            if len(res) != 1 or isinstance(res[0][1], Exc):
                ok, sure = w.answers(res)
                c.verdict(False, 'outcomes' if len(res) != 1 or not sure else None, rule, where, 'a %s request inside a handler: %s' % (a, sorted(ok)[:2]), res[0][0] if res else None)
                return
            s, v = res[0]
            for k, item in enumerate(s.get(v).items):
                w.same(rule, where, 'a %s request to B served inside a handler of A: the answer of %s is ' % (a, 'AB'[k]), [(s, item)], want[k])
        elif rule == 'made':
            w.same(rule, a, 'with %s made inside the handler: ' % a, w.run('made', a), w.run('undisturbed'))
        elif rule == 'turns':
            w.same(rule, '%s %s' % (b, a), '%s requests to two applications in the order %s: ' % (a, b), w.run('turns', b, a), w.run('turn', int([x for x in b if x.isdigit()][-1]), a))
        else:
            for s, v in w.run('globals_after', a):
                c.paths += 1
                t = w.show(s, v)
                c.verdict(t == '(True, True)', vague(s) or (None if 'isin' not in t and '$' not in t else 'unknown parts'), rule, a, 'Globals.serving_app() is A before and after a nested %s request: %s' % (a, t), s)


def run(c):
    eng = c.engine()
    w = World(c, eng)
    jobs = [('nested', k, t) for k in KINDS for t in (0, 1)] + [('made', k, 0) for k in MADE]
    jobs += [('turns', k, o) for k in KINDS for o in ('01', '010', '0t1o0', '0t0o1', '001')]
    jobs += [('serving', k, 0) for k in KINDS]
    c.spread(jobs, lambda j: one(c, w, j))
