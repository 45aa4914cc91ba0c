"""C08: concurrent requests on one application never see each other."""
from ..serving import *
from .c09 import KINDS

EXPLANATION = (
    'Abstract interpretation of two requests to one application on two threads (threading.local objects have attributes per thread; the application and its handlers are built '
    'by an interpreted scene).  Before every single statement that the first request executes, in the framework and in handlers, a fork of the abstract state serves the second '
    'request on the other thread and continues; both answers (status, headers, cookies, body, and what the handlers saw) are compared with those of the request served alone.')
RULES = {
    'first': 'the interrupted request is answered as if alone, whichever statement it is interrupted before',
    'second': 'the interrupting request is answered as if alone',
}
FIRST = ('put', 'form', 'rich', 'stop', 'raised', 'crash', 'js', 'missing', 'method', 'raw', 'json404', 'none', 'echo', 'head', 'bad', 'big', 'wild')
SECOND = ('rich', 'raised', 'big', 'missing', 'js', 'method', 'crash', 'none', 'wild', 'bad')


class Interrupt:
    """serve a request on another thread before the k-th statement of thread one"""
    def __init__(self, w, app, kind, at):
        self.w, self.app, self.kind, self.at, self.eng = w, app, kind, at, w.eng

    def __enter__(self):
        self.plain = self.eng.stmt
        self.eng.stmt = self.stmt
        return self

    def __exit__(self, *a):
        self.eng.stmt = self.plain

    def stmt(self, s, st):
        g = st.ghost
        if g.get('thread') != 'one' or g.get('armed') is None:
            return self.plain(s, st)
        n = g['armed'] + 1
        st = st.fork()
        st.ghost['armed'] = n
        if n != self.at:
            return self.plain(s, st)
        eng = self.eng
        st.ghost['where'] = '%s (line %s)' % (eng.active[-1] if eng.active and isinstance(eng.active[-1], str) else '', getattr(s, 'lineno', '?'))
        keep = eng.handlers, eng.active, eng.yields
        eng.handlers, eng.active, eng.yields = [], [], []
        try:
            res = eng.call(st, self.w.scene['second'], [self.app, Const(self.kind), Const('other')], [], NODE)
        finally:
            eng.handlers, eng.active, eng.yields = keep
        out = []
        for x, v in res:
            x.ghost['second'] = (v,)
            if isinstance(v, Exc):
                x.ghost['thread'] = 'one'
            x.frame = st.frame
            out += self.plain(s, x)
        return out


def pair(c, w, job):
    a, b, part, parts, warm = job
    with c.section('first', 200):
        eng = w.eng
        for s, app in w.run('setup', 'T'):
            if warm:        # the other thread has served before
                for s, _ in w.run('second', app, 'put', 'warm', st=s):
                    pass
            s = s.fork()
            s.ghost['armed'] = 0
            alone = w.run('ask', app, a, 'mine', st=s)
            total = alone[0][0].ghost['armed'] if len(alone) == 1 else 0
            with Interrupt(w, app, b, None) as i:
                alone = w.run('ask', app, a, 'mine', st=s)
                total = max([x.ghost['armed'] for x, _ in alone] or [0])
            want = w.answers(alone)
            want2 = w.answers(w.run('alone', b, 'other'))
            if total < 10:
                c.und('first', '%s, %s' % (a, b), '%d statements' % total)
                return
            for k in range(1 + part, total + 1, parts):
                with Interrupt(w, app, b, k):
                    res = w.run('ask', app, a, 'mine', st=s)
                at = res[0][0].ghost.get('where') if res else '?'
                det = 'a %s request interrupted before statement %d %s by a %s request on another thread: ' % (a, k, at, b)
                w.same('first', a, det + 'its answer is ', res, want)
                sec = [(x, x.ghost['second'][0]) for x, _ in res if 'second' in x.ghost]
                if sec:
                    w.same('second', b, det + 'the answer to the latter is ', sec, want2)


def run(c):
    eng = c.engine()
    w = World(c, eng)
    n = 4
    jobs = []
    for i, a in enumerate(FIRST):
        bs = SECOND if c.tier != 'quick' else [SECOND[(i + j) % len(SECOND)] for j in (0,)]
        for b in dict.fromkeys(bs):
            jobs += [(a, b, p, n, (i + p) % 2) for p in range(n)]
    c.spread(jobs, lambda j: pair(c, w, j))
