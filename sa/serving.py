"""Whole requests served by applications that an interpreted scene builds (sa/scenes/serving.py), on one or several threads.

threading.local is modelled per thread: switching threads exchanges the attributes of every such object."""
import os
import re
from .stream import *
from .interp import Module
from .state import Obj


class Unread(Exception):
    pass


class World(Stream):
    def __init__(self, c, eng):
        super().__init__(c, eng, [], {}, None, False)
        self.pol.ext['vthread.switch'] = self.switch
        mine = dict(self.pol.meth)
        package_files(eng, self.pol)
        for n, f in mine.items():
            g = self.pol.meth[n]
            if g is not f:
                self.pol.meth[n] = lambda *a, f=f, g=g: f(*a) or g(*a)
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'scenes', 'serving.py')
        m = Module('scene', p, 'scene/serving.py')
        m.frame = 'mod:scene'
        eng.modules['scene'] = m
        eng.base_heap[m.frame] = Obj('frame', attrs={'__name__': Const('scene')}, meta=(None, m, 'scene', frozenset(), frozenset()))
        eng._exec_module(m)
        eng.policy = self.pol
        self.scene = eng.base_heap[m.frame].attrs
        self.pol.ext['builtins.hasattr'] = self.has
        self.pol.ext['builtins.getattr'] = self.fetch
        self.pol.ext['json.dumps'] = self.dumps
        eng.getattr_, self.plain = self.attribute, eng.getattr_
        eng.cond, self.truth = self.cond, eng.cond
        self.st.ghost['thread'] = 'one'
        self.pol.ext['http.cookies.SimpleCookie'] = lambda eng, st, args, kw, node: eng.call(st, self.scene['Jar'], list(args), kw, node)

    def is_local(self, st, v):
        o = st.get(v) if isinstance(v, Ref) else None
        return o is not None and o.kind == 'inst' and o.cls == Ext('threading.local')

    def has(self, eng, st, args, kw, node):
        if self.is_local(st, args[0]) and isinstance(args[1], Const):
            return [(st, Const(args[1].v in st.get(args[0]).attrs))]
        return None

    def fetch(self, eng, st, args, kw, node):
        if self.is_local(st, args[0]) and isinstance(args[1], Const):
            a = st.get(args[0]).attrs
            if args[1].v in a or len(args) > 2:
                return [(st, a.get(args[1].v, args[-1]))]
        return None

    def attribute(self, st, v, name, node, *a, **kw):
        if self.is_local(st, v) and name not in st.get(v).attrs and not name.startswith('__'):
            s = st.fork()
            return [(s, self.eng.mkexc(s, 'AttributeError', node))]
        return self.plain(st, v, name, node, *a, **kw)

    def cond(self, st, v):
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'inst' and o.cls == self.scene.get('Jar') and isinstance(o.attrs.get('all'), Ref):
                return self.truth(st, o.attrs['all'])
        return self.truth(st, v)

    def dumps(self, eng, st, args, kw, node):
        o = st.get(args[0]) if isinstance(args[0], Ref) else None
        if o is not None and o.kind == 'dict' and o.open is None and all(isinstance(x, Const) and isinstance(y, Const) for x, y in o.items) and not kw:
            import json
            return [(st, Const(json.dumps({x.v: y.v for x, y in o.items})))]
        return None

    def switch(self, eng, st, args, kw, node):
        st = st.fork()
        now, to = st.ghost['thread'], args[0].v
        st.ghost['thread'] = to
        ids = set(st.heap) | set(eng.base_heap)
        for i in ids:
            o = st.get(i)
            if o is not None and o.kind == 'inst' and o.cls == Ext('threading.local'):
                st.ghost['tls', now, i] = tuple(sorted(o.attrs.items()))
                st.put(i, o.copy(attrs=dict(st.ghost.get(('tls', to, i), ()))))
        return [(st, NONE)]

    def run(self, name, *args, st=None):
        """[(state, value|Exc)] of a scene function"""
        args = [Const(a) if isinstance(a, (str, bytes, int)) or a is None else a for a in args]
        self.eng.policy = self.pol
        return self.eng.call((st or self.st).fork(), self.scene[name], args, [], NODE)

    def read(self, st, v):
        """list of str/bytes/tuples a client got"""
        o = st.get(v) if isinstance(v, Ref) else None
        if o is not None and o.kind == 'list' or isinstance(v, Tup):
            return tuple(self.read(st, x) for x in (v.items if isinstance(v, Tup) else o.items))
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Ref):
            raise Unread(str(v))
        return v

    def show(self, st, v):
        if isinstance(v, Exc):
            return 'raises %s' % (v,)
        try:
            return repr(self.read(st, v))
        except Unread as e:
            return 'unread %s' % e

    # ---- comparisons
    def answers(self, res):
        """canonical texts of the outcomes of a run, and whether they are free of unknowns"""
        out, sure = set(), True
        for st, v in res:
            t = self.show(st, v)
            if vague(st) or 'unread' in t or '$ret' in t or '$exc' in t:
                sure = False
            out.add(re.sub(r'[#@]\d+', '', t))
        return out, sure and len(res) == 1

    def same(self, rule, where, det, res, ref, st=None):
        """the outcomes equal those of the reference"""
        c = self.c
        got, sure = self.answers(res)
        want, sure2 = self.answers(ref) if not isinstance(ref, tuple) else ref
        c.paths += len(res)
        if not res or not want:
            c.und(rule, where, det + 'no outcome')
            return
        c.verdict(got == want, None if sure and sure2 else 'unknown parts', rule, where, det + diff(sorted(got)[0], sorted(want)[0]), (st or res[0][0]))

    def reach(self, st, *roots):
        """ids of the objects reachable from the modules and the roots"""
        todo = [i for i in list(self.eng.base_heap) if str(i).startswith('mod:')] + [r.id for r in roots]
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            o = st.get(i)
            if o is None:
                continue
            seen.add(i)
            vals = list(o.attrs.values()) if o.attrs else []
            for x in o.items or ():
                vals += list(x) if isinstance(x, tuple) else [x]
            if o.meta and o.kind == 'class':
                vals += [m for m in o.meta if isinstance(m, (Ref, Tup))] if isinstance(o.meta, tuple) else []
            for v in vals:
                stack = [v]
                while stack:
                    x = stack.pop()
                    if isinstance(x, Ref):
                        todo.append(x.id)
                    elif isinstance(x, App):
                        stack.extend(x.args)
                    elif isinstance(x, Tup):
                        stack.extend(x.items)
                    elif isinstance(x, Bound):
                        stack += [x.func, x.self_]
                    elif isinstance(x, Func):
                        todo.append(x.frame)
                        stack += [d for d in (x.defaults or ())] if isinstance(x.defaults, (tuple, list)) else [x.defaults]
        return seen


def diff(a, b):
    """where two texts part"""
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    k = max(0, k - 40)
    return '...%s instead of ...%s' % (a[k:k + 160], b[k:k + 160])
