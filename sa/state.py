"""Abstract state: heap, stores on opaque bases, path facts, event trace."""
from __future__ import annotations
from .terms import *


class Obj:
    """Heap object.  kind: inst list dict set frame class module iter gen cell
    items: list/set -> tuple of V (App('star', m) = any number of unknowns)
           dict     -> tuple of (key, value); `open` = term for unknown rest or None
    """
    __slots__ = ('kind', 'cls', 'items', 'attrs', 'meta', 'open', '_d')

    def __init__(self, kind, cls=None, items=(), attrs=None, meta=None, open=None):
        self.kind, self.cls, self.items = kind, cls, items
        self.attrs = attrs if attrs is not None else {}
        self.meta, self.open = meta, open
        self._d = None

    def digest(self):
        d = self._d
        if d is None:
            d = self._d = hash((self.kind, self.cls, self.items, frozenset(self.attrs.items()), self.open,
                                self.meta if self.kind != 'class' else id(self.meta)))
        return d

    def copy(self, **kw):
        o = Obj(self.kind, self.cls, self.items, self.attrs, self.meta, self.open)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.cls == o.cls and self.items == o.items
                             and self.open == o.open and self.attrs == o.attrs and self.meta == o.meta)


class Ev:
    """One observable step on a path."""
    __slots__ = ('kind', 'node', 'mod', 'fn', 'a', 'res', 'st')

    def __init__(self, kind, node, mod, fn, a, res=None):
        self.kind, self.node, self.mod, self.fn, self.a, self.res = kind, node, mod, fn, a, res
        self.st = None          # state at the event, when the policy asks for it

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        return '%s:%s (%s)' % (self.mod.path if self.mod else '?', self.line, self.fn)

    def __repr__(self):
        return 'Ev(%s %s%s @%s)' % (self.kind, self.a, '' if self.res is None else ' -> %r' % (self.res,), self.line)


QUIET = {'branch', 'enter', 'leave'}


class State:
    __slots__ = ('eng', 'heap', 'sto', 'truth', 'lins', 'ghost', 'tr', 'frame', 'n', 'imp', 'eff')

    def __init__(self, eng):
        self.eng = eng
        self.heap, self.sto, self.truth, self.ghost, self.n = {}, {}, {}, {}, {}
        self.lins = ()
        self.tr = None
        self.frame = None
        self.imp = frozenset()
        self.eff = 0

    def fork(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.heap = dict(self.heap)
        s.sto = dict(self.sto)
        s.truth = dict(self.truth)
        s.lins = self.lins
        s.ghost = dict(self.ghost)
        s.n = dict(self.n)
        s.tr, s.frame, s.imp, s.eff = self.tr, self.frame, self.imp, self.eff
        return s

    # -------------------------------------------------------------- heap
    def get(self, ref):
        i = ref.id if isinstance(ref, Ref) else ref
        o = self.heap.get(i)
        return o if o is not None else self.eng.base_heap.get(i)

    def put(self, ref, obj):
        self.heap[ref.id if isinstance(ref, Ref) else ref] = obj

    def fresh(self, stem):
        if self.eng.loading:
            self.eng.load_n += 1
            return '%s!%d' % (stem, self.eng.load_n)
        k = self.n.get(stem, 0) + 1
        self.n[stem] = k
        return '%s#%d' % (stem, k)

    def alloc(self, obj, site):
        r = Ref(self.fresh(site))
        self.put(r, obj)
        return r

    def setattr_raw(self, ref, name, v):
        o = self.get(ref)
        a = dict(o.attrs)
        a[name] = v
        self.put(ref, o.copy(attrs=a))

    # -------------------------------------------------------------- trace
    def emit(self, ev):
        self.tr = (self.tr, ev)
        if ev.kind not in QUIET:
            self.eff = hash((self.eff, ev.kind, id(ev.node), ev.a if ev.kind != 'loop' else id(ev), ev.res))

    def digest(self):
        return hash((frozenset([(k, o.digest()) for k, o in self.heap.items()]),
                     frozenset(self.sto.items()), frozenset(self.ghost.items())))

    def events(self):
        out = []
        t = self.tr
        while t is not None:
            t, e = t
            out.append(e)
        out.reverse()
        return out

    def note(self, why):
        self.imp = self.imp | {why}

    # -------------------------------------------------------------- facts
    def entails(self, v):
        """v >= 0 follows from the path facts."""
        const, terms = lin_parts(v)
        if not terms:
            return const >= 0
        neg = (-const - 1, {a: -c for a, c in terms.items()})
        return infeasible(relevant(self.lins, terms.keys()) + [neg])

    def entails_eq(self, a, b):
        d = lin_sub(a, b)
        if isinstance(d, Const):
            return d.v == 0
        return self.entails(d) and self.entails(lin_scale(d, -1))

    def refutes_ge0(self, v):
        const, terms = lin_parts(v)
        if not terms:
            return const < 0
        return infeasible(relevant(self.lins, terms.keys()) + [(const, terms)])

    def add_lin(self, v):
        """Record v >= 0; False when contradictory."""
        const, terms = lin_parts(v)
        if not terms:
            return const >= 0
        if infeasible(relevant(self.lins, terms.keys()) + [(const, terms)]):
            return False
        it = (const, terms)
        if it not in self.lins:
            self.lins = self.lins + (it,)
        return True

    def known(self, t):
        """Truth value of boolean term t if the facts settle it."""
        r = self.truth.get(t)
        if r is not None:
            return r
        if isinstance(t, Const):
            return bool(t.v)
        if not isinstance(t, App):
            return None
        op = t.op
        if op == 'not':
            r = self.known(t.args[0])
            return None if r is None else not r
        if op == 'ge0':
            if self.entails(t.args[0]):
                return True
            if self.refutes_ge0(t.args[0]):
                return False
            return None
        if op == 'eq':
            a, b = t.args
            if a == b:
                return True
            if isinstance(a, Const) and isinstance(b, Const):
                try:
                    return a.v == b.v
                except Exception:
                    return None
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Const):
                    if y.v is not None and self.truth.get(App('isnone', x)):
                        return False
                    if y.v is None:
                        return self.known(App('isnone', x))
                    for f, val in self.truth.items():
                        if val and f.op == 'eq' and x in f.args:
                            o = f.args[1] if f.args[0] == x else f.args[0]
                            if isinstance(o, Const) and not (o.v == y.v and type(o.v) == type(y.v)):
                                return False
                    ty = self.eng.type_of(self, x)
                    if ty is not None and ty != type(y.v).__name__ and {ty, type(y.v).__name__} & {'str', 'bytes', 'none'}:
                        return False
            return None
        if op == 'isnone':
            x = t.args[0]
            if isinstance(x, Const):
                return x.v is None
            if isinstance(x, (Ref, Func, Bound, Meth, Tup, Lin, Ext, Wrap)):
                return False
            if self.eng.type_of(self, x) not in (None, 'none'):
                return False
            if self.truth.get(App('truthy', x)):
                return False
            for f, val in self.truth.items():
                if val and f.op == 'eq' and x in f.args:
                    o = f.args[1] if f.args[0] == x else f.args[0]
                    if isinstance(o, Const) and o.v is not None:
                        return False
            return None
        if op == 'truthy':
            x = t.args[0]
            if self.truth.get(App('isnone', x)):
                return False
            return None
        if op == 'in':
            x, c = t.args
            return None
        if op == 'startswith':
            x, p = t.args
            if p == EMPTY or p == Const(b'') or x == p:
                return True
            if isinstance(x, Const) and isinstance(p, Const):
                try:
                    return x.v.startswith(p.v)
                except Exception:
                    return None
            if isinstance(x, App) and x.op == 'concat':
                pp = p.args if isinstance(p, App) and p.op == 'concat' else (p,)
                n = 0
                for i, q in enumerate(pp):
                    if i < len(x.args) and x.args[i] == q:
                        n += 1
                    elif i < len(x.args) and isinstance(q, Const) and isinstance(x.args[i], Const) and i == len(pp) - 1:
                        if x.args[i].v.startswith(q.v):
                            return True
                        if not q.v.startswith(x.args[i].v):
                            return False
                        break
                    else:
                        break
                if n == len(pp):
                    return True
        return None

    def learn(self, t, val):
        """Record a boolean term; False if contradictory."""
        if isinstance(t, Const):
            return bool(t.v) == val
        if t.op == 'not':
            return self.learn(t.args[0], not val)
        k = self.known(t)
        if k is not None:
            return k == val
        if t.op == 'ge0':
            v = t.args[0]
            return self.add_lin(v if val else lin_sub(lin_scale(v, -1), Const(1)))
        self.truth[t] = val
        # consequences
        if t.op == 'truthy' and val:
            self.truth[App('isnone', t.args[0])] = False
        if t.op == 'isnone' and val:
            self.truth[App('truthy', t.args[0])] = False
        if t.op == 'in':
            f = App('find', t.args[1], t.args[0])
            return self.add_lin(f if val else lin_sub(Const(-1), f))
        return True
