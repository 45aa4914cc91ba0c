"""The multipart parser as a transition system: states are heap graphs, steps are chunks.

A state is what `MultipartMarkup` holds after some bytes; `feed` interprets `parse(chunk)` on it.  States are
compared as object graphs, so two histories that leave the same graph behave the same for ever after.
"""
from .rule import *
from .web import *
from .stream import byte, tokens, text, show

MOD = 'ombott.request_pkg.multipart'
SITES = ('list', 'dict', 'set', 'inst', 'gen', 'iter', 'cell')


class Parser:
    def __init__(self, c, eng, boundary, other=None):
        self.c, self.eng = c, eng
        self.pol = pol = Policy(join_at=10**9, peel=4000)
        pol.unroll = 4000
        pol.max_states = 200000
        pol.asserts = True
        self.st0 = start(eng, pol, MOD)
        # an unknown byte that is none of the bytes with a meaning
        pol.excl = {Sym('no:piece'): frozenset()}
        if other is not None:
            for b in other:
                pol.excl[b] = frozenset(bytes([x]) for x in {13, 10, 45} | set(boundary.encode()))
                self.st0.learn(App('truthy', b), True)
        self.ready = False
        cls = eng.lookup(MOD, 'MultipartMarkup')
        if cls is None:
            return
        r = eng.call(self.st0, cls, [Const(boundary)], [], NODE)
        if len(r) != 1 or isinstance(r[0][1], Exc) or not isinstance(r[0][1], Ref):
            return
        st, self.ref = r[0]
        self.start = self.pack(st)
        self.ready = True

    # ---- heap graphs
    def graph(self, st, v=None):
        """(canonical form, refs reached) of everything reachable from the parser object"""
        order, out, todo = {}, [], []

        def val(x):
            if isinstance(x, Ref):
                if x.id not in st.heap and self.eng.base_heap.get(x.id) is not None:
                    return ('base', x.id)
                o = st.get(x)
                if o is None or o.kind in ('frame', 'class', 'module'):
                    return ('code', x.id)
                if x.id not in order:
                    order[x.id] = len(order)
                    todo.append(x)
                return ('ref', order[x.id])
            if isinstance(x, Bound):
                return ('bound', val(x.func), val(x.self_))
            if isinstance(x, Func):
                return ('func', x.qual)
            if isinstance(x, Tup):
                return ('tup',) + tuple(val(i) for i in x.items)
            if isinstance(x, App):
                return ('app', x.op) + tuple(val(i) if isinstance(i, V) else i for i in x.args)
            if isinstance(x, V):
                return x
            if isinstance(x, tuple):
                return tuple(val(i) for i in x)
            return repr(x)
        root = val(v if v is not None else self.ref)
        while todo:
            x = todo.pop(0)
            o = st.get(x)
            attrs = tuple((k, val(o.attrs[k])) for k in sorted(o.attrs, key=str))
            meta = o.meta if isinstance(o.meta, (tuple, V)) else None
            out.append((o.kind, val(o.cls) if isinstance(o.cls, V) else repr(o.cls), tuple(val(i) for i in o.items), attrs, val(o.open) if isinstance(o.open, V) else None, val(meta) if meta is not None else None))
        return (root, tuple(out)), list(order)

    def pack(self, st):
        """the state without what is no longer reachable"""
        key, refs = self.graph(st)
        s = self.st0.fork()
        for i in refs:
            s.heap[i] = st.heap.get(i) or st.get(i)
        s.n = dict(st.n)
        s.sto, s.truth, s.lins, s.ghost, s.imp = st.sto, st.truth, st.lins, st.ghost, st.imp
        s.tr, s.eff = None, 0
        return key, s

    # ---- steps
    def feed(self, state, chunk):
        """[(key, st) | Exc] after parse(chunk); None when the step is not understood"""
        out = []
        for st, f in self.eng.getattr_(state.fork(), self.ref, 'parse', NODE):
            for s, v in self.eng.call(st, f, [chunk], [], NODE):
                if isinstance(v, Exc):
                    out.append((None, (s, v)))
                    continue
                out.append(self.pack(s))
        return out

    def result(self, st):
        """((section name, start, end)..., error class) as reported so far"""
        m = self.eng.getattr_(st, self.ref, 'markups', NODE)
        e = self.eng.getattr_(st, self.ref, 'error', NODE)
        if len(m) != 1 or len(e) != 1 or isinstance(m[0][1], Exc) or isinstance(e[0][1], Exc):
            return None
        err = e[0][1]
        cls = st.get(err).cls if isinstance(err, Ref) and st.get(err) is not None else err
        return self.graph(st, m[0][1])[0], repr(cls)
