"""Abstract values (value-numbered terms) and path facts.

All values are immutable and compare structurally, so two expressions that
compute the same thing from the same inputs are the same term, however the
source spells them.
"""
from __future__ import annotations
from time import monotonic


class V:
    __slots__ = ('_h',)

    def _key(self):
        raise NotImplementedError

    def __eq__(self, other):
        return self is other or (type(self) is type(other) and self._h == other._h and self._key() == other._key())

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self._h


class Const(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        try:
            self._h = hash(('C', type(v).__name__, v))
        except TypeError:
            self._h = hash(('C', type(v).__name__, repr(v)))

    def _key(self):
        return (type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(('T', self.items))

    def _key(self):
        return self.items

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Sym(V):
    """An unknown input.  `ty` is a type name or None; `info` is free-form."""
    __slots__ = ('name', 'ty', 'info')

    def __init__(self, name, ty=None, info=None):
        self.name, self.ty, self.info = name, ty, info
        self._h = hash(('S', name))

    def _key(self):
        return self.name

    def __repr__(self):
        return '$' + self.name


class App(V):
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash(('A', op, args))

    def _key(self):
        return (self.op, self.args)

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Lin(V):
    """Integer-linear term: const + sum(coef * atom); never a bare atom/const."""
    __slots__ = ('const', 'terms')

    def __init__(self, const, terms):
        self.const, self.terms = const, terms
        self._h = hash(('L', const, terms))

    def _key(self):
        return (self.const, self.terms)

    def __repr__(self):
        s = ''
        for a, c in self.terms:
            s += (' + ' if c > 0 else ' - ') + ('' if abs(c) == 1 else '%s*' % abs(c)) + repr(a)
        if self.const:
            s += ' %s %s' % ('+' if self.const > 0 else '-', abs(self.const))
        return '(' + s.strip(' +') + ')'


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id
        self._h = hash(('R', id))

    def _key(self):
        return self.id

    def __repr__(self):
        return '&%s' % (self.id,)


class Func(V):
    __slots__ = ('node', 'mod', 'frame', 'defaults', 'kwdefaults', 'qual', 'cls')

    def __init__(self, node, mod, frame, defaults, kwdefaults, qual, cls=None):
        self.node, self.mod, self.frame = node, mod, frame
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls
        self._h = hash(('F', id(node), frame))

    def _key(self):
        return (id(self.node), self.frame, self.defaults)

    def __repr__(self):
        return '<func %s>' % self.qual


class Ext(V):
    """Something outside the repository, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self._h = hash(('X', name))

    def _key(self):
        return self.name

    def __repr__(self):
        return '<%s>' % self.name


class Bound(V):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_
        self._h = hash(('B', func, self_))

    def _key(self):
        return (self.func, self.self_)

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class Meth(V):
    """A method (by name) of a value whose class is not in the repository."""
    __slots__ = ('self_', 'name')

    def __init__(self, self_, name):
        self.self_, self.name = self_, name
        self._h = hash(('M', self_, name))

    def _key(self):
        return (self.self_, self.name)

    def __repr__(self):
        return '%r.%s' % (self.self_, self.name)


class Wrap(V):
    """property / staticmethod / classmethod / partial and friends."""
    __slots__ = ('kind', 'args', 'kw')

    def __init__(self, kind, *args, kw=()):
        self.kind, self.args, self.kw = kind, args, tuple(kw)
        self._h = hash(('W', kind, args, self.kw))

    def _key(self):
        return (self.kind, self.args, self.kw)

    def __repr__(self):
        return '<%s %s>' % (self.kind, ', '.join(map(repr, self.args)))


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)
EMPTY = Const('')


def C(v):
    return Const(v)


# ------------------------------------------------------------------ linear
def lin_parts(v):
    """(const, {atom: coef}) of an integer-like value."""
    if isinstance(v, Const) and isinstance(v.v, (int, bool)):
        return int(v.v), {}
    if isinstance(v, Lin):
        return v.const, dict(v.terms)
    return 0, {v: 1}


_lin_order = {}


def _ord(a):
    r = _lin_order.get(a)
    if r is None:
        r = _lin_order[a] = repr(a)
    return r


def mk_lin(const, terms):
    terms = {a: c for a, c in terms.items() if c}
    if not terms:
        return Const(const)
    if const == 0 and len(terms) == 1:
        (a, c), = terms.items()
        if c == 1:
            return a
    return Lin(const, tuple(sorted(terms.items(), key=lambda p: _ord(p[0]))))


def lin_add(a, b, k=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    ta = dict(ta)
    for t, c in tb.items():
        ta[t] = ta.get(t, 0) + k * c
    return mk_lin(ca + k * cb, ta)


def lin_sub(a, b):
    return lin_add(a, b, -1)


def lin_scale(a, k):
    c, t = lin_parts(a)
    return mk_lin(c * k, {x: y * k for x, y in t.items()})


# ------------------------------------------------------------------ traversal
def subterms(v, seen=None):
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, App):
            stack.extend(x.args)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, Lin):
            stack.extend(a for a, _ in x.terms)
        elif isinstance(x, Bound):
            stack += [x.func, x.self_]
        elif isinstance(x, Meth):
            stack.append(x.self_)
        elif isinstance(x, Wrap):
            stack.extend(a for a in x.args)
            stack.extend(b for _, b in x.kw)


def len_of(v):
    """len(v), through operations that keep the length"""
    while isinstance(v, App):
        if v.op == 'replace' and len(v.args) == 3 and all(isinstance(a, Const) and isinstance(a.v, (str, bytes)) for a in v.args[1:]) \
                and len(v.args[1].v) == len(v.args[2].v) == 1:
            v = v.args[0]
        elif v.op in ('decode', 'encode') and v.args[1:] and v.args[1] == Const('latin1') and v.args[2:] in ((), (Const('strict'),)):
            v = v.args[0]
        else:
            break
    if isinstance(v, Sym) and v.name.startswith('byte:'):
        return Const(1)
    return App('len', v)


def contains(v, pred):
    return any(pred(x) for x in subterms(v))


def subst(v, m):
    """Replace terms by terms."""
    if v in m:
        return m[v]
    if isinstance(v, App):
        a = tuple(subst(x, m) if isinstance(x, V) else x for x in v.args)
        return v if a == v.args else App(v.op, *a)
    if isinstance(v, Tup):
        a = tuple(subst(x, m) for x in v.items)
        return v if a == v.items else Tup(a)
    if isinstance(v, Lin):
        r = Const(v.const)
        for a, c in v.terms:
            r = lin_add(r, lin_scale(subst(a, m), c))
        return r
    return v


# ------------------------------------------------------------------ entailment
def _norm(const, terms):
    """Tighten const + sum >= 0 over the integers."""
    from math import gcd
    g = 0
    for c in terms.values():
        g = gcd(g, abs(c))
    if g > 1:
        terms = {a: c // g for a, c in terms.items()}
        const = const // g          # floor: valid for integers
    return const, terms


DEADLINE = None         # give up (soundly) after this moment


def infeasible(ineqs, limit=400):
    """Fourier-Motzkin: True when the conjunction of `expr >= 0` has no
    integer solution (sound: True is definite, False is 'not shown')."""
    cur = set()
    for const, terms in ineqs:
        const, terms = _norm(const, {a: c for a, c in terms.items() if c})
        if not terms:
            if const < 0:
                return True
            continue
        cur.add((const, tuple(sorted(terms.items(), key=lambda p: _ord(p[0])))))
    while cur:
        # keep strongest per direction
        best = {}
        for const, t in cur:
            if t not in best or const < best[t]:
                best[t] = const
        cur = {(c, t) for t, c in best.items()}
        for t, c in best.items():
            neg = tuple((a, -k) for a, k in t)
            if neg in best and best[neg] + c < 0:
                return True
        if DEADLINE is not None and monotonic() > DEADLINE:
            return False
        # choose variable with the fewest combinations
        occ = {}
        for const, t in cur:
            for a, k in t:
                p = occ.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not occ:
            return False
        var = min(occ, key=lambda a: (occ[a][0] * occ[a][1] - occ[a][0] - occ[a][1], _ord(a)))
        pos, neg, rest = [], [], set()
        for const, t in cur:
            k = dict(t).get(var, 0)
            if k > 0:
                pos.append((const, dict(t), k))
            elif k < 0:
                neg.append((const, dict(t), -k))
            else:
                rest.add((const, t))
        for c1, t1, k1 in pos:
            for c2, t2, k2 in neg:
                terms = {}
                for a, k in t1.items():
                    terms[a] = terms.get(a, 0) + k * k2
                for a, k in t2.items():
                    terms[a] = terms.get(a, 0) + k * k1
                terms = {a: k for a, k in terms.items() if k}
                const, terms = _norm(c1 * k2 + c2 * k1, terms)
                if not terms:
                    if const < 0:
                        return True
                    continue
                rest.add((const, tuple(sorted(terms.items(), key=lambda p: _ord(p[0])))))
        if len(rest) > limit:
            return False
        cur = rest
    return False


def atom_bounds(a):
    """Facts every atom carries by construction."""
    if isinstance(a, App):
        if a.op in ('len', 'count', 'abs'):
            return [(0, {a: 1})]
        if a.op == 'find':
            out = [(1, {a: 1})]
            return out
        if a.op == 'idx':        # loop index
            return [(0, {a: 1})]
        if a.op == 'ge0' or a.op in BOOL_OPS:
            return [(0, {a: 1}), (1, {a: -1})]
    if isinstance(a, Sym) and a.ty == 'nat':
        return [(0, {a: 1})]
    if isinstance(a, Sym) and a.ty == 'pos':
        return [(-1, {a: 1})]
    if isinstance(a, Sym) and a.ty == 'byte':
        return [(0, {a: 1}), (255, {a: -1})]
    return []


BOOL_OPS = {'eq', 'ge0', 'in', 'truthy', 'isnone', 'is', 'not', 'startswith', 'endswith',
            'isinst', 'hasattr', 'lt', 'callable', 'isdigit', 'all', 'any', 'issub', 'bool', 'isnum', 'cmp'}


def relevant(ineqs, atoms):
    """Inequalities connected with `atoms`."""
    atoms = set(atoms)
    todo = list(ineqs)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for const, terms in todo:
            if atoms & terms.keys() or not terms:
                out.append((const, terms))
                if not terms.keys() <= atoms:
                    atoms |= terms.keys()
                    changed = True
            else:
                rest.append((const, terms))
        todo = rest
    for a in atoms:
        out.extend(atom_bounds(a))
    return out
