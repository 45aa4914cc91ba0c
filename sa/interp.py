"""Path-sensitive abstract interpreter for the Python subset the repository uses.

* one abstract state per control-flow path (trace partitioning);
* repository functions are inlined, everything else goes through models.py or
  becomes an opaque term plus a 'call' event;
* loops over unknown data are solved by fixpoint: locations that change are
  replaced by loop-head unknowns (discrete flag values keep one head state
  each), affine equalities between them are inferred, and the loop is exposed
  to the rules as head states / transitions / exits;
* generators consumed by `for` are inlined at the consumer.
Nothing of the analysed program is executed.
"""
from __future__ import annotations
import binascii
import json
import pickle
import ast
import builtins
import os
import time
from fractions import Fraction
from .terms import *
from .state import Obj, Ev, State
from . import models
from . import templ


class Limit(Exception):
    """Analysis budget exceeded: the rule is undecided."""


class Exc:
    __slots__ = ('val', 'node', 'fn', 'mod')

    def __init__(self, val, node=None, fn=None, mod=None):
        self.val, self.node, self.fn, self.mod = val, node, fn, mod

    def __repr__(self):
        return 'Exc(%r@%s)' % (self.val, getattr(self.node, 'lineno', 0))


def mangle_tree(tree):
    """Private names (__x) as the compiler spells them."""
    def go(node, cls):
        for f, val in ast.iter_fields(node):
            for ch in val if isinstance(val, list) else [val]:
                if not isinstance(ch, ast.AST):
                    continue
                c2 = cls
                if isinstance(ch, ast.ClassDef):
                    # decorators and bases belong outside
                    for x in ch.decorator_list + ch.bases:
                        fix(x, cls)
                        go(x, cls)
                    for x in ch.body:
                        fix(x, ch.name)
                        go(x, ch.name)
                    continue
                fix(ch, c2)
                go(ch, c2)

    def fix(n, cls):
        if cls is None:
            return
        for a in ('id', 'attr', 'name', 'arg'):
            v = getattr(n, a, None)
            if isinstance(v, str) and v.startswith('__') and not v.endswith('__') and isinstance(n, (ast.Name, ast.Attribute, ast.FunctionDef, ast.arg)):
                setattr(n, a, '_%s%s' % (cls.lstrip('_'), v))
    go(tree, None)
    return tree


class Module:
    def __init__(self, name, path, rel):
        self.name, self.file, self.path = name, path, rel
        with open(path, encoding='utf8') as f:
            self.src = f.read()
        self.tree = mangle_tree(ast.parse(self.src))
        self.frame = None
        self.done = False
        self.pkg = name if path.endswith('__init__.py') else name.rpartition('.')[0]


class LoopRec:
    def __init__(self, node, mod, fn, name):
        self.node, self.mod, self.fn, self.name = node, mod, fn, name
        self.entry = None       # state at loop entry
        self.heads = []         # [(key, head_state)]
        self.back = []          # [(head_key, head_state, back_state)]
        self.exits = []         # [(head_key, state, flow)]
        self.mus = {}           # loc -> Mu sym
        self.init = {}          # loc -> entry value
        self.invs = []          # Lin == 0
        self.iterable = None


class Policy:
    """Per-rule analysis options."""
    max_states = 4000
    max_depth = 40
    raise_all = False           # fork exceptional edges even without a handler
    asserts = False             # follow failing asserts
    unroll = 64
    join_at = 6
    peel = 0
    houdini = False
    unknown_raises = False      # unknown calls may raise when a handler is active

    def __init__(self, **kw):
        self.opaque = {}        # qual -> True | callable(eng, st, fv, args, kw, node)
        self.ext = {}           # ext dotted name -> callable(eng, st, args, kw, node)
        self.meth = {}          # method name -> callable(eng, st, self, args, kw, node)
        self.intercept = None   # callable(eng, st, fv, args, kw, node) -> results or None, before a repo function is entered
        self.call = None        # callable(eng, st, fv, args, kw, node) for unknown callees
        self.raises = None      # callable(eng, st, fv, name) -> list of exc values for unknown callees
        self.on_yield = None
        self.only = {}         # Sym -> the only characters it may hold
        self.excl = {}          # Sym -> characters this text does not hold (template strings, templ.py)
        self.snap = None        # callable(Ev) -> keep the state at this event
        for k, v in kw.items():
            setattr(self, k, v)


def each(res, fn):
    out = []
    for st, v in res:
        if isinstance(v, Exc):
            out.append((st, v))
        else:
            out.extend(fn(st, v))
    return out


class Engine:
    def __init__(self, root, package='ombott'):
        self.root, self.package = root, package
        self.base_heap = {}
        self.base_sto = {}
        import http.client
        self.base_heap['std:http.client.responses'] = Obj('dict', items=tuple(
            (Const(int(k)), Const(v)) for k, v in http.client.responses.items()))
        self.load_n = 0
        self.load_notes = []
        self.modules = {}
        self.policy = Policy()
        self.handlers = []          # dynamic stack of active try handlers
        self.active = []            # inlining stack (func nodes)
        self.yields = []            # stack of (frame id, handler)
        self.analysed = set()       # quals of repo functions interpreted
        self.steps = 0
        self.loading = False
        self._flow_cache = {}
        self._selfattrs = {}

    # ================================================================ modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        p = self.modpath(name)
        if p is None:
            return None
        if '.' in name:
            self.module(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, p, os.path.relpath(p, self.root))
        self.modules[name] = m
        fid = 'mod:' + name
        m.frame = fid
        self.base_heap[fid] = Obj('frame', attrs={'__name__': Const(name)}, meta=(None, m, name, frozenset(), frozenset()))
        self._exec_module(m)
        return m

    def _exec_module(self, m):
        outer = (self.policy, self.handlers, self.active, self.yields, self.loading)
        self.policy, self.handlers, self.active, self.yields = Policy(max_states=600, unroll=500), [], [], []
        self.loading = True
        try:
            for stmt in m.tree.body:
                st = State(self)
                st.frame = m.frame
                try:
                    res = self.stmt(stmt, st)
                except Limit:
                    res = []
                res = [r for r in res if r[1] is None]
                if len(res) != 1:
                    self.load_notes.append((m.path, stmt.lineno, len(res)))
                if not res:
                    self._bind_opaque(stmt, m)
                    continue
                s = res[0][0]
                for k, o in s.heap.items():
                    self.base_heap[k] = o
                self.base_sto.update(s.sto)
        finally:
            self.policy, self.handlers, self.active, self.yields, self.loading = outer
        m.done = True


    def _bind_opaque(self, stmt, m):
        o = self.base_heap[m.frame]
        a = dict(o.attrs)
        for n in ast.walk(stmt):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                a.setdefault(n.id, Sym('global:%s.%s' % (m.name, n.id)))
        self.base_heap[m.frame] = o.copy(attrs=a)

    def load_all(self):
        pkg = os.path.join(self.root, self.package)
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.module(rel)

    def lookup(self, modname, dotted):
        """Value of module attribute path, e.g. ('ombott.response', 'BaseResponse.copy'); None if absent."""
        m = self.module(modname)
        if m is None:
            return None
        st = self.new_state()
        parts = dotted.split('.')
        v = self.base_heap[m.frame].attrs.get(parts[0])
        for p in parts[1:]:
            if not isinstance(v, Ref):
                return None
            o = st.get(v)
            if o is None or o.kind != 'class':
                return None
            v, _ = self.class_attr(st, v, p)
            if v is None:
                return None
        return v

    def new_state(self):
        st = State(self)
        st.n = {}
        st.sto = dict(self.base_sto)
        return st

    def new_frame(self, st, mod, qual, vars=None, parent=None, g=frozenset(), nl=frozenset()):
        r = st.alloc(Obj('frame', attrs=dict(vars or {}), meta=(parent, mod, qual, g, nl)), 'frame:' + qual)
        return r.id

    # ================================================================ helpers
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('step budget')
        if self.deadline is not None and not self.steps & 7 and time.monotonic() > self.deadline:
            raise Limit('time budget')

    max_steps = 30_000_000
    deadline = None

    def ctx(self, st):
        o = st.get(st.frame)
        return (o.meta[1], o.meta[2]) if o else (None, '?')

    def event(self, st, kind, node, a, res=None):
        mod, fn = self.ctx(st)
        ev = Ev(kind, node, mod, fn, a, res)
        if self.policy.snap is not None and self.policy.snap(ev):
            ev.st = st.fork()
        st.emit(ev)
        return ev

    def exc(self, st, val, node):
        mod, fn = self.ctx(st)
        return Exc(val, node, fn, mod)

    def mkexc(self, st, name, node, *args):
        return self.exc(st, App('exc', Ext('builtins.' + name), *args), node)

    def exc_class(self, st, val):
        if isinstance(val, App) and val.op == 'exc':
            return val.args[0]
        if isinstance(val, Ref):
            o = st.get(val)
            if o.kind == 'class':
                return val
            return o.cls
        if isinstance(val, Ext):
            return val
        if isinstance(val, Sym) and isinstance(val.info, V):
            return App('sub', val.info)     # some subclass of info
        return None

    def builtin_class(self, ext):
        n = ext.name
        if n.startswith('builtins.'):
            c = getattr(builtins, n[9:], None)
            return c if isinstance(c, type) else None
        return {'binascii.Error': binascii.Error, 'json.JSONDecodeError': json.JSONDecodeError, 'json.decoder.JSONDecodeError': json.JSONDecodeError,
                'pickle.PickleError': pickle.PickleError, 'pickle.UnpicklingError': pickle.UnpicklingError}.get(n)

    def exc_match(self, st, have, want):
        """True / False / None: does exception class `have` match handler class `want`."""
        if want is None:
            return True
        if have is None:
            if isinstance(want, Ext) and want.name == 'builtins.BaseException':
                return True
            return None
        if isinstance(want, Tup):
            r = [self.exc_match(st, have, w) for w in want.items]
            if True in r:
                return True
            return None if None in r else False
        some_sub = False
        if isinstance(have, App) and have.op == 'sub':
            some_sub, have = True, have.args[0]
        sup = self.supers(st, have)
        if want in sup:
            return True
        if isinstance(want, Ext):
            wc = self.builtin_class(want)
            for s in sup:
                if isinstance(s, Ext):
                    sc = self.builtin_class(s)
                    if sc and wc and issubclass(sc, wc):
                        return True
                    if sc is None or wc is None:
                        return None
        if some_sub:
            # a subclass of `have` may or may not be a `want`
            if have in self.supers(st, want):
                return None
            if isinstance(have, Ext):
                hc = self.builtin_class(have)
                for w in self.supers(st, want):
                    if isinstance(w, Ext):
                        wc = self.builtin_class(w)
                        if hc and wc and issubclass(wc, hc):
                            return None
            return False
        return False

    def supers(self, st, c):
        if isinstance(c, Ref):
            return self.mro(st, c)
        return [c]

    def mro(self, st, c):
        out = []

        def go(x):
            if x in out:
                out.remove(x)
            out.append(x)
            if isinstance(x, Ref):
                for b in st.get(x).meta['bases']:
                    go(b)
        go(c)
        return out

    def class_attr(self, st, c, name):
        """(value, defining class) through the MRO, repository classes only."""
        for k in self.mro(st, c):
            if isinstance(k, Ref):
                a = st.get(k).attrs
                if name in a:
                    return a[name], k
        return None, None

    def self_attrs(self, st, c):
        """Names assigned on `self` (or declared in __slots__) anywhere in the class."""
        r = self._selfattrs.get(c)
        if r is None:
            r = set()
            for k in self.mro(st, c):
                if not isinstance(k, Ref):
                    continue
                for n in ast.walk(st.get(k).meta['node']):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        r.add(n.attr)
                sl = st.get(k).attrs.get('__slots__')
                for x in (self.known_items(st, sl) or []) if sl is not None else []:
                    if isinstance(x, Const):
                        r.add(x.v)
            self._selfattrs[c] = r
        return r

    def ext_base(self, st, c):
        for k in self.mro(st, c):
            if isinstance(k, Ext):
                return k
        return None

    def class_name(self, st, c):
        if isinstance(c, Ref):
            return st.get(c).meta['qual']
        return getattr(c, 'name', repr(c))

    def can_catch(self, st, cls):
        """Some active handler may see an exception of class `cls`."""
        if self.policy.raise_all:
            return True
        for hs in self.handlers:
            if hs == 'finally':
                return True
            for h in hs:
                if self.exc_match(st, cls, h) is not False:
                    return True
        return False

    # ------------------------------------------------------------ types
    def type_of(self, st, v):
        if isinstance(v, Const):
            return {'NoneType': 'none'}.get(type(v.v).__name__, type(v.v).__name__)
        if isinstance(v, Lin):
            return 'int'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Sym):
            if v.ty is not None:
                return {'nat': 'int', 'byte': 'int', 'pos': 'int'}.get(v.ty, v.ty)
        elif isinstance(v, App):
            t = models.APP_TYPES.get(v.op)
            if t is not None:
                if callable(t):
                    t = t(self, st, v)
                if t is not None:
                    return t
            if v.op == 'attr' and v.args[1] in (Const('st_size'), Const('st_mtime_ns'), Const('st_mode')):
                return 'int'
        elif isinstance(v, Ref):
            o = st.get(v)
            return o.kind if o is not None else None
        elif isinstance(v, Ext):
            return models.EXT_TYPES.get(v.name)
        elif isinstance(v, (Func, Bound, Meth, Wrap)):
            return 'callable'
        if st is not None and isinstance(v, (Sym, App)):
            for t in ('str', 'bytes', 'int', 'dict', 'list', 'bool', 'tuple'):
                if st.truth.get(App('isinst', v, t)):
                    return t
        return None

    # ------------------------------------------------------------ truth
    def cond(self, st, v):
        """Boolean term for the truth of value v (or Const)."""
        if isinstance(v, Const):
            return TRUE if v.v else FALSE
        if isinstance(v, App) and v.op in BOOL_OPS:
            return v
        if isinstance(v, Tup):
            return Const(len(v.items) > 0)
        if isinstance(v, (Func, Bound, Meth, Ext, Wrap)) or isinstance(v, App) and v.op == 'code':
            return TRUE
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ('list', 'set', 'dict'):
                if any(not self.is_star(x) for x in o.items):
                    return TRUE
                if o.open is None and not o.items:
                    return FALSE
                return App('ge0', lin_sub(App('len', v), Const(1)))
            if o.kind == 'inst' and o.cls is not None:
                for nm in ('__bool__', '__len__'):
                    f, _ = self.class_attr(st, o.cls, nm) if isinstance(o.cls, Ref) else (None, None)
                    if f is not None:
                        return App('truthy', v)
                if isinstance(o.cls, Ref) and any(isinstance(k, Ext) and k.name in ('builtins.dict', 'builtins.list', 'builtins.str')
                                                  for k in self.mro(st, o.cls)):
                    return App('truthy', v)
            return TRUE
        t = self.type_of(st, v)
        if t == 'int':
            return App('not', App('eq', v, Const(0)))
        if isinstance(v, App) and v.op == 'concat' and any(
                isinstance(p, Const) and p.v or not isinstance(p, Const) and st is not None and st.known(App('truthy', p)) for p in v.args):
            return TRUE
        if t in ('str', 'bytes', 'list', 'tuple', 'dict', 'set'):
            return App('ge0', lin_sub(len_of(v), Const(1)))
        if t in ('callable', 'match', 'file'):
            return TRUE
        if t == 'none':
            return FALSE
        return App('truthy', v)

    @staticmethod
    def is_star(x):
        return isinstance(x, App) and x.op == 'star'

    def is_int(self, st, v):
        return self.type_of(st, v) in ('int', 'bool')

    def assume(self, st, v, want):
        """States in which truth(v) == want."""
        t = self.cond(st, v) if not (isinstance(v, App) and v.op in BOOL_OPS) else v
        if isinstance(t, Const):
            return [st] if bool(t.v) == want else []
        if t.op == 'not':
            return self.assume(st, t.args[0], not want)
        if t.op == 'eq':
            a, b = t.args
            num = self.is_int(st, a) and self.is_int(st, b)
            if num:
                d = lin_sub(a, b)
                if want:
                    s = st.fork()
                    return [s] if s.add_lin(d) and s.add_lin(lin_scale(d, -1)) else []
                out = []
                for k in (1, -1):
                    s = st.fork()
                    if s.add_lin(lin_sub(lin_scale(d, k), Const(1))):
                        out.append(s)
                return out
        if t.op == 'in':
            r = self.member(st, t.args[0], t.args[1])
            if r is not None:
                return self.assume_or(st, r, want)
        s = st.fork()
        if not s.learn(t, want):
            return []
        if t.op == 'truthy':
            x = t.args[0]
            if isinstance(x, (Sym, App)):
                if not s.add_lin(lin_sub(App('len', x), Const(1)) if want else lin_scale(App('len', x), -1)):
                    return []
        return [s]

    def assume_or(self, st, alts, want):
        """alts: list of bool terms; truth of the disjunction."""
        if want:
            out, cur = [], [st]
            for a in alts:
                nxt = []
                for s in cur:
                    out += self.assume(s, a, True)
                    nxt += self.assume(s, a, False)
                cur = nxt
            return out
        cur = [st]
        for a in alts:
            cur = [x for s in cur for x in self.assume(s, a, False)]
        return cur

    def member(self, st, x, c):
        """`x in c` as a disjunction of equalities when c is fully known."""
        items = None
        if isinstance(c, Const) and isinstance(c.v, (tuple, frozenset, list, set)):
            items = [Const(i) for i in c.v]
        elif isinstance(c, Tup):
            items = list(c.items)
        elif isinstance(c, Ref):
            o = st.get(c)
            if o.kind in ('list', 'set') and o.open is None and not any(self.is_star(i) for i in o.items):
                items = list(o.items)
            elif o.kind == 'dict' and o.open is None:
                items = [k for k, _ in o.items]
        if items is None or len(items) > models.BIG and not isinstance(x, Const):
            return None
        return [self.eq_term(st, x, i) for i in items]

    def eq_term(self, st, a, b):
        if a == b:
            return TRUE
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.v == b.v)
        if isinstance(b, Const) and b.v is None:
            return self.isnone(st, a)
        if isinstance(a, Const) and a.v is None:
            return self.isnone(st, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) != len(b.items):
            return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            parts = [self.eq_term(st, x, y) for x, y in zip(a.items, b.items)]
            if FALSE in parts:
                return FALSE
            if all(p == TRUE for p in parts):
                return TRUE
        if self.policy.excl:
            for u, w in ((a, b), (b, a)):
                if isinstance(u, App) and u.op == 'item' and isinstance(w, Const) and type(w.v) is int and isinstance(u.args[0], Sym) and u.args[0].ty == 'bytes':
                    e = templ.excl(self, u.args[0])
                    if e is not None and (not 0 <= w.v < 256 or bytes([w.v]) in e):
                        return FALSE
                if isinstance(w, Const) and templ.eq_const(self, u, w.v, st) is False:
                    return FALSE
        if isinstance(a, Func) and isinstance(b, Func):
            return FALSE        # functions are compared by identity
        if isinstance(a, Bound) and isinstance(b, Bound):
            f = self.eq_term(st, a.func, b.func)
            if f == FALSE or isinstance(a.self_, Ref) and isinstance(b.self_, Ref) and a.self_ != b.self_:
                return FALSE
            if a.self_ == b.self_:
                return f
        if isinstance(a, (Func, Bound)) and isinstance(b, (Const, Tup)) or isinstance(b, (Func, Bound)) and isinstance(a, (Const, Tup)):
            return FALSE
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and (a.op == 'id' or a.op == 'call' and a.args[0] == b.args[0] == Ext('builtins.id')) \
                and isinstance(a.args[-1], Ref) and isinstance(b.args[-1], Ref):
            return Const(a.args[-1] == b.args[-1])
        if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a) is not None and st.get(b) is not None and {st.get(a).kind, st.get(b).kind} <= {'class', 'module'}:
            return FALSE
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta and tb and ta != tb and {ta, tb} & {'str', 'bytes'} and {ta, tb} & {'str', 'bytes', 'int', 'list', 'tuple', 'dict', 'none'} == {ta, tb}:
            return FALSE
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        return App('eq', x, y)

    def isnone(self, st, v):
        k = st.known(App('isnone', v))
        return Const(k) if k is not None else App('isnone', v)

    # ================================================================ frames
    def load_name(self, st, name, node):
        fid = st.frame
        first = True
        while fid is not None:
            o = st.get(fid)
            parent, mod, qual, g, nl = o.meta
            if first and name in g:
                o = st.get(mod.frame)
                return o.attrs.get(name, Sym('undef:' + name))
            if name in o.attrs:
                return o.attrs[name]
            # class frames are skipped by nested functions (parent already arranged)
            fid = parent
            first = False
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return Const(getattr(builtins, name))
            return Ext('builtins.' + name)
        return Sym('undef:' + name)

    def store_name(self, st, name, v):
        o = st.get(st.frame)
        parent, mod, qual, g, nl = o.meta
        fid = st.frame
        if name in g:
            fid = mod.frame
            self.event(st, 'setglobal', None, (mod.name, name, v))
        elif name in nl:
            fid = parent
            while fid is not None:
                po = st.get(fid)
                if name in po.attrs:
                    break
                fid = po.meta[0]
            fid = fid or st.frame
        o = st.get(fid)
        a = dict(o.attrs)
        a[name] = v
        st.put(fid, o.copy(attrs=a))

    # ================================================================ statements
    def block(self, stmts, st):
        cur = [(st, None)]
        for s in stmts:
            nxt = []
            for x, f in cur:
                if f is None:
                    nxt.extend(self.stmt(s, x))
                else:
                    nxt.append((x, f))
            cur = nxt
            if len(cur) > self.policy.max_states:
                raise Limit('state budget')
            cur = self.dedupe(cur)
        return cur

    def dedupe(self, cur):
        """Drop duplicates; with many states also join those that differ only
        in branch facts (no effect since they split): facts are intersected."""
        if len(cur) < 2:
            return cur
        join = len(cur) > self.policy.join_at
        out, seen = [], {}
        for st, f in cur:
            if isinstance(f, tuple):
                fk = (f[0], f[1]) if isinstance(f[1], V) else (f[0], f[1].val, id(f[1].node)) if isinstance(f[1], Exc) else id(f)
            else:
                fk = f if f is None or isinstance(f, str) else id(f)
            key = (st.frame, st.eff, st.digest(), st.imp, fk)
            dup = False
            for i in seen.get(key, ()):
                o, of = out[i]
                exact = o.lins == st.lins and o.truth == st.truth
                if not exact:
                    if not join:
                        continue
                    o = o.fork()
                    o.truth = {k: v for k, v in o.truth.items() if st.truth.get(k) is v}
                    o.lins = tuple(x for x in o.lins if x in st.lins)
                    o.n = {k: max(o.n.get(k, 0), st.n.get(k, 0)) for k in set(o.n) | set(st.n)}
                    out[i] = (o, f)
                dup = True
                break
            if not dup:
                seen.setdefault(key, []).append(len(out))
                out.append((st, f))
        return out

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            st = st.fork()
            st.note('unsupported statement %s' % type(s).__name__)
            return [(st, None)]
        return m(s, st)

    def s_Pass(self, s, st):
        return [(st, None)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return self.flows(self.ev(s.value, st))

    def flows(self, res):
        return [(st, rf(v) if isinstance(v, Exc) else None) for st, v in res]

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            if isinstance(v, Exc):
                out.append((x, rf(v)))
                continue
            cur = [(x, None)]
            for t in s.targets:
                nxt = []
                for y, f in cur:
                    nxt.extend(self.assign(t, v, y) if f is None else [(y, f)])
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        out = []
        for x, v in self.ev(s.value, st):
            if isinstance(v, Exc):
                out.append((x, rf(v)))
            else:
                out.extend(self.assign(s.target, v, x))
        return out

    def s_AugAssign(self, s, st):
        load = ast.copy_location(self._as_load(s.target), s.target)
        out = []
        for x, old in self.ev(load, st):
            if isinstance(old, Exc):
                out.append((x, rf(old)))
                continue
            for y, v in self.ev(s.value, x):
                if isinstance(v, Exc):
                    out.append((y, rf(v)))
                    continue
                if isinstance(s.op, ast.Add) and isinstance(old, Ref) and y.get(old).kind == 'list':
                    for z, r in models.list_extend(self, y, old, v, s):
                        out.append((z, rf(r) if isinstance(r, Exc) else None))
                    continue
                for z, r in self.binop(y, s.op, old, v, s):
                    if isinstance(r, Exc):
                        out.append((z, rf(r)))
                    else:
                        out.extend(self.assign(s.target, r, z))
        return out

    @staticmethod
    def _as_load(t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())

    def assign(self, t, v, st):
        """-> [(state, flow)]"""
        if isinstance(t, ast.Name):
            st = st.fork()
            self.store_name(st, t.id, v)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            return self.flows(each(self.ev(t.value, st), lambda x, b: self.setattr_(x, b, self.mangle(x, t.attr), v, t)))
        if isinstance(t, ast.Subscript):
            def f(x, b):
                return each(self.ev_slice(t.slice, x), lambda y, i: self.setitem(y, b, i, v, t))
            return self.flows(each(self.ev(t.value, st), f))
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            out = []
            for x, items in self.unpack(st, v, n, star[0] if star else None, t):
                if isinstance(items, Exc):
                    out.append((x, rf(items)))
                    continue
                cur = [(x, None)]
                for e, it in zip(t.elts, items):
                    e = e.value if isinstance(e, ast.Starred) else e
                    cur = [r for y, f in cur for r in (self.assign(e, it, y) if f is None else [(y, f)])]
                out.extend(cur)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        st = st.fork()
        st.note('unsupported target %s' % type(t).__name__)
        return [(st, None)]

    def unpack(self, st, v, n, star, node):
        """-> [(st, [V]*n | Exc)]"""
        kn = self.known_items(st, v)
        if kn is not None:
            if star is None:
                if len(kn) != n:
                    return [(st, self.mkexc(st, 'ValueError', node))]
                return [(st, kn)]
            tail = n - 1 - star
            if len(kn) < n - 1:
                return [(st, self.mkexc(st, 'ValueError', node))]
            st = st.fork()
            mid = st.alloc(Obj('list', items=tuple(kn[star:len(kn) - tail])), 'list@%d' % node.lineno)
            return [(st, kn[:star] + [mid] + (kn[len(kn) - tail:] if tail else []))]
        out = []
        if star is None:
            ve = self.mkexc(st, 'ValueError', node, App('unpack', v, Const(n)))
            if isinstance(v, App) and v.op in ('split', 'rsplit', 'unknown_len') and self.can_catch(st, ve.val.args[0]):
                s2 = st.fork()
                if s2.learn(App('eq', App('len', v), Const(n)), False):
                    out.append((s2, ve))
            s1 = st.fork()
            ok = True
            if isinstance(v, App) and v.op in ('split', 'rsplit'):
                s1.truth[App('eq', App('len', v), Const(n))] = True
                d = lin_sub(App('len', v), Const(n))
                ok = s1.add_lin(d) and s1.add_lin(lin_scale(d, -1))
            if ok:
                out.append((s1, [self.item_term(s1, v, Const(i)) for i in range(n)]))
            return out
        items = [self.item_term(st, v, Const(i)) for i in range(star)]
        tail = n - 1 - star
        items.append(App('slice', v, Const(star), Const(-tail) if tail else NONE))
        items += [self.item_term(st, v, Const(-(tail - i))) for i in range(tail)]
        return [(st, items)]

    def item_term(self, st, v, i):
        return models.index(self, st, v, i)

    def known_items(self, st, v):
        """List of values when the iterable's content is fully known."""
        if isinstance(v, Tup):
            if any(self.is_star(x) for x in v.items):
                return None
            return list(v.items)
        if isinstance(v, Const):
            if isinstance(v.v, (tuple, list)):
                return [Const(i) for i in v.v]
            if isinstance(v.v, (set, frozenset)):
                return [Const(i) for i in sorted(v.v, key=repr)]
            if isinstance(v.v, (str,)):
                return [Const(c) for c in v.v]
            if isinstance(v.v, bytes):
                return [Const(c) for c in v.v]
            if isinstance(v.v, range):
                return [Const(i) for i in v.v]
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ('list', 'set') and o.open is None:
                if any(self.is_star(x) for x in o.items):
                    return None
                return list(o.items)
            if o.kind == 'dict' and o.open is None:
                return [k for k, _ in o.items]
            if o.kind == 'iter':
                src, pos = o.meta
                if isinstance(pos, Const):
                    kn = self.known_items(st, src)
                    if kn is not None:
                        return kn[pos.v:]
        if isinstance(v, App):
            if v.op == 'classdict':
                return [Const(k) for k in st.get(v.args[0]).attrs]
            if v.op == 'items' and isinstance(v.args[0], App) and v.args[0].op == 'classdict':
                return [Tup((Const(k), x)) for k, x in st.get(v.args[0].args[0]).attrs.items()]
            if v.op == 'items' and isinstance(v.args[0], Ref):
                o = st.get(v.args[0])
                if o.kind == 'dict' and o.open is None:
                    return [Tup((k, x)) for k, x in o.items]
            if v.op == 'values' and isinstance(v.args[0], Ref):
                o = st.get(v.args[0])
                if o.kind == 'dict' and o.open is None:
                    return [x for k, x in o.items]
            if v.op == 'keys' and isinstance(v.args[0], Ref):
                o = st.get(v.args[0])
                if o.kind == 'dict' and o.open is None:
                    return [k for k, x in o.items]
            if v.op == 'enumerate':
                kn = self.known_items(st, v.args[0])
                if kn is not None and isinstance(v.args[1], Const):
                    return [Tup((Const(i), x)) for i, x in enumerate(kn, v.args[1].v)]
            if v.op == 'zip':
                ks = [self.known_items(st, a) for a in v.args]
                if ks and all(k is not None for k in ks):
                    return [Tup(t) for t in zip(*ks)]
                return None
            if v.op == 'reversed':
                kn = self.known_items(st, v.args[0])
                return None if kn is None else kn[::-1]
            if v.op == 'range' and all(isinstance(a, Const) for a in v.args):
                return [Const(i) for i in range(*[a.v for a in v.args])]
            if v.op == 'chain':
                ks = [self.known_items(st, a) for a in v.args]
                if all(k is not None for k in ks):
                    return [x for k in ks for x in k]
        return None

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ('ret', NONE))]
        return [(x, rf(v) if isinstance(v, Exc) else ('ret', v)) for x, v in self.ev(s.value, st)]

    def s_If(self, s, st):
        out = []
        for x, v in self.branch(s.test, st):
            if isinstance(v, Exc):
                out.append((x, rf(v)))
            elif v:
                out.extend(self.block(s.body, x))
            else:
                out.extend(self.block(s.orelse, x) if s.orelse else [(x, None)])
        return out

    def branch(self, test, st):
        """Evaluate a condition: [(state, True|False|Exc)]."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(x, v if isinstance(v, Exc) else not v) for x, v in self.branch(test.operand, st)]
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            cur, out = [st], []
            for i, sub in enumerate(test.values):
                nxt = []
                for x in cur:
                    for y, v in self.branch(sub, x):
                        if isinstance(v, Exc):
                            out.append((y, v))
                        elif v != is_and:
                            out.append((y, v))
                        else:
                            nxt.append(y)
                cur = nxt
            out += [(x, is_and) for x in cur]
            return out
        out = []
        for x, v in self.ev(test, st):
            if isinstance(v, Exc):
                out.append((x, v))
                continue
            for want in (True, False):
                for y in self.assume(x, v, want):
                    self.event(y, 'branch', test, (v, want))
                    out.append((y, want))
        return out

    def s_Assert(self, s, st):
        out = []
        for x, v in self.branch(s.test, st):
            if isinstance(v, Exc):
                out.append((x, rf(v)))
            elif v:
                out.append((x, None))
            elif self.policy.asserts:
                out.append((x, ('raise', self.mkexc(x, 'AssertionError', s))))
        return out

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = st.get(st.frame)
            v = self._current_exc(st)
            return [(st, ('raise', v if v is not None else self.exc(st, Sym(st.fresh('reraise')), s)))]
        out = []
        for x, v in self.ev(s.exc, st):
            if isinstance(v, Exc):
                out.append((x, rf(v)))
                continue
            if isinstance(v, Ref) and x.get(v).kind == 'class' or isinstance(v, Ext):
                for y, i in self.call(x, v, [], [], s):
                    out.append((y, ('raise', i if isinstance(i, Exc) else self.exc(y, i, s))))
                continue
            self.event(x, 'raise', s, (v,))
            out.append((x, ('raise', self.exc(x, v, s))))
        return out

    def _current_exc(self, st):
        fid = st.frame
        while fid is not None:
            o = st.get(fid)
            if '%exc' in o.attrs:
                w = o.attrs['%exc']
                return w.args[0].v if isinstance(w, Wrap) else None
            fid = o.meta[0]
            break
        return None

    def s_Delete(self, s, st):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for x, f in cur:
                if f is not None:
                    nxt.append((x, f))
                elif isinstance(t, ast.Name):
                    x = x.fork()
                    o = x.get(x.frame)
                    a = dict(o.attrs)
                    a.pop(t.id, None)
                    x.put(x.frame, o.copy(attrs=a))
                    nxt.append((x, None))
                elif isinstance(t, ast.Subscript):
                    nxt += self.flows(each(self.ev(t.value, x), lambda y, b: each(
                        self.ev_slice(t.slice, y), lambda z, i: models.delitem(self, z, b, i, t))))
                elif isinstance(t, ast.Attribute):
                    nxt += self.flows(each(self.ev(t.value, x), lambda y, b: models.delattr_(self, y, b, t.attr, t)))
                else:
                    x = x.fork()
                    x.note('unsupported del')
                    nxt.append((x, None))
            cur = nxt
        return cur

    def s_Global(self, s, st):
        return [(st, None)]
    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        st = st.fork()
        for a in s.names:
            top = a.name.split('.')[0]
            if a.asname:
                self.store_name(st, a.asname, self.import_mod(a.name))
            else:
                self.store_name(st, top, self.import_mod(top))
        return [(st, None)]

    def import_mod(self, name):
        if name == self.package or name.startswith(self.package + '.'):
            m = self.module(name)
            if m is not None:
                return App('module', Const(name))
        return Ext(name)

    def s_ImportFrom(self, s, st):
        mod, _ = self.ctx(st)
        if s.level:
            base = mod.pkg.split('.')
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        st = st.fork()
        repo = name == self.package or name.startswith(self.package + '.')
        for a in s.names:
            if repo:
                v = None
                m = self.module(name)
                if m is not None:
                    v = self.base_heap[m.frame].attrs.get(a.name)
                if v is None and a.name == '*':
                    for k, x in (self.base_heap[m.frame].attrs.items() if m else ()):
                        if not k.startswith('_'):
                            self.store_name(st, k, x)
                    continue
                if v is None and self.modpath(name + '.' + a.name):
                    self.module(name + '.' + a.name)
                    v = App('module', Const(name + '.' + a.name))
                if v is None:
                    v = Sym('import:%s.%s' % (name, a.name))
            else:
                v = models.getattr_(self, st, Ext(name), a.name, s)[0][1]
            self.store_name(st, a.asname or a.name, v)
        return [(st, None)]

    def s_FunctionDef(self, s, st):
        out = []
        for x, f in self.mkfunc(s, st):
            if isinstance(f, Exc):
                out.append((x, rf(f)))
                continue
            cur = [(x, f)]
            for d in reversed(s.decorator_list):
                nxt = []
                for y, v in cur:
                    if isinstance(v, Exc):
                        nxt.append((y, v))
                        continue
                    nxt += each(self.ev(d, y), lambda z, dv: self.call(z, dv, [v], [], d))
                cur = nxt
            for y, v in cur:
                if isinstance(v, Exc):
                    out.append((y, rf(v)))
                else:
                    y = y.fork()
                    self.store_name(y, self.mangle(y, s.name), v)
                    out.append((y, None))
        return out
    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, s, st):
        a = s.args
        mod, qual = self.ctx(st)
        name = getattr(s, 'name', '<lambda>')
        o = st.get(st.frame)
        parent = st.frame
        cls = None
        if o.meta[4] == 'class':       # class body frame: nested functions skip it
            parent = o.meta[0]
            cls = o.attrs.get('%cls')

        def f(x, vals):
            nd = len(a.defaults)
            d = dict(zip([p.arg for p in (a.posonlyargs + a.args)][-nd:] if nd else [], vals[:nd]))
            kd = {p.arg: v for p, v in zip([p for p, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None], vals[nd:])}
            q = qual + ('.' if qual and qual != mod.name else ':' if qual == mod.name else '') + name
            return [(x, Func(s, mod, parent, tuple(sorted(d.items(), key=lambda p: p[0])),
                             tuple(sorted(kd.items(), key=lambda p: p[0])), q, cls))]
        return each(self.evs(list(a.defaults) + [e for e in a.kw_defaults if e is not None], st), f)

    def s_ClassDef(self, s, st):
        out = []
        for x, vals in self.evs(list(s.bases), st):
            if isinstance(vals, Exc):
                out.append((x, rf(vals)))
                continue
            mod, qual = self.ctx(x)
            q = (qual + ':' if qual == mod.name else qual + '.') + s.name
            x = x.fork()
            bases = tuple(v for v in vals if isinstance(v, (Ref, Ext)))
            cref = x.alloc(Obj('class', meta={'qual': q, 'name': s.name, 'bases': bases, 'node': s, 'mod': mod}), 'class:' + q)
            cf = x.alloc(Obj('frame', attrs={'%cls': cref}, meta=(x.frame, mod, q, frozenset(), 'class')), 'cframe:' + q)
            outer = x.frame
            x.frame = cf.id
            for y, fl in self.block(s.body, x):
                if fl is not None:
                    y.frame = outer
                    out.append((y, fl))
                    continue
                attrs = {k: v for k, v in y.get(cf).attrs.items() if k != '%cls'}
                y.frame = outer
                o = y.get(cref)
                y.put(cref, o.copy(attrs=attrs))
                cur = [(y, cref)]
                for d in reversed(s.decorator_list):
                    cur = each(cur, lambda z, v: each(self.ev(d, z), lambda w, dv: self.call(w, dv, [v], [], d)))
                for z, v in cur:
                    if isinstance(v, Exc):
                        out.append((z, rf(v)))
                    else:
                        z = z.fork()
                        if not (isinstance(v, Ref) and z.get(v).kind == 'class'):
                            v = cref        # an opaque class decorator: keep the class
                        self.store_name(z, s.name, v)
                        out.append((z, None))
        return out

    def mangle(self, st, name):
        if name.startswith('__') and not name.endswith('__'):
            fid = st.frame
            while fid is not None:
                o = st.get(fid)
                if o.meta[4] == 'class':
                    return '_%s%s' % (o.meta[2].split(':')[-1].split('.')[-1].lstrip('_'), name)
                q = o.meta[2]
                if ':' in q and '.' in q.split(':')[1]:
                    return '_%s%s' % (q.split(':')[1].split('.')[0].lstrip('_'), name)
                fid = o.meta[0]
        return name

    def s_Break(self, s, st):
        return [(st, 'break')]

    def s_Continue(self, s, st):
        return [(st, 'continue')]

    # ------------------------------------------------------------ try / with
    def s_Try(self, s, st):
        out = []
        hcls = []
        for h in s.handlers:
            if h.type is None:
                hcls.append(None)
            else:
                r = self.ev(h.type, st)
                hcls.append(r[0][1] if r and not isinstance(r[0][1], Exc) else None)
        if s.finalbody:
            self.handlers.append('finally')
        try:
            if s.handlers:
                self.handlers.append(hcls)
            try:
                res = self.block(s.body, st)
            finally:
                if s.handlers:
                    self.handlers.pop()
            mid = []
            for x, f in res:
                if f is None:
                    mid.extend(self.block(s.orelse, x) if s.orelse else [(x, None)])
                elif isinstance(f, tuple) and f[0] == 'raise':
                    mid.extend(self.handle(s, hcls, x, f[1]))
                else:
                    mid.append((x, f))
        finally:
            if s.finalbody:
                self.handlers.pop()
        if not s.finalbody:
            return mid
        for x, f in mid:
            for y, g in self.block(s.finalbody, x):
                out.append((y, f if g is None else g))
        return out
    s_TryStar = s_Try

    def handle(self, s, hcls, st, ex):
        out = []
        cur = st
        have = self.exc_class(cur, ex.val)
        for h, want in zip(s.handlers, hcls):
            m = self.exc_match(cur, have, want)
            if m is False:
                continue
            x = cur.fork()
            t = App('excmatch', ex.val, want) if isinstance(want, V) else None
            if m is None and t is not None:
                x.truth[t] = True
            saved = x.get(x.frame).attrs.get('%exc')
            self.store_name(x, '%exc', Wrap('pyexc', Const(ex)))
            if h.name:
                self.store_name(x, h.name, ex.val)
            self.event(x, 'except', h, (ex.val, want))
            for y, f in self.block(h.body, x):
                y = y.fork()
                o = y.get(y.frame)
                if '%exc' in o.attrs:
                    a = dict(o.attrs)
                    if saved is None:
                        a.pop('%exc')
                    else:
                        a['%exc'] = saved
                    y.put(y.frame, o.copy(attrs=a))
                out.append((y, f))
            if m is True:
                return out
            cur = cur.fork()
            if t is not None:
                cur.truth[t] = False
        out.append((cur, rf(ex)))
        return out

    def s_With(self, s, st):
        def go(items, x):
            if not items:
                return self.block(s.body, x)
            it = items[0]
            out = []
            for y, c in self.ev(it.context_expr, x):
                if isinstance(c, Exc):
                    out.append((y, rf(c)))
                    continue
                for z, v in models.enter(self, y, c, it.context_expr):
                    if isinstance(v, Exc):
                        out.append((z, rf(v)))
                        continue
                    r = self.assign(it.optional_vars, v, z) if it.optional_vars is not None else [(z, None)]
                    for w, f in r:
                        if f is not None:
                            out.append((w, f))
                            continue
                        for u, g in go(items[1:], w):
                            for q in models.leave(self, u, c, g, it.context_expr):
                                out.append(q)
            return out
        return go(s.items, st)

    # ------------------------------------------------------------ loops
    def s_While(self, s, st):
        def head(x):
            out = []
            for y, v in self.branch(s.test, x):
                if isinstance(v, Exc):
                    out.append((y, 'exit', rf(v)))
                elif v:
                    out.append((y, 'body', None))
                else:
                    out.append((y, 'done', None))
            return out
        return self.loop(s, st, head, s.body, s.orelse)

    def s_For(self, s, st):
        out = []
        for x, it in self.ev(s.iter, st):
            if isinstance(it, Exc):
                out.append((x, rf(it)))
            else:
                out.extend(self.for_over(s, x, it, lambda y, v: self.assign(s.target, v, y),
                                         lambda y: self.block(s.body, y), s.orelse))
        return out
    s_AsyncFor = s_For

    def for_over(self, node, st, it, bind, body, orelse=()):
        """Generic iteration.  bind(st, v) -> flows; body(st) -> flows."""
        out = []
        for st, it in models.iterate(self, st, it, node):
            if isinstance(it, Exc):
                out.append((st, rf(it)))
                continue
            kn = self.known_items(st, it)
            if kn is not None and len(kn) <= self.policy.unroll:
                cur, done = [st], []
                if isinstance(it, Ref) and st.get(it).kind == 'iter':
                    st = st.fork()
                    st.put(it, st.get(it).copy(meta=(st.get(it).meta[0], lin_add(st.get(it).meta[1], Const(len(kn))))))
                    cur = [st]
                live = isinstance(it, Ref) and st.get(it).kind == 'list'
                j, ended = 0, []
                while cur and (live or j < len(kn)):
                    nxt = []
                    for x in cur:
                        v = kn[j] if j < len(kn) else None
                        if live:
                            # the body may change the list that is iterated
                            now = self.known_items(x, it)
                            if now is not None:
                                if j >= len(now):
                                    ended.append(x)
                                    continue
                                v = now[j]
                        if v is None:
                            ended.append(x)
                            continue
                        for y, f in bind(x, v):
                            if f is not None:
                                done.append((y, f))
                                continue
                            for z, g in body(y):
                                if g is None or g == 'continue':
                                    nxt.append(z)
                                elif g == 'break':
                                    done.append((z, 'brk'))
                                else:
                                    done.append((z, g))
                    j += 1
                    cur = [x for x, _ in self.dedupe([(x, None) for x in nxt])]
                    if len(cur) + len(done) + len(ended) > self.policy.max_states or j > 4 * self.policy.unroll + 8:
                        raise Limit('state budget')
                cur += ended
                for x in cur:
                    out.extend(self.block(orelse, x) if orelse else [(x, None)])
                out += [(x, None if f == 'brk' else f) for x, f in done]
                continue
            if isinstance(it, Ref) and st.get(it).kind == 'gen':
                out += self.for_gen(node, st, it, bind, body, orelse)
                continue
            tm = templ.pieces(self, it.args[0] if isinstance(it, App) and it.op == 'enumerate' else it)
            if tm is not None and not (len(tm) == 1 and not (isinstance(it, App) and it.op == 'enumerate')):
                out += self.for_template(node, st, tm, it.args[1] if isinstance(it, App) and it.op == 'enumerate' else None, bind, body, orelse)
                continue
            k = st.n.get('idx', 0) + 1
            st = st.fork()
            st.n['idx'] = k
            gname = 'idx%d' % k
            start = Const(0)
            if isinstance(it, Ref) and st.get(it).kind == 'iter':
                itref, (it, start) = it, st.get(it).meta
            else:
                itref = None
            st.ghost[gname] = start
            length = models.seq_len(self, st, it)
            src = it

            def head(x):
                i = x.ghost[gname]
                res = []
                if length is not None:
                    a = x.fork()
                    if a.add_lin(lin_sub(lin_sub(length, i), Const(1))):
                        res.append((a, 'body'))
                    b = x.fork()
                    if b.add_lin(lin_sub(i, length)):
                        res.append((b, 'done'))
                else:
                    res = [(x.fork(), 'body'), (x.fork(), 'done')]
                o = []
                for y, w in res:
                    if w == 'done':
                        o.append((y, 'done', None))
                        continue
                    for z, v in models.elem(self, y, src, i, node):
                        if isinstance(v, Exc):
                            o.append((z, 'exit', rf(v)))
                            continue
                        z = z.fork()
                        z.ghost[gname] = lin_add(i, Const(1))
                        if itref is not None:
                            z.put(itref, z.get(itref).copy(meta=(src, lin_add(i, Const(1)))))
                        self.event(z, 'next', node, (src, i, v))
                        for w, f in bind(z, v):
                            if f is not None:
                                o.append((w, 'exit', f))
                            else:
                                o.append((w, 'body', None))
                return o
            out += self.loop(node, st, head, body, orelse, iterable=src)
        return out

    def for_template(self, node, st, ps, count, bind, body, orelse):
        """characters of a template string, one piece after the other"""
        cur, out = [st], []
        offs, _ = templ.offsets(ps)
        peel, self.policy.peel = self.policy.peel, min(self.policy.peel, 1)
        try:
            for p, off in zip(ps, offs):
                nxt = []
                if isinstance(p, Const):
                    for j in range(len(p.v)):
                        nxt = []
                        for x in cur:
                            v = Const(p.v[j])
                            if count is not None:
                                v = Tup((lin_add(count, lin_add(off, Const(j))), v))
                            for y, f in bind(x, v):
                                if f is not None:
                                    out.append((y, f))
                                    continue
                                for z, g in body(y):
                                    if g is None or g == 'continue':
                                        nxt.append(z)
                                    else:
                                        out.append((z, None if g == 'break' else g))
                        cur = nxt
                    continue

                def tagged(y):
                    return [(z, ('left',) if g == 'break' else g) for z, g in body(y)]

                def bound(x, v, off=off):
                    if count is not None:
                        v = Tup((lin_add(count, lin_add(off, v.items[0])), v.items[1]))
                    return bind(x, v)
                for x in cur:
                    for y, g in self.for_piece(node, x, p, bound if count is not None else bind, tagged, count is not None):
                        if g is None:
                            nxt.append(y)
                        else:
                            out.append((y, None if g == ('left',) else g))
                cur = nxt
        finally:
            self.policy.peel = peel
        for x in cur:
            out.extend(self.block(orelse, x) if orelse else [(x, None)])
        return out

    def for_piece(self, node, st, p, bind, body, pairs):
        k = st.n.get('idx', 0) + 1
        st = st.fork()
        st.n['idx'] = k
        gname = 'idx%d' % k
        st.ghost[gname] = Const(0)
        length = len_of(p)
        # a body that leaves everything as it was but for the loop variables: only the last round matters
        probe = st.fork()
        i = Sym(probe.fresh('at'), 'nat')
        if probe.add_lin(lin_sub(lin_sub(length, i), Const(1))):
            v = App('item', p, i)
            ys = bind(probe, Tup((i, v)) if pairs else v)
            if len(ys) == 1 and ys[0][1] is None:
                y = ys[0][0]
                zs = body(y)
                if len(zs) == 1 and zs[0][1] in (None, 'continue'):
                    z = zs[0][0]
                    if not self._diff(y, z, y) and z.truth == y.truth and list(z.lins) == list(y.lins):
                        out = []
                        a = st.fork()
                        del a.ghost[gname]
                        b = a.fork()
                        if a.add_lin(lin_scale(length, -1)):
                            out.append((a, None))
                        if b.add_lin(lin_sub(length, Const(1))):
                            n = lin_sub(length, Const(1))
                            v = App('item', p, n)
                            out += bind(b, Tup((n, v)) if pairs else v)
                        return out

        def head(x):
            i = x.ghost[gname]
            o = []
            b = x.fork()
            if b.add_lin(lin_sub(i, length)):
                o.append((b, 'done', None))
            a = x.fork()
            if a.add_lin(lin_sub(lin_sub(length, i), Const(1))):
                v = App('item', p, i)
                a.ghost[gname] = lin_add(i, Const(1))
                for w, f in bind(a, Tup((i, v)) if pairs else v):
                    o.append((w, 'exit', f) if f is not None else (w, 'body', None))
            return o
        return self.loop(node, st, head, body, ())

    def for_gen(self, node, st, ref, bind, body, orelse):
        """Inline a generator at its consumer."""
        o = st.get(ref)
        fv, gframe = o.meta
        outer = st.frame
        hs = list(self.handlers)

        def on_yield(x, v, ynode):
            gf = x.frame
            saved = self.handlers
            self.handlers = list(hs)
            ys = self.yields
            self.yields = self.yields[:depth]
            try:
                x = x.fork()
                x.frame = outer
                res = []
                for y, f in bind(x, v):
                    if f is not None:
                        res.append((y, f))
                        continue
                    res.extend(body(y))
            finally:
                self.handlers = saved
                self.yields = ys
            out = []
            for y, f in res:
                y = y.fork()
                y.frame = gf
                if f is None or f == 'continue':
                    out.append((y, None))
                else:
                    out.append((y, ('unwind', gframe, f)))
            return out
        depth = len(self.yields)
        x = st.fork()
        x.frame = gframe
        self.yields.append((gframe, on_yield))
        self.active.append((fv.node, fv.frame))
        self.analysed.add(fv.qual)
        try:
            res = self.block(fv.node.body, x)
        finally:
            self.yields.pop()
            self.active.pop()
        out = []
        for y, f in res:
            y = y.fork()
            y.frame = outer
            if f is None or (isinstance(f, tuple) and f[0] == 'ret'):
                r = f[1] if f is not None else NONE
                y.sto[(ref, 'a', '%ret')] = r
                out.extend(self.block(orelse, y) if orelse else [(y, None)])
            elif isinstance(f, tuple) and f[0] == 'unwind' and f[1] == gframe:
                g = f[2]
                out.append((y, None if g == 'break' else g))
            else:
                out.append((y, f))
        return out

    # -- generic fixpoint --------------------------------------------------
    def loop(self, node, st, head, body, orelse, iterable=None):
        """head(st) -> [(st, 'body'|'done'|'exit', flow)]; body: stmts or callable."""
        run_body = body if callable(body) else (lambda x: self.block(body, x))
        mod, fn = self.ctx(st)
        st = st.fork()
        k = st.n.get('loop', 0) + 1
        st.n['loop'] = k
        lname = 'L%s.%d' % (getattr(node, 'lineno', 0), k)
        final = []
        cur = [st]
        # optional peeling of leading iterations
        scan = self.policy.excl and isinstance(node, ast.While)
        for _ in range(self.policy.peel):
            nxt = []
            for x in cur:
                if scan:
                    x = self.skip_pieces(node, x, head, run_body)
                for y, w, f in head(x):
                    if w == 'body':
                        for z, g in run_body(y):
                            if g is None or g == 'continue':
                                nxt.append(z)
                            else:
                                final.append((z, None if g == 'break' else g))
                    elif w == 'done':
                        final.extend(self.block(orelse, y) if orelse else [(y, None)])
                    else:
                        final.append((y, f))
            cur = nxt
        for x in cur:
            final.extend(self._fix(node, mod, fn, lname, x, head, run_body, orelse, iterable))
        if len(final) > self.policy.max_states:
            raise Limit('state budget')
        return self.dedupe(final)

    def skip_pieces(self, node, st, head, run_body):
        """An index at the start of an unknown piece, when a round for any of its characters only moves the index by
        one: move it behind the piece."""
        names = getattr(node, '_scan', None)
        if names is None:
            names = node._scan = sorted({(n.value.id, n.slice.id) for n in ast.walk(node) if isinstance(n, ast.Subscript)
                                         and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Name)}
                                        if not any(isinstance(n, (ast.For, ast.While)) for b in node.body for n in ast.walk(b)) else ())
        for tn, jn in names:
            while True:
                t, j = self.peek(st, tn), self.peek(st, jn)
                ps = templ.pieces(self, t) if t is not None else None
                if ps is None or j is None or not self.is_int(st, j):
                    break
                at = templ.locate(st, ps, j)
                if at is None or at[0] >= len(ps) or isinstance(ps[at[0]], Const):
                    break
                p = ps[at[0]]
                left = lin_sub(len_of(p), Const(at[1]) if isinstance(at[1], int) else at[1])
                if not templ.ge(st, left, Const(1)):
                    break
                probe = st.fork()
                k = Sym(probe.fresh('at'), 'nat')
                if not probe.add_lin(lin_sub(lin_sub(left, k), Const(1))):
                    break
                self.poke(probe, jn, lin_add(j, k))
                b = probe.fork()
                back, exits = self._step(probe, head, run_body)
                if exits or len(back) != 1:
                    break
                z = back[0]
                if self.peek(z, jn) != lin_add(lin_add(j, k), Const(1)):
                    break
                y = z.fork()
                self.poke(y, jn, lin_add(j, k))
                if self._diff(b, y, b) or y.truth != b.truth or list(y.lins) != list(b.lins):
                    break
                st = st.fork()
                self.poke(st, jn, lin_add(j, left))
        return st

    def peek(self, st, name):
        return st.get(st.frame).attrs.get(name)

    def poke(self, st, name, v):
        o = st.get(st.frame)
        st.put(st.frame, o.copy(attrs=dict(o.attrs, **{name: v})))

    def _step(self, x, head, run_body):
        """One abstract iteration: (back states, exits[(st, flow, orelse?)])"""
        back, exits = [], []
        for y, w, f in head(x.fork()):
            if w == 'body':
                for z, g in run_body(y):
                    if g is None or g == 'continue':
                        back.append(z)
                    else:
                        exits.append((z, None if g == 'break' else g, False))
            elif w == 'done':
                exits.append((y, None, True))
            else:
                exits.append((y, f, False))
        return back, exits

    def _fix(self, node, mod, fn, lname, st, head, run_body, orelse, iterable):
        star = {}        # loc -> set of types seen ('?' unknown)
        disc = {}        # loc -> set of discrete values
        wide = set()
        mus = {}
        for rounds in range(30):
            changed = False
            heads = {}
            work = []
            k0 = self._key(st, st, disc, star, wide)
            h0 = self._head(st, k0, lname, star, mus, disc)
            heads[k0] = h0
            work.append(k0)
            recs = []
            while work and not changed:
                key = work.pop()
                h = heads[key]
                back, exits = self._step(h, head, run_body)
                if len(back) + len(exits) > self.policy.max_states:
                    raise Limit('state budget')
                recs.append((key, h, back, exits))
                for b in back:
                    for loc in self._diff(h, b, st):
                        if loc not in star and loc not in disc:
                            disc[loc] = {self._read(st, loc)}
                            star.setdefault(loc, None)
                            star.pop(loc)
                            changed = True
                    if changed:
                        continue
                    for loc in list(disc):
                        v = self._read(b, loc)
                        if self._is_disc(v, loc, disc, wide, self._read(st, loc)):
                            if v not in disc[loc] and loc not in star:
                                disc[loc].add(v)
                                if len(disc[loc]) > 4:
                                    wide.add(loc)
                                    changed = True
                        else:
                            t = self.type_of(b, v) or '?'
                            if v == mus.get(loc):
                                continue
                            if loc not in star:
                                star[loc] = set()
                                changed = True
                            if t not in star[loc]:
                                star[loc].add(t)
                                changed = True
                            v0 = self._read(st, loc)
                            if not self._is_disc(v0, loc, disc, wide, v0) or loc in wide:
                                t0 = self.type_of(st, v0) or '?'
                                if t0 not in star[loc]:
                                    star[loc].add(t0)
                                    changed = True
                    if changed:
                        continue
                    kb = self._key(b, st, disc, star, wide)
                    if kb not in heads:
                        heads[kb] = self._head(st, kb, lname, star, mus, disc)
                        work.append(kb)
                        if len(heads) > 64:
                            raise Limit('loop partitions')
                for loc in wide:
                    if loc not in star:
                        star[loc] = set()
                        changed = True
                    for v in disc.get(loc, ()):
                        if not (isinstance(v, Const) and (v.v is None or isinstance(v.v, bool))):
                            t = self.type_of(st, v) or '?'
                            if t not in star[loc]:
                                star[loc].add(t)
                                changed = True
            if not changed:
                break
        else:
            raise Limit('loop does not stabilise')
        # affine relations between the integer loop unknowns
        invs = self._affine(st, recs, mus, disc)
        ineqs = []
        if invs or self.policy.houdini:
            for x in heads.values():
                here = self._here(x, mus)
                for e in invs:
                    e = subst(e, here)
                    if not (x.add_lin(e) and x.add_lin(lin_scale(e, -1))):
                        x.note('inconsistent loop invariant')
            if self.policy.houdini:
                ineqs = self._houdini(st, heads, recs, mus, head, run_body, lambda b: self._key(b, st, disc, star, wide), k0)
            recs = []
            for key, h in heads.items():
                back, exits = self._step(h, head, run_body)
                recs.append((key, h, back, exits))
        rec = LoopRec(node, mod, fn, lname)
        rec.entry, rec.mus, rec.invs, rec.ineqs, rec.iterable = st, dict(mus), invs, ineqs, iterable
        rec.init = {loc: self._read(st, loc) for loc in mus}
        rec.heads = list(heads.items())
        for key, h, back, exits in recs:
            rec.back += [(key, h, b) for b in back]
        out = []
        for key, h, back, exits in recs:
            for x, f, els in exits:
                rec.exits.append((key, x, f))
                if els and orelse:
                    out.extend(self.block(orelse, x))
                else:
                    out.append((x, f))
        # make the loop visible on the trace of each exit: head states carry the event
        for key, h in heads.items():
            ev = h.tr[1]
            ev.a = (rec, key)
        return out

    def _is_disc(self, v, loc, disc, wide, init):
        if isinstance(v, Const):
            if v.v is None or isinstance(v.v, bool):
                return True
            if loc in wide:
                return False
            if isinstance(v.v, int) and loc[0] == 'ghost':
                return False
            if isinstance(v.v, int) and len(disc.get(loc, ())) > 2:
                wide.add(loc)
                return False
            return True
        if loc in wide:
            return False
        if loc[0] in ('obj',):
            return False
        return isinstance(v, (Func, Bound, Ref, Ext, Wrap)) or (isinstance(v, Meth))

    def _key(self, b, st, disc, star, wide):
        key = []
        for loc in sorted(disc, key=repr):
            v = self._read(b, loc)
            if loc in star:
                if isinstance(v, Const) and (v.v is None or isinstance(v.v, bool)):
                    key.append((loc, v))
                elif loc not in wide and not isinstance(v, Const) and isinstance(v, (Func, Bound, Ref, Ext)) and loc[0] != 'obj':
                    key.append((loc, v))
                elif loc not in wide and isinstance(v, Const) and not isinstance(v.v, int):
                    key.append((loc, v))
                else:
                    key.append((loc, '*'))
            elif self._is_disc(v, loc, disc, wide, v):
                key.append((loc, v))
            else:
                key.append((loc, '*'))
        return tuple(key)

    def _head(self, st, key, lname, star, mus, disc):
        h = st.fork()
        for loc, v in key:
            if v != '*':
                self._write(h, loc, v)
                continue
            ts = star.get(loc) or set()
            ty = next(iter(ts)) if len(ts) == 1 else None
            if ts <= {'int', 'bool'} and ts:
                ty = 'int'
            if ty == '?':
                ty = None
            name = 'mu:%s:%s' % (lname, self._locname(loc))
            info = None
            mu = Sym(name, ty, info)
            mus[loc] = mu
            self._write(h, loc, mu)
        # facts about overwritten opaque slots stay: terms are immutable
        mod, fn = self.ctx(st)
        h.emit(Ev('loop', None, mod, fn, None))
        return h

    @staticmethod
    def _locname(loc):
        if loc[0] == 'var':
            return loc[2] + ('' if loc[1].startswith('frame') else '@' + loc[1])
        return '%s.%s' % (loc[0], loc[1:])

    def _diff(self, h, b, st):
        out = []
        for i, o in b.heap.items():
            p = h.get(i)
            if p is None or p is o or p.same(o):
                continue
            if o.kind in ('frame', 'inst', 'class'):
                pre = 'var' if o.kind == 'frame' else 'attr'
                for k in set(o.attrs) | set(p.attrs):
                    if k.startswith('%'):
                        continue
                    if o.attrs.get(k) != p.attrs.get(k):
                        if st.get(i) is not None:
                            out.append((pre, i, k))
                if o.items != p.items or o.open != p.open:
                    out.append(('obj', i))
                if o.kind == 'inst' and o.meta != p.meta:
                    out.append(('meta', i))
            elif o.kind == 'iter':
                if st.get(i) is not None:
                    out.append(('pos', i))
            else:
                if st.get(i) is not None:
                    out.append(('obj', i))
        for k in set(b.sto) | set(h.sto):
            if b.sto.get(k) != h.sto.get(k):
                out.append(('sto', k))
        for k in set(b.ghost) | set(h.ghost):
            if b.ghost.get(k) != h.ghost.get(k):
                out.append(('ghost', k))
        return out

    UNBOUND = Sym('unbound')

    def _read(self, st, loc):
        kind = loc[0]
        if kind in ('var', 'attr'):
            o = st.get(loc[1])
            return o.attrs.get(loc[2], self.UNBOUND) if o else self.UNBOUND
        if kind == 'obj':
            o = st.get(loc[1])
            return App('content', Tup(o.items if o.kind != 'dict' else tuple(Tup(p) for p in o.items)), o.open or NONE)
        if kind == 'pos':
            return st.get(loc[1]).meta[1]
        if kind == 'sto':
            return st.sto.get(loc[1], self.UNBOUND)
        if kind == 'ghost':
            return st.ghost.get(loc[1], Const(0))
        return self.UNBOUND

    def _write(self, st, loc, v):
        kind = loc[0]
        if kind in ('var', 'attr'):
            o = st.get(loc[1])
            a = dict(o.attrs)
            if v == self.UNBOUND:
                a.pop(loc[2], None)
            else:
                a[loc[2]] = v
            st.put(loc[1], o.copy(attrs=a))
        elif kind == 'obj':
            o = st.get(loc[1])
            if isinstance(v, App) and v.op == 'content':
                it = v.args[0].items
                st.put(loc[1], o.copy(items=tuple(p.items for p in it) if o.kind == 'dict' else it,
                                      open=None if v.args[1] == NONE else v.args[1]))
            elif o.kind == 'dict':
                st.put(loc[1], o.copy(items=(), open=v))
            else:
                st.put(loc[1], o.copy(items=(App('star', v),)))
        elif kind == 'pos':
            o = st.get(loc[1])
            st.put(loc[1], o.copy(meta=(o.meta[0], v)))
        elif kind == 'sto':
            if v == self.UNBOUND:
                st.sto.pop(loc[1], None)
            else:
                st.sto[loc[1]] = v
        elif kind == 'ghost':
            st.ghost[loc[1]] = v

    def _quantities(self, mus):
        """integer quantities of the loop unknowns: the integers and the lengths of strings"""
        qs = {}
        for l, m in mus.items():
            if l[0] == 'obj':
                continue
            if m.ty == 'int':
                qs[l] = m
            elif m.ty in ('bytes', 'str'):
                qs[('len', l)] = App('len', m)
        return qs

    def _quant(self, st, q):
        if q[0] == 'len':
            v = self._read(st, q[1])
            return None if v == self.UNBOUND else models.seq_len(self, st, v)
        v = self._read(st, q)
        if v == self.UNBOUND or not self.is_int(st, v):
            return None
        return v

    def _affine(self, st, recs, mus, disc):
        """Affine equalities preserved by every transition (Karr-style)."""
        qs = self._quantities(mus)
        # an unknown that is discrete in some head cannot take part
        ok = []
        for l in qs:
            good = True
            for key, h, back, _ in recs:
                if self._quant(h, l) is None:
                    good = False
                for b in back:
                    if self._quant(b, l) is None:
                        good = False
            if self._quant(st, l) is None:
                good = False
            if good:
                ok.append(l)
        if not ok:
            return []
        rows = []
        for key, h, back, _ in recs:
            for b in back:
                eqs = self._equalities(b)
                deltas = []
                for l in ok:
                    d = lin_sub(self._quant(b, l), self._quant(h, l))
                    d = self._reduce(d, eqs)
                    deltas.append(lin_parts(d))
                atoms = set()
                for c, t in deltas:
                    atoms |= t.keys()
                rows.append([Fraction(c) for c, t in deltas])
                for a in atoms:
                    rows.append([Fraction(t.get(a, 0)) for c, t in deltas])
        basis = nullspace(rows, len(ok))
        out = []
        for vec in basis:
            nz = [(l, c) for l, c in zip(ok, vec) if c]
            den = 1
            for _, c in nz:
                den = den * c.denominator // _gcd(den, c.denominator)
            e = Const(0)
            for l, c in nz:
                k = int(c * den)
                e = lin_add(e, lin_scale(qs[l], k))
                e = lin_add(e, lin_scale(self._quant(st, l), -k))
            if not isinstance(e, Const):
                out.append(e)
        return out

    def _equalities(self, b):
        s = set()
        for const, terms in b.lins:
            s.add((const, frozenset(terms.items())))
            for a in terms:
                for c, t in atom_bounds(a):
                    s.add((c, frozenset(t.items())))
        eqs = []
        for const, terms in b.lins:
            if (-const, frozenset((a, -c) for a, c in terms.items())) in s:
                for a, c in sorted(terms.items(), key=lambda p: repr(p[0])):
                    if abs(c) == 1:
                        rest = mk_lin(-const * c, {x: -y * c for x, y in terms.items() if x != a})
                        eqs.append((a, rest))
                        break
        return eqs

    def _reduce(self, v, eqs):
        for a, rest in eqs:
            if isinstance(v, (Lin, App, Sym)):
                c, t = lin_parts(v)
                if a in t:
                    v = lin_add(v, lin_scale(lin_sub(rest, a), t[a]))
        return v

    def _houdini(self, st, heads, recs, mus, head, run_body, keyof, k0):
        cands = []
        seen = set()

        def add(e):
            if isinstance(e, Const) or e in seen:
                return
            seen.add(e)
            cands.append(e)
        rev = {m: self._read(st, l) for l, m in mus.items()}
        ints = {q: m for q, m in self._quantities(mus).items() if self._quant(st, q) is not None}
        for l, m in ints.items():
            v0 = self._quant(st, l)
            rev[m] = v0
            add(m)
            add(lin_sub(m, v0))
            add(lin_sub(v0, m))
        if len(ints) <= 8:
            for l, m in ints.items():
                for l2, m2 in ints.items():
                    if l != l2:
                        add(lin_sub(m, m2))
                        # a fixed distance, when both start apart
                        d = lin_sub(self._quant(st, l), self._quant(st, l2))
                        if isinstance(d, Const) and d.v:
                            add(lin_sub(lin_sub(m, m2), d))
        # guards met in the body, relaxed by one
        base = set((c, tuple(sorted(t.items(), key=lambda p: repr(p[0])))) for c, t in st.lins)
        mset = set(ints.values())
        for key, h, back, exits in recs:
            for b in back:
                for c, t in b.lins:
                    if (set(t) & mset) and all(a in mset or not contains(a, lambda x: isinstance(x, Sym) and '#' in x.name) for a in t):
                        for d in (0, 1):
                            add(mk_lin(c + d, t))
        live = {k: list(cands) for k in heads}
        first = []
        for e in cands:
            e0 = subst(e, rev)
            if not any(x == self.UNBOUND for x in subterms(e0)) and st.entails(e0):
                first.append(e)
        live[k0] = first
        for _ in range(20):
            hs = {}
            for key, h in heads.items():
                x = h.fork()
                here = self._here(h, mus)
                for e in live[key]:
                    x.add_lin(subst(e, here))
                hs[key] = x
            drop = {k: set() for k in heads}
            for key, x in hs.items():
                back, _ = self._step(x, head, run_body)
                for b in back:
                    kb = keyof(b)
                    if kb not in heads:
                        return []
                    cur = self._here(b, mus)
                    for e in live[kb]:
                        if e in drop[kb]:
                            continue
                        e1 = subst(e, cur)
                        if any(y == self.UNBOUND for y in subterms(e1)) or not b.entails(e1):
                            drop[kb].add(e)
            if not any(drop.values()):
                for key, h in heads.items():
                    here = self._here(h, mus)
                    for e in live[key]:
                        h.add_lin(subst(e, here))
                return [e for e in live[k0] if all(e in x for x in live.values())]
            live = {k: [e for e in x if e not in drop[k]] for k, x in live.items()}
        return []

    def _here(self, b, mus):
        """value of every loop unknown and quantity in state b"""
        cur = {}
        for l, m in mus.items():
            v = self._read(b, l)
            if v != m:
                cur[m] = v
        for q, m in self._quantities(mus).items():
            v = self._quant(b, q)
            v = self.UNBOUND if v is None else v
            if v != m:
                cur[m] = v
        return cur

    # ================================================================ expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            st = st.fork()
            st.note('unsupported expression %s' % type(e).__name__)
            return [(st, Sym(st.fresh('unsup')))]
        return m(e, st)

    def evs(self, exprs, st):
        """Evaluate in order -> [(st, [V])|(st, Exc)]"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for x, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((x, vs))
                    continue
                for y, v in self.ev(e, x):
                    nxt.append((y, v if isinstance(v, Exc) else vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(st, Const(e.value))]

    def e_Name(self, e, st):
        return [(st, self.load_name(st, e.id, e))]

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            if isinstance(v, Exc):
                out.append((x, v))
            else:
                x = x.fork()
                self.store_name(x, e.target.id, v)
                out.append((x, v))
        return out

    def e_Tuple(self, e, st):
        def f(x, v):
            return [(x, Tup(v))]
        return each(self.ev_items(e.elts, st), f)

    def ev_items(self, elts, st):
        cur = [(st, [])]
        for el in elts:
            nxt = []
            for x, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((x, vs))
                    continue
                if isinstance(el, ast.Starred):
                    for y, v in self.ev(el.value, x):
                        if isinstance(v, Exc):
                            nxt.append((y, v))
                            continue
                        for z, its in models.to_items(self, y, v, el):
                            nxt.append((z, its if isinstance(its, Exc) else vs + list(its)))
                else:
                    for y, v in self.ev(el, x):
                        nxt.append((y, v if isinstance(v, Exc) else vs + [v]))
            cur = nxt
        return cur

    def e_List(self, e, st):
        def f(x, v):
            x = x.fork()
            return [(x, x.alloc(Obj('list', items=tuple(v)), 'list@%d' % e.lineno))]
        return each(self.ev_items(e.elts, st), f)

    def e_Set(self, e, st):
        def f(x, v):
            x = x.fork()
            return [(x, x.alloc(Obj('set', items=tuple(dict.fromkeys(v))), 'set@%d' % e.lineno))]
        return each(self.ev_items(e.elts, st), f)

    def e_Dict(self, e, st):
        x = st.fork()
        ref = x.alloc(Obj('dict'), 'dict@%d' % e.lineno)
        cur = [(x, ref)]
        for k, v in zip(e.keys, e.values):
            if k is None:
                cur = each(cur, lambda y, _: each(self.ev(v, y), lambda z, d: [(w, r if isinstance(r, Exc) else ref)
                           for w, r in models.dict_update(self, z, ref, d, e)]))
            else:
                cur = each(cur, lambda y, _: each(self.ev(k, y), lambda z, kv: each(
                    self.ev(v, z), lambda w, vv: [(u, r if isinstance(r, Exc) else ref) for u, r in models.dict_set(self, w, ref, kv, vv, e, quiet=True)])))
        return cur

    def e_JoinedStr(self, e, st):
        cur = [(st, [])]
        for p in e.values:
            nxt = []
            for x, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((x, vs))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((x, vs + [Const(p.value)]))
                    continue
                for y, v in self.ev(p.value, x):
                    if isinstance(v, Exc):
                        nxt.append((y, v))
                        continue
                    spec = None
                    if p.format_spec is not None:
                        r = self.ev(p.format_spec, y)
                        y, spec = r[0]
                    for z, s in models.fmt(self, y, v, p.conversion, spec, e):
                        nxt.append((z, s if isinstance(s, Exc) else vs + [s]))
            cur = nxt
        return [(x, v if isinstance(v, Exc) else models.concat(v, '')) for x, v in cur]

    def e_FormattedValue(self, e, st):
        return each(self.ev(e.value, st), lambda x, v: models.fmt(self, x, v, e.conversion, None, e))

    def e_IfExp(self, e, st):
        out = []
        for x, v in self.branch(e.test, st):
            if isinstance(v, Exc):
                out.append((x, v))
            else:
                out.extend(self.ev(e.body if v else e.orelse, x))
        return out

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, sub in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for x in cur:
                for y, v in self.ev(sub, x):
                    if isinstance(v, Exc) or last:
                        out.append((y, v))
                        continue
                    for z in self.assume(y, v, is_and):
                        nxt.append(z)
                    for z in self.assume(y, v, not is_and):
                        # a falsy boolean term is just False
                        if isinstance(v, App) and v.op in BOOL_OPS:
                            out.append((z, Const(not is_and)))
                        else:
                            out.append((z, v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st):
        def f(x, v):
            if isinstance(e.op, ast.Not):
                t = self.cond(x, v)
                if isinstance(t, Const):
                    return [(x, Const(not t.v))]
                k = x.known(t)
                if k is not None:
                    return [(x, Const(not k))]
                return [(x, t.args[0] if t.op == 'not' else App('not', t))]
            if isinstance(v, Const):
                try:
                    return [(x, Const({'USub': lambda a: -a, 'UAdd': lambda a: +a, 'Invert': lambda a: ~a}[type(e.op).__name__](v.v)))]
                except Exception:
                    pass
            if isinstance(e.op, ast.USub):
                return [(x, lin_scale(v, -1))]
            return [(x, App(type(e.op).__name__, v))]
        return each(self.ev(e.operand, st), f)

    def e_BinOp(self, e, st):
        return each(self.ev(e.left, st), lambda x, a: each(self.ev(e.right, x), lambda y, b: self.binop(y, e.op, a, b, e)))

    def binop(self, st, op, a, b, node):
        return models.binop(self, st, op, a, b, node)

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            return each(self.ev(e.left, st), lambda x, a: each(
                self.ev(e.comparators[0], x), lambda y, b: models.compare(self, y, e.ops[0], a, b, e)))
        # chained: fork on each link
        out = []

        def go(x, left, i):
            if i == len(e.ops):
                out.append((x, TRUE))
                return
            for y, b in self.ev(e.comparators[i], x):
                if isinstance(b, Exc):
                    out.append((y, b))
                    continue
                for z, t in models.compare(self, y, e.ops[i], left, b, e):
                    if isinstance(t, Exc):
                        out.append((z, t))
                        continue
                    for w in self.assume(z, t, False):
                        out.append((w, FALSE))
                    for w in self.assume(z, t, True):
                        go(w, b, i + 1)
        for x, a in self.ev(e.left, st):
            if isinstance(a, Exc):
                out.append((x, a))
            else:
                go(x, a, 0)
        return out

    def e_Attribute(self, e, st):
        return each(self.ev(e.value, st), lambda x, b: self.getattr_(x, b, self.mangle(x, e.attr), e))

    def e_Subscript(self, e, st):
        return each(self.ev(e.value, st), lambda x, b: each(self.ev_slice(e.slice, x), lambda y, i: self.getitem(y, b, i, e)))

    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            parts = [s.lower, s.upper, s.step]
            cur = [(st, [])]
            for p in parts:
                nxt = []
                for x, vs in cur:
                    if isinstance(vs, Exc):
                        nxt.append((x, vs))
                    elif p is None:
                        nxt.append((x, vs + [NONE]))
                    else:
                        nxt += [(y, v if isinstance(v, Exc) else vs + [v]) for y, v in self.ev(p, x)]
                cur = nxt
            return [(x, v if isinstance(v, Exc) else App('sl', *v)) for x, v in cur]
        return self.ev(s, st)

    def e_Starred(self, e, st):
        return each(self.ev(e.value, st), lambda x, v: [(x, App('star', v))])

    def e_Lambda(self, e, st):
        return self.mkfunc(e, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        res = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        out = []
        for x, v in res:
            if isinstance(v, Exc):
                out.append((x, v))
            else:
                out.extend(self.do_yield(x, v, e))
        return out

    def do_yield(self, st, v, node):
        """-> [(st, V|Exc|Unwind)]; an unwinding consumer travels as Exc with val ('unwind', ...)"""
        self.event(st, 'yield', node, (v,))
        h = None
        for fid, f in reversed(self.yields):
            if fid == st.frame:
                h = f
                break
        if h is None:
            if self.policy.on_yield:
                return self.policy.on_yield(self, st, v, node)
            return [(st, NONE)]
        out = []
        for x, f in h(st, v, node):
            out.append((x, NONE) if f is None else (x, Unwind(f)))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for x, it in self.ev(e.value, st):
            if isinstance(it, Exc):
                out.append((x, it))
                continue
            cell = {}

            def bind(y, v):
                cell['v'] = v
                return [(y, None)]

            def body(y):
                r = []
                for z, w in self.do_yield(y, cell['v'], e):
                    r.append((z, w.flow if isinstance(w, Unwind) else ('raise', w) if isinstance(w, Exc) else None))
                return r
            for y, f in self.for_over(e, x, it, bind, body):
                if f is None:
                    out.append((y, NONE))
                elif isinstance(f, tuple) and f[0] == 'raise':
                    out.append((y, f[1]))
                else:
                    out.append((y, Unwind(f)))
        return out

    # -- comprehensions ----------------------------------------------------
    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list', lambda x: self.ev(e.elt, x))

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set', lambda x: self.ev(e.elt, x))

    def e_GeneratorExp(self, e, st):
        # consumers take it as a sequence; evaluated where it is created
        return self.comp(e, st, 'list', lambda x: self.ev(e.elt, x))

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict', lambda x: each(self.ev(e.key, x), lambda y, k: each(
            self.ev(e.value, y), lambda z, v: [(z, Tup((k, v)))])))

    def comp(self, e, st, kind, elt):
        x = st.fork()
        mod, qual = self.ctx(x)
        outer = x.frame
        ref = x.alloc(Obj(kind), kind + 'comp@%d' % e.lineno)
        parent = x.frame
        po = x.get(parent)
        if po.meta[4] == 'class':
            pass
        fid = self.new_frame(x, mod, qual, parent=parent)
        x.frame = fid

        def add(y, v):
            if kind == 'dict':
                return models.dict_set(self, y, ref, v.items[0], v.items[1], e)
            if kind == 'set':
                return models.set_add(self, y, ref, v, e)
            return models.list_append(self, y, ref, v, e)

        def go(gens, y):
            if not gens:
                return [(z, rf(r) if isinstance(r, Exc) else None) for z, r in each(elt(y), add)]
            g = gens[0]
            out = []
            for z, it in self.ev(g.iter, y):
                if isinstance(it, Exc):
                    out.append((z, rf(it)))
                    continue

                def body(w):
                    cur = [(w, None)]
                    for cnd in g.ifs:
                        nxt = []
                        for u, f in cur:
                            if f is not None:
                                nxt.append((u, f))
                                continue
                            for q, v in self.branch(cnd, u):
                                if isinstance(v, Exc):
                                    nxt.append((q, rf(v)))
                                else:
                                    nxt.append((q, None if v else 'continue'))
                        cur = nxt
                    res = []
                    for u, f in cur:
                        res.extend(go(gens[1:], u) if f is None else [(u, f)])
                    return res
                out += self.for_over(e, z, it, lambda w, v: self.assign(g.target, v, w), body)
            return out
        out = []
        for y, f in go(e.generators, x):
            y = y.fork()
            y.frame = outer
            out.append((y, ref) if f is None else (y, f[1] if isinstance(f, tuple) and f[0] == 'raise' else Unwind(f)))
        return out

    # ================================================================ access
    def getattr_(self, st, base, name, node, raw=False):
        return models.getattr_(self, st, base, name, node, raw)

    def setattr_(self, st, base, name, v, node, raw=False):
        return models.setattr_(self, st, base, name, v, node, raw)

    def getitem(self, st, base, idx, node):
        return models.getitem(self, st, base, idx, node)

    def setitem(self, st, base, idx, v, node):
        return models.setitem(self, st, base, idx, v, node)

    # ================================================================ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            v = self.super_(st)
            if v is not None:
                return [(st, v)]

        def f(x, fv):
            cur = [(x, ([], []))]
            for a in e.args:
                nxt = []
                for y, acc in cur:
                    if isinstance(acc, Exc):
                        nxt.append((y, acc))
                        continue
                    args, kw = acc
                    if isinstance(a, ast.Starred):
                        for z, v in self.ev(a.value, y):
                            if isinstance(v, Exc):
                                nxt.append((z, v))
                                continue
                            for w, its in models.to_items(self, z, v, a):
                                nxt.append((w, its if isinstance(its, Exc) else (args + list(its), kw)))
                    else:
                        for z, v in self.ev(a, y):
                            nxt.append((z, v if isinstance(v, Exc) else (args + [v], kw)))
                cur = nxt
            for k in e.keywords:
                nxt = []
                for y, acc in cur:
                    if isinstance(acc, Exc):
                        nxt.append((y, acc))
                        continue
                    args, kw = acc
                    for z, v in self.ev(k.value, y):
                        if isinstance(v, Exc):
                            nxt.append((z, v))
                        elif k.arg is not None:
                            nxt.append((z, (args, kw + [(k.arg, v)])))
                        else:
                            nxt.append((z, (args, kw + models.kw_items(self, z, v))))
                cur = nxt
            out = []
            for y, acc in cur:
                if isinstance(acc, Exc):
                    out.append((y, acc))
                else:
                    out.extend(self.call(y, fv, acc[0], acc[1], e))
            return out
        return each(self.ev(e.func, st), f)

    def super_(self, st):
        fid = st.frame
        while fid is not None:
            o = st.get(fid)
            if '%cls' in o.attrs and '%self' in o.attrs:
                return Wrap('super', o.attrs['%cls'], o.attrs['%self'])
            fid = o.meta[0]
        return None

    def call(self, st, fv, args, kw, node):
        """args: list of V; kw: list of (name|None, V)."""
        self.tick()
        pol = self.policy
        if isinstance(fv, Func):
            h = pol.opaque.get(fv.qual)
            if h is not None:
                if callable(h):
                    return h(self, st, fv, args, kw, node)
                return self.unknown_call(st, fv, args, kw, node)
            if pol.intercept is not None:
                r = pol.intercept(self, st, fv, args, kw, node)
                if r is not None:
                    return r
            return self.inline(st, fv, args, kw, node)
        if isinstance(fv, Bound):
            return self.call(st, fv.func, [fv.self_] + list(args), kw, node)
        if isinstance(fv, Wrap):
            if fv.kind == 'partial':
                k2 = dict(fv.kw)
                k2.update({a: b for a, b in kw})
                return self.call(st, fv.args[0], list(fv.args[1:]) + list(args), list(k2.items()), node)
            if fv.kind in ('staticmethod', 'classmethod'):
                return self.call(st, fv.args[0], args, kw, node)
            return models.call_wrap(self, st, fv, args, kw, node)
        if isinstance(fv, Ref):
            o = st.get(fv)
            if o.kind == 'class':
                h = pol.opaque.get(o.meta['qual'])
                if h is not None:
                    if callable(h):
                        return h(self, st, fv, args, kw, node)
                    return self.unknown_call(st, fv, args, kw, node)
                return self.instantiate(st, fv, args, kw, node)
            if o.kind == 'inst' and isinstance(o.cls, Ref):
                f, _ = self.class_attr(st, o.cls, '__call__')
                if f is not None:
                    return self.call(st, f, [fv] + list(args), kw, node)
            return self.unknown_call(st, fv, args, kw, node)
        if isinstance(fv, Ext):
            h = pol.ext.get(fv.name)
            if h is not None:
                r = h(self, st, args, kw, node)
                if r is not None:
                    return r
            return models.call_ext(self, st, fv, args, kw, node)
        if isinstance(fv, Meth):
            h = pol.meth.get(fv.name)
            if h is not None:
                r = h(self, st, fv.self_, args, kw, node)
                if r is not None:
                    return r
            return models.call_meth(self, st, fv, args, kw, node)
        if isinstance(fv, App) and fv.op == 'attr':
            h = pol.meth.get(fv.args[1].v)
            if h is not None:
                r = h(self, st, fv.args[0], args, kw, node)
                if r is not None:
                    return r
            return models.call_meth(self, st, Meth(fv.args[0], fv.args[1].v), args, kw, node)
        return self.unknown_call(st, fv, args, kw, node)

    def unknown_call(self, st, fv, args, kw, node, ty=None):
        if self.policy.call:
            r = self.policy.call(self, st, fv, args, kw, node)
            if r is not None:
                return r
        st = st.fork()
        nm = self.callee_name(st, fv)
        res = Sym(st.fresh('ret:' + nm), ty)
        out = []
        if self.policy.raises:
            for ex in self.policy.raises(self, st, fv, nm) or ():
                if self.can_catch(st, self.exc_class(st, ex)):
                    s2 = st.fork()
                    self.event(s2, 'call', node, (fv, tuple(args), tuple(kw)), None)
                    out.append((s2, self.exc(s2, ex, node)))
        self.event(st, 'call', node, (fv, tuple(args), tuple(kw)), res)
        return [(st, res)] + out

    def callee_name(self, st, fv):
        if isinstance(fv, Func):
            return fv.qual
        if isinstance(fv, Ext):
            return fv.name
        if isinstance(fv, Meth):
            return '.' + fv.name
        if isinstance(fv, App) and fv.op == 'attr':
            return '.' + str(fv.args[1].v)
        if isinstance(fv, Ref):
            o = st.get(fv)
            if o.kind == 'class':
                return o.meta['qual']
        return '?'

    def bind(self, st, fv, args, kw, node):
        """-> (dict, None) or (None, Exc)."""
        a = fv.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        if any(self.is_star(x) for x in args):
            i = next(i for i, x in enumerate(args) if self.is_star(x))
            if a.vararg is None or i < len(names):
                st.note('unknown number of arguments')
                src = args[i].args[0]
                need = len(names) - i - (len(args) - i - 1) - len([k for k, _ in kw if k in names])
                args = args[:i] + [self.item_term(st, src, Const(j)) for j in range(max(0, need))] + args[i + 1:]
        extra = args[len(names):]
        for n, v in zip(names, args):
            vars[n] = v
        if extra and a.vararg is None:
            return None, self.mkexc(st, 'TypeError', node)
        if a.vararg is not None:
            vars[a.vararg.arg] = Tup(extra)
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = []
        for k, v in kw:
            if k is None:
                rest.append((k, v))
            elif k in names or k in kwonly:
                vars[k] = v
            else:
                rest.append((k, v))
        d = dict(fv.defaults)
        kd = dict(fv.kwdefaults)
        unknown_kw = any(k is None for k, v in rest)
        for n in names:
            if n not in vars:
                if n in d:
                    vars[n] = d[n]
                elif unknown_kw:
                    vars[n] = Sym(st.fresh('kwarg:' + n))
                else:
                    return None, self.mkexc(st, 'TypeError', node, Const('missing ' + n))
        for n in kwonly:
            if n not in vars:
                if n in kd:
                    vars[n] = kd[n]
                elif unknown_kw:
                    vars[n] = Sym(st.fresh('kwarg:' + n))
                else:
                    return None, self.mkexc(st, 'TypeError', node, Const('missing ' + n))
        if a.kwarg is not None:
            known = tuple((Const(k), v) for k, v in rest if k is not None)
            op = [v for k, v in rest if k is None]
            vars[a.kwarg.arg] = st.alloc(Obj('dict', items=known, open=op[0] if op else None), 'kwargs')
        elif [1 for k, v in rest if k is not None]:
            return None, self.mkexc(st, 'TypeError', node)
        return vars, None

    def is_gen(self, node):
        r = self._flow_cache.get(id(node))
        if r is None:
            r = False
            stack = list(node.body) if not isinstance(node, ast.Lambda) else []
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self._flow_cache[id(node)] = r
        return r

    def scopes(self, node):
        key = ('sc', id(node))
        r = self._flow_cache.get(key)
        if r is None:
            g, nl = set(), set()
            stack = list(node.body) if not isinstance(node, ast.Lambda) else []
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Global):
                    g |= set(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nl |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    continue
                stack.extend(x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt) or isinstance(x, ast.ExceptHandler))
            r = self._flow_cache[key] = (frozenset(g), frozenset(nl))
        return r

    def inline(self, st, fv, args, kw, node):
        if self.active.count((fv.node, fv.frame)) >= 3 or len(self.active) > self.policy.max_depth:
            s = st.fork()
            s.note('recursion cut at %s' % fv.qual)
            return self.unknown_call(s, fv, args, kw, node)
        st = st.fork()
        vars, ex = self.bind(st, fv, args, kw, node)
        if ex is not None:
            return [(st, ex)]
        g, nl = self.scopes(fv.node)
        outer = st.frame
        fid = self.new_frame(st, fv.mod, fv.qual, vars, fv.frame, g, nl)
        if fv.cls is not None and args:
            o = st.get(fid)
            a = dict(o.attrs)
            a['%cls'], a['%self'] = fv.cls, args[0]
            st.put(fid, o.copy(attrs=a))
        if self.is_gen(fv.node):
            return [(st, st.alloc(Obj('gen', meta=(fv, fid)), 'gen:' + fv.qual))]
        self.analysed.add(fv.qual)
        self.event(st, 'enter', node, (fv, tuple(args), tuple(kw)))
        st.frame = fid
        self.active.append((fv.node, fv.frame))
        try:
            if isinstance(fv.node, ast.Lambda):
                res = [(x, rf(v) if isinstance(v, Exc) else ('ret', v)) for x, v in self.ev(fv.node.body, st)]
            else:
                res = self.block(fv.node.body, st)
        finally:
            self.active.pop()
        out = []
        for x, f in res:
            x = x.fork()
            x.frame = outer
            if not self.captured(fv.node):
                x.heap.pop(fid, None)
            if f is None:
                v = NONE
            elif f[0] == 'ret':
                v = f[1]
            elif f[0] == 'raise':
                v = f[1]
            else:
                v = Unwind(f)
            self.event(x, 'leave', node, (fv, v))
            out.append((x, v))
        if len(out) > self.policy.max_states:
            raise Limit('state budget')
        return self.dedupe_vals(out)

    def dedupe_vals(self, out):
        return [(x, f[1]) if isinstance(f, tuple) else (x, f) for x, f in self.dedupe(
            [(x, ('v', v)) if isinstance(v, V) else (x, v) for x, v in out])]

    def captured(self, node):
        """May a closure outlive the call's frame?"""
        key = ('cap', id(node))
        r = self._flow_cache.get(key)
        if r is None:
            r = self._flow_cache[key] = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef))
                                            for b in (node.body if isinstance(node.body, list) else [node.body]) for n in ast.walk(b))
        return r

    def instantiate(self, st, cref, args, kw, node):
        o = st.get(cref)
        if len(args) == 1 and isinstance(args[0], Const) and not kw and not isinstance(args[0].v, str) and \
                any(isinstance(k, Ext) and k.name in ('enum.IntEnum', 'enum.IntFlag', 'enum.Enum') for k in self.mro(st, cref)):
            ms = [v for n, v in o.attrs.items() if not n.startswith('_') and isinstance(v, Const)]
            if args[0] in ms:
                return [(st, args[0])]
            return [(st, self.mkexc(st, 'ValueError', node))]
        new, _ = self.class_attr(st, cref, '__new__')
        if isinstance(new, Wrap):
            new = new.args[0]
        if isinstance(new, Func):
            res = self.call(st, new, [cref] + list(args), kw, node)
        else:
            res = [self.bare(st, cref, node, args)]

        def init(x, v):
            if not (isinstance(v, Ref) and x.get(v).cls is not None):
                return [(x, v)]
            vo = x.get(v)
            if cref not in (self.mro(x, vo.cls) if isinstance(vo.cls, Ref) else [vo.cls]):
                return [(x, v)]
            f, _ = self.class_attr(x, vo.cls, '__init__') if isinstance(vo.cls, Ref) else (None, None)
            if f is None:
                return models.ext_init(self, x, v, args, kw, node)
            return [(y, r if isinstance(r, Exc) else v) for y, r in self.call(x, f, [v] + list(args), kw, node)]
        out = each(res, init)
        for m in self.mixins(st, cref):
            f = st.get(m).attrs.get('on_init')
            if isinstance(f, Func):
                out = each(out, lambda x, v: [(y, r if isinstance(r, Exc) else v) for y, r in self.call(x, f, [v] + list(args), kw, node)])
        for x, v in out:
            if not isinstance(v, Exc):
                self.event(x, 'new', node, (cref, tuple(args), tuple(kw)), v)
        return out

    def mixins(self, st, cref):
        """Base classes mixed in through `_as_mixins` (see ombott/mixable.py), in order."""
        out = []
        for k in reversed(self.mro(st, cref)):
            if isinstance(k, Ref):
                o = st.get(k)
                ms = self.known_items(st, o.attrs['_as_mixins']) if '_as_mixins' in o.attrs else None
                out += [b for b in o.meta['bases'] if ms and b in ms]
        return out

    def bare(self, st, cref, node, args=()):
        st = st.fork()
        kind = 'inst'
        b = self.ext_base(st, cref)
        for k in self.mro(st, cref):
            if isinstance(k, Ext) and k.name in ('builtins.dict', 'collections.OrderedDict', 'collections.defaultdict'):
                kind = 'dict'
            elif isinstance(k, Ext) and k.name == 'builtins.list':
                kind = 'list'
        return (st, st.alloc(Obj(kind, cls=cref), '%s@%d' % (st.get(cref).meta['name'], getattr(node, 'lineno', 0))))


def rf(v):
    return v.flow if isinstance(v, Unwind) else ('raise', v)


class Unwind(Exc):
    """A consumer's break/return/raise travelling out through a generator."""
    __slots__ = ('flow',)

    def __init__(self, flow):
        self.flow = flow
        self.val = Sym('unwind')
        self.node = None
        self.fn = self.mod = None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def nullspace(rows, n):
    m = [r[:] for r in rows if any(r)]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        k = m[r][c]
        m[r] = [x / k for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c]:
                k = m[i][c]
                m[i] = [x - k * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        out.append(v)
    return out
