"""Knowledge about Python's builtins and the standard library, as term algebra."""
from __future__ import annotations
import ast
import decimal
import json
import math
import re as _re
import string as _string
from .terms import *
from .state import Obj
from . import templ

MISSING = Sym('MISSING')
DELETED = Sym('DELETED')


def _exc(v):
    from .interp import Exc
    return isinstance(v, Exc)


def _rf(v):
    from .interp import rf
    return rf(v)


def each(res, fn):
    out = []
    for st, v in res:
        if _exc(v):
            out.append((st, v))
        else:
            out.extend(fn(st, v))
    return out


# ---------------------------------------------------------------- types
def _t0(eng, st, v):
    return eng.type_of(st, v.args[0])


def _titem(eng, st, v):
    t = eng.type_of(st, v.args[0])
    if t == 'str':
        return 'str'
    if t == 'bytes':
        return 'int'
    a = v.args[0]
    if isinstance(a, App) and a.op in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
        return eng.type_of(st, a.args[0])
    return None


def _tconcat(eng, st, v):
    for a in v.args:
        t = eng.type_of(st, a)
        if t in ('str', 'bytes'):
            return t
    return None


def _tcall(eng, st, v):
    if isinstance(v.args[0], Ext):
        return EXT_RET.get(v.args[0].name)
    return None


APP_TYPES = {
    'len': 'int', 'find': 'int', 'count': 'int', 'int': 'int', 'mstart': 'int', 'mend': 'int', 'ord': 'int', 'sumlen': 'int',
    'round': 'int', 'mul': 'int', 'floordiv': 'int', 'mod': 'int', 'index': 'int',
    'str': 'str', 'repr': 'str', 'fmt': 'str', 'chr': 'str',
    'encode': 'bytes', 'decode': 'str', 'bytes': 'bytes',
    'strip': _t0, 'lstrip': _t0, 'rstrip': _t0, 'lower': _t0, 'upper': _t0, 'title': _t0, 'replace': _t0, 'slice': _t0,
    'join': _t0, 'concat': _tconcat, 'item': _titem, 'split': 'list', 'rsplit': 'list', 'splitlines': 'list',
    'partition': 'tuple', 'rpartition': 'tuple', 'readlines': 'list', 'capitalize': _t0, 'casefold': _t0, 'zfill': _t0,
    'call': _tcall, 're': 'regex', 'module': 'module', 'content': 'list', 'exc': 'exc', 'float': 'float',
    'sorted': 'list', 'pct': lambda e, s, v: e.type_of(s, v.args[0]), 'strfmt': 'str', 'comp': 'list',
    'hex': 'str', 'digest': 'bytes', 'hexdigest': 'str', 'format': 'str',
    'group': lambda e, s, v: None, 'items': 'view', 'keys': 'view', 'values': 'view', 'range': 'range', 'enumerate': 'view',
}
for _o in BOOL_OPS:
    APP_TYPES[_o] = 'bool'

EXT_TYPES = {'os.sep': 'str', 'os.path.sep': 'str', 'os.R_OK': 'int', 'os.curdir': 'str', 'os.pardir': 'str'}

EXT_RET = {}
for _n in ('os.path.abspath', 'os.path.join', 'os.path.normpath', 'os.path.realpath', 'os.path.basename', 'os.path.dirname',
           'os.path.expanduser', 'os.path.normcase', 'os.path.commonpath', 'os.path.commonprefix', 'os.path.relpath', 'os.fspath',
           'urllib.parse.quote', 'urllib.parse.unquote', 'urllib.parse.unquote_plus', 'urllib.parse.urljoin',
           'html.escape', 'html.unescape', 'json.dumps', 're.escape', 'unicodedata.normalize', 'traceback.format_exc', 'email.utils.formatdate', 're.sub'):
    EXT_RET[_n] = 'str'
for _n in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.access', 'os.path.isabs', 'os.path.islink', 'math.isinf',
           'hmac.compare_digest', 'secrets.compare_digest', 'math.isnan', 'os.path.lexists'):
    EXT_RET[_n] = 'bool'
for _n in ('base64.b64encode', 'base64.b64decode', 'base64.urlsafe_b64encode', 'base64.urlsafe_b64decode', 'pickle.dumps',
           'base64.encodebytes', 'base64.decodebytes', 'hmac.digest', 'binascii.hexlify', 'binascii.unhexlify'):
    EXT_RET[_n] = 'bytes'
for _n in ('calendar.timegm', 'time.time', 'os.path.getsize', 'math.floor', 'math.ceil'):
    EXT_RET[_n] = 'int'

PURE = set(EXT_RET) | {
    'os.path.split', 'os.path.splitext', 'mimetypes.guess_type', 'email.utils.parsedate_tz', 'email.utils.parsedate',
    'email.utils.mktime_tz', 'hmac.new', 'hashlib.md5', 'hashlib.sha256', 'hashlib.sha1', 'decimal.Decimal',
    'urllib.parse.SplitResult', 'urllib.parse.urlsplit', 'urllib.parse.parse_qsl', 'urllib.parse.parse_qs',
    'pathlib.Path', 'datetime.datetime.utcfromtimestamp', 'operator.itemgetter', 'operator.attrgetter', 'time.mktime',
    'os.stat', 'os.lstat', 'os.path.getmtime', 'os.fstat', 'time.timezone',
}
PURE -= {'traceback.format_exc', 'time.time'}

EXT_RAISES = {
    'json.loads': ['ValueError', 'RecursionError', 'TypeError'],
    'base64.b64decode': ['ValueError'],
    'pickle.loads': ['Exception'],
    'calendar.timegm': ['TypeError', 'ValueError', 'OverflowError'],
    'email.utils.parsedate_tz': ['TypeError', 'ValueError', 'IndexError'],
    'os.stat': ['OSError'], 'builtins.open': ['OSError'],
    'time.mktime': ['OverflowError', 'ValueError', 'TypeError'],
}

ENC = {'utf8': 'utf8', 'utf-8': 'utf8', 'utf_8': 'utf8', 'u8': 'utf8', 'latin1': 'latin1', 'latin-1': 'latin1', 'latin_1': 'latin1',
       'iso-8859-1': 'latin1', 'iso8859-1': 'latin1', 'l1': 'latin1', 'ascii': 'ascii', 'us-ascii': 'ascii'}

STR_METHODS = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'replace', 'split', 'rsplit', 'splitlines', 'startswith',
               'endswith', 'find', 'rfind', 'count', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'capitalize', 'casefold',
               'partition', 'rpartition', 'zfill', 'isidentifier', 'ljust', 'rjust', 'center', 'expandtabs', 'translate', 'swapcase',
               'isdecimal', 'isnumeric', 'removeprefix', 'removesuffix', 'isupper', 'islower', 'hex', 'index', 'rindex', 'encode', 'decode',
               'join', 'format'}


# ---------------------------------------------------------------- text
def concat(parts, empty=''):
    out = []
    for p in parts:
        if isinstance(p, App) and p.op == 'concat':
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, Const) and p.v in ('', b'') and len(out) > 1:
            empty = p.v
            continue
        if res and isinstance(p, Const) and isinstance(res[-1], Const) and type(p.v) is type(res[-1].v):
            res[-1] = Const(res[-1].v + p.v)
        else:
            res.append(p)
    if not res:
        return Const(empty)
    if len(res) == 1:
        return res[0]
    return App('concat', *res)


def to_str(eng, st, v, node):
    """str(v) -> results"""
    if isinstance(v, Const):
        return [(st, Const(str(v.v)))]
    if eng.type_of(st, v) == 'str':
        return [(st, v)]
    return [(st, App('str', v))]


def fmt(eng, st, v, conversion, spec, node):
    if conversion in (ord('r'), ord('a')):
        v = Const(repr(v.v)) if isinstance(v, Const) else App('repr', v)
        res = [(st, v)]
    elif spec is None or spec == EMPTY:
        res = to_str(eng, st, v, node)
    else:
        if isinstance(v, Const) and isinstance(spec, Const) and isinstance(spec.v, str):
            try:
                return [(st, Const(format(v.v, spec.v)))]
            except (ValueError, TypeError) as e:
                return [(st, eng.mkexc(st, type(e).__name__, node))]
        return [(st, App('fmt', v, spec))]
    return res


def str_format(eng, st, s, args, kw, node):
    """'...'.format(...)"""
    if not (isinstance(s, Const) and isinstance(s.v, str)):
        return [(st, App('strfmt', s, Tup(args), Tup(Tup((Const(k), v)) for k, v in kw)))]
    parts, auto = [], 0
    kwd = dict((k, v) for k, v in kw if k)
    try:
        parsed = list(_string.Formatter().parse(s.v))
    except ValueError:
        return [(st, App('strfmt', s, Tup(args), NONE))]
    cur = [(st, [])]
    for lit, field, spec, conv in parsed:
        if lit:
            cur = [(x, ps + [Const(lit)]) for x, ps in cur]
        if field is None:
            continue
        m = _re.match(r'[^.\[]*', field)
        head, rest = m.group(), field[m.end():]
        if head == '':
            head = str(auto)
            auto += 1
        v = args[int(head)] if head.isdigit() and int(head) < len(args) else kwd.get(head, App('strfield', s, Const(head)))
        nxt = []
        for x, ps in cur:
            vals = [(x, v)]
            for acc in _re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
                vals = each(vals, lambda y, b: getattr_(eng, y, b, acc[0], node) if acc[0] else getitem(
                    eng, y, b, Const(int(acc[1]) if acc[1].isdigit() else acc[1]), node))
            for y, b in vals:
                if _exc(b):
                    return [(y, b)]
                for z, t in fmt(eng, y, b, ord(conv) if conv else -1, Const(spec) if spec else None, node):
                    if _exc(t):
                        return [(z, t)]
                    nxt.append((z, ps + [t]))
        cur = nxt
    return [(x, concat(ps)) for x, ps in cur]


def pct(eng, st, s, v, node):
    if not (isinstance(s, Const) and isinstance(s.v, str)):
        return [(st, App('pct', s, v))]
    args = list(v.items) if isinstance(v, Tup) else [v]
    parts = _re.split(r'(%(?:\((\w+)\))?[-#0 +]*\d*(?:\.\d+)?([diouxXeEfFgGcrsa%]))', s.v)
    out, k, i = [], 0, 0
    while i < len(parts):
        if i % 4 == 0:
            if parts[i]:
                out.append(Const(parts[i]))
            i += 1
            continue
        spec, key, conv = parts[i], parts[i + 1], parts[i + 2]
        i += 3
        if conv == '%':
            out.append(Const('%'))
            continue
        if key:
            r = getitem(eng, st, v, Const(key), node)
            a = r[0][1] if r and not _exc(r[0][1]) else App('item', v, Const(key))
        else:
            if k >= len(args):
                return [(st, App('pct', s, v))]
            a = args[k]
            k += 1
        if spec == '%s' or spec.startswith('%(') and conv == 's' and spec.endswith(')s'):
            out.append(to_str(eng, st, a, node)[0][1])
        elif conv == 'r':
            out.append(Const(repr(a.v)) if isinstance(a, Const) else App('repr', a))
        elif conv in 'di' and spec in ('%d', '%i'):
            out.append(to_str(eng, st, a, node)[0][1])
        elif isinstance(a, Const) and '*' not in spec and not key:
            try:
                out.append(Const(spec % a.v))
            except (ValueError, TypeError) as e:
                return [(st, eng.mkexc(st, type(e).__name__, node))]
        else:
            out.append(App('fmt', a, Const(spec)))
    return [(st, concat(out))]


# ---------------------------------------------------------------- operators
def binop(eng, st, op, a, b, node):
    n = type(op).__name__
    if isinstance(a, Const) and isinstance(b, Const) and not (n == 'Mod' and isinstance(a.v, str)):
        try:
            f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Div': lambda x, y: x / y,
                 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y, 'Pow': lambda x, y: x ** y, 'BitOr': lambda x, y: x | y,
                 'BitAnd': lambda x, y: x & y, 'BitXor': lambda x, y: x ^ y, 'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y}[n]
            if not (n in ('Pow', 'LShift', 'Mult') and isinstance(b.v, int) and abs(b.v) > 10000):
                return [(st, Const(f(a.v, b.v)))]
        except Exception:
            pass
    ta, tb = eng.type_of(st, a), eng.type_of(st, b)
    if n == 'Add':
        if {ta, tb} & {'str', 'bytes'}:
            return [(st, concat([a, b], b'' if 'bytes' in (ta, tb) else ''))]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        if ta == 'list' and isinstance(a, Ref):
            ib = eng.known_items(st, b)
            st = st.fork()
            items = tuple(ib) if ib is not None else (st.get(b).items if isinstance(b, Ref) and st.get(b).kind == 'list' else (App('star', b),))
            return [(st, st.alloc(Obj('list', items=st.get(a).items + items), 'list+@%d' % node.lineno))]
        if ta in ('tuple', 'list') or tb in ('tuple', 'list'):
            return [(st, App('cat', a, b))]
        return [(st, lin_add(a, b))]
    if n == 'Sub':
        if ta in ('set', 'view') or tb in ('set', 'view'):
            return [(st, App('setsub', a, b))]
        return [(st, lin_sub(a, b))]
    if n == 'Mult':
        if isinstance(b, Const) and isinstance(b.v, int) and ta in (None, 'int'):
            return [(st, lin_scale(a, b.v))]
        if isinstance(a, Const) and isinstance(a.v, int) and tb in (None, 'int'):
            return [(st, lin_scale(b, a.v))]
        if {ta, tb} & {'str', 'bytes', 'list', 'tuple'}:
            x, k = (b, a) if isinstance(a, Const) and isinstance(a.v, int) else (a, b)
            if isinstance(k, Const) and isinstance(k.v, int) and k.v <= 64:
                if isinstance(x, Tup) and not any(eng.is_star(i) for i in x.items):
                    return [(st, Tup(x.items * k.v))]
                if isinstance(x, Ref) and st.get(x).kind == 'list' and not any(eng.is_star(i) for i in st.get(x).items):
                    st = st.fork()
                    return [(st, st.alloc(Obj('list', items=st.get(x).items * k.v), 'list*@%d' % node.lineno))]
            return [(st, App('repeat', a, b))]
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        return [(st, App('mul', x, y))]
    if n == 'Mod':
        if ta == 'str':
            return pct(eng, st, a, b, node)
        return [(st, App('mod', a, b))]
    if n == 'BitOr' and isinstance(a, Ref) and isinstance(b, Ref) and st.get(a).kind == st.get(b).kind == 'set':
        st = st.fork()
        return [(st, st.alloc(Obj('set', items=tuple(dict.fromkeys(st.get(a).items + st.get(b).items))), 'set|@%d' % node.lineno))]
    if n == 'BitAnd' and isinstance(a, Ref) and isinstance(b, Ref) and st.get(a).kind == st.get(b).kind == 'set':
        ka, kb = eng.known_items(st, a), eng.known_items(st, b)
        if ka is not None and kb is not None and all(isinstance(x, Const) for x in ka + kb):
            st = st.fork()
            return [(st, st.alloc(Obj('set', items=tuple(x for x in ka if x in kb)), 'set&@%d' % node.lineno))]
    if n == 'BitXor' and a == b and isinstance(a, (Sym, App)):
        return [(st, Const(0))]
    if n == 'BitOr' and Const(0) in (a, b):
        return [(st, b if a == Const(0) else a)]
    return [(st, App({'FloorDiv': 'floordiv', 'Div': 'div', 'Pow': 'pow'}.get(n, n), a, b))]


def compare(eng, st, op, a, b, node):
    n = type(op).__name__
    if n in ('Eq', 'NotEq'):
        for x in (a, b):
            if isinstance(x, Ref) and st.get(x).kind == 'inst' and isinstance(st.get(x).cls, Ref):
                f, _ = eng.class_attr(st, st.get(x).cls, '__eq__')
                if f is not None:
                    r = eng.call(st, f, [x, b if x is a else a], [], node)
                    return r if n == 'Eq' else [(s, v if _exc(v) else App('not', eng.cond(s, v))) for s, v in r]
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            oa, ob = st.get(a), st.get(b)
            if oa.kind == 'inst' or ob.kind == 'inst' or oa.kind == 'class':
                t = FALSE
            else:
                t = App('eq', content(st, a), content(st, b))
                if t.args[0] == t.args[1]:
                    t = TRUE
        else:
            ka, kb = eng.known_items(st, a) if isinstance(a, Ref) else None, None
            if isinstance(a, Ref) and isinstance(b, (Const, Tup)) and st.get(a).kind in ('list', 'set', 'dict'):
                t = FALSE if not isinstance(b, Const) or not isinstance(b.v, (list, dict, set)) else App('eq', content(st, a), b)
            elif isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
                # elementwise
                cur = [(st, True)]
                out = []
                for x, y in zip(a.items, b.items):
                    nxt = []
                    for s, ok in cur:
                        t = eng.eq_term(s, x, y)
                        nxt += [(z, True) for z in eng.assume(s, t, True)]
                        out += [(z, FALSE) for z in eng.assume(s, t, False)]
                    cur = nxt
                out += [(s, TRUE) for s, _ in cur]
                return [(s, Const(v.v == (n == 'Eq'))) for s, v in out]
            else:
                t = eng.eq_term(st, a, b)
        if n == 'NotEq':
            t = Const(not t.v) if isinstance(t, Const) else App('not', t)
        return [(st, t)]
    if n in ('Is', 'IsNot'):
        if isinstance(b, Const) and b.v is None:
            t = eng.isnone(st, a)
        elif isinstance(a, Const) and a.v is None:
            t = eng.isnone(st, b)
        elif a == b:
            t = TRUE
        elif isinstance(b, Const) and isinstance(b.v, bool):
            t = FALSE if isinstance(a, Const) else App('is', a, b)
        elif isinstance(a, (Ref, Func, Ext)) and isinstance(b, (Ref, Func, Ext)):
            t = FALSE
        elif isinstance(a, Const) and isinstance(b, Const):
            t = Const(a.v is b.v or a.v == b.v)
        else:
            x, y = (a, b) if repr(a) <= repr(b) else (b, a)
            t = App('is', x, y)
        if n == 'IsNot':
            t = Const(not t.v) if isinstance(t, Const) else App('not', t)
        return [(st, t)]
    if n in ('In', 'NotIn'):
        out = []
        for s, t in contains_(eng, st, a, b, node):
            if not _exc(t) and n == 'NotIn':
                t = Const(not t.v) if isinstance(t, Const) else App('not', t)
            out.append((s, t))
        return out
    # orderings
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return [(st, Const({'Lt': a.v < b.v, 'LtE': a.v <= b.v, 'Gt': a.v > b.v, 'GtE': a.v >= b.v}[n]))]
        except Exception:
            return [(st, eng.mkexc(st, 'TypeError', node))]
    ta, tb = eng.type_of(st, a), eng.type_of(st, b)
    if {ta, tb} & {'str', 'bytes', 'tuple', 'list', 'set'}:
        t = {'Lt': App('lt', a, b), 'Gt': App('lt', b, a), 'LtE': App('not', App('lt', b, a)), 'GtE': App('not', App('lt', a, b))}[n]
        return [(st, t)]
    d = {'Lt': lambda: lin_sub(lin_sub(b, a), Const(1)), 'LtE': lambda: lin_sub(b, a),
         'Gt': lambda: lin_sub(lin_sub(a, b), Const(1)), 'GtE': lambda: lin_sub(a, b)}[n]()
    if isinstance(d, Const):
        return [(st, Const(d.v >= 0))]
    t = App('ge0', d)
    k = st.known(t)
    return [(st, t if k is None else Const(k))]


def contains_(eng, st, x, c, node):
    if isinstance(c, App) and c.op == 'str' and isinstance(x, Const) and isinstance(x.v, str) and x.v and not set(x.v) <= set('0123456789-') \
            and len(c.args) == 1 and eng.is_int(st, c.args[0]):
        return [(st, FALSE)]
    if isinstance(c, Const) and isinstance(x, Const):
        try:
            return [(st, Const(x.v in c.v))]
        except Exception:
            pass
    r = templ.within(eng, st, x, c)
    if r is not None:
        return [(st, Const(r))]
    if isinstance(c, Ref):
        o = st.get(c)
        if o.kind in ('inst', 'dict') and isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, '__contains__')
            if f is not None:
                return each(eng.call(st, f, [c, x], [], node), lambda s, v: [(s, eng.cond(s, v))])
        if o.kind == 'dict':
            return [(s, Const(v is not MISSING)) for s, v in dict_lookup(eng, st, c, x)]
        if o.kind in ('list', 'set') and any(eng.is_star(i) for i in o.items):
            return [(st, App('in', x, content(st, c)))]
    if isinstance(c, App) and c.op in ('keys',):
        return contains_(eng, st, x, c.args[0], node)
    alts = eng.member(st, x, c)
    if alts is not None:
        alts = [t for t in alts if t != FALSE]
        if not alts:
            return [(st, FALSE)]
        if TRUE in alts:
            return [(st, TRUE)]
        out = [(s, TRUE) for s in eng.assume_or(st, alts, True)]
        return out + [(s, FALSE) for s in eng.assume_or(st, alts, False)]
    if isinstance(c, App) and c.op == 'instdict':
        return [(s, Const(v is not MISSING)) for s, v in opaque_lookup(eng, st, c, x)]
    if isinstance(c, (Sym, App)):
        v = st.sto.get((c, 'i', x))
        if v is DELETED or v == DELETED:
            return [(st, FALSE)]
        if v is not None:
            return [(st, TRUE)]
    t = App('in', x, c)
    k = st.known(t)
    return [(st, t if k is None else Const(k))]


# ---------------------------------------------------------------- containers
def content(st, ref):
    o = st.get(ref)
    if o.kind == 'dict':
        return App('content', Tup(Tup(p) for p in o.items), o.open or NONE)
    return App('content', Tup(o.items), o.open or NONE)


def seq_len(eng, st, v):
    """Length term of a sequence, or None for a pure iterator."""
    if isinstance(v, Const):
        try:
            return Const(len(v.v))
        except Exception:
            return None
    if isinstance(v, Sym) and v.name.startswith('byte:'):
        return Const(1)
    if isinstance(v, Tup):
        if not any(eng.is_star(x) for x in v.items):
            return Const(len(v.items))
        return App('len', v)
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind in ('list', 'set', 'dict'):
            if o.open is None and not any(eng.is_star(x) for x in o.items):
                if o.kind == 'list' or len(o.items) < 2:
                    return Const(len(o.items))
            return App('len', content(st, v))
        if o.kind == 'iter':
            L = seq_len(eng, st, o.meta[0])
            return L
        return None
    if isinstance(v, App):
        if v.op == 'range':
            a = list(v.args)
            if len(a) == 1:
                return a[0]
            if len(a) == 2:
                return lin_sub(a[1], a[0])
            return None
        if v.op in ('enumerate', 'reversed', 'items', 'keys', 'values', 'sorted'):
            return seq_len(eng, st, v.args[0])
        if v.op == 'zip':
            return App('len', v)
        if v.op in ('map',):
            return seq_len(eng, st, v.args[1])
        if v.op in ('finditer', 'chain', 'iter'):
            return App('len', v)
        if v.op == 'concat':
            r = Const(0)
            for p in v.args:
                r = lin_add(r, seq_len(eng, st, p) or App('len', p))
            return r
        return len_of(v)
    if isinstance(v, Sym):
        return App('len', v)
    return None


def length(eng, st, v):
    r = seq_len(eng, st, v)
    return r if r is not None else App('len', v)


def iterate(eng, st, v, node):
    """Normalise an iterable -> [(st, iterable|Exc)]"""
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind in ('inst', 'dict') and isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, '__iter__')
            if f is not None:
                return each(eng.call(st, f, [v], [], node), lambda s, r: [(s, r)] if r == v else iterate(eng, s, r, node))
        if o.kind == 'class' and isinstance(o.cls, Ref):
            pass
    if isinstance(v, App) and v.op == 'map':
        pass
    return [(st, v)]


def elem(eng, st, v, i, node):
    """i-th element of abstract iterable v -> [(st, V|Exc)]"""
    if isinstance(v, App):
        if v.op == 'enumerate':
            return each(elem(eng, st, v.args[0], i, node), lambda s, x: [(s, Tup((lin_add(i, v.args[1]), x)))])
        if v.op == 'zip':
            cur = [(st, [])]
            for a in v.args:
                nxt = []
                for s, vs in cur:
                    for s2, x in elem(eng, s, a, i, node):
                        nxt.append((s2, x if _exc(x) else vs + [x]))
                cur = nxt
            return [(s, x if _exc(x) else Tup(x)) for s, x in cur]
        if v.op == 'range':
            a = list(v.args)
            if len(a) == 1:
                return [(st, i)]
            if len(a) == 2:
                return [(st, lin_add(a[0], i))]
            if isinstance(a[2], Const):
                return [(st, lin_add(a[0], lin_scale(i, a[2].v)))]
        if v.op == 'items':
            b = v.args[0]
            return [(st, Tup((App('keyat', b, i), App('valat', b, i))))]
        if v.op == 'keys':
            return [(st, App('keyat', v.args[0], i))]
        if v.op == 'values':
            return [(st, App('valat', v.args[0], i))]
        if v.op == 'map':
            return each(elem(eng, st, v.args[1], i, node), lambda s, x: eng.call(s, v.args[0], [x], [], node))
        if v.op == 'finditer':
            return [(st, App('rematch', v.args[0], v.args[1], i))]
        if v.op in ('iter', 'sorted'):
            pass
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'dict':
            return [(st, App('keyat', content(st, v), i))]
        if o.kind in ('list', 'set'):
            stars = [x for x in o.items if eng.is_star(x)]
            return [(st, App('item', content(st, v), i))]
        return [(st, App('item', v, i))]
    return [(st, index(eng, st, v, i))]


def to_items(eng, st, v, node):
    """Expand *v -> [(st, [V...]|Exc)]; unknown length gives one star."""
    kn = eng.known_items(st, v)
    if kn is not None:
        return [(st, kn)]
    if isinstance(v, Tup):
        return [(st, list(v.items))]
    if isinstance(v, Ref) and st.get(v).kind in ('list', 'set') and st.get(v).open is None:
        return [(st, list(st.get(v).items))]
    if isinstance(v, App) and v.op in ('items', 'values', 'keys') and isinstance(v.args[0], Ref):
        return [(st, [App('star', App('snap', Const(v.op), content(st, v.args[0])))])]
    if isinstance(v, Ref) and st.get(v).kind == 'gen':
        st = st.fork()
        ref = st.alloc(Obj('list'), 'list@%d' % getattr(node, 'lineno', 0))
        cell = {}

        def bind(y, x):
            cell['v'] = x
            return [(y, None)]

        def body(y):
            return [(z, _rf(r) if _exc(r) else None) for z, r in list_append(eng, y, ref, cell['v'], node)]
        out = []
        for y, f in eng.for_over(node, st, v, bind, body):
            if f is None:
                out.append((y, list(y.get(ref).items)))
            else:
                out.append((y, f[1]))
        return out
    return [(st, [App('star', v)])]


def kw_items(eng, st, v):
    if isinstance(v, Ref) and st.get(v).kind == 'dict':
        o = st.get(v)
        out = [(k.v, x) for k, x in o.items if isinstance(k, Const)]
        if o.open is not None or len(out) != len(o.items):
            out.append((None, v if o.open is None else o.open))
        return out
    return [(None, v)]


def index(eng, st, v, i):
    if isinstance(v, Const) and isinstance(i, Const):
        try:
            return Const(v.v[i.v])
        except Exception:
            return App('item', v, i)
    if st is not None and eng.policy.excl:
        r = templ.index(eng, st, v, i)
        if r is not None:
            return r
    if isinstance(v, Tup) and isinstance(i, Const) and isinstance(i.v, int) and not any(eng.is_star(x) for x in v.items):
        if -len(v.items) <= i.v < len(v.items):
            return v.items[i.v]
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'list' and isinstance(i, Const) and isinstance(i.v, int):
            n = i.v
            its = o.items
            if n >= 0 and n < len(its) and not any(eng.is_star(x) for x in its[:n + 1]):
                return its[n]
            if n < 0 and -n <= len(its) and not any(eng.is_star(x) for x in its[n:]):
                return its[n]
        return App('item', content(st, v), i)
    if isinstance(v, App) and v.op == 'slice':
        x, lo, hi = v.args
        if st is not None and st.entails(lo) and st.entails(i):
            return index(eng, st, x, lin_add(lo, i))
    return App('item', v, i)


def slice_(eng, st, v, lo, hi, step, node):
    if isinstance(v, Const) and all(isinstance(x, Const) for x in (lo, hi, step)):
        try:
            return [(st, Const(v.v[lo.v:hi.v:step.v]))]
        except Exception:
            pass
    if eng.policy.excl and step in (NONE, Const(1)):
        r = templ.slice_(eng, st, v, lo, hi)
        if r is not None:
            return [(st, r)]
    lo0 = Const(0) if lo == NONE else lo
    if isinstance(v, Tup) and all(isinstance(x, Const) for x in (lo, hi, step)) and not any(eng.is_star(x) for x in v.items):
        return [(st, Tup(v.items[lo.v:hi.v:step.v]))]
    if isinstance(v, Ref) and st.get(v).kind == 'list':
        o = st.get(v)
        st = st.fork()
        if all(isinstance(x, Const) for x in (lo, hi, step)):
            l, h = lo.v or 0, hi.v
            stars = [k for k, x in enumerate(o.items) if eng.is_star(x)]
            if not stars or (l >= 0 and h is None and step.v in (None, 1) and l <= stars[0]) or \
                    (h is not None and l >= 0 and 0 <= h <= stars[0]):
                return [(st, st.alloc(Obj('list', items=o.items[lo.v:hi.v:step.v]), 'list[:]@%d' % node.lineno))]
        return [(st, st.alloc(Obj('list', items=(App('star', App('slice', content(st, v), lo0, hi)),)), 'list[:]@%d' % node.lineno))]
    if step != NONE and step != Const(1):
        return [(st, App('slice3', v, lo, hi, step))]
    t = eng.type_of(st, v)
    if lo0 == Const(0) and hi == NONE and t in ('str', 'bytes', 'tuple'):
        return [(st, v)]
    if isinstance(v, App) and v.op == 'slice' and st.entails(lo0):
        x, a, b = v.args
        if st.entails(a):
            if b == NONE and hi == NONE:
                return [(st, App('slice', x, lin_add(a, lo0), NONE))]
            if b == NONE and hi != NONE and st.entails(hi):
                return [(st, App('slice', x, lin_add(a, lo0), lin_add(a, hi)))]
    return [(st, App('slice', v, lo0, hi))]


BIG = 12        # larger constant tables are looked up symbolically


def dict_lookup(eng, st, ref, key):
    """-> [(st, V | MISSING)]"""
    o = st.get(ref)
    if not isinstance(key, Const) and len(o.items) > BIG and o.open is None and not any(k == key for k, _ in o.items) and not (
            eng.policy.excl and all(eng.eq_term(st, k, key) == FALSE for k, _ in o.items)):
        return opaque_lookup(eng, st, content(st, ref), key)
    cur, out = [st], []
    for k, v in reversed(o.items):
        nxt = []
        for s in cur:
            t = eng.eq_term(s, k, key)
            if isinstance(t, Const):
                if t.v:
                    out.append((s, v))
                else:
                    nxt.append(s)
                continue
            out += [(x, v) for x in eng.assume(s, t, True)]
            nxt += eng.assume(s, t, False)
        cur = nxt
    for s in cur:
        if o.open is None:
            out.append((s, MISSING))
            continue
        out += opaque_lookup(eng, s, o.open, key)
    return out


def opaque_lookup(eng, st, base, key):
    v = st.sto.get((base, 'i', key))
    if v is not None:
        return [(st, MISSING if v == DELETED else v)]
    if isinstance(base, App) and base.op == 'instdict' and isinstance(key, Const) and isinstance(base.args[0], Ref):
        o = st.get(base.args[0])
        if key.v in o.attrs:
            return [(st, o.attrs[key.v])]
        if not (isinstance(o.meta, tuple) and o.meta and o.meta[0] == 'open'):
            return [(st, MISSING)]
    t = App('in', key, base)
    out = [(x, App('item', base, key)) for x in eng.assume(st, t, True)]
    out += [(x, MISSING) for x in eng.assume(st, t, False)]
    return out


def dict_set(eng, st, ref, key, v, node, quiet=False):
    st = st.fork()
    o = st.get(ref)
    items = list(o.items)
    def same(q):
        if q == key:
            return True
        t = eng.eq_term(st, q, key)
        return t.v if isinstance(t, Const) else st.known(t)
    for i, (k, _) in enumerate(items):
        if same(k) is True:
            if all(isinstance(q, Const) or q == key or same(q) is not None for q, _ in items[i + 1:]):
                items[i] = (k, v)
                break
    else:
        items.append((key, v))
    st.put(ref, o.copy(items=tuple(items)))
    if not quiet:
        eng.event(st, 'setitem', node, (ref, key, v))
    return [(st, NONE)]


def dict_update(eng, st, ref, d, node):
    if isinstance(d, Ref) and st.get(d).kind == 'dict':
        o = st.get(d)
        cur = [(st, NONE)]
        for k, v in o.items:
            cur = each(cur, lambda s, _: dict_set(eng, s, ref, k, v, node, quiet=True))
        if o.open is not None:
            for s, _ in cur:
                r = s.get(ref)
                s.put(ref, r.copy(open=App('upd', r.open or NONE, o.open)))
        for s, _ in cur:
            eng.event(s, 'update', node, (ref, d))
        return cur
    st = st.fork()
    o = st.get(ref)
    st.put(ref, o.copy(open=App('upd', App('content', Tup(Tup(p) for p in o.items), o.open or NONE), d), items=()))
    eng.event(st, 'update', node, (ref, d))
    return [(st, NONE)]


def list_append(eng, st, ref, v, node):
    st = st.fork()
    o = st.get(ref)
    st.put(ref, o.copy(items=o.items + (v,)))
    eng.event(st, 'append', node, (ref, v))
    return [(st, NONE)]


def list_extend(eng, st, ref, v, node):
    out = []
    for s, its in to_items(eng, st, v, node):
        if _exc(its):
            out.append((s, its))
            continue
        s = s.fork()
        o = s.get(ref)
        s.put(ref, o.copy(items=o.items + tuple(its)))
        eng.event(s, 'extend', node, (ref, v, tuple(its)))
        out.append((s, NONE))
    return out


def set_add(eng, st, ref, v, node):
    st = st.fork()
    o = st.get(ref)
    if v not in o.items:
        st.put(ref, o.copy(items=o.items + (v,)))
    eng.event(st, 'setadd', node, (ref, v))
    return [(st, NONE)]


def getitem(eng, st, base, idx, node):
    if isinstance(idx, App) and idx.op == 'sl':
        if isinstance(base, Ref) and st.get(base).kind in ('inst', 'dict') and isinstance(st.get(base).cls, Ref):
            f, _ = eng.class_attr(st, st.get(base).cls, '__getitem__')
            if isinstance(f, Func):
                return eng.call(st, f, [base, idx], [], node)
        return slice_(eng, st, base, idx.args[0], idx.args[1], idx.args[2], node)
    if isinstance(base, Ref):
        o = st.get(base)
        if isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, '__getitem__')
            if f is not None:
                return eng.call(st, f, [base, idx], [], node)
        if o.kind == 'dict':
            out = []
            for s, v in dict_lookup(eng, st, base, idx):
                if v is MISSING:
                    df = o.meta if isinstance(o.meta, V) else None
                    if df is not None and df != NONE:       # defaultdict
                        out += each(eng.call(s, df, [], [], node), lambda x, nv: [(y, nv) for y, _ in dict_set(eng, x, base, idx, nv, node)])
                    elif eng.can_catch(s, Ext('builtins.KeyError')) or o.open is None:
                        out.append((s, eng.mkexc(s, 'KeyError', node)))
                else:
                    out.append((s, v))
            return out
        if o.kind in ('list', 'set'):
            v = index(eng, st, base, idx)
            if isinstance(idx, Const) and isinstance(idx.v, int) and not any(eng.is_star(x) for x in o.items) and \
                    not (-len(o.items) <= idx.v < len(o.items)):
                return [(st, eng.mkexc(st, 'IndexError', node))]
            if isinstance(v, App) and v.op == 'item':
                kn = eng.known_items(st, base)
                if kn is not None and len(kn) <= 8 and not isinstance(idx, Const):
                    out = []
                    for k, it in enumerate(kn):
                        out += [(s, it) for s in eng.assume(st, eng.eq_term(st, idx, Const(k)), True)]
                    return out or [(st, v)]
            return [(st, v)]
        if o.kind == 'class':
            return [(st, App('item', base, idx))]
        if o.kind == 'inst':
            eng.event(st, 'getitem', node, (base, idx))
            return [(st, App('item', base, idx))]
    if isinstance(base, Const):
        if isinstance(idx, Const):
            try:
                return [(st, Const(base.v[idx.v]))]
            except Exception as e:
                return [(st, eng.mkexc(st, type(e).__name__, node))]
    if isinstance(base, Tup):
        if isinstance(idx, Const) and isinstance(idx.v, int) and not any(eng.is_star(x) for x in base.items) \
                and not -len(base.items) <= idx.v < len(base.items):
            return [(st, eng.mkexc(st, 'IndexError', node))]
        return [(st, index(eng, st, base, idx))]
    if isinstance(base, (Sym, App)):
        v = st.sto.get((base, 'i', idx))
        if v is None and isinstance(base, App) and base.op == 'instdict' and isinstance(idx, Const):
            return [(s, eng.mkexc(s, 'KeyError', node) if x is MISSING else x) for s, x in opaque_lookup(eng, st, base, idx)]
        if v is not None:
            if v == DELETED:
                return [(st, eng.mkexc(st, 'KeyError', node))]
            return [(st, v)]
        t = eng.type_of(st, base)
        out = []
        v = index(eng, st, base, idx)
        if isinstance(base, App) and base.op in ('split', 'rsplit') and isinstance(idx, Const):
            if idx.v == 0:
                return [(st, v)]
            if idx.v == -1:
                return [(st, v)]
            t = App('ge0', lin_sub(App('len', base), Const(idx.v + 1)))
            if eng.can_catch(st, Ext('builtins.IndexError')):
                for s in eng.assume(st, t, False):
                    out.append((s, eng.mkexc(s, 'IndexError', node)))
            for s in eng.assume(st, t, True):
                out.append((s, v))
            return out
        if isinstance(base, App) and base.op == 'rematch':
            return [(st, App('group', base, idx))]
        if t in ('str', 'bytes', 'list', 'tuple') or (isinstance(base, App) and base.op in ('content',)):
            if eng.policy.raise_all or (eng.handlers and eng.can_catch(st, Ext('builtins.IndexError'))):
                L = length(eng, st, base)
                ok = App('ge0', lin_sub(lin_sub(L, idx), Const(1)))
                kx = st.known(ok)
                if not isinstance(idx, App) and kx is None:
                    for s in eng.assume(st, ok, False):
                        out.append((s, eng.mkexc(s, 'IndexError', node)))
                elif not isinstance(idx, App) and kx is False:
                    s = st.fork()
                    return [(s, eng.mkexc(s, 'IndexError', node))]
            out.append((st, v))
            return out
        if t is None and (eng.policy.raise_all or (eng.handlers and eng.can_catch(st, Ext('builtins.KeyError')))):
            it = App('in', idx, base)
            if st.known(it) is None and not isinstance(idx, Lin) and not (isinstance(idx, Const) and isinstance(idx.v, int)):
                s = st.fork()
                if s.learn(it, False):
                    out.append((s, eng.mkexc(s, 'KeyError', node)))
                st = st.fork()
                st.learn(it, True)
        out.append((st, v))
        return out
    return [(st, App('item', base, idx))]


def setitem(eng, st, base, idx, v, node):
    if isinstance(base, Ref):
        o = st.get(base)
        if isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, '__setitem__')
            if f is not None:
                return eng.call(st, f, [base, idx, v], [], node)
        if o.kind == 'dict':
            return dict_set(eng, st, base, idx, v, node)
        if o.kind == 'list':
            st = st.fork()
            if isinstance(idx, App) and idx.op == 'sl':
                if idx.args[0] == NONE and idx.args[1] == NONE:
                    out = []
                    for s, its in to_items(eng, st, v, node):
                        if _exc(its):
                            out.append((s, its))
                            continue
                        s = s.fork()
                        s.put(base, s.get(base).copy(items=tuple(its)))
                        eng.event(s, 'setslice', node, (base, idx, v))
                        out.append((s, NONE))
                    return out
                if all(isinstance(x, Const) for x in idx.args) and not any(eng.is_star(x) for x in o.items):
                    out = []
                    for s, its in to_items(eng, st, v, node):
                        if _exc(its):
                            out.append((s, its))
                            continue
                        s = s.fork()
                        new = list(o.items)
                        try:
                            new[slice(*[x.v for x in idx.args])] = list(its)
                        except ValueError:
                            out.append((s, eng.mkexc(s, 'ValueError', node)))
                            continue
                        s.put(base, o.copy(items=tuple(new)))
                        eng.event(s, 'setslice', node, (base, idx, v))
                        out.append((s, NONE))
                    return out
                st.put(base, o.copy(items=(App('star', App('mut', content(st, base), idx, v)),)))
                eng.event(st, 'setslice', node, (base, idx, v))
                return [(st, NONE)]
            if isinstance(idx, Const) and isinstance(idx.v, int):
                n, its = idx.v, list(o.items)
                if (n >= 0 and n < len(its) and not any(eng.is_star(x) for x in its[:n + 1])) or \
                        (n < 0 and -n <= len(its) and not any(eng.is_star(x) for x in its[n:])):
                    its[n] = v
                    st.put(base, o.copy(items=tuple(its)))
                    eng.event(st, 'setitem', node, (base, idx, v))
                    return [(st, NONE)]
            st.put(base, o.copy(items=(App('star', App('mut', content(st, base), idx, v)),)))
            eng.event(st, 'setitem', node, (base, idx, v))
            return [(st, NONE)]
    st = st.fork()
    if isinstance(base, App) and base.op == 'instdict' and isinstance(idx, Const) and isinstance(base.args[0], Ref):
        st.setattr_raw(base.args[0], idx.v, v)
        eng.event(st, 'setattr', node, (base.args[0], idx.v, v))
        return [(st, NONE)]
    st.sto[(base, 'i', idx)] = v
    eng.event(st, 'setitem', node, (base, idx, v))
    return [(st, NONE)]


def delitem(eng, st, base, idx, node):
    if isinstance(base, Ref):
        o = st.get(base)
        if isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, '__delitem__')
            if f is not None:
                return eng.call(st, f, [base, idx], [], node)
        st = st.fork()
        eng.event(st, 'delitem', node, (base, idx))
        if o.kind == 'dict':
            keep = tuple((k, x) for k, x in o.items if k != idx)
            st.put(base, o.copy(items=keep))
            if o.open is not None:
                st.sto[(o.open, 'i', idx)] = DELETED
            return [(st, NONE)]
        if o.kind == 'list':
            if isinstance(idx, App) and idx.op == 'sl' and isinstance(idx.args[0], Const) and idx.args[1] == NONE:
                lo = idx.args[0].v or 0
                stars = [k for k, x in enumerate(o.items) if eng.is_star(x)]
                if lo >= 0 and (not stars or lo <= stars[0]):
                    st.put(base, o.copy(items=o.items[:lo]))
                    return [(st, NONE)]
            if isinstance(idx, App) and idx.op == 'sl' and all(isinstance(x, Const) for x in idx.args) and not any(eng.is_star(x) for x in o.items):
                its = list(o.items)
                del its[slice(*[x.v for x in idx.args])]
                st.put(base, o.copy(items=tuple(its)))
                return [(st, NONE)]
            if isinstance(idx, Const) and isinstance(idx.v, int) and not any(eng.is_star(x) for x in o.items):
                its = list(o.items)
                try:
                    del its[idx.v]
                    st.put(base, o.copy(items=tuple(its)))
                    return [(st, NONE)]
                except IndexError:
                    return [(st, eng.mkexc(st, 'IndexError', node))]
            st.put(base, o.copy(items=(App('star', App('del', content(st, base), idx)),)))
        return [(st, NONE)]
    st = st.fork()
    st.sto[(base, 'i', idx)] = DELETED
    eng.event(st, 'delitem', node, (base, idx))
    return [(st, NONE)]


# ---------------------------------------------------------------- attributes
def is_descr(eng, st, v, what):
    if isinstance(v, Wrap) and v.kind == 'property':
        return what in ('__get__', '__set__', '__delete__')
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'inst' and isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, what)
            return f is not None
    return False


def bind_attr(eng, st, v, owner, inst, cls, node):
    """Value of class attribute v seen through an instance (or class)."""
    if isinstance(v, Wrap):
        if v.kind == 'property':
            if inst is None:
                return [(st, v)]
            if v.args[0] == NONE:
                return [(st, eng.mkexc(st, 'AttributeError', node))]
            return eng.call(st, v.args[0], [inst], [], node)
        if v.kind == 'staticmethod':
            return [(st, v.args[0])]
        if v.kind == 'classmethod':
            return [(st, Bound(v.args[0], cls))]
        if v.kind == 'partialmethod':
            k = dict(v.kw)
            return [(st, Wrap('partial', v.args[0], *(([inst] if inst is not None else []) + list(v.args[1:])), kw=v.kw))]
        return [(st, v)]
    if isinstance(v, Func):
        if v.node.__class__.__name__ == 'FunctionDef' and v.node.name in ('__new__',):
            return [(st, v)]
        return [(st, Bound(v, inst) if inst is not None else v)]
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'inst' and isinstance(o.cls, Ref):
            f, _ = eng.class_attr(st, o.cls, '__get__')
            if f is not None:
                return eng.call(st, f, [v, inst if inst is not None else NONE, cls], [], node)
    if isinstance(v, Ext) and inst is not None and v.name.count('.') >= 2 and v.name.rsplit('.', 1)[1].startswith('__'):
        return [(st, Meth(Wrap('super', v, inst), v.name.rsplit('.', 1)[1]))]
    if isinstance(v, Meth) and inst is not None and v.name.startswith('__') and isinstance(v.self_, Ext):
        return [(st, Wrap('partial', v, inst))]
    return [(st, v)]


LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'index', 'count', 'copy'}


def getattr_(eng, st, base, name, node, raw=False):
    if isinstance(base, Func) and name == '__code__':
        return [(st, App('code', base))]
    if isinstance(base, App) and base.op == 'code' and name == 'co_argcount' and isinstance(base.args[0].node, (ast.FunctionDef, ast.Lambda)):
        a = base.args[0].node.args
        return [(st, Const(len(a.posonlyargs) + len(a.args)))]
    if isinstance(base, Ref):
        o = st.get(base)
        if o.kind in ('inst', 'dict', 'list', 'set') and o.cls is not None and isinstance(o.cls, Ref):
            cv, owner = eng.class_attr(st, o.cls, name)
            if name == '__class__':
                return [(st, o.cls)]
            if cv is not None and is_descr(eng, st, cv, '__set__'):
                return bind_attr(eng, st, cv, owner, base, o.cls, node)
            if name in o.attrs:
                return [(st, o.attrs[name])]
            sv = st.sto.get((base, 'a', name))
            if sv is not None:
                return [(st, sv)]
            if cv is not None:
                return bind_attr(eng, st, cv, owner, base, o.cls, node)
            if name == '__dict__':
                return [(st, App('instdict', base))]
            if o.kind in ('list', 'dict', 'set'):
                return [(st, Meth(base, name))]
            ga, _ = eng.class_attr(st, o.cls, '__getattr__')
            if isinstance(o.meta, tuple) and o.meta and o.meta[0] == 'open':
                known = name in eng.self_attrs(st, o.cls)
                if ga is not None and not raw and not known:
                    return eng.call(st, ga, [base, Const(name)], [], node)
                return [(st, App('attr', base, Const(name)))]
            eb = eng.ext_base(st, o.cls)
            if eb is not None and eb.name != 'builtins.object':
                return [(st, Meth(base, name))]
            if ga is not None and not raw:
                return eng.call(st, ga, [base, Const(name)], [], node)
            if name.startswith('__') and name.endswith('__'):
                return [(st, Meth(base, name))]
            return [(st, eng.mkexc(st, 'AttributeError', node, Const(name)))]
        if o.kind == 'class':
            v, owner = eng.class_attr(st, base, name)
            if v is not None:
                return bind_attr(eng, st, v, owner, None, base, node)
            if name in ('__name__', '__qualname__'):
                return [(st, Const(o.meta['name']))]
            if name == '__bases__':
                return [(st, Tup(o.meta['bases']))]
            if name == '__base__':
                return [(st, o.meta['bases'][0] if o.meta['bases'] else Ext('builtins.object'))]
            if name == '__mro__':
                return [(st, Tup(eng.mro(st, base) + [Ext('builtins.object')]))]
            if name == '__dict__':
                return [(st, App('classdict', base))]
            if name == '__class__':
                return [(st, Ext('builtins.type'))]
            b = eng.ext_base(st, base)
            if b is not None:
                return [(st, Ext(b.name + '.' + name))]
            if name in ('__init__', '__new__', '__setattr__', '__getattribute__', '__doc__', '__module__'):
                return [(st, Ext('builtins.object.' + name))]
            eng.event(st, 'classattr?', node, (base, name))
            return [(st, eng.mkexc(st, 'AttributeError', node, Const(name)))]
        if o.kind == 'inst':       # instance of an external class
            if name in o.attrs:
                return [(st, o.attrs[name])]
            return [(st, Meth(base, name))]
        return [(st, Meth(base, name))]
    if isinstance(base, App) and base.op == 'module':
        m = eng.module(base.args[0].v)
        v = st.get(m.frame).attrs.get(name)
        if v is None:
            sub = base.args[0].v + '.' + name
            if eng.modpath(sub):
                eng.module(sub)
                v = App('module', Const(sub))
        return [(st, v if v is not None else Sym('undef:%s.%s' % (m.name, name)))]
    if isinstance(base, Ext):
        if base.name + '.' + name == 'http.client.responses':
            return [(st, Ref('std:http.client.responses'))]
        v = st.sto.get((base, 'a', name))
        if v is not None:
            return [(st, v)]
        n = base.name + '.' + name
        return [(st, CONST_EXT.get(n) or Ext(CANON.get(n, n)))]
    if isinstance(base, Wrap) and base.kind == 'super':
        cls, inst = base.args
        if isinstance(cls, Ext):
            return [(st, Meth(base, name))]
        o = st.get(inst) if isinstance(inst, Ref) else None
        start = o.cls if o is not None and o.kind != 'class' and isinstance(o.cls, Ref) else inst if o is not None and o.kind == 'class' else cls
        mro = eng.mro(st, start)
        seen = False
        for k in mro:
            if seen and isinstance(k, Ref) and name in st.get(k).attrs:
                v = st.get(k).attrs[name]
                if isinstance(v, Func) and name == '__new__':
                    return [(st, v)]
                if o is not None and o.kind == 'class':
                    return bind_attr(eng, st, v, k, None, inst, node) if not isinstance(v, Func) else [(st, Bound(v, inst))]
                return bind_attr(eng, st, v, k, inst, start, node)
            if k == cls:
                seen = True
        return [(st, Meth(base, name))]
    if isinstance(base, Wrap) and base.kind == 'property':
        if name in ('fget', 'fset', 'fdel'):
            return [(st, base.args[('fget', 'fset', 'fdel').index(name)])]
        return [(st, Meth(base, name))]
    if isinstance(base, (Func, Bound)):
        f = base.func if isinstance(base, Bound) else base
        if name == '__self__' and isinstance(base, Bound):
            return [(st, base.self_)]
        if name in ('__name__',) and isinstance(f, Func):
            return [(st, Const(getattr(f.node, 'name', '<lambda>')))]
        if name == '__get__':
            return [(st, Meth(base, name))]
        v = st.sto.get((base, 'a', name))
        return [(st, v if v is not None else App('attr', base, Const(name)))]
    if isinstance(base, Const):
        if base.v is None:
            return [(st, eng.mkexc(st, 'AttributeError', node, Const(name)))]
        if not hasattr(base.v, name):
            return [(st, eng.mkexc(st, 'AttributeError', node, Const(name)))]
        return [(st, Meth(base, name))]
    if isinstance(base, (Tup, Lin)):
        return [(st, Meth(base, name))]
    if isinstance(base, (Sym, App, Meth)):
        v = st.sto.get((base, 'a', name))
        if v is not None:
            return [(st, v)]
        if name == '__class__' and isinstance(base, (Sym, App)):
            return [(st, App('type', base))]
        t = eng.type_of(st, base)
        if t in ('str', 'bytes') or name in STR_METHODS:
            return [(st, Meth(base, name))]
        return [(st, App('attr', base, Const(name)))]
    return [(st, App('attr', base, Const(name)))]


def setattr_(eng, st, base, name, v, node, raw=False):
    if isinstance(base, Ref):
        o = st.get(base)
        if o.kind in ('inst', 'dict', 'list') and isinstance(o.cls, Ref):
            if not raw:
                f, _ = eng.class_attr(st, o.cls, '__setattr__')
                if f is not None:
                    return eng.call(st, f, [base, Const(name), v], [], node)
            cv, _ = eng.class_attr(st, o.cls, name)
            if isinstance(cv, Wrap) and cv.kind == 'property':
                if cv.args[1] == NONE:
                    return [(st, eng.mkexc(st, 'AttributeError', node))]
                return eng.call(st, cv.args[1], [base, v], [], node)
            if is_descr(eng, st, cv, '__set__'):
                f, _ = eng.class_attr(st, st.get(cv).cls, '__set__')
                return eng.call(st, f, [cv, base, v], [], node)
        st = st.fork()
        st.setattr_raw(base, name, v)
        eng.event(st, 'setattr', node, (base, name, v))
        return [(st, NONE)]
    st = st.fork()
    st.sto[(base, 'a', name)] = v
    eng.event(st, 'setattr', node, (base, name, v))
    return [(st, NONE)]


def delattr_(eng, st, base, name, node):
    if isinstance(base, Ref):
        o = st.get(base)
        if isinstance(o.cls, Ref):
            cv, _ = eng.class_attr(st, o.cls, name)
            if isinstance(cv, Wrap) and cv.kind == 'property' and cv.args[2] != NONE:
                return eng.call(st, cv.args[2], [base], [], node)
        st = st.fork()
        o = st.get(base)
        a = dict(o.attrs)
        a.pop(name, None)
        st.put(base, o.copy(attrs=a))
    else:
        st = st.fork()
        st.sto.pop((base, 'a', name), None)
    eng.event(st, 'delattr', node, (base, name))
    return [(st, NONE)]


# ---------------------------------------------------------------- with
def enter(eng, st, c, node):
    if isinstance(c, Ref) and isinstance(st.get(c).cls, Ref):
        f, _ = eng.class_attr(st, st.get(c).cls, '__enter__')
        if f is not None:
            return eng.call(st, f, [c], [], node)
    st = st.fork()
    eng.event(st, 'with', node, (c,))
    return [(st, c)]


def leave(eng, st, c, flow, node):
    if isinstance(c, Ref) and isinstance(st.get(c).cls, Ref):
        f, _ = eng.class_attr(st, st.get(c).cls, '__exit__')
        if f is not None:
            return [(x, _rf(v) if _exc(v) else flow) for x, v in eng.call(st, f, [c, NONE, NONE, NONE], [], node)]
    st = st.fork()
    eng.event(st, 'endwith', node, (c,))
    if isinstance(c, App) and c.op == 'suppress' and isinstance(flow, tuple) and flow[0] == 'raise':
        m = eng.exc_match(st, eng.exc_class(st, flow[1].val), c.args[0])
        if m is True:
            return [(st, None)]
        if m is None:
            return [(st, None), (st.fork(), flow)]
    return [(st, flow)]


# ---------------------------------------------------------------- calls
CANON = {'json.decoder.JSONDecodeError': 'json.JSONDecodeError', 'os.path.sep': 'os.sep', 'posixpath.join': 'os.path.join'}
CONST_EXT = {'os.SEEK_SET': Const(0), 'os.SEEK_CUR': Const(1), 'os.SEEK_END': Const(2),
             'io.SEEK_SET': Const(0), 'io.SEEK_CUR': Const(1), 'io.SEEK_END': Const(2)}


def ext_init(eng, st, v, args, kw, node):
    """No repository __init__: external base class constructor."""
    o = st.get(v)
    if o.kind == 'dict':
        cur = [(st, NONE)]
        for a in args:
            cur = each(cur, lambda s, _: dict_from(eng, s, v, a, node))
        for k, x in kw:
            if k is None:
                cur = each(cur, lambda s, _: dict_update(eng, s, v, x, node))
            else:
                cur = each(cur, lambda s, _: dict_set(eng, s, v, Const(k), x, node, quiet=True))
        return [(s, r if _exc(r) else v) for s, r in cur]
    if kw or args:
        st = st.fork()
        for k, x in kw:
            if k is not None:
                st.setattr_raw(v, k, x)
            else:
                o = st.get(v)
                st.put(v, o.copy(meta=('open', x)))
        if args:
            st.setattr_raw(v, 'args', Tup(args))
    return [(st, v)]


def dict_from(eng, st, ref, src, node):
    """Fill dict `ref` from a mapping or an iterable of pairs."""
    if isinstance(src, Ref) and st.get(src).kind == 'dict':
        return dict_update(eng, st, ref, src, node)
    kn = eng.known_items(st, src)
    if kn is not None:
        cur = [(st, NONE)]
        for p in kn:
            def f(s, _):
                r = eng.unpack(s, p, 2, None, node)
                return [x for y, it in r for x in ([(y, it)] if _exc(it) else dict_set(eng, y, ref, it[0], it[1], node, quiet=True))]
            cur = each(cur, f)
        return cur
    return dict_update(eng, st, ref, src, node)


def call_wrap(eng, st, fv, args, kw, node):
    return eng.unknown_call(st, fv, args, kw, node)


def _raises(eng, st, name, node):
    out = []
    for e in EXT_RAISES.get(name, ()):
        c = Ext('builtins.' + e)
        if eng.can_catch(st, c):
            s = st.fork()
            val = App('exc', c) if e != 'Exception' else Sym(s.fresh('exc:' + name), None, c)
            out.append((s, eng.exc(s, val, node)))
    return out


def _frozen(st, a):
    """a list handed to a pure function, as the value it holds now"""
    if isinstance(a, Ref):
        o = st.get(a)
        if o is not None and o.kind == 'list' and o.cls is None:
            return Tup(o.items)
    return a


def pure_call(eng, st, name, args, kw, node):
    st0 = st
    st = st.fork()
    args = [_frozen(st, a) for a in args]
    v = App('call', Ext(name), *(list(args) + [App('kw', Const(k), x) for k, x in sorted(kw, key=lambda p: str(p[0]))]))
    eng.event(st, 'call', node, (Ext(name), tuple(args), tuple(kw)), v)
    return [(st, v)] + _raises(eng, st0, name, node)


def call_ext(eng, st, fv, args, kw, node):
    n = fv.name
    f = EXT.get(n)
    if f is not None:
        r = f(eng, st, args, kw, node)
        if r is not None:
            return r
    if n in PURE:
        if eng.policy.excl and n in ('urllib.parse.unquote', 'urllib.parse.unquote_plus') and args and not kw and len(args) == 1:
            r = templ.unquote(eng, args[0], n.endswith('plus'))
            if r is not None:
                return [(st, r)]
        if n.startswith('urllib.parse.') and n[13:] in ('quote', 'unquote', 'unquote_plus', 'quote_plus') and not kw and args \
                and all(isinstance(a, Const) and isinstance(a.v, (str, bytes)) for a in args):
            import urllib.parse
            try:
                return [(st, Const(getattr(urllib.parse, n[13:])(*[a.v for a in args])))]
            except Exception:
                pass
        return pure_call(eng, st, n, args, kw, node)
    if n.startswith('builtins.'):
        c = eng.builtin_class(fv)
        if c is not None and issubclass(c, BaseException):
            return [(st, App('exc', fv, *args))]
    if n.startswith(('builtins.str.', 'builtins.bytes.', 'builtins.dict.', 'builtins.list.')) and n.count('.') == 2 and args:
        m = n.rsplit('.', 1)[-1]
        if not m.startswith('__') and m not in ('maketrans', 'fromkeys', 'fromhex'):
            return eng.call(st, Meth(args[0], m), list(args[1:]), kw, node)
    if n.rsplit('.', 1)[-1] in ('__init__', '__new__', '__setattr__', '__init_subclass__'):
        return ext_dunder(eng, st, n.rsplit('.', 1)[-1], args, kw, node)
    out = _raises(eng, st, n, node)
    return eng.unknown_call(st, fv, args, kw, node, EXT_RET.get(n)) + out


def ext_dunder(eng, st, name, args, kw, node, cls=None):
    if name == '__new__':
        c = args[0] if args else cls
        if isinstance(c, Ref):
            return [eng.bare(st, c, node, args[1:])]
        return eng.unknown_call(st, Ext('object.__new__'), args, kw, node)
    if name == '__init__':
        return ext_init(eng, st, args[0], args[1:], kw, node) if args and isinstance(args[0], Ref) else [(st, NONE)]
    if name == '__setattr__' and len(args) == 3 and isinstance(args[1], Const):
        return setattr_(eng, st, args[0], args[1].v, args[2], node, raw=True)
    if name == '__getattribute__' and len(args) == 2 and isinstance(args[1], Const):
        return getattr_(eng, st, args[0], args[1].v, node, raw=True)
    return eng.unknown_call(st, Ext('object.' + name), args, kw, node)


def m_len(eng, st, args, kw, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
        f, _ = eng.class_attr(st, st.get(v).cls, '__len__')
        if f is not None:
            return eng.call(st, f, [v], [], node)
    return [(st, length(eng, st, v))]


def m_int(eng, st, args, kw, node):
    if not args:
        return [(st, Const(0))]
    v = args[0]
    if all(isinstance(a, Const) for a in args):
        try:
            return [(st, Const(int(*[a.v for a in args])))]
        except ValueError:
            return [(st, eng.mkexc(st, 'ValueError', node))]
        except TypeError:
            return [(st, eng.mkexc(st, 'TypeError', node))]
    if len(args) == 1 and eng.type_of(st, v) in ('int', 'bool'):
        return [(st, v)]
    if isinstance(v, App) and v.op == 'str' and len(args) == 1 and eng.type_of(st, v.args[0]) == 'int':
        return [(st, v.args[0])]
    ok = st.fork()
    out = [(ok, App('int', *args))] if ok.learn(App('isnum', *args), True) else []
    if eng.can_catch(st, Ext('builtins.ValueError')):
        s = st.fork()
        if s.learn(App('isnum', *args), False):
            out.append((s, eng.mkexc(s, 'ValueError', node)))
    return out


def m_str(eng, st, args, kw, node):
    if not args:
        return [(st, EMPTY)]
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
            f, _ = eng.class_attr(st, st.get(v).cls, '__str__')
            if f is not None:
                return eng.call(st, f, [v], [], node)
        return to_str(eng, st, v, node)
    return call_meth(eng, st, Meth(args[0], 'decode'), args[1:], kw, node)


def _as_seq(kind):
    def f(eng, st, args, kw, node):
        st = st.fork()
        if not args:
            if kind == 'tuple':
                return [(st, Tup(()))]
            return [(st, st.alloc(Obj(kind), '%s@%d' % (kind, node.lineno)))]
        out = []
        for s0, v in iterate(eng, st, args[0], node):
            if _exc(v):
                out.append((s0, v))
                continue
            for s, its in to_items(eng, s0, v, node):
                if _exc(its):
                    out.append((s, its))
                    continue
                s = s.fork()
                if kind == 'tuple':
                    out.append((s, Tup(its)))
                else:
                    its = tuple(its) if kind == 'list' else tuple(dict.fromkeys(its))
                    out.append((s, s.alloc(Obj(kind, items=its), '%s@%d' % (kind, node.lineno))))
        return out
    return f


def m_dict(eng, st, args, kw, node):
    st = st.fork()
    ref = st.alloc(Obj('dict'), 'dict@%d' % node.lineno)
    return ext_init(eng, st, ref, args, kw, node)


def m_defaultdict(eng, st, args, kw, node):
    st = st.fork()
    ref = st.alloc(Obj('dict', meta=args[0] if args else None), 'ddict@%d' % node.lineno)
    return ext_init(eng, st, ref, args[1:], kw, node)


def m_minmax(which):
    def f(eng, st, args, kw, node):
        if kw:
            return [(st, App(which, *args))]
        items = list(args)
        if len(args) == 1:
            items = eng.known_items(st, args[0])
            if items is None:
                return [(st, App(which, *args))]
        if not items:
            return [(st, eng.mkexc(st, 'ValueError', node))]
        cur = [(st, items[0])]
        for v in items[1:]:
            nxt = []
            for s, best in cur:
                if {eng.type_of(s, v), eng.type_of(s, best)} & {'str', 'bytes', 'tuple', 'list'}:
                    nxt.append((s, App(which, best, v)))
                    continue
                t = App('ge0', lin_sub(v, best) if which == 'min' else lin_sub(best, v))
                if isinstance(t.args[0], Const):
                    nxt.append((s, best if t.args[0].v >= 0 else v))
                    continue
                nxt += [(x, best) for x in eng.assume(s, t, True)]
                nxt += [(x, v) for x in eng.assume(s, t, False)]
            cur = nxt
        return cur
    return f


def m_anyall(which):
    def f(eng, st, args, kw, node):
        kn = eng.known_items(st, args[0])
        if kn is None:
            v = args[0]
            if isinstance(v, Ref):
                v = content(st, v)
            return [(st, App(which, v))]
        alts = []
        for x in kn:
            t = eng.cond(st, x)
            alts.append(t if which == 'any' else (Const(not t.v) if isinstance(t, Const) else App('not', t)))
        out = [(s, Const(which == 'any')) for s in eng.assume_or(st, alts, True)]
        return out + [(s, Const(which != 'any')) for s in eng.assume_or(st, alts, False)]
    return f


TYPE_NAMES = {'builtins.str': 'str', 'builtins.bytes': 'bytes', 'builtins.int': 'int', 'builtins.bool': 'bool', 'builtins.list': 'list',
              'builtins.tuple': 'tuple', 'builtins.dict': 'dict', 'builtins.set': 'set', 'builtins.float': 'float'}


def isinst1(eng, st, v, t):
    """bool term for isinstance(v, t) with a single class t."""
    if isinstance(t, Ref):
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.cls, Ref):
                return Const(t in eng.mro(st, o.cls))
            return FALSE
        if isinstance(v, App) and v.op == 'exc':
            return FALSE
        if isinstance(v, (Const, Tup, Func, Bound, Lin)):
            return FALSE
        if eng.type_of(st, v) is not None:
            return FALSE
        tt = App('isinst', v, t)
        if st.known(tt) is None:
            for f, val in st.truth.items():
                if f.op == 'isinst' and f.args[0] == v and isinstance(f.args[1], Ref):
                    if val and t in eng.mro(st, f.args[1]):
                        return TRUE
                    if not val and f.args[1] in eng.mro(st, t):
                        return FALSE
                if val and f.op == 'isinst' and f.args[0] == v and isinstance(f.args[1], str):
                    return FALSE
            if st.truth.get(App('isnone', v)):
                return FALSE
        return tt
    if isinstance(t, Ext):
        want = TYPE_NAMES.get(t.name)
        have = eng.type_of(st, v)
        if want is not None and have is not None:
            if have == want or (want == 'int' and have == 'bool'):
                return TRUE
            if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
                return Const(t in eng.mro(st, st.get(v).cls))
            return FALSE
        if want is not None:
            for f, val in st.truth.items():
                if val and f.op == 'isinst' and f.args[0] == v and isinstance(f.args[1], Ref):
                    return Const(t in eng.mro(st, f.args[1]))
            return App('isinst', v, want)
        if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
            sup = eng.mro(st, st.get(v).cls)
            if t in sup:
                return TRUE
        if isinstance(v, App) and v.op == 'exc':
            m = eng.exc_match(st, v.args[0], t)
            if m is not None:
                return Const(m)
        if have in ('str', 'bytes', 'int', 'none', 'list', 'tuple', 'dict', 'bool') and t.name not in ('builtins.object',):
            return FALSE if not t.name.startswith('collections') else App('isinst', v, t)
        return App('isinst', v, t)
    return App('isinst', v, t)


def m_isinstance(eng, st, args, kw, node):
    v, t = args
    ts = list(t.items) if isinstance(t, Tup) else [t]
    alts = [isinst1(eng, st, v, x) for x in ts]
    if len(alts) == 1:
        k = st.known(alts[0])
        return [(st, alts[0] if k is None else Const(k))]
    if TRUE in alts:
        return [(st, TRUE)]
    alts = [a for a in alts if a != FALSE]
    if not alts:
        return [(st, FALSE)]
    out = [(s, TRUE) for s in eng.assume_or(st, alts, True)]
    return out + [(s, FALSE) for s in eng.assume_or(st, alts, False)]


def m_issubclass(eng, st, args, kw, node):
    a, b = args
    if isinstance(a, (Ref, Ext)):
        m = eng.exc_match(st, a, b) if not (isinstance(a, Ref) and isinstance(b, Ref)) else b in eng.mro(st, a)
        if m is not None:
            return [(st, Const(bool(m)))]
    return [(st, App('issub', a, b))]


def has_attr(eng, st, v, name):
    """bool term"""
    if isinstance(v, Const):
        return Const(hasattr(v.v, name))
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o.cls, Ref):
            cv, _ = eng.class_attr(st, o.cls, name)
            if cv is not None or name in o.attrs:
                return TRUE
            if o.kind in ('list', 'dict', 'set'):
                return Const(hasattr({'list': [], 'dict': {}, 'set': set()}[o.kind], name))
            if isinstance(o.meta, tuple) and o.meta and o.meta[0] == 'open':
                return App('hasattr', v, Const(name))
            if (v, 'a', name) in st.sto:
                return TRUE
            return FALSE
        if o.kind == 'class':
            return Const(eng.class_attr(st, v, name)[0] is not None)
        if o.kind in ('list', 'dict', 'set'):
            return Const(hasattr({'list': [], 'dict': {}, 'set': set()}[o.kind], name))
        if o.kind == 'gen':
            return Const(name in ('close', 'send', 'throw', '__iter__', '__next__'))
        if o.kind == 'iter':
            return Const(name in ('__iter__', '__next__'))
        if name in o.attrs:
            return TRUE
    t = eng.type_of(st, v)
    if t in ('str', 'bytes', 'int', 'tuple', 'list', 'dict'):
        return Const(hasattr({'str': '', 'bytes': b'', 'int': 0, 'tuple': (), 'list': [], 'dict': {}}[t], name))
    if t == 'none':
        return Const(hasattr(None, name))
    if isinstance(v, App) and v.op in ('map', 'zip', 'chain', 'filter', 'iter', 'enumerate', 'reversed'):
        return Const(name in ('__iter__', '__next__'))
    if isinstance(v, (Sym, App)):
        if (v, 'a', name) in st.sto:
            return TRUE
        if st.truth.get(App('isnone', v)):
            return FALSE
    if isinstance(v, Func) and name in ('__code__', '__defaults__', '__qualname__', '__name__', '__closure__', '__globals__'):
        return TRUE
    if isinstance(v, Ext):
        if v.name.startswith('builtins.') and v.name.count('.') == 1:
            import builtins
            o = getattr(builtins, v.name[9:], None)
            if o is not None:
                return Const(hasattr(o, name))
        return TRUE
    return App('hasattr', v, Const(name))


def m_hasattr(eng, st, args, kw, node):
    if not isinstance(args[1], Const):
        return [(st, App('hasattr', *args))]
    t = has_attr(eng, st, args[0], args[1].v)
    k = st.known(t)
    return [(st, t if k is None else Const(k))]


def m_getattr(eng, st, args, kw, node):
    if not isinstance(args[1], Const):
        return [(st, App('getattr', *args))]
    name = args[1].v
    if len(args) == 2:
        return eng.getattr_(st, args[0], name, node)
    t = has_attr(eng, st, args[0], name)
    out = []
    for s in eng.assume(st, t, True):
        out += eng.getattr_(s, args[0], name, node)
    for s in eng.assume(st, t, False):
        out.append((s, args[2]))
    return out


def m_setattr(eng, st, args, kw, node):
    if not isinstance(args[1], Const):
        st = st.fork()
        eng.event(st, 'setattr', node, (args[0], None, args[2], args[1]))
        return [(st, NONE)]
    return eng.setattr_(st, args[0], args[1].v, args[2], node)


def m_iter(eng, st, args, kw, node):
    if len(args) == 2:
        return [(st, App('calliter', *args))]
    v = args[0]
    out = []
    for s, r in iterate(eng, st, v, node):
        if _exc(r):
            out.append((s, r))
        elif isinstance(r, Ref) and s.get(r).kind in ('iter', 'gen'):
            out.append((s, r))
        else:
            s = s.fork()
            src = r
            if isinstance(r, Ref) and s.get(r).kind == 'list' and not any(eng.is_star(x) for x in s.get(r).items):
                src = r
            out.append((s, s.alloc(Obj('iter', meta=(src, Const(0))), 'iter@%d' % node.lineno)))
    return out


def m_next(eng, st, args, kw, node):
    it = args[0]
    if isinstance(it, Ref) and st.get(it).kind == 'list' and not isinstance(st.get(it).cls, Ref):
        st = st.fork()      # a generator expression: evaluated where it was created
        src = st.alloc(st.get(it).copy(), 'genexp@%d' % getattr(node, 'lineno', 0))
        st.put(it, Obj('iter', meta=(src, Const(0))))
    if isinstance(it, Ref) and st.get(it).kind == 'iter':
        src, pos = st.get(it).meta
        out = []
        kn = eng.known_items(st, src)
        if kn is not None and isinstance(pos, Const):
            st = st.fork()
            if pos.v < len(kn):
                st.put(it, st.get(it).copy(meta=(src, Const(pos.v + 1))))
                return [(st, kn[pos.v])]
            return [(st, args[1] if len(args) > 1 else eng.mkexc(st, 'StopIteration', node))]
        L = seq_len(eng, st, src)
        t = App('ge0', lin_sub(lin_sub(L, pos), Const(1))) if L is not None else None
        if t is None:
            yes, no = [st.fork()], [st.fork()]
        else:
            yes, no = eng.assume(st, t, True), eng.assume(st, t, False)
        for s in yes:
            s.put(it, s.get(it).copy(meta=(src, lin_add(pos, Const(1)))))
            for s2, v in elem(eng, s, src, pos, node):
                if not _exc(v):
                    eng.event(s2, 'next', node, (src, pos, v))
                out.append((s2, v))
        for s in no:
            out.append((s, args[1] if len(args) > 1 else eng.mkexc(s, 'StopIteration', node)))
        return out
    s2 = st.fork()
    r = eng.unknown_call(st, Ext('builtins.next'), args, kw, node)
    if len(args) > 1:
        s2.note('next() of an iterator that is not understood')
        return r + [(s2, args[1])]
    if eng.can_catch(st, Ext('builtins.StopIteration')):
        r = r + [(s2, eng.mkexc(s2, 'StopIteration', node))]
    return r


def m_map(eng, st, args, kw, node):
    if len(args) == 2 and not kw:
        items = eng.known_items(st, args[1])
        if items is not None and len(items) <= 16:
            cur = [(st.fork(), ())]
            out = []
            for it in items:
                nxt = []
                for s, acc in cur:
                    for s1, v in eng.call(s, args[0], [it], [], node):
                        if _exc(v):
                            out.append((s1, v))
                        else:
                            nxt.append((s1, acc + (v,)))
                cur = nxt
            for s, acc in cur:
                s = s.fork()
                out.append((s, s.alloc(Obj('list', items=acc), 'map@%d' % getattr(node, 'lineno', 0))))
            return out
    return [(st, App('map', *args))]


def m_filter(eng, st, args, kw, node):
    if len(args) == 2 and not kw:
        items = eng.known_items(st, args[1])
        if items is not None and len(items) <= 8:
            cur = [(st.fork(), ())]
            out = []
            for it in items:
                nxt = []
                for s, acc in cur:
                    rs = [(s, it)] if args[0] == NONE else eng.call(s, args[0], [it], [], node)
                    for s1, v in rs:
                        if _exc(v):
                            out.append((s1, v))
                            continue
                        for s2, b in truth_split(eng, s1, v, node):
                            nxt.append((s2, acc + (it,) if b else acc))
                cur = nxt
            for s, acc in cur:
                s = s.fork()
                out.append((s, s.alloc(Obj('list', items=acc), 'filter@%d' % getattr(node, 'lineno', 0))))
            return out
    return [(st, App('filter', *args))]


def truth_split(eng, st, v, node):
    out = []
    for b in (True, False):
        for s in eng.assume(st, v, b):
            out.append((s, b))
    return out


def m_enumerate(eng, st, args, kw, node):
    start = args[1] if len(args) > 1 else dict(kw).get('start', Const(0))
    return [(s, v if _exc(v) else App('enumerate', v, start)) for s, v in iterate(eng, st, args[0], node)]


def m_sum(eng, st, args, kw, node):
    kn = eng.known_items(st, args[0])
    if kn is not None:
        r = args[1] if len(args) > 1 else Const(0)
        for x in kn:
            r = lin_add(r, x)
        return [(st, r)]
    v = args[0]
    if isinstance(v, Ref):
        v = content(st, v)
    return [(st, App('sum', v))]


def m_sorted(eng, st, args, kw, node):
    kn = eng.known_items(st, args[0])
    if kn is not None and all(isinstance(x, Const) for x in kn) and not kw:
        try:
            st = st.fork()
            return [(st, st.alloc(Obj('list', items=tuple(Const(x) for x in sorted(c.v for c in kn))), 'sorted@%d' % node.lineno))]
        except TypeError:
            pass
    v = args[0]
    if isinstance(v, Ref):
        v = content(st, v)
    return [(st, App('sorted', v, *[App('kw', Const(k), x) for k, x in kw]))]


def m_re(fn):
    def f(eng, st, args, kw, node):
        a = list(args)
        flags = dict(kw).get('flags', NONE)
        if fn == 'compile':
            return [(st, App('re', a[0], a[1] if len(a) > 1 else flags))]
        if fn == 'sub':
            return pure_call(eng, st, 're.sub', args, kw, node)
        if fn == 'escape':
            if isinstance(a[0], Const):
                return [(st, Const(_re.escape(a[0].v)))]
            return pure_call(eng, st, 're.escape', args, kw, node)
        fl = a[2] if len(a) > 2 else flags
        return call_meth(eng, st, Meth(App('re', a[0], fl), fn), a[1:2], [], node)
    return f


def re_obj(r):
    """Compiled pattern of App('re', Const, flags)"""
    if isinstance(r, App) and r.op == 're' and isinstance(r.args[0], Const):
        fl = 0
        f = r.args[1]
        names = set()
        for t in subterms(f):
            if isinstance(t, Ext) and t.name.startswith('re.'):
                names.add(t.name[3:])
        for nme in names:
            fl |= getattr(_re, nme, 0)
        try:
            return _re.compile(r.args[0].v, fl)
        except Exception:
            return None
    return None


def m_partial(eng, st, args, kw, node):
    f = args[0]
    if isinstance(f, Wrap) and f.kind == 'partial':
        k = dict(f.kw)
        k.update(dict(kw))
        return [(st, Wrap('partial', f.args[0], *(f.args[1:] + tuple(args[1:])), kw=sorted(k.items(), key=lambda p: str(p[0]))))]
    return [(st, Wrap('partial', *args, kw=sorted(kw, key=lambda p: str(p[0]))))]


def m_wraps(eng, st, args, kw, node):
    return [(st, Wrap('partial', Ext('sa.identity')))]


def m_type(eng, st, args, kw, node):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and st.get(v).cls is not None:
            return [(st, st.get(v).cls)]
        t = eng.type_of(st, v)
        if t in ('str', 'bytes', 'int', 'bool', 'list', 'tuple', 'dict', 'set', 'float'):
            return [(st, Ext('builtins.' + t))]
        return [(st, App('type', v))]
    return None


def m_open(eng, st, args, kw, node):
    out = _raises(eng, st, 'builtins.open', node)
    st = st.fork()
    v = Sym(st.fresh('file'), 'file')
    eng.event(st, 'call', node, (Ext('builtins.open'), tuple(args), tuple(kw)), v)
    return [(st, v)] + out


def m_new_ext(name):
    def f(eng, st, args, kw, node):
        st = st.fork()
        r = st.alloc(Obj('inst', cls=Ext(name)), '%s@%d' % (name, node.lineno))
        eng.event(st, 'call', node, (Ext(name), tuple(args), tuple(kw)), r)
        return [(st, r)]
    return f


def m_property(eng, st, args, kw, node):
    k = dict(kw)
    a = list(args) + [NONE] * 4
    return [(st, Wrap('property', k.get('fget', a[0]), k.get('fset', a[1]), k.get('fdel', a[2])))]


def m_bool(eng, st, args, kw, node):
    if not args:
        return [(st, FALSE)]
    t = eng.cond(st, args[0])
    k = st.known(t)
    return [(st, t if k is None else Const(k))]


def m_bytes(eng, st, args, kw, node):
    if not args:
        return [(st, Const(b''))]
    v = args[0]
    if len(args) == 1 and eng.type_of(st, v) == 'bytes':
        return [(st, v)]
    if len(args) >= 2:
        return call_meth(eng, st, Meth(v, 'encode'), args[1:], kw, node)
    return [(st, App('bytes', v))]


def m_super(eng, st, args, kw, node):
    if len(args) == 2:
        return [(st, Wrap('super', *args))]
    return None


def m_suppress(eng, st, args, kw, node):
    return [(st, App('suppress', Tup(args)))]


def _app(op):
    return lambda eng, st, args, kw, node: [(st, App(op, *args))]


def m_fold(pyf, op):
    def f(eng, st, args, kw, node):
        if all(isinstance(a, Const) for a in args) and not kw:
            try:
                return [(st, Const(pyf(*[a.v for a in args])))]
            except Exception:
                pass
        return [(st, App(op, *args))]
    return f


def m_commonprefix(eng, st, args, kw, node):
    its = eng.known_items(st, args[0])
    if its is None or not all(isinstance(x, Const) for x in its):
        return pure_call(eng, st, 'os.path.commonprefix', args, kw, node)
    import os
    return [(st, Const(os.path.commonprefix([x.v for x in its])))]


def const_or(name, f):
    """constant arguments are folded, others stay a pure call"""
    def g(eng, st, args, kw, node):
        if kw or not args or not all(isinstance(a, Const) for a in args):
            return pure_call(eng, st, name, args, kw, node)
        try:
            return [(st, Const(f(*(a.v for a in args))))]
        except Exception as e:
            if type(e).__module__ != 'builtins':
                return pure_call(eng, st, name, args, kw, node)
            return [(st, eng.mkexc(st, type(e).__name__, node))]
    return g


def of_json(st, x):
    if isinstance(x, list):
        return st.alloc(Obj('list', items=tuple(of_json(st, i) for i in x)), 'json')
    if isinstance(x, dict):
        return st.alloc(Obj('dict', items=tuple((Const(k), of_json(st, v)) for k, v in x.items())), 'json')
    return Const(x)


def m_json_loads(eng, st, args, kw, node):
    if len(args) == 1 and not kw and isinstance(args[0], Const) and isinstance(args[0].v, (str, bytes)):
        try:
            x = json.loads(args[0].v)
        except ValueError as e:
            return [(st, eng.mkexc(st, type(e).__name__ if isinstance(e, UnicodeError) else 'ValueError', node))]
        except RecursionError:
            return [(st, eng.mkexc(st, 'RecursionError', node))]
        st = st.fork()
        return [(st, of_json(st, x))]
    return pure_call(eng, st, 'json.loads', args, kw, node)


EXT = {
    'json.loads': m_json_loads,
    'math.isinf': const_or('math.isinf', math.isinf), 'math.isnan': const_or('math.isnan', math.isnan), 'math.isfinite': const_or('math.isfinite', math.isfinite),
    'decimal.Decimal': const_or('decimal.Decimal', decimal.Decimal),
    'os.path.commonprefix': m_commonprefix,
    'builtins.len': m_len, 'builtins.int': m_int, 'builtins.str': m_str, 'builtins.bytes': m_bytes, 'builtins.bool': m_bool,
    'builtins.list': _as_seq('list'), 'builtins.tuple': _as_seq('tuple'), 'builtins.set': _as_seq('set'), 'builtins.frozenset': _as_seq('set'),
    'builtins.dict': m_dict, 'collections.OrderedDict': m_dict, 'collections.defaultdict': m_defaultdict,
    'builtins.min': m_minmax('min'), 'builtins.max': m_minmax('max'), 'builtins.any': m_anyall('any'), 'builtins.all': m_anyall('all'),
    'builtins.isinstance': m_isinstance, 'builtins.issubclass': m_issubclass, 'builtins.hasattr': m_hasattr,
    'builtins.getattr': m_getattr, 'builtins.setattr': m_setattr,
    'builtins.delattr': lambda eng, st, a, kw, node: delattr_(eng, st, a[0], a[1].v, node) if isinstance(a[1], Const) else None,
    'builtins.iter': m_iter, 'builtins.next': m_next,
    'builtins.enumerate': m_enumerate, 'builtins.zip': _app('zip'), 'builtins.range': _app('range'), 'builtins.reversed': _app('reversed'),
    'builtins.sum': m_sum, 'builtins.sorted': m_sorted, 'builtins.map': m_map, 'builtins.filter': m_filter,
    'builtins.repr': m_fold(repr, 'repr'), 'builtins.chr': m_fold(chr, 'chr'), 'builtins.ord': m_fold(ord, 'ord'), 'builtins.abs': m_fold(abs, 'abs'),
    'builtins.callable': lambda eng, st, a, kw, node: [(st, TRUE if isinstance(a[0], (Func, Bound, Ext, Meth)) else App('callable', a[0]))],
    'builtins.type': m_type, 'builtins.open': m_open, 'builtins.property': m_property, 'builtins.id': _app('id'), 'builtins.hash': _app('hash'),
    'builtins.staticmethod': lambda eng, st, a, kw, node: [(st, Wrap('staticmethod', *a))],
    'builtins.classmethod': lambda eng, st, a, kw, node: [(st, Wrap('classmethod', *a))],
    'builtins.super': m_super, 'builtins.float': m_fold(float, 'float'), 'builtins.format': lambda eng, st, a, kw, node: const_or('builtins.format', format)(eng, st, a, kw, node) if all(isinstance(x, Const) for x in a) else [(st, App('format', *a))],
    'builtins.print': lambda eng, st, a, kw, node: [(st, NONE)], 'builtins.vars': _app('vars'),
    'builtins.divmod': lambda eng, st, a, kw, node: [(st, Tup((App('floordiv', *a), App('mod', *a))))],
    'builtins.round': _app('round'), 'builtins.slice': lambda eng, st, a, kw, node: [(st, App('sl', *((NONE,) + tuple(a) + (NONE,) if len(a) == 1 else tuple(a) + (NONE,) * (3 - len(a)))))],
    'functools.partial': m_partial, 'functools.wraps': m_wraps,
    'functools.partialmethod': lambda eng, st, a, kw, node: [(st, Wrap('partialmethod', *a, kw=kw))],
    'sa.identity': lambda eng, st, a, kw, node: [(st, a[-1])],
    'itertools.chain': _app('chain'), 'itertools.islice': _app('islice'),
    're.compile': m_re('compile'), 're.match': m_re('match'), 're.search': m_re('search'), 're.fullmatch': m_re('fullmatch'),
    're.finditer': m_re('finditer'), 're.sub': m_re('sub'), 're.escape': m_re('escape'),
    'threading.local': m_new_ext('threading.local'), 'io.BytesIO': m_new_ext('io.BytesIO'), 'tempfile.TemporaryFile': m_new_ext('tempfile.TemporaryFile'),
    'tempfile.SpooledTemporaryFile': m_new_ext('tempfile.SpooledTemporaryFile'),
    'http.cookies.SimpleCookie': m_new_ext('http.cookies.SimpleCookie'),
    'contextlib.suppress': m_suppress,
    'typing.cast': lambda eng, st, a, kw, node: [(st, a[-1])],
}


def call_meth(eng, st, m, args, kw, node):
    v, name = m.self_, m.name
    if isinstance(v, Wrap) and v.kind == 'super':
        inst = v.args[1]
        if name in ('__init__', '__new__', '__setattr__', '__getattribute__'):
            if name == '__new__':
                return ext_dunder(eng, st, name, args if args else [inst], kw, node)
            return ext_dunder(eng, st, name, [inst] + list(args), kw, node)
        v = inst
        m = Meth(inst, name)
    if isinstance(v, Ext):
        return call_ext(eng, st, Ext(v.name + '.' + name), args, kw, node)
    if isinstance(v, Ref):
        o = st.get(v)
        f = KIND_METHODS.get(o.kind, {}).get(name)
        if f is not None:
            r = f(eng, st, v, args, kw, node)
            if r is not None:
                return r
        if name == '__iter__':
            return m_iter(eng, st, [v], [], node)
        return eng.unknown_call(st, m, args, kw, node)
    if isinstance(v, (Func, Bound)) and name == '__get__':
        return [(st, Bound(v, args[0]))]
    if isinstance(v, Wrap) and v.kind == 'property' and name in ('setter', 'getter', 'deleter'):
        a = list(v.args)
        a[('getter', 'setter', 'deleter').index(name)] = args[0]
        return [(st, Wrap('property', *a))]
    t = eng.type_of(st, v)
    if isinstance(v, (Const, Tup)) and all(isinstance(a, Const) for a in args) and not kw and isinstance(v, Const) \
            and isinstance(v.v, (str, bytes, tuple, int)) and name not in ('format',):
        try:
            return [(st, lift(eng, st, getattr(v.v, name)(*[a.v for a in args]), node))]
        except (ValueError, UnicodeError, IndexError) as e:
            return [(st, eng.mkexc(st, type(e).__name__, node))]
        except Exception:
            pass
    if t == 'regex' or isinstance(v, App) and v.op == 're':
        if name in ('match', 'search', 'fullmatch'):
            extra = args[1:]
            if isinstance(args[0], Const) and all(isinstance(a, Const) and isinstance(a.v, int) for a in extra):
                rx = re_obj(v)
                if rx is not None:
                    try:
                        if getattr(rx, name)(args[0].v, *[a.v for a in extra]) is None:
                            return [(st, NONE)]
                    except TypeError:
                        return [(st, eng.mkexc(st, 'TypeError', node))]
                    r = App('rematch', v, args[0], Const(name), *extra)
                    st = st.fork()
                    st.truth[App('truthy', r)] = True
                    st.truth[App('isnone', r)] = False
                    return [(st, r)]
            if eng.policy.excl and (rx := re_obj(v)) is not None:
                hit = templ.rematch(eng, st, rx, args[0], name, tuple(extra))
                if hit is False:
                    return [(st, NONE)]
                if hit is not None:
                    r = App('rematch', v, args[0], Const(name), *extra)
                    st = st.fork()
                    st.truth[App('truthy', r)] = True
                    st.truth[App('isnone', r)] = False
                    return [(st, r)]
            return [(st, App('rematch', v, args[0], Const(name), *extra))]
        if name in ('finditer', 'findall', 'split', 'sub') and args and all(isinstance(a, Const) for a in args) and not kw and (rx := re_obj(v)) is not None:
            try:
                if name == 'finditer' and len(args) == 1:
                    ms = list(rx.finditer(args[0].v))
                    if all((m2 := rx.match(args[0].v, m.start())) is not None and m2.span() == m.span() for m in ms):
                        st = st.fork()
                        items = []
                        for m in ms:
                            r = App('rematch', v, args[0], Const('match'), Const(m.start()))
                            st.truth[App('truthy', r)] = True
                            st.truth[App('isnone', r)] = False
                            items.append(r)
                        ref = st.alloc(Obj('list', items=tuple(items)), 'matches@%d' % getattr(node, 'lineno', 0))
                        return m_iter(eng, st, [ref], [], node)
                elif name == 'sub':
                    return [(st, Const(rx.sub(*[a.v for a in args])))]
                elif name != 'finditer':
                    st = st.fork()
                    out = getattr(rx, name)(*[a.v for a in args])
                    return [(st, st.alloc(Obj('list', items=tuple(Tup(Const(y) for y in x) if isinstance(x, tuple) else Const(x) for x in out)), 'parts@%d' % getattr(node, 'lineno', 0)))]
            except TypeError:
                return [(st, eng.mkexc(st, 'TypeError', node))]
        if name == 'finditer':
            return [(st, App('finditer', v, args[0]))]
        if name == 'findall':
            return [(st, App('findall', v, args[0]))]
    if isinstance(v, App) and v.op == 'rematch':
        return match_meth(eng, st, v, name, args, kw, node)
    if eng.policy.excl and len(args) == 1 and not kw and name in ('startswith', 'endswith', 'find', 'rfind', 'count') and not (
            isinstance(v, Const) and isinstance(args[0], Const)):
        r = templ.byte_meth(eng, v, args[0], name)
        if r is not None:
            return [(st, r)]
    if name in STR_METHODS and t not in ('file', 'dict'):
        r = str_meth(eng, st, v, name, args, kw, node, t)
        if r is not None:
            return r
    if isinstance(v, (Sym, App)) and t in (None, 'dict', 'view', 'list', 'set'):
        r = opaque_meth(eng, st, v, name, args, kw, node)
        if r is not None:
            return r
    if isinstance(v, App) and v.op == 'call' and isinstance(v.args[0], Ext) and v.args[0].name in PURE and name in (
            'digest', 'hexdigest', 'geturl', 'timetuple', 'utctimetuple', 'as_posix', 'resolve', 'absolute', 'joinpath', 'relative_to',
            'is_relative_to', 'exists', 'is_file'):
        st = st.fork()
        r = App('mcall', Const(name), v, *args)
        eng.event(st, 'call', node, (m, tuple(args), tuple(kw)), r)
        return [(st, r if name not in ('digest', 'hexdigest') else App(name, v))]
    return eng.unknown_call(st, m, args, kw, node)


def lift(eng, st, x, node):
    if isinstance(x, list):
        return st.alloc(Obj('list', items=tuple(Const(i) for i in x)), 'list@%d' % getattr(node, 'lineno', 0))
    return Const(x)


def match_meth(eng, st, v, name, args, kw, node):
    rx = re_obj(v.args[0])
    if rx is not None and isinstance(v.args[1], Const) and len(v.args) >= 3 and all(isinstance(a, Const) for a in v.args[2:]) and isinstance(v.args[2].v, str):
        mt = getattr(rx, v.args[2].v)(v.args[1].v, *[a.v for a in v.args[3:]])
        if mt is not None:
            try:
                r = getattr(mt, name)(*[a.v for a in args])
                if isinstance(r, tuple):
                    return [(st, Tup(Const(i) for i in r))]
                return [(st, Const(r))]
            except Exception:
                pass
    if rx is not None and eng.policy.excl and not (isinstance(v.args[1], Const)) and all(
            isinstance(a, Const) and isinstance(a.v, int) for a in args):
        hit = templ.rematch(eng, st, rx, v.args[1], v.args[2].v, tuple(v.args[3:]))
        if hit:
            def grp(i, j):
                return hit[i][j] if i in hit else (NONE if j == 2 else Const(-1))
            if name == 'group' and len(args) <= 1:
                return [(st, grp(args[0].v if args else 0, 2))]
            if name == 'groups':
                return [(st, Tup(grp(i + 1, 2) for i in range(rx.groups)))]
            if name in ('start', 'end') and len(args) <= 1:
                return [(st, grp(args[0].v if args else 0, name == 'end'))]
            if name == 'span' and len(args) <= 1:
                return [(st, Tup((grp(args[0].v if args else 0, 0), grp(args[0].v if args else 0, 1))))]
    if name == 'group':
        if len(args) <= 1:
            return [(st, App('group', v, args[0] if args else Const(0)))]
        return [(st, Tup(App('group', v, a) for a in args))]
    if name == 'groups':
        if rx is not None:
            return [(st, Tup(App('group', v, Const(i + 1)) for i in range(rx.groups)))]
        return [(st, App('groups', v))]
    if name == 'start':
        return [(st, App('mstart', v, args[0] if args else Const(0)))]
    if name == 'end':
        return [(st, App('mend', v, args[0] if args else Const(0)))]
    if name == 'span':
        g = args[0] if args else Const(0)
        return [(st, Tup((App('mstart', v, g), App('mend', v, g))))]
    return eng.unknown_call(st, Meth(v, name), args, kw, node)


def enc_name(a):
    if isinstance(a, Const) and isinstance(a.v, str):
        return Const(ENC.get(a.v.lower(), a.v.lower()))
    return a


def str_meth(eng, st, v, name, args, kw, node, t):
    k = dict(kw)
    if eng.policy.excl:
        r = templ.meth(eng, st, v, name, args, kw)
        if isinstance(r, list):
            st = st.fork()
            return [(st, st.alloc(Obj('list', items=tuple(r)), '%s@%d' % (name, getattr(node, 'lineno', 0))))]
        if r is not None:
            return [(st, r)]
    if name in ('encode', 'decode'):
        enc = enc_name(args[0] if args else k.get('encoding', Const('utf8')))
        err = args[1] if len(args) > 1 else k.get('errors', Const('strict'))
        inv = 'decode' if name == 'encode' else 'encode'
        if isinstance(v, App) and v.op == inv and v.args[1] == enc and v.args[2] == err == Const('strict'):
            return [(st, v.args[0])]
        if isinstance(v, Const):
            try:
                return [(st, Const(getattr(v.v, name)(enc.v, err.v)))]
            except UnicodeError as e:
                st = st.fork()
                return [(st, eng.mkexc(st, type(e).__name__, node))]
            except Exception:
                pass
        r = App(name, v, enc, err)
        out = []
        safe = (name == 'encode' and enc == Const('utf8')) or (name == 'decode' and enc == Const('latin1')) or err != Const('strict')
        if not safe and eng.can_catch(st, Ext('builtins.UnicodeDecodeError' if name == 'decode' else 'builtins.UnicodeEncodeError')):
            s = st.fork()
            out.append((s, eng.mkexc(s, 'UnicodeDecodeError' if name == 'decode' else 'UnicodeEncodeError', node)))
        st = st.fork()
        eng.event(st, name, node, (v, enc, err), r)
        return [(st, r)] + out
    if name == 'join':
        it = args[0]
        kn = eng.known_items(st, it)
        if kn is not None:
            parts = []
            for i, x in enumerate(kn):
                if i:
                    parts.append(v)
                parts.append(x)
            return [(st, concat(parts, v.v[:0] if isinstance(v, Const) else ''))]
        if isinstance(it, Ref):
            if st.get(it).kind == 'gen':
                return each([(s, i) for s, i in to_items(eng, st, it, node)], lambda s, its: [(s, App('join', v, App('content', Tup(its), NONE)))])
            it = content(st, it)
        return [(st, App('join', v, it))]
    if name == 'format':
        return str_format(eng, st, v, args, kw, node)
    if name in ('index', 'rindex'):
        if t not in ('str', 'bytes'):
            return None
        f = App('find' if name == 'index' else 'rfind', v, *args)
        out = []
        if eng.can_catch(st, Ext('builtins.ValueError')):
            for s in eng.assume(st, App('ge0', f), False):
                out.append((s, eng.mkexc(s, 'ValueError', node)))
        return out + [(s, f) for s in eng.assume(st, App('ge0', f), True)]
    if name == 'count' and t not in ('str', 'bytes'):
        return None
    if name in ('startswith', 'endswith'):
        p = args[0]
        if isinstance(p, Tup) or isinstance(p, Const) and isinstance(p.v, tuple):
            alts = [App(name, v, x) for x in eng.known_items(st, p)]
            return [(s, TRUE) for s in eng.assume_or(st, alts, True)] + [(s, FALSE) for s in eng.assume_or(st, alts, False)]
        if len(args) == 1:
            tt = App(name, v, p)
            kx = st.known(tt)
            return [(st, tt if kx is None else Const(kx))]
    if name in ('split', 'rsplit') and k:
        args = list(args) + ([NONE] if not args and 'sep' not in k else []) + [k[x] for x in ('sep', 'maxsplit') if x in k]
    if name in ('lower', 'upper', 'title') and isinstance(v, App) and v.op == name:
        return [(st, v)]
    return [(st, App(name, v, *args))]


def opaque_meth(eng, st, v, name, args, kw, node):
    """Mapping/sequence protocol of an unknown object."""
    if name == 'get' and 1 <= len(args) <= 2:
        key = args[0]
        d = args[1] if len(args) > 1 else dict(kw).get('default', NONE)
        x = st.sto.get((v, 'i', key))
        if x is not None:
            return [(st, d if x == DELETED else x)]
        if v.__class__ is App and v.op == 'instdict':
            return [(s, d if x is MISSING else x) for s, x in opaque_lookup(eng, st, v, key)]
        t = App('in', key, v)
        k = st.known(t)
        if d == NONE:
            if k is False:
                return [(st, NONE)]
            return [(st, App('item', v, key))]
        out = [(s, App('item', v, key)) for s in eng.assume(st, t, True)]
        return out + [(s, d) for s in eng.assume(st, t, False)]
    if name in ('keys', 'values', 'items') and not args:
        return [(st, App(name, v))]
    if name in ('pop',) and args and isinstance(v, (Sym, App)) and eng.type_of(st, v) != 'list':
        st = st.fork()
        key = args[0]
        eng.event(st, 'popitem', node, (v, key))
        x = st.sto.get((v, 'i', key))
        st.sto[(v, 'i', key)] = DELETED
        if x is not None and x != DELETED:
            return [(st, x)]
        if len(args) > 1:
            return [(st, App('pop', v, *args))]
        return [(st, App('item', v, key))]
    if name == 'setdefault' and len(args) == 2:
        out = []
        for s, x in opaque_lookup(eng, st, v, args[0]):
            if x is MISSING:
                out += each(setitem(eng, s, v, args[0], args[1], node), lambda y, _: [(y, args[1])])
            else:
                out.append((s, x))
        return out
    if name == 'copy' and not args:
        st = st.fork()
        r = App('copyof', v, Const(st.fresh('copy')))
        for (b, kind, key), x in list(st.sto.items()):
            if b == v and kind == 'i':
                st.sto[(r, kind, key)] = x
        eng.event(st, 'call', node, (Meth(v, name), (), ()), r)
        return [(st, r)]
    return None


# ---- methods of known heap objects
def l_append(eng, st, ref, a, kw, node):
    return list_append(eng, st, ref, a[0], node)


def l_extend(eng, st, ref, a, kw, node):
    return list_extend(eng, st, ref, a[0], node)


def l_insert(eng, st, ref, a, kw, node):
    st = st.fork()
    o = st.get(ref)
    its = list(o.items)
    eng.event(st, 'insert', node, (ref, a[0], a[1]))
    if isinstance(a[0], Const) and a[0].v >= 0 and not any(eng.is_star(x) for x in its[:a[0].v]):
        its.insert(a[0].v, a[1])
        st.put(ref, o.copy(items=tuple(its)))
    else:
        st.put(ref, o.copy(items=(App('star', App('mut', content(st, ref), a[0], a[1])),)))
    return [(st, NONE)]


def l_pop(eng, st, ref, a, kw, node):
    st = st.fork()
    o = st.get(ref)
    its = list(o.items)
    i = a[0].v if a and isinstance(a[0], Const) else -1 if not a else None
    eng.event(st, 'listpop', node, (ref,) + tuple(a))
    if i is not None and its:
        tail = its[i:] if i < 0 else its[:i + 1]
        if not any(eng.is_star(x) for x in tail) and -len(its) <= i < len(its):
            v = its.pop(i)
            st.put(ref, o.copy(items=tuple(its)))
            return [(st, v)]
        if i == -1 and eng.is_star(its[-1]):
            src = its[-1].args[0]
            v = App('popped', content(st, ref), Const(st.fresh('pop')))
            return [(st, v)]
    if not its:
        return [(st, eng.mkexc(st, 'IndexError', node))]
    st.put(ref, o.copy(items=(App('star', App('mut', content(st, ref), Const('pop'))),)))
    return [(st, App('popped', content(st, ref), Const(st.fresh('pop'))))]


def l_clear(eng, st, ref, a, kw, node):
    st = st.fork()
    st.put(ref, st.get(ref).copy(items=(), open=None))
    eng.event(st, 'clear', node, (ref,))
    return [(st, NONE)]


def l_reverse(eng, st, ref, a, kw, node):
    st = st.fork()
    o = st.get(ref)
    st.put(ref, o.copy(items=tuple(reversed(o.items))))
    eng.event(st, 'reverse', node, (ref,))
    return [(st, NONE)]


def l_copy(eng, st, ref, a, kw, node):
    st = st.fork()
    o = st.get(ref)
    return [(st, st.alloc(Obj(o.kind, items=o.items, open=o.open), 'copy@%d' % node.lineno))]


def l_remove(eng, st, ref, a, kw, node):
    st = st.fork()
    o = st.get(ref)
    eng.event(st, 'listremove', node, (ref, a[0]))
    its = list(o.items)
    if a[0] in its and not any(eng.is_star(x) for x in its):
        its.remove(a[0])
        st.put(ref, o.copy(items=tuple(its)))
    else:
        st.put(ref, o.copy(items=(App('star', App('mut', content(st, ref), Const('remove'), a[0])),)))
    return [(st, NONE)]


def d_get(eng, st, ref, a, kw, node):
    d = a[1] if len(a) > 1 else NONE
    if isinstance(st.get(ref).cls, Ref):
        f, _ = eng.class_attr(st, st.get(ref).cls, 'get')
        if f is not None:
            return None
    return [(s, d if v is MISSING else v) for s, v in dict_lookup(eng, st, ref, a[0])]


def d_setdefault(eng, st, ref, a, kw, node):
    out = []
    d = a[1] if len(a) > 1 else NONE
    for s, v in dict_lookup(eng, st, ref, a[0]):
        if v is MISSING:
            out += each(dict_set(eng, s, ref, a[0], d, node), lambda x, _: [(x, d)])
        else:
            out.append((s, v))
    return out


def d_pop(eng, st, ref, a, kw, node):
    out = []
    for s, v in dict_lookup(eng, st, ref, a[0]):
        s = s.fork()
        eng.event(s, 'popitem', node, (ref, a[0]))
        if v is MISSING:
            out.append((s, a[1] if len(a) > 1 else eng.mkexc(s, 'KeyError', node)))
        else:
            o = s.get(ref)
            gone = next((k for k, x in o.items if k == a[0]), None)
            if gone is None:
                gone = next((k for k, x in o.items if x is v), None)
            s.put(ref, o.copy(items=tuple((k, x) for k, x in o.items if k != gone)))
            if o.open is not None:
                s.sto[(o.open, 'i', a[0])] = DELETED
            out.append((s, v))
    return out


def d_popitem(eng, st, ref, a, kw, node):
    o = st.get(ref)
    if o.open is not None or any(isinstance(k, App) and k.op == 'star' for k, _ in o.items):
        return [(st, Sym(st.fresh('popitem')))]
    if not o.items:
        return [(st, eng.mkexc(st, 'KeyError', node))]
    st = st.fork()
    k, v = o.items[-1]
    eng.event(st, 'popitem', node, (ref, k))
    st.put(ref, o.copy(items=o.items[:-1]))
    return [(st, Tup((k, v)))]


def d_update(eng, st, ref, a, kw, node):
    cur = [(st, NONE)]
    for x in a:
        cur = each(cur, lambda s, _: dict_from(eng, s, ref, x, node))
    for k, x in kw:
        if k is None:
            cur = each(cur, lambda s, _: dict_update(eng, s, ref, x, node))
        else:
            cur = each(cur, lambda s, _: dict_set(eng, s, ref, Const(k), x, node))
    return cur


def d_view(name):
    def f(eng, st, ref, a, kw, node):
        o = st.get(ref)
        if o.open is not None and not o.items:
            return [(st, App(name, o.open))]
        return [(st, App(name, ref))]
    return f


def s_add(eng, st, ref, a, kw, node):
    return set_add(eng, st, ref, a[0], node)


def i_next(eng, st, ref, a, kw, node):
    return m_next(eng, st, [ref], [], node)


KIND_METHODS = {
    'list': {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'clear': l_clear, 'reverse': l_reverse,
             'copy': l_copy, 'remove': l_remove},
    'dict': {'get': d_get, 'setdefault': d_setdefault, 'pop': d_pop, 'popitem': d_popitem, 'update': d_update, 'clear': l_clear, 'copy': l_copy,
             'keys': d_view('keys'), 'values': d_view('values'), 'items': d_view('items'),
             '__setitem__': lambda eng, st, ref, a, kw, node: dict_set(eng, st, ref, a[0], a[1], node),
             '__getitem__': lambda eng, st, ref, a, kw, node: getitem(eng, st, ref, a[0], node),
             '__contains__': lambda eng, st, ref, a, kw, node: contains_(eng, st, a[0], ref, node)},
    'set': {'add': s_add, 'clear': l_clear, 'copy': l_copy,
            'update': lambda eng, st, ref, a, kw, node: None},
    'iter': {'__next__': i_next},
}
