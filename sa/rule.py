"""Obligations, verdicts, evidence and exit codes shared by all checks.

Every obligation is a (rule, construct) pair and ends as
  ok         - shown on every analysed path that meets it;
  violation  - a path whose facts are fully understood breaks it;
  unresolved - the analysis cannot tell (never reported as a violation).
"""
from __future__ import annotations
import contextlib
import json
import os
import pickle
import sys
import time
import traceback
from .interp import Engine, Policy, Limit, Exc, LoopRec
from .terms import *
from . import terms
from .state import State, Ev

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPO = os.environ.get('VERIF_REPO', '/repo')


STEPS = int(os.environ.get('SA_STEPS', 6_000_000))       # statements for a section
BUDGET = float(os.environ.get('SA_BUDGET', 480))     # seconds for a whole check


class Check:
    def __init__(self, pid, explanation):
        self.pid, self.explanation = pid, explanation
        self.t0 = time.monotonic()
        self.obl = {}           # (rule, where) -> [status, detail, trace]
        self.rules = {}         # rule -> text
        self.paths = 0
        self.notes = []
        self.eng = None
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.funcs = set()

    def engine(self):
        if self.eng is None:
            self.eng = Engine(REPO)
            self.eng.load_all()
            for p, line, n in self.eng.load_notes:
                self.notes.append('import-time statement %s:%s has %d abstract outcomes' % (p, line, n))
        return self.eng

    # ------------------------------------------------------------ verdicts
    RANK = {'ok': 0, 'unresolved': 1, 'violation': 2}

    def put(self, status, rule, where, detail='', st=None):
        if isinstance(where, Ev):
            where = where.where()
        k = (rule, str(where))
        detail = str(detail).encode('utf8', 'backslashreplace').decode('utf8')
        cur = self.obl.get(k)
        if cur is None or self.RANK[status] > self.RANK[cur[0]]:
            self.obl[k] = [status, detail, path_text(st) if st is not None and status == 'violation' else '']

    def ok(self, rule, where, detail=''):
        self.put('ok', rule, where, detail)

    def bad(self, rule, where, detail, st=None):
        self.put('violation', rule, where, detail, st)

    def und(self, rule, where, detail=''):
        self.put('unresolved', rule, where, detail)

    def verdict(self, cond, vague, rule, where, detail, st=None):
        """cond True -> ok; else violation unless `vague`."""
        if cond:
            self.ok(rule, where)
        elif vague:
            self.und(rule, where, '%s [%s]' % (detail, vague))
        else:
            self.bad(rule, where, detail, st)

    @contextlib.contextmanager
    def section(self, name, seconds=150):
        eng = self.eng
        if eng is not None:
            eng.deadline = min(time.monotonic() + seconds, self.t0 + BUDGET)
            eng.max_steps = eng.steps + STEPS
            terms.DEADLINE = eng.deadline + 2
        try:
            yield
        except Limit as e:
            self.und(name, 'analysis', 'budget: %s' % e)
        except Exception as e:
            self.und(name, 'analysis', 'internal: %r' % e)
            self.notes.append('%s: %s' % (name, traceback.format_exc(limit=-6)))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        finally:
            if eng is not None:
                eng.deadline = terms.DEADLINE = None
                eng.policy = Policy()
                eng.handlers, eng.active, eng.yields = [], [], []
                self.funcs |= eng.analysed

    def spread(self, jobs, fn):
        """fn(job) for every job, shared among processes; the verdicts are merged (the order does not matter)"""
        n = min(int(os.environ.get('SA_PROCS', 0)) or min(8, os.cpu_count() or 1), len(jobs))
        if n <= 1:
            for j in jobs:
                if os.environ.get('SA_FAST') and any(v[0] == 'violation' for v in self.obl.values()):
                    break       # development aid
                fn(j)
            return
        sys.stdout.flush()
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    self.obl, self.notes, self.paths, self.funcs, steps = {}, [], 0, set(), self.eng.steps
                    for j in jobs[k::n]:
                        fn(j)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((self.obl, self.notes, self.paths, self.funcs, self.eng.steps - steps), f)
                    rc = 0
                finally:
                    os._exit(rc)
            os.close(w)
            kids.append((pid, r))
        for k, (pid, r) in enumerate(kids):
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, rc = os.waitpid(pid, 0)
            if rc or not data:
                self.und('analysis', 'part %d' % k, 'no answer')
                continue
            obl, notes, paths, funcs, steps = pickle.loads(data)
            for key, v in obl.items():
                cur = self.obl.get(key)
                if cur is None or self.RANK[v[0]] > self.RANK[cur[0]]:
                    self.obl[key] = v
            self.notes += notes
            self.paths += paths
            self.funcs |= funcs
            self.eng.steps += steps

    # ------------------------------------------------------------ result
    def finish(self):
        known = load_known()
        viol, kn = [], []
        os.makedirs(EVIDENCE, exist_ok=True)
        n = 0
        for (rule, where), (status, detail, tr) in sorted(self.obl.items()):
            if status != 'violation':
                continue
            key = '%s @ %s' % (rule, where)
            hit = next((k for k in known.get(self.pid, ()) if k in key + ' ' + detail), None)
            if hit:
                kn.append((hit, key))
                continue
            n += 1
            path = os.path.join(EVIDENCE, '%s-violation-%d.txt' % (self.pid, n))
            with open(path, 'w', encoding='utf8') as f:
                f.write('property: %s\nrule: %s\n      %s\nconstruct: %s\nviolation: %s\n\npath (abstract):\n%s\n' % (
                    self.pid, rule, self.rules.get(rule, ''), where, detail, tr or '(none: the rule is about the construct itself)'))
            viol.append((path, rule, where, detail))
        cnt = {s: sum(1 for v in self.obl.values() if v[0] == s) for s in ('ok', 'violation', 'unresolved')}
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
            'coverage': {
                'explanation': self.explanation,
                'technique': 'static analysis (abstract interpretation of the source; nothing is executed)',
                'rules': self.rules,
                'obligations_total': len(self.obl), 'obligations_discharged': cnt['ok'],
                'obligations_violated': cnt['violation'], 'obligations_unresolved': cnt['unresolved'],
                'obligations': ['%s %s @ %s%s' % (v[0], r, w, (': ' + v[1]) if v[1] else '') for (r, w), v in sorted(self.obl.items())][:400],
                'functions_analysed': sorted(self.funcs), 'paths': self.paths,
                'abstract_steps': self.eng.steps if self.eng else 0, 'notes': self.notes,
            },
            'wall_s': round(time.monotonic() - self.t0, 2),
            'violations': len(viol),
        }
        with open(os.path.join(EVIDENCE, self.pid + '.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        for hit, key in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, key))
        for path, rule, where, detail in viol:
            print('%s: %s: %s' % (where, rule, detail))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s: %d obligations, %d discharged, %d violated, %d unresolved; %d functions, %d paths, %.1fs' % (
            self.pid, len(self.obl), cnt['ok'], cnt['violation'], cnt['unresolved'], len(self.funcs), self.paths, ev['wall_s']))
        if os.environ.get('SA_VERBOSE'):
            for (r, w), v in sorted(self.obl.items()):
                print('  ', v[0], r, '@', w, v[1])
            for x in self.notes:
                print('   note:', x)
        return 1 if viol else 0


def load_known():
    out = {}
    p = os.path.join(VERIF, 'KNOWN-FINDINGS.txt')
    if os.path.exists(p):
        with open(p, encoding='utf8') as f:
            for line in f:
                if line.startswith('known: property='):
                    pid, _, key = line[len('known: property='):].strip().partition(' ')
                    out.setdefault(pid, []).append(key)
    return out


# ---------------------------------------------------------------- traces
def path_text(st, limit=200):
    out = []
    for ev in st.events():
        if ev.kind in ('branch',):
            out.append('  %s: %s is %s' % (ev.where(), ev.a[0], ev.a[1]))
        elif ev.kind == 'enter':
            out.append('  %s: call %s' % (ev.where(), ev.a[0]))
        elif ev.kind in ('leave',):
            continue
        elif ev.kind == 'loop':
            out.append('  loop at %s' % ev.where())
        else:
            out.append('  %s: %s %s%s' % (ev.where(), ev.kind, ev.a, '' if ev.res is None else ' -> %s' % (ev.res,)))
    if len(out) > limit:
        out = out[:limit // 2] + ['  ...'] + out[-limit // 2:]
    return '\n'.join(x[:400] for x in out)


def walk(st, into_loops=True, _seen=None):
    """Every event a path can pass through, loop bodies included."""
    seen = _seen if _seen is not None else set()
    for ev in st.events():
        if id(ev) in seen and ev.kind == 'loop':
            continue
        if ev.kind == 'loop' and into_loops:
            seen.add(id(ev))
            if not ev.a:
                continue
            rec = ev.a[0]
            if id(rec) in seen:
                continue
            seen.add(id(rec))
            for key, h, b in rec.back:
                base = h.tr
                sub = []
                t = b.tr
                while t is not None and t is not base:
                    sub.append(t[1])
                    t = t[0]
                sub.reverse()
                for e in sub:
                    if e.kind == 'loop':
                        tmp = State.__new__(State)
                        tmp.tr = (None, e)
                        yield from walk(tmp, True, seen)
                    else:
                        yield e
            for key, x, f in rec.exits:
                pass
            continue
        yield ev


def vague_term(v):
    """Why a term is not understood, or None."""
    for x in subterms(v):
        if isinstance(x, Sym) and x.name.startswith(('ret:', 'unsup', 'undef:', 'kwarg:')):
            return 'result of %s' % x.name
        if isinstance(x, App) and x.op in ('mut', 'getattr'):
            return 'opaque %s' % x.op
    return None


def vague_state(st):
    return '; '.join(sorted(st.imp)) if st.imp else None


def vague_facts(st):
    """The path depends on the result of something that is not understood."""
    for f in st.truth:
        x = vague_term(f)
        if x:
            return 'branch on ' + x
    for _, ts in st.lins:
        for t in ts:
            x = vague_term(t)
            if x:
                return 'branch on ' + x
    return None


# ---------------------------------------------------------------- integer facts
def model(ineqs, atoms, lo=0, hi=5, limit=200000):
    """A small integer assignment satisfying every `const + sum >= 0` over
    exactly `atoms` (inequalities that mention other atoms make it give up)."""
    import itertools
    atoms = sorted(atoms, key=repr)
    rows = []
    for const, terms in ineqs:
        if not set(terms) <= set(atoms):
            return None
        rows.append((const, [terms.get(a, 0) for a in atoms]))
    if (hi - lo + 1) ** len(atoms) > limit:
        return None
    for vals in itertools.product(range(lo, hi + 1), repeat=len(atoms)):
        if all(c + sum(k * v for k, v in zip(ks, vals)) >= 0 for c, ks in rows):
            return dict(zip(atoms, vals))
    return None


def ge(a, b):
    """row for a >= b"""
    return lin_parts(lin_sub(a, b))


def truth_of(st, t):
    return st.truth.get(t)


def strip_str(v):
    while isinstance(v, App) and v.op == 'str' and len(v.args) == 1:
        v = v.args[0]
    if isinstance(v, Const) and isinstance(v.v, str) and v.v.isdigit():
        return Const(int(v.v))
    return v


def pieces(v):
    """flat list of constants (as characters) and terms of a string term"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return list(v.v)
    if isinstance(v, App) and v.op == 'concat':
        out = []
        for a in v.args:
            out += pieces(a)
        return out
    return [v]
