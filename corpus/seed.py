"""Build /verif/seeded from corpus/seeds.py and confirm each planted bug.

usage: seed.py cand PID      which corpus bugs change original lines only and pass the tests
       seed.py make [ID...]  write seeded/<ID>, check patch, tests and demo
"""
import concurrent.futures
import difflib
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def load(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, 'corpus', name + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


_blame = {}


def original(f):
    """set of 1-based lines of ombott/f that the original commit wrote"""
    if f not in _blame:
        root = subprocess.run(['git', '-C', '/repo', 'rev-list', '--grep', '^fix:', '--invert-grep', 'HEAD'], capture_output=True, text=True).stdout.split()
        out = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', 'ombott/' + f], capture_output=True, text=True).stdout
        s = set()
        for n, ln in enumerate(out.splitlines(), 1):
            h = ln.split()[0].lstrip('^')
            if any(r.startswith(h) for r in root):
                s.add(n)
        _blame[f] = s
    return _blame[f]


def apply(edits):
    """{file: (old text, new text)} or an error"""
    res = {}
    for f, old, new in edits:
        a, b = res.get(f) or (open('/repo/ombott/' + f, encoding='utf8').read(),) * 2
        if b.count(old) < 1:
            return 'EDIT-FAILED %s %r' % (f, old[:50])
        res[f] = (a, b.replace(old, new, 1))
    return res


def blame_ok(res):
    bad = []
    for f, (a, b) in res.items():
        o = original(f)
        al, bl = a.splitlines(), b.splitlines()
        n = 0
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, al, bl, False).get_opcodes():
            if tag == 'equal':
                continue
            n += sum(1 for i in range(i1, i2) if i + 1 in o)
            bad += [(f, i + 1) for i in range(i1, i2) if i + 1 not in o and al[i].strip()]
    return bad


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('__pycache__'))
    return d


def tests(d):
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = subprocess.run([PY, '-m', 'pytest', '-q', '--no-header', '-p', 'no:cacheprovider'], cwd=d + '/r', capture_output=True, text=True, timeout=300)
    return r.returncode == 0, r.stdout[-300:]


def cand_one(n, edits):
    res = apply(edits)
    if isinstance(res, str):
        return n, res
    bad = blame_ok(res)
    if bad:
        return n, 'touches fix lines %s' % bad[:3]
    d = copy()
    try:
        for f, (a, b) in res.items():
            open(d + '/r/ombott/' + f, 'w', encoding='utf8').write(b)
        ok, t = tests(d)
        return n, 'CAND' if ok else 'tests fail'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_demo(src, repo):
    r = subprocess.run(['bash', src + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def make(i, s):
    out = VERIF + '/seeded/' + i
    res = apply(s['edits'])
    if isinstance(res, str):
        return i, res
    bad = blame_ok(res)
    if bad:
        return i, 'touches fix lines %s' % bad[:3]
    os.makedirs(out, exist_ok=True)
    d = copy()
    try:
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# cwd: the repository. Exit 0 when the property holds on this input.\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(out + '/demo.py', 'w') as f:
            f.write(PRE + s['demo'].strip('\n') + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        for f, (a, b) in res.items():
            open(d + '/r/ombott/' + f, 'w', encoding='utf8').write(b)
        p = subprocess.run(['git', '-C', d + '/r', 'diff', '--', 'ombott'], capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(p)
        ok, t = tests(d)
        c1, t1 = run_demo(out, d + '/r')
        c0, t0 = run_demo(out, '/repo')
        e = dict(os.environ, VERIF_REPO=d + '/r', SA_EVIDENCE=d)
        k = subprocess.run([VERIF + '/check', s['property']], capture_output=True, text=True, env=e).returncode if os.path.exists(VERIF + '/sa/checks/%s.py' % s['property'].lower()) else '-'
        good = ok and c0 == 0 and c1 != 0
        return i, '%s tests=%s demo unpatched=%s patched=%s caught=%s %s' % ('ok  ' if good else 'BAD ', ok, c0, c1, k, '' if good else (t if not ok else '') + t0 + ' | ' + t1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PRE = '''import sys, os, io
sys.path.insert(0, os.getcwd())


def env(path='/', method='GET', body=b'', **kw):
    e = {'REQUEST_METHOD': method, 'PATH_INFO': path, 'SCRIPT_NAME': '', 'QUERY_STRING': '', 'SERVER_NAME': 'h', 'SERVER_PORT': '80',
         'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(body), 'wsgi.errors': io.StringIO()}
    if body:
        e['CONTENT_LENGTH'] = str(len(body))
    e.update(kw)
    return e


def call(app, e):
    got = []

    def start_response(status, headers, exc_info=None):
        got.append((status, headers))
    out = app(e, start_response)
    data = b''.join(out)
    if hasattr(out, 'close'):
        out.close()
    return got[-1][0], got[-1][1], data


'''

if __name__ == '__main__':
    mode, args = sys.argv[1], sys.argv[2:]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        if mode == 'cand':
            m = load(args[0])
            for n, t in ex.map(lambda x: cand_one(*x), [(n, e) for n, e in m.BUGS.items() if len(args) < 2 or n in args[1:]]):
                print('%-24s %s' % (n, t))
        else:
            m = load('seeds')
            for n, t in ex.map(lambda x: make(*x), [(n, e) for n, e in m.SEEDS.items() if not args or n in args]):
                print('%-24s %s' % (n, t))
