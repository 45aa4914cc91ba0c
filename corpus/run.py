"""Development aid: run checks against small textual edits of /repo.

corpus/<ID>.py holds BUGS and REFS: name -> [(file, old, new), ...].
usage: run.py [--all-checks] [--tests] ID [name ...]
No check reads this directory.
"""
import concurrent.futures, importlib.util, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(pid):
    spec = importlib.util.spec_from_file_location('corpus_' + pid, os.path.join(HERE, pid + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def one(pid, name, kind, edits, checks, tests):
    d = tempfile.mkdtemp(prefix='corp')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__'))
        for f, old, new in edits:
            p = d + '/r/ombott/' + f
            s = open(p, encoding='utf8').read()
            if s.count(old) < 1:
                return name, kind, 'EDIT-FAILED %s: %r' % (f, old[:60]), ''
            s = s.replace(old, new, 1)
            p.endswith('.py') and compile(s, p, 'exec')
            open(p, 'w', encoding='utf8').write(s)
        out = []
        text = ''
        if tests:
            r = subprocess.run(['python3', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider'], cwd=d + '/r', capture_output=True, text=True, timeout=300)
            out.append('tests=%s' % ('ok' if r.returncode == 0 else 'FAIL'))
            if r.returncode:
                text += r.stdout[-1500:]
        for ck in checks:
            ev = d + '/ev'
            os.makedirs(ev, exist_ok=True)
            env = dict(os.environ, VERIF_REPO=d + '/r', SA_VERBOSE='1', SA_FAST='1', SA_PROCS='1', SA_EVIDENCE=ev)
            r = subprocess.run([VERIF + '/check', ck], capture_output=True, text=True, env=env, timeout=1200)
            out.append('%s=%d' % (ck, r.returncode))
            text += r.stdout[-12000:] + r.stderr[-1000:]
        return name, kind, ' '.join(out), text
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    av = sys.argv[1:]
    allc = '--all-checks' in av
    tests = '--tests' in av
    quiet = '-q' in av
    av = [a for a in av if not a.startswith('-')]
    pid = av[0]
    m = load(pid)
    checks = [f[:-3].upper() for f in sorted(os.listdir(VERIF + '/sa/checks')) if f[0] == 'c' and f.endswith('.py')] if allc else [pid]
    jobs = []
    for kind, d in (('bug', getattr(m, 'BUGS', {})), ('ref', getattr(m, 'REFS', {}))):
        for n, e in d.items():
            if len(av) > 1 and n not in av[1:]:
                continue
            jobs.append((pid, n, kind, e, checks, tests))
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for n, kind, out, text in ex.map(lambda j: one(*j), jobs):
            hit = '=1' in out
            good = hit if kind == 'bug' else not hit
            if 'FAIL' in out or '=2' in out:
                good = False
            print('%-4s %-4s %-34s %s' % ('' if good else '!!!!', kind, n, out))
            if (not good and not quiet) or len(av) > 1:
                print(text)


main()
