#!/usr/bin/env python3
"""Apply behaviour-preserving refactorings in scratch copies of /repo and run
the checks of the named properties on each: they have to stay quiet.

usage: [ONLY=ids] refactor.py SPEC.py...
A spec calls refactor(id, [(file, old, new)...], [properties]).
"""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = []
def refactor(id, edits, props):
    SPECS.append((id, edits, props))
def run(spec):
    id, edits, props = spec
    work = tempfile.mkdtemp(prefix='refac_')
    out = []
    try:
        repo = os.path.join(work, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, [f'SPEC ERROR {f}: {s.count(old)} matches of {old[:50]!r}']
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', '-c', 'import pdr, pdr.browsify, pdr._scaling'],
                           cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return id, ['DOES NOT IMPORT ' + r.stderr[-300:]]
        if not os.environ.get('NOTEST'):
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'pdr/tests', '-p', 'no:cacheprovider'],
                               cwd=repo, capture_output=True, text=True)
            out.append('tests: ' + (r.stdout.strip().splitlines() or ['?'])[-1])
        for p in props:
            ev = os.path.join(work, p + '.json')
            r = subprocess.run(['python3', os.path.join(V, 'check.py'), p],
                               env=dict(os.environ, PYVC_REPO=repo, PYVC_OUT=work, VERIF_SEED='1', VERIF_TIER='quick'),
                               capture_output=True, text=True)
            bad = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            und = [l for l in r.stdout.splitlines() if 'undecided' in l.lower()]
            out.append(f'{p} rc={r.returncode} {"QUIET" if r.returncode == 0 and not bad else "ALARM"} '
                       + ' | '.join(bad[:4]) + (f'  [{und[0][:200]}]' if und else ''))
    finally:
        (os.environ.get("KEEP") or shutil.rmtree(work, ignore_errors=True))
    return id, out
if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, 'exec'))
    only = os.environ.get('ONLY', '').split()
    specs = [s for s in SPECS if not only or s[0] in only]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for fut in cf.as_completed([ex.submit(run, s) for s in specs]):
            id, out = fut.result()
            print('==', id); [print('    ', l) for l in out]; sys.stdout.flush()
