"""Plant seeded bugs: python3 tools/plant.py SPEC.py [id...]

SPEC defines BUGS = {id: dict(property=, edits=[(file, old, new)], demo=, needs=, breaks=)}.
For each: a scratch copy of /repo is edited, the demonstration must pass on /repo and fail on the
copy, the test suite must pass on the copy, and the property's check is run on the copy.
"""
import json, os, runpy, shutil, subprocess, sys, time
from pathlib import Path

V = Path('/verif')
spec = runpy.run_path(sys.argv[1])['BUGS']
ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(spec)
notest = '-n' in sys.argv
nocheck = '-c' in sys.argv


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def run(bid):
    b = spec[bid]
    w = Path('/tmp/sb_' + bid)
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w}')
    out = V / 'seeded' / bid
    try:
        for f, old, new in b['edits']:
            p = w / f
            t = p.read_text()
            if t.count(old) != 1:
                return f'{bid}: edit does not match exactly once ({t.count(old)}) in {f}: {old[:60]!r}'
            p.write_text(t.replace(old, new))
        d = sh(f'git -C {w} diff').stdout
        out.mkdir(parents=True, exist_ok=True)
        (out / 'patch.diff').write_text(d)
        (out / 'demo.py').write_text(b['demo'])
        (out / 'demo.sh').write_text('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out / 'demo.sh', 0o755)
        (out / 'meta.json').write_text(json.dumps(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
        a = sh(f'bash {out}/demo.sh', cwd='/repo')
        if a.returncode:
            return f'{bid}: DEMO FAILS ON BASE\n' + (a.stdout + a.stderr)[-1500:]
        a = sh(f'bash {out}/demo.sh', cwd=w)
        if not a.returncode:
            return f'{bid}: DEMO PASSES ON THE PATCHED TREE\n'
        msg = f'{bid}: demo ok ({(a.stdout + a.stderr).strip().splitlines()[-1][:100]}); '
        if not nocheck:
            t0 = time.time()
            e = sh(f'VS_REPO={w} {V}/check {b["property"]} quick', cwd=V)
            viol = [l for l in e.stdout.splitlines() if l.startswith('VIOLATION')]
            msg += f'check {b["property"]} rc={e.returncode} {"CAUGHT" if e.returncode == 1 and viol else "MISSED"} {time.time() - t0:.0f}s; '
            if e.returncode not in (0, 1):
                msg += (e.stdout + e.stderr)[-600:]
        if not notest:
            t = Path('/opt/vp/test.sh').read_text().replace('/repo', str(w)).replace('PYTHONPATH=/opt/vp', f'PYTHONPATH={w}:/opt/vp')
            (w / '.t.sh').write_text(t)
            sh(f'bash {w}/.t.sh /tmp/t_{bid}.json')
            r = json.load(open(f'/tmp/t_{bid}.json'))
            fails = r['failed']
            msg += 'tests PASS' if not fails else f'TESTS FAIL {len(fails)}: {fails[:3]}'
        return msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


for i in ids:
    print(run(i), flush=True)
