"""mk.py DEFS.py [id..]: makes and confirms the planted bugs of a definition file."""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
def sh(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})), timeout=timeout)
for d in ns['SEEDS']:
    if only and d['id'] not in only: continue
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    shutil.rmtree(w); shutil.copytree('/repo', w, symlinks=True)
    try:
        for f, old, new in d['edits']:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(old) != d.get('count', 1): print(d['id'], 'OLD TEXT COUNT', s.count(old), repr(old[:60])); break
            open(p, 'w').write(s.replace(old, new))
        else:
            diff = sh('git diff', w).stdout
            o = os.path.join(OUT, d['id']); os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(diff)
            shutil.copy(HERE + '/common.py', o + '/common.py')
            open(o + '/demo.py', 'w').write('from common import *\n' + d['demo'].strip('\n') + '\nprint("ok")\n')
            open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run in /repo; 0: the property holds on the demonstrated input\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(o + '/demo.sh', 0o755)
            json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
            a = sh(f'bash {o}/demo.sh', '/repo'); b = sh(f'bash {o}/demo.sh', w)
            t = sh('PYTHONPATH=src /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3', w)
            ok = a.returncode == 0 and b.returncode != 0 and 'failed' not in t.stdout and '24 passed' in t.stdout
            print(d['id'], 'OK' if ok else 'BAD', '| unchanged', a.returncode, '| patched', b.returncode, (b.stdout + b.stderr).strip().split('\n')[-1][:150], '|', t.stdout.strip().split('\n')[-1] if not ok else '', (a.stdout + a.stderr)[-300:] if a.returncode else '')
    finally: shutil.rmtree(w, ignore_errors=True)
