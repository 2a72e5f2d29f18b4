#!/usr/bin/env python3
"""trybugs.py [ids...]: run the property check of every planted bug on a patched copy of /repo."""
import os, sys, json, subprocess, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for i in ids:
    d = os.path.join(ROOT, 'seeded', i); m = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='bug'); r = t + '/repo'
    subprocess.run('git clone -q /repo %s && git -C %s apply %s/patch.diff' % (r, r, d), shell=True, check=True)
    t0 = time.time()
    for p in m['property'].split(','):
        e = subprocess.run(['python3-vt', ROOT + '/run.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_EVID=t + '/ev', VERIF_SEED='1'))
        v = [l for l in e.stdout.splitlines() if l.startswith('VIOLATION')]
        o = [l.strip() for l in e.stdout.splitlines() if l.startswith(('  observed', 'failed'))]
        print('%-22s %s rc=%d %3.0fs %s | %s' % (i, p, e.returncode, time.time() - t0, 'CAUGHT' if v and e.returncode == 1 else 'MISSED', (v[0][-40:] if v else '') + ' ' + (o[-1][:150] if o else e.stderr[-200:])), flush=True)
    shutil.rmtree(t)
