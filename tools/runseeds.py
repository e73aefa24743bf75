"""runs the check of each planted bug's property on a scratch copy with the bug applied: runseeds.py [id ...]"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw/chk'
if not os.path.exists(W):
    os.makedirs('/tmp/seedw', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo'])
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
for id in ids:
    d = ROOT + '/seeded/' + id
    prop = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists('%s/sa/checks/%s.py' % (ROOT, prop.lower())):
        print(id, prop, 'no check', flush=True)
        continue
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '-f', head])
    subprocess.check_call(['git', '-C', W, 'apply', d + '/patch.diff'])
    t = time.time()
    r = subprocess.run(['python3', 'sa/run.py', prop], cwd=ROOT, env=dict(os.environ, SA_REPO=W, SA_TARGET='/verif/build/target_mut'), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if 'violated:' in l or 'undetermined:' in l]
    print(id, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), '%.0fs' % (time.time() - t), (v or [''])[0].strip()[:220], r.stderr[-300:] if r.returncode > 1 else '', flush=True)
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '-f', head])
