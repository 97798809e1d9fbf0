"""Development only: run a check's search against another tree. experiment.py TREE PROP [count] [seed]"""
import os, sys, subprocess
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plan
tree, prop = sys.argv[1], sys.argv[2]
build.REPO = tree
try: exe = build.build(plan.PROPERTIES[prop]['flavour'])
except build.BuildError as e: sys.exit('\n'.join(l[:300] for l in str(e).splitlines() if 'error' in l)[:1500])
count = sys.argv[3] if len(sys.argv) > 3 else str(plan.PROPERTIES[prop]['quick'][0])
seed = sys.argv[4] if len(sys.argv) > 4 else '1'
env = dict(os.environ, LOCPATH=build.locales())
ps = [subprocess.Popen([exe, 'run', '--prop', prop, '--seed', seed, '--from', str(w), '--to', count, '--stride', '8', '--max-fail', '2', '--cap', '120'], stdout=subprocess.PIPE, env=env) for w in range(8)]
import json
runs = 0; fails = []
for p in ps:
    for l in p.communicate()[0].decode('utf-8', 'replace').splitlines():
        j = json.loads(l)
        if j.get('summary'): runs += j['runs']
        elif j.get('status') == 'fail': fails.append(j)
fails.sort(key=lambda f: f['index'])
print('%s %s: %d fails in %d runs' % (tree, prop, len(fails), runs))
for f in fails[:3]: print('  #%d %s: %s' % (f['index'], f['cls'], f['msg'][:400]))
