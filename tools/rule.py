"""run a property on a scratch copy with a text change: rule.py PROP FILE OLD NEW"""
import sys, shutil, os, subprocess
p, f, a, b = sys.argv[1:5]
out = '/tmp/ipmrule%d' % os.getpid()
shutil.copytree('/repo', out, ignore=shutil.ignore_patterns('.git', '*.pickle', 'referenceOutput'))
q = out + '/impurityModel/' + f
s = open(q).read()
assert a in s, "no such text"
open(q, 'w').write(s.replace(a, b, 1))
r = subprocess.run([sys.executable, '-m', 'ipm', *p.split(','), '--no-evidence', '-v' if len(sys.argv) > 5 else '--no-evidence'], cwd='/verif', env=dict(os.environ, IPM_REPO=out), capture_output=True, text=True)
print(r.stdout[-3000:], r.stderr[-1500:])
shutil.rmtree(out)
