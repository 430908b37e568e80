#!/usr/bin/env python3
"""mkquiet.py NAME < spec.py ; spec sets edits=[(file, old, new), ...]"""
import sys, subprocess, os, shutil
name = sys.argv[1]
ns = {}
exec(sys.stdin.read(), ns)
d = '/tmp/mkq.' + name
shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', d])
for f, old, new in ns['edits']:
    p = os.path.join(d, f)
    s = open(p).read() if os.path.exists(p) else ''
    if old is None:
        s = new
    else:
        assert s.count(old) >= 1, (f, old)
        s = s.replace(old, new) if ns.get('all') else s.replace(old, new, 1)
    open(p, 'w').write(s)
subprocess.call(['gofmt', '-l', '-w'] + [os.path.join(d, f) for f, _, _ in ns['edits']])
subprocess.check_call(['git', '-C', d, 'add', '-A'])
diff = subprocess.check_output(['git', '-C', d, 'diff', '--cached'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'quiet', name + '.diff')
open(out, 'wb').write(diff)
shutil.rmtree(d)
print(len(diff), 'bytes')
