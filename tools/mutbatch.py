"""mutbatch.py CHECKS FILE < lines 'OLD => NEW [@NTH]' (development aid)."""
import subprocess
import sys
import os
HERE = os.path.dirname(os.path.abspath(__file__))
checks, name = sys.argv[1:3]
for line in sys.stdin:
    line = line.rstrip('\n')
    if not line.strip():
        continue
    nth = '1'
    if ' @' in line:
        line, nth = line.rsplit(' @', 1)
    old, new = line.split(' => ')
    old, new = (x.replace('\\n', '\n') for x in (old, new))
    r = subprocess.run([sys.executable, HERE + '/mut.py', checks, name, old,
                        new, nth], stdout=subprocess.PIPE, text=True,
                       env=dict(os.environ, N=os.environ.get('N', '2')))
    print('==', line[:90])
    for l in r.stdout.split('\n'):
        if l.strip():
            print(l[:200])
    sys.stdout.flush()
