"""mut.py CHECK[,CHECK] FILE OLD NEW [COUNT]: runs checks against a scratch
copy of the package with one text replaced (development aid)."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(checks, name, old, new, nth='1'):
    d = tempfile.mkdtemp(prefix='wvmut')
    try:
        for sub in ('wagyu', 'src', 'include'):
            shutil.copytree('/repo/' + sub, d + '/' + sub)
        path = os.path.join(d, 'wagyu', name)
        text = open(path).read()
        parts = text.split(old)
        nth = int(nth)
        if len(parts) <= nth:
            print('PATTERN NOT FOUND', name, repr(old))
            return 3
        text = old.join(parts[:nth]) + new + old.join(parts[nth:])
        open(path, 'w').write(text)
        compile(text, path, 'exec')
        for c in checks.split(','):
            r = subprocess.run([sys.executable, HERE + '/check.py', c,
                                '--root', d], stdout=subprocess.PIPE,
                               text=True, env=dict(os.environ))
            lines = r.stdout.strip().split('\n')
            print('%s rc=%d' % (c, r.returncode))
            for line in lines[:int(os.environ.get('N', '4'))]:
                print('   ', line[:400])
        return 0
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:]))
