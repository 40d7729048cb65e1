"""for each seeded patch: how many of the lines it removes are the original repository's"""
import subprocess, sys, os, re
BASE = '5ffe2a1'
for b in sorted(sys.argv[1:] or os.listdir('/verif/seeded')):
    p = open('/verif/seeded/%s/patch.diff' % b).read()
    orig = own = 0
    f = None
    for l in p.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l[:1] in ' -' and not l.startswith('---'):
            if l[:1] == '-':
                if bl[n - 1].startswith('^' + BASE) or subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', bl[n - 1].split()[0].lstrip('^'), BASE]).returncode == 0:
                    orig += 1
                else:
                    own += 1
            n += 1
    print(b, 'original', orig, 'own', own)
