"""for each seeded change: are the lines it removes (or the context it inserts into) lines of the original repository?"""
import glob, os, subprocess, sys
base = '8057154'
for p in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/seeded/*/patch.diff')):
    f = None; out = []
    for l in open(p):
        if l.startswith('+++ b/'):
            f = l[6:].strip(); orig = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{f}'], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---'):
            out.append(l[1:].rstrip('\n') in orig)
    print(p.split('/')[-2], 'original' if out and all(out) else f'NOT {out}')
